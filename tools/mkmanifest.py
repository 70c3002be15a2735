#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LANG = ('TLA+ abstract machine of the language (DuckSem.tla), generated sessions run in the real compiler and VM, every '
        'recorded run checked by TLC against the machine')
LNOTE = ('Bounded exploration: every generated session is decided completely by TLC against the specification; sessions are '
         'sampled from a seeded generator, so absence of violations is evidence, not proof. Trusts the harness driver '
         '(canonical printing), TLC and gcc. ')
LIB = ('TLA+ specification of the structure (DuckArray/DuckTrie/DuckSort/DuckMem.tla); operation sequences enumerated by TLC and '
       'random ones run in the real code, every recorded step checked by TLC')
LIBNOTE = ('Short sequences are exhaustive over a small alphabet, longer ones sampled. Trusts the harness driver, TLC and gcc. ')
CHECKS = {
    'C01': (LANG, LNOTE + 'Runs with and without collections before every host call.'),
    'C02': (LANG, LNOTE + 'Sessions made of shared counters, closures in loops, nested and recursive closures, globals holding closures.'),
    'C03': (LANG, LNOTE + 'Same program under AddressSanitizer with four heap sizes, with collections forced before every host call; a run may only end early by reporting exhaustion.'),
    'C04': ('TLA+ machine of the host interface and of reachability (DuckApi.tla): histories of host operations with collections and destructor counts, every recorded step checked by TLC; and DuckSem programs that allocate for ever with bounded live data in heaps of 60 objects',
            'Histories of up to 60 operations in tiny heaps, destructors counted after every operation; programs with thousands of allocations must never report exhaustion while what they can reach fits. Host objects handed to a call or overwritten inside a captured variable are only required to be destroyed at most once. '),
    'C05': (LANG, LNOTE + 'Four build configurations must all show what the machine shows; padded programs cross the 8/16-bit operand and jump encodings.'),
    'C06': (LANG, LNOTE + 'Sessions made of fixed and variadic calls, funcall, apply, recursion, host calls and wrong argument counts.'),
    'C07': (LANG, LNOTE + 'Sessions made of aliasing lists, vectors and strings with mutation.'),
    'C08': ('TLA+ specification of exact integer and IEEE binary64 arithmetic over big naturals (DuckNum.tla); its laws model-checked on all pairs of boundary numbers; those pairs and random ones computed by real programs, every result checked by TLC',
            'Every operator on every pair, the operands as call results, locals, captured and global variables, rest arguments, literals, and variables over 255 and over 65535 places down the stack, in three builds. Integer results that do not fit are left open. Float literals as operands only where the reader is exact. '),
    'C09': (LANG, LNOTE + 'Sessions made of user types, composites, their accessors and applicable composites.'),
    'C10': (LANG, LNOTE + 'The machine runs compile time and run time as two machines that share only the symbol table. Programs have parts of them replaced by calls of macros that expand to them (templates, library functions, compile-time constants and state, generated symbols, captured names, redefined keywords, failing macros); also in small compile-time heaps. Expansions whose meaning depends on a branch the compiler does not compile are left open. '),
    'C11': ('TLA+ transition system of the reader over the bytes of the text (DuckRead.tla); its laws model-checked on all short texts its writer model writes; those texts, all short byte strings and random ones read by the real reader, every reading checked by TLC',
            'All texts of up to 3 (thorough: 4) characters over 15; texts written token by token with all layouts; random tokens, numbers, strings, bytes, mutated programs; each read alone, with other bytes behind it in memory, and as quoted data in a program. Texts without a single meaning in the notation (1.5abc, numbers out of range or with more digits than are exactly representable) are only required to be read the same way twice. '),
    'C12': (LANG, LNOTE + 'Sessions where compile errors, run-time errors and host errors are followed by a soft reset and more code, also under AddressSanitizer.'),
    'C13': (LANG, LNOTE + 'Sessions of many chunks sharing globals, functions and symbols, with the bytecode of earlier chunks freed and overwritten.'),
    'C14': ('TLA+ machine of the host interface (DuckApi.tla): all histories up to a depth enumerated by TLC and random longer ones run through the real API, every recorded step (result, stack, contents) checked by TLC',
            'All histories of 4 operations over a stack of up to 3 values, random ones of up to 60 over all value types, positive and negative indices, in four builds including AddressSanitizer; the whole stack is observed after each operation. '),
    'C15': (LANG, LNOTE + 'Sessions where host functions call back into the VM, nested, with errors and collections inside, also under AddressSanitizer with a small heap.'),
    'C16': (LIB, LIBNOTE + 'Arenas of 200 to 6000 bytes, four fit strategies, all request sequences of length 4 over three sizes, random ones of up to 80 requests; placement of every block and of the allocator table is observed; run plain and under AddressSanitizer.'),
    'C17': (LIB, LIBNOTE + 'All operation sequences of length 3 (thorough: 4), random ones of up to 60, nine element sizes, both growth strategies, allocation failures injected, arenas that run out.'),
    'C18': (LIB, LIBNOTE + 'All insertion sequences of length 3 over six nested keys with the n-th allocation failing, random key universes; every key is looked up after every insertion; also in arenas that run out.'),
    'C19': (LIB, LIBNOTE + 'All arrays over three keys up to length 5 (thorough: 7) and random ones up to 60 elements, six element sizes, four weak orders, subranges.'),
    'C20': ('TLA+ specification of inference as a function on trees (DuckInfer.tla), its laws model-checked on every short text over names of every type; '
            'those texts, random ones, and ordinary programs and macros with declared names and parentheses taken out are compiled and run, every recorded run checked by TLC against inference followed by the language machine',
            'All texts of up to 3 (thorough: 5) tokens over two alphabets (calls of seven declared names; the binding forms), sampled longer ones, each shown as the tree it is inferred to; programs over the whole language with random erasures, marks, declarations and single-token mutations; declaration scripts of sequences, scopes, variables and declarations (scripts that compute otherwise are left open). '),
    'C21': (LANG, LNOTE + 'A table of every operator against 30-odd operands of every type, ill-typed sessions, and mutated or random source texts (outside the specification, which then only demands that the system ends them, stays intact and runs the program that follows correctly), under AddressSanitizer, with and without inference and the standard library.'),
}
NOT = {}
HOOKS = {'guard': 'DUCK_VERIFY (preprocessor define)', 'enable': "the 'stress' builds of tools/duck/build.py pass -DDUCK_VERIFY",
         'source_commits': ['abde287']}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CHECKS:
            t, n = CHECKS[i][:2]
            checks.append({'property': i, 'quick_cmd': 'python3 run_check.py %s --tier quick' % i,
                           'thorough_cmd': 'python3 run_check.py %s --tier thorough' % i,
                           'technique': t, 'level': 'model_checking', 'level_note': n})
        else:
            na.append({'property': i, 'reason': NOT.get(i, 'No check yet: the specification for it is still being written.')})
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
         'hooks': HOOKS,
         'notes': 'Every check builds all sources of /repo itself and drives the public API; only the builds that collect at every '
                  'allocation define DUCK_VERIFY.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
