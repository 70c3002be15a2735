#!/usr/bin/env python3
"""Rewrite known_findings.txt from the table below (run by hand after a fix commit; no check calls this)."""
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# (properties, start of the commit subject, what failed)
FIXED = [
    ('C07', 'concatenate ignored the offset', '(concatenate (cdr "abc") "d") read past the end of the string'),
    ('C07', 'indexing an empty vector', '(get-vector-element (vector) 0) dereferenced null; (set-vector-element v -1 x) wrote below the vector'),
    ('C08', 'integer division by zero', '(/ 1 0) killed the process with SIGFPE'),
    ('C07', 'concatenate of an empty string', '(concatenate "" "") dereferenced null or failed'),
    ('C03', 'the collector could free the bytecode', 'a closure no longer reachable except by running lost its bytecode and upvalues'),
    ('C11', 'the reader read past the end', 'sources ending inside a token were read past their last byte'),
    ('C06', 'apply dropped surplus arguments', '(apply (lambda (a) a) (list 1 2)) succeeded'),
    ('C21', 'var, global, label and goto compiled with', '(var 1 2) compiled with a garbage name'),
    ('C01', 'an assignment to a global was dropped', '(setq g v) was lost when the key of g equalled the stack slot of v'),
    ('C12', 'clearing the stack lost variables', 'a global closure saw garbage after softReset/popAll removed the variables it captured'),
    ('C10 C13', 'macros and comptime variables misbehaved', 'macros defined in one chunk were wrong in every later chunk'),
    ('C03', 'the collector could free the elements of a vector', '(vector (cons 1 2) ...) under memory pressure'),
    ('C03', 'the collector freed reachable objects when it ran out', 'marking ran out of host memory and went on to sweep'),
    ('C03 C16', 'an object whose allocation failed', 'double free of a string or vector when the object pool was exhausted'),
    ('C06', 'apply refused host functions', '(apply host-fn (list 1))'),
    ('C03 C05', 'a vector literal used the wrong elements', '(vector a b) with more than 255 locals; a string literal ignored exhaustion'),
    ('C13 C05', 'reading an empty string or a nameless symbol', 'duckVM_copyString of an empty substring failed without the standard library'),
    ('C05 C02', 'capturing variables beyond stack depth 255', 'release-upvalues with 16-bit operands was decoded wrongly'),
    ('C05 C06', 'operands too wide', 'substring/set-vector-element/setq of a captured variable above stack slot 255; 256 or more arguments'),
    ('C01 C05', '= compared the wrong variables', '= with an operand more than 255 slots deep'),
    ('C17 C18', 'a failed dl_realloc lost', 'an array or trie lost its contents when realloc() failed'),
    ('C19', 'heapsort never returned', 'heapsort of an empty array'),
    ('C18', 'dl_trie_quit stopped', 'dl_trie_quit leaked and reported an error with USE_DUCKLIB_MALLOC'),
    ('C18', 'dl_trie_insert lost or hid', 'insertion with the n-th allocation failing: key reported as inserted but not found, or other keys lost'),
    ('C16', 'the allocator read outside', 'dl_free/dl_realloc of the last block read blockList[-1]'),
    ('C16 C18', 'dl_memory_usage counted', 'unused descriptors counted as allocated'),
    ('C16', 'next fit searched from', 'next fit: overlapping blocks or spurious exhaustion after the block list moved'),
    ('C16 C17', 'the allocator handed out its own', 'after a failed extension of the block list the next allocation overlapped it'),
    ('C16 C17', 'a failed dl_realloc corrupted', 'a failed resize left the block free or moved; a successful one copied from past its end'),
    ('C16', 'dl_realloc could leave adjacent', 'space freed around a resized block was never joined'),
    ('C21 C07', 'set-car on an empty vector', '(set-car (vector) 1) wrote through null'),
    ('C07', 'set-cdr of a vector truncates', '(set-cdr v ()) kept one element too many or too few'),
    ('C21 C07', 'make-string of an empty vector', '(make-string (vector)) failed or read null'),
    ('C21', 'make-string reports elements', '(make-string (list 1 "a")) used the string as an integer'),
    ('C21 C07', 'a vector truncated before a view', 'a view starting past the new end had a negative length and read out of bounds'),
    ('C07', 'not and the API', '(not (cdr (vector 1))) disagreed with null?'),
    ('C21', 'a failed comptime does not read', '(comptime (car 1)) dereferenced null'),
    ('C21 C20', 'parenthesis inference of a literal expression', '#(1 2) with inference was read as an identifier: crash'),
    ('C11 C21', 'a float that ends in a decimal point', '(- 2. at the end of the source was parsed for ever; -1. lost its sign'),
    ('C11', 'a boolean is a whole token', 'true-count was read as true -count; true at the end of the source was an identifier'),
    ('C11', 'a string that ends right at', 'the whole source "a" was refused'),
    ('C11', 'whitespace or comments may be all', '( ) was refused'),
    ('C11 C08', 'integer literals wider', '4294967297 meant 1'),
    ('C11', 'decimal literals of up to 15', '0.875 was off by one unit; 20 decimals overflowed; 1e999999999999 compiled for ever'),
    ('C21 C10', 'a macro that returns an improper list', 'heap overflow in the expansion (cons (quote list) 1)'),
    ('C07', 'make-string of an empty list', '(make-string ()) failed with USE_DUCKLIB_MALLOC'),
    ('C11', 'an empty literal expression', '#() was read as a nameless identifier; so was the unterminated #(1 2'),
    ('C08', 'the sum or difference of two booleans', '(= (+ true true) true) was false: the sum was a third boolean'),
    ('C06 C13', 'calling a C function whose global was redefined', 'a host call of a name redefined as a value ran the old function or failed wrongly'),
    ('C14', 'setting a global from the stack', 'duckVM_setGlobal stored something else than the top of the stack'),
    ('C14', 'the first element or the rest of what has none', 'pushFirst/pushRest of an empty or wrong value pushed an uninitialised object'),
    ('C21 C14', 'symbol-string of a symbol without a name', '(symbol-string s) of a symbol the host pushed without its name dereferenced null'),
    ('C20 C21', 'a nested argument type is an error', 'a call of a function declared with a nested type, (declare f ((I))), was inferred for ever'),
    ('C20 C21', 'a bad type inside a nested type', '(declare f ((I I) x)) freed the first inner type twice'),
    ('C14', 'an element of a string is taken', 'pushElement of a substring ignored its offset and read past its end'),
    ('C14', 'there is no captured variable beyond', 'index equal to the number of captured variables was accepted'),
    ('C14', 'the rest of a vector or string with one', 'pushRest of (vector 1) was an error or a view past the end'),
    ('C14', 'an element of a list is the element', 'pushElement/setElement on lists gave the cell or dereferenced null at the end'),
    ('C14 C09', 'the function of a composite can be set', 'setCompositeFunction with a negative index'),
    ('C14', 'the elements of a vector made by the host', 'pushVector left its elements uninitialised'),
    ('C04 C14', 'the slots of a composite made by the host', 'pushComposite: a collection freed the value slot while the function slot was allocated'),
    ('C14', 'setting an element copies the value only', 'an error in a setter allocated and could report exhaustion'),
    ('C14', 'a list stored into a list by the host', 'setRest of a list with a list stored a copy behind another cell'),
    ('C04 C12', 'a reset drops the captured variables', 'softReset left frames on the upvalue array call stack'),
    ('C14 C15', 'a call that fails leaves nothing', 'a failed duckVM_call left frames and values of the callee on the stacks'),
    ('C14 C02', 'popping a variable keeps it', 'duckVM_pop of a captured variable left its closures with a dangling stack index'),
    ('C21 C09', 'calling a composite that leads back', 'a composite that is its own function was called for ever'),
    ('C14 C05', 'a symbol with an empty name has', 'copySymbolName of a nameless symbol failed without the standard library'),
    ('C10', 'a macro call that expands to a local variable', 'the call had whatever value was on top of the stack'),
    ('C10 C01', 'var, defun and noscope can be redefined', 'a macro or function named var, defun or noscope was ignored'),
    ('C01', 'a program that is a single form leaves', 'its locals or nothing were left on the stack instead of its value'),
    ('C10 C12', 'keep the syntax tree whole when a form', 'use after free and double free after an error in a body'),
    ('C10 C03', 'keep what read returns safe', 'a collection during read freed what had been built; crash'),
    ('C10', 'intern and read accept the empty string', '(intern "") and (read "" ...) failed or reported nothing'),
    ('C10', 'a symbol computed at compile time is', '(comptime (quote a)) was the value of the variable a'),
]
# (property, key, what)
OPEN = []


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.split('\n')
    out = ['# fixed: property=<id> <commit> <what failed>      repaired in /repo; suppresses nothing',
           '# open: property=<id> key=<key> <what fails>       reported as KNOWN-FINDING while it fails']
    for props, subj, what in FIXED:
        c = [l.split(' ', 1) for l in log if l.split(' ', 1)[-1].startswith('fix: ' + subj)]
        assert len(c) == 1, (subj, c)
        for p in props.split():
            out.append('fixed: property=%s %s %s -- %s' % (p, c[0][0], c[0][1][5:], what))
    for p, k, what in OPEN:
        out.append('open: property=%s key=%s %s' % (p, k, what))
    missing = [l for l in log if ' fix: ' in l and not any(l.split(' ')[0] in o for o in out)]
    assert not missing, missing
    open(os.path.join(HERE, 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')


main()
