"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=''):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe: a['observe_at'] = [observe]
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})

T16 = 'The 16 test programs each sample one or two shapes of program and compare one printed result; '
p('C01', 'Programs compute what the language says',
  'Compiling and executing a program yields the value, the host-visible effects in order, and the stack height that the language defines for its blocks, variables, assignments, conditionals, loops and primitive operators. This holds whatever surrounds a form: nesting depth, shadowing, number of live locals, position as an argument, a branch, a loop body or a tail.',
  ['programs', 'inputs'], 'every well-formed program built from the documented forms and primitive operators',
  T16 + 'whether a local is found at the right slot after arbitrary nesting of scopes, branches, loops and arguments depends on the combination.',
  ['duckLisp.c', 'generators.c', 'emitters.c', 'assembler.c', 'duckVM.c'],
  [('scope and slot accounting', 'duckLisp.c duckLisp_compile_compoundExpression, duckLisp_pushScope/popScope'),
   ('form generators', 'generators.c'), ('instruction semantics', 'duckVM.c duckVM_executeInstruction')],
  observe='values passed to a host callback, result on top of the stack after execution, stack length')
p('C02', 'Closures capture variables by reference',
  'A function refers to the variables of the scopes it was created in, not to copies: every closure over one binding, and the defining scope itself while it lives, see each other\'s assignments, and the binding outlives its scope with its last value. Each entry to a scope, each call and each loop iteration makes fresh bindings, independent of earlier ones.',
  ['programs', 'histories'], 'every program that creates closures at any nesting depth, in loops, recursion, arguments and heap structures, and calls them in any order before or after their scope ends',
  'closure.dl, recursion.dl and self-release-upvalues.dl each try one capture pattern; which slot a captured variable is read from depends on when each closure is made, called and released.',
  ['duckVM.c', 'duckLisp.c', 'emitters.c', 'generators.c'],
  [('open and released upvalues', 'duckVM.c release-upvalues, push-upvalue, set-upvalue, push-closure'),
   ('free-variable resolution', 'duckLisp.c duckLisp_scope_getFreeLocalIndexFromName')],
  [('upvalue', 'a captured variable: still on the stack, moved to the heap, or shared with an outer closure')])
p('C03', 'Garbage collection is invisible to programs',
  'When and how often the collector runs never changes what a program computes or shows: everything a running program, its callers, its globals, its closures and its host can still reach keeps its identity and its contents. A program that runs out of heap reports that and nothing else.',
  ['programs', 'schedules', 'configurations'], 'every program, every heap size, and collection at every point where a host callback or an allocation can trigger it',
  'The tests run with a heap far larger than they need, so the collector hardly runs, and never between two steps of one operation.',
  ['duckVM.c'], [('mark and sweep', 'duckVM.c duckVM_gclist_markObject, duckVM_gclist_garbageCollect'),
                 ('rooting of temporaries during allocation', 'duckVM.c duckVM_executeInstruction, duckVM_allocateHeapObject')],
  [('heap', 'fixed pool of objects; free list')])
p('C04', 'Unreachable objects are reclaimed, once, and no others',
  'After a collection, an object the program and host can no longer reach is gone: its storage is reusable and, for a host object, its destructor has run exactly once; a reachable one has not been destroyed. A program whose reachable data stays within the heap can therefore allocate forever without running out.',
  ['histories', 'programs'], 'every history of creating, copying, storing and dropping values, with collections anywhere',
  'No test makes a host object, counts destructions, or runs long enough to need reclaimed storage.',
  ['duckVM.c', 'duckVM.h'], [('sweep', 'duckVM.c duckVM_gclist_garbageCollect'), ('user destructors', 'duckVM.c duckVM_object_type_user')])
p('C05', 'Build options and optimisations never change behaviour',
  'Every build configuration (jump and push/pop optimisation on or off, standard library or built-in string and memory code, parenthesis inference compiled in but not requested) gives every program the same observable behaviour. This includes programs whose branches, jumps and operands straddle the boundaries between instruction sizes.',
  ['configurations', 'programs'], 'every program under each pair of configurations, including code bodies of any length',
  'The tests are run in four configurations but none has a branch longer than 127 bytes or deep stacks, so the size-dependent encodings are not met.',
  ['assembler.c', 'emitters.c', 'DuckLib/memory.c', 'DuckLib/string.c'],
  [('jump size selection', 'assembler.c duckLisp_assemble'), ('push/pop elimination', 'assembler.c'), ('operand width selection', 'assembler.c, emitters.c')])
p('C06', 'Calls bind arguments as declared',
  'A function receives exactly the arguments it was given, by position, with the surplus of a variadic function as a list in order; direct calls, calls through a value, applications to a list and calls from the host agree. A call with too few or too many arguments is a reported error that runs none of the callee.',
  ['programs', 'inputs'], 'every combination of fixed and rest parameters, number of arguments, kind of callee (named function, closure value, global, host function, callable composite) and way of calling',
  'apply.dl and lisp-2.dl try a handful of fixed arities; the stack layout of a call depends on all of these at once.',
  ['duckVM.c', 'generators.c', 'emitters.c'],
  [('call sequences', 'duckVM.c funcall, apply, acall, ccall opcodes'), ('call generators', 'generators.c duckLisp_generator_funcall, _apply, _defun, _lambda')])
p('C07', 'Lists, vectors and strings keep their contents and aliasing',
  'Reading a list, vector or string gives the elements last stored there; the tail of a vector is a view of the same elements, a list cell is shared by everything that holds it, and an update is seen through every alias and nowhere else. An index outside the sequence is a reported error.',
  ['programs', 'histories'], 'every sequence of constructions, reads, updates and partial views, through any aliases',
  'Only length.dl and the quote tests touch sequences, and none updates one through an alias.',
  ['duckVM.c'], [('sequence instructions', 'duckVM.c car, cdr, set-car, set-cdr, get/set-vec-elt, make-vector, vector, substring, concatenate')])
p('C08', 'Arithmetic and comparison are exact and well defined',
  'Integer arithmetic and comparison give the mathematically exact result whenever it fits the integer type, quotients truncate toward zero, operands of mixed boolean, integer and float type are promoted in that order, and float results are the correctly rounded ones. Division of an integer by zero is a reported error.',
  ['inputs'], 'every pair of operands over the whole range of each numeric type, however they reach the operator (literal of any width, variable, computed value)',
  'The tests do arithmetic on a few small integers.',
  ['duckVM.c', 'emitters.c', 'assembler.c', 'parser.c'],
  [('numeric instructions', 'duckVM.c add, sub, mul, div, greater, less, equal, not'), ('literal widths', 'emitters.c, assembler.c push-integer')])
p('C09', 'Types and composites keep what they are given',
  'Every value reports the type it was made with; each user type is distinct from every other type for the life of the VM. A composite holds the type, value and function it was given until one of them is replaced, an update is seen through every reference to that composite, and calling a composite calls its function.',
  ['programs', 'histories'], 'every history of making types and composites, updating, aliasing, type tests and calls',
  'No test makes a type or a composite.',
  ['duckVM.c', 'generators.c'], [('type and composite instructions', 'duckVM.c type-of, make-type, make-instance, composite-value, composite-function, set-composite-*')])
p('C10', 'Macros and compile-time code act before run time, once',
  'A macro call means the program obtained by running the macro at compile time on the unevaluated arguments and compiling its result in place; compile-time code runs once per compilation, in order, in its own environment, and nothing it does is visible at run time except what it generated. Quoting yields exactly the quoted data, and generated symbols differ from every other symbol.',
  ['programs'], 'every program with macros, nested compile-time blocks, quoting and generated symbols, in any lexical position',
  'Two tests cover compile-time code, each for one nesting.',
  ['duckLisp.c', 'generators.c', 'duckVM.c'],
  [('macro expansion', 'duckLisp.c compile_expression, generators.c duckLisp_generator_macro, _comptime'), ('data/syntax conversion', 'duckLisp.c duckLisp_astToObject, duckLisp_objectToAST'), ('gensym', 'duckLisp.c duckLisp_gensym')])
p('C11', 'The reader gives each text its one meaning',
  'Reading a source text yields the data the notation of its first form denotes, independent of the layout, comments and whitespace around its tokens; strings denote their bytes with escapes resolved and numbers their value. A text that is not a well-formed program is rejected with an error, and nothing outside the given text influences the result.',
  ['inputs'], 'every byte string given as source',
  'The tests are sixteen well-formed files; almost all byte strings, and all ill-formed ones, are outside them.',
  ['parser.c', 'DuckLib/string.c', 'duckLisp.c'], [('reader', 'parser.c'), ('number conversion', 'DuckLib/string.c')])
p('C12', 'An error is reported and leaves the system usable',
  'A program that fails at compile time or run time is reported as failed, keeps the effects it had before the failure and has none after it. After the host clears the failed run, the same compiler and VM give every later program the behaviour it would have had, with globals, functions and captured variables as the failed program left them.',
  ['histories', 'fault_sequences'], 'every kind of failure at every depth of calls, loops, arguments and host callbacks, followed by any further programs',
  'No test fails on purpose, and each test starts from a fresh compiler and VM.',
  ['duckVM.c', 'duckLisp.c'], [('soft reset', 'duckVM.c duckVM_softReset, duckVM_popAll'), ('error unwinding', 'duckVM.c duckVM_execute, duckVM_call'), ('compile state cleanup', 'duckLisp.c duckLisp_loadString')])
p('C13', 'Definitions persist across separately loaded programs',
  'Programs loaded one after another into one compiler and VM share globals, global functions, compile-time globals and symbols: each sees what earlier ones defined, also after their code is discarded, and equal symbol names stay equal. Local definitions do not leak into later programs.',
  ['histories'], 'every sequence of loads and executions, in any order, with stack clearing and collection between them',
  'Each test is a single source file in a fresh system.',
  ['duckLisp.c', 'duckVM.c'], [('symbol table', 'duckLisp.c duckLisp_symbol_create'), ('globals', 'duckVM.c duckVM_setGlobal, push-global'), ('top-level scope', 'duckLisp.c duckLisp_loadString'), ('bytecode ownership', 'duckVM.c duckVM_execute')])
p('C14', 'The host API is a faithful stack machine',
  'Each operation of the embedding interface has its documented effect on the value stack and the objects on it, for any stack position it accepts, and otherwise reports an error and leaves the values on the stack as they were (a call that fails removes its arguments). Values the host pushes are the values programs see, and the reverse.',
  ['histories', 'inputs'], 'every sequence of API operations on values of every type, including ones the operation must refuse',
  'No test uses the API beyond linking callbacks and running a file.',
  ['duckVM.c', 'duckVM.h', 'docs/api.md'], [('API functions', 'duckVM.c duckVM_push ... duckVM_isEmpty')],
  [('stack', 'values the host and the program exchange')], 'the API itself: stackLength, typeOf, copy functions')
p('C15', 'Host callbacks and programs can call each other at any depth',
  'A host function called by a program may call back into the program, to any depth, and may allocate, collect and fail there; the interrupted program continues as if the host function had computed its result any other way. A failure inside such a call reaches the host as an error and, if the host passes it on, the program.',
  ['histories', 'fault_sequences'], 'every nesting of program and host calls, including through closures, recursion, variadic functions and nested executions',
  'No test has a callback that calls back into the program.',
  ['duckVM.c'], [('nested calls', 'duckVM.c duckVM_call, duckVM_execute'), ('call stack', 'duckVM.c call_stack, duckVM_callFrame_t')])
p('C16', 'The memory allocator hands out disjoint intact blocks',
  'Blocks handed out by the built-in allocator lie inside its arena, are aligned, do not overlap, and keep their contents until freed, also when resized; freed space is joined with free neighbours and available again: a request for which a free stretch of the arena is large enough, with room for its own block list, succeeds. Exhaustion is reported and leaves every block intact.',
  ['histories'], 'every sequence of allocate, resize and free with any sizes, arena sizes and fit strategies',
  'The portable test configuration uses it with an arena much larger than needed and only the access patterns of 16 programs.',
  ['DuckLib/memory.c'], [('block list', 'DuckLib/memory.c dl_malloc, dl_realloc, dl_free')])
p('C17', 'Dynamic arrays behave as sequences',
  'A dynamic array holds exactly the elements pushed and not yet popped, in order; popping and reading return what was stored, writing changes only the addressed element. An access outside the array or a failed allocation is reported and changes nothing.',
  ['histories', 'fault_sequences'], 'every sequence of operations, element size and growth strategy, with memory exhaustion at any point',
  'Arrays are only exercised through the compiler, mostly by pushing.',
  ['DuckLib/array.c'], [('array operations', 'DuckLib/array.c')])
p('C18', 'The symbol trie is a map',
  'Looking up a key gives the value last inserted for exactly that key, or the not-found value when there was none, whatever other keys (prefixes, extensions, siblings, the empty key, any bytes) are present.',
  ['histories', 'inputs'], 'every sequence of insertions and lookups over arbitrary byte strings',
  'The keys of the tests are a few dozen identifiers inserted in one order.',
  ['DuckLib/trie.c'], [('insertion with splitting', 'DuckLib/trie.c dl_trie_insert'), ('lookup', 'DuckLib/trie.c dl_trie_find')])
p('C19', 'Sorting sorts',
  'Each library sort leaves the array a permutation of its input in which no element precedes a smaller one, for every length, element size and consistent comparison, and touches nothing outside the array.',
  ['inputs'], 'every array contents, length, element size and comparison order',
  'One sort is reached from one place in the compiler, with small inputs; the other is not reached.',
  ['DuckLib/sort.c'], [('sorts', 'DuckLib/sort.c heapsort, quicksort_hoare')])
p('C20', 'Parenthesis inference restores exactly the omitted parentheses',
  'With inference requested, a program means the fully parenthesised program obtained by adding parentheses around calls as the declared types of the names say, and nothing else changes: parentheses around calls that take as many arguments as the declared type says (by default, for variadic ones) may be omitted or kept without changing the result, what is written with # stays as it is, and a fully parenthesised program whose names are declared and whose names of functions used as values are written with # behaves as it does without inference. A name that is not declared, a type that is not one, and a call with the wrong number of arguments are reported.',
  ['programs'], 'every program over functions, macros and declared types with every choice of omitted parentheses that the arities determine',
  'The inference test configuration runs the same fully parenthesised files without requesting inference.',
  ['parenthesis-inferrer.c'], [('inference', 'parenthesis-inferrer.c')])
p('C21', 'Bad programs are refused, never fatal',
  'Any program text and any operation on values of the wrong type, wrong range or wrong arity ends in a value or a reported error: never a crash, an access outside the system\'s own memory, or a corrupted later computation.',
  ['inputs', 'programs', 'fault_sequences'], 'every program, however ill-typed or malformed, in every configuration and with any heap size',
  'All tests are well-typed programs that succeed.',
  ['duckVM.c', 'duckLisp.c', 'generators.c', 'parser.c'], [('type dispatch and its error branches', 'duckVM.c duckVM_executeInstruction'), ('argument checks', 'generators.c duckLisp_checkArgsAndReportError')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
