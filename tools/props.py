#!/usr/bin/env python3
"""Writes ../properties.jsonl (the source of truth for the list)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))


p('C01', 'Compiled programs mean what the language defines',
  'Compiling a program and running the result produces exactly the effects, in order, and the final value that the language defines: call by value, operator first and operands left to right, lexical scope, first-class closures, the first branch of `if` only for true.',
  ['programs'], 'every well-defined program over the core forms, the standard macros and the builtin functions',
  'The tests compile about 40 fixed programs; a miscompilation needs a particular combination of let nesting, closures, non-tail calls and live variables.',
  ['lib/toc.cora', 'lib/toc.c', 'lib/toc/internal.c', 'src/runtime.c', 'src/runtime.h', 'init.cora'],
  [('parse, closure-convert, tailify, liveness-analyze, collect-lambda', 'lib/toc.cora'),
   ('coraCall/coraReturn trampolines and frames', 'src/runtime.c')],
  ['values and effects of the loaded shared object'])

p('C02', 'The interpreter agrees with the language',
  'Evaluating a program form by form with the interpreter used by the REPL and by scripts produces the effects and values the language defines, the same ones its compiled form produces.',
  ['programs'], 'every well-defined program the REPL accepts',
  'The interpreter is exercised by a handful of script lines; compiled and interpreted closures, environments and applications share no code.',
  ['lib/eval.cora', 'src/runtime.c', 'init.cora'],
  [('eval over association-list environments', 'lib/eval.cora'), ('makeClosureForEval/applyClosureForEval', 'src/runtime.c')])

p('C03', 'Partial evaluation never changes behaviour',
  'A program compiled or run with the partial evaluator enabled has exactly the effects and value it has without it, including the number and order of effects and which variable each name refers to.',
  ['programs'], 'every program, in particular ones with constant conditions, inlinable lets, applied lambdas, shadowing and effects inside discarded or duplicated expressions',
  'The repository has no test of the partial evaluator beyond loading it; capture and effect duplication need specific shadowing patterns.',
  ['lib/peval.cora', 'init.cora'],
  [('peval, rename-binder, peval-let, peval-app', 'lib/peval.cora')])

p('C04', 'Every function is curried: any grouping of arguments is the same',
  'Applying a function to its arguments gives the same result however the arguments are grouped into successive applications: too few arguments give a function of the rest, too many apply the result to the rest, for closures, primitives, partial applications and apply alike, with each argument evaluated once.',
  ['programs', 'inputs'], 'every function arity, every split of the argument list into groups, every kind of callee, in tail and non-tail position',
  'Tests cover two or three partial applications; arity, captured count and position combine.',
  ['src/runtime.c', 'src/runtime.h', 'lib/toc.cora', 'src/types.c'],
  [('coraDispatch, makeCurry, callCurry, applyRest', 'src/runtime.c'), ('partial primitive application', 'lib/toc.cora')])

p('C05', 'Tail calls run in constant space',
  'A loop written as any chain of tail calls (self, mutual, through apply, curried and over-applied closures, continuations of if/cond/match/let/begin, in handlers) runs for any number of iterations without growing the control stack or the heap it keeps.',
  ['programs', 'histories'], 'every shape of tail-call cycle and every iteration count',
  'A fixed test loops once through one shape; leaks of one frame per iteration only show after millions of iterations of a specific shape.',
  ['src/runtime.c', 'src/runtime.h', 'lib/toc.cora', 'init.cora'],
  [('tailcall: co->ctx.sp = R', 'lib/toc.cora'), ('coraCall', 'src/runtime.c')])

p('C06', 'Recursion depth is bounded by memory only',
  'Non-tail recursion of any depth and frame size returns the correct value through every intermediate caller, and the control stack is released again, so that deep recursions can be repeated.',
  ['programs', 'inputs'], 'every recursion depth, frame size and interleaving of deep calls with exceptions and partial applications',
  'Stack segments are switched only when a frame crosses a segment end, at depths and frame sizes the tests do not reach.',
  ['src/runtime.c', 'src/runtime.h'],
  [('stackAlloc, stackAllocSlowPath, coraReturnSlowPath: segmented stack', 'src/runtime.c')])

p('C07', 'throw and resume are delimited continuations',
  'throw transfers control to the innermost enclosing try and gives its handler the rest of the try block as a function; calling it once, at any later time, continues the block where it stopped with the same local variables and the same handler, and not calling it abandons the block without disturbing anything else.',
  ['programs', 'histories'], 'every nesting of try, throw, resume and ordinary calls, with resumption immediate, delayed, from another try, or never',
  'Tests have two or three fixed throw programs; captured frames depend on nesting depth, stack segments and when resume happens.',
  ['src/runtime.c'],
  [('builtinTryCatch, builtinThrow, continuationAsClosure, makeContinuation', 'src/runtime.c')])

p('C08', 'Pattern matching takes the first rule that fits',
  'match and func select the first rule whose pattern fits the value and whose guard is true, bind each pattern variable to the corresponding part, evaluate the scrutinee once, and evaluate nothing of the other rules.',
  ['programs', 'inputs'], 'every list of patterns (literals, quoted data, variables, cons and list patterns with tails) and guards, and every value matched against it',
  'Tests use matches in fixed functions; rule order, guard fall-through and repeated variables interact.',
  ['init.cora', 'lib/toc.cora'],
  [('rewrite-match, match1, match-cons-expander, extract-rules', 'init.cora')])

p('C09', 'User macros expand like functions over source',
  'A macro defined with defmacro receives the unevaluated form and is replaced by what it returns, repeatedly and everywhere an expression is allowed but never inside quoted data, and a macro in scope behaves the same in compiled and interpreted code.',
  ['programs'], 'every template-style macro definition and every place and nesting of its uses',
  'macro-test has one macro; expansion inside lambda parameters, quotes, other macros and nested forms is not sampled.',
  ['init.cora', 'lib/toc.cora'],
  [('macroexpand-boot, macroexpand1, defmacro-macro, rewrite-backquote', 'init.cora')])

p('C10', 'Packages keep their names apart and load once',
  'Definitions of a package are reachable from another package exactly if exported and imported (the latest import first) or named in full, never collide with equal names elsewhere, and the code of a package runs once per program however often and along whichever paths it is imported.',
  ['programs', 'configurations'], 'every acyclic graph of packages with any exports, imports, shadowing and repeated imports',
  'Tests import the standard libraries only, in one fixed order.',
  ['init.cora', 'src/runtime.c', 'lib/toc.cora', 'lib/eval.cora'],
  [('cora/init#parse, lookup-var, var-with-ns, package macro', 'init.cora'), ('builtinImport', 'src/runtime.c')])

p('C11', 'Garbage collection is invisible to programs',
  'A program has the same effects and value whenever collections start and however marking interleaves with execution: every object a program can still reach keeps its identity and contents.',
  ['programs', 'schedules'], 'every program and every schedule of collections and incremental marking steps',
  'Collections happen rarely and at fixed points in the tests; a missing root or barrier shows only if a collection falls between two particular steps.',
  ['src/gc.c', 'src/types.c', 'src/runtime.c', 'lib/hash-h.c'],
  [('coraGCFunc roots', 'src/runtime.c'), ('writeBarrierForIncremental, writeBarrierForGeneration, gcRSet, markObject', 'src/gc.c'),
   ('continuationGCFunc', 'src/runtime.c')],
  ['program output under frequent collections'], 'CORA_VERIF_HOOKS: collection trigger, marking step size, poisoning of dead objects')

p('C12', 'The heap keeps what is reachable, through its C interface',
  'For any sequence of allocations and mutations of pairs, vectors, strings, cells and closures of any size through the C interface, with collections in between, every object reachable from the roots keeps its type, size and contents and overlaps no other object.',
  ['histories', 'schedules'], 'every sequence of allocate, store, drop, collect operations over all size classes, including large objects',
  'gc_test allocates random strings and checks nothing about their contents; ages, size classes, remembered sets and arena reuse combine over many cycles.',
  ['src/gc.c', 'src/types.c'],
  [('gcAlloc, size classes, heapArenaAllocLarge, gcFlip', 'src/gc.c'), ('vectorSet, vectorAppend, primSet barriers', 'src/types.c')],
  ['heap contents compared with a shadow model'], 'CORA_VERIF_HOOKS')

p('C13', 'Unreachable memory is reused',
  'A program that keeps a bounded amount of data alive runs in bounded memory, no matter how much it allocates in total and of what kinds and sizes.',
  ['histories', 'programs'], 'every steady-state allocation pattern: pairs, closures, strings, vectors, large objects, exceptions, partial applications',
  'A leak of a few bytes per iteration passes every functional test.',
  ['src/gc.c', 'src/runtime.c', 'src/types.c'],
  [('gcFlip, blockReset, heapArenaAllocLarge', 'src/gc.c')])

p('C14', 'Printed data reads back as itself',
  'Reading the printed form of any value built of integers, booleans, symbols, strings, and lists gives an equal value, and quoted data in source denotes exactly the data written.',
  ['inputs'], 'every printable datum: nesting, number signs and magnitudes, symbol spellings, abbreviations, whitespace and comments between tokens',
  'reader_test has a dozen literals.',
  ['src/reader.c', 'src/types.c'],
  [('sexpRead', 'src/reader.c'), ('sexpWrite', 'src/reader.c')])

p('C15', 'The reader survives any input',
  'Reading any byte sequence ends: it yields a sequence of data followed by end of file or an error, without memory errors or runaway, and what was read before a malformed part is not affected by it.',
  ['inputs'], 'every byte sequence, of any token length, nesting and truncation',
  'Tests feed only well-formed text.',
  ['src/reader.c'],
  [('sexpRead, readerMacro', 'src/reader.c')])

p('C16', 'Equality is structural, and an equivalence',
  '`=` holds between two data exactly if they are built alike from equal numbers, booleans, strings byte for byte, the same symbols and pairs of equal parts, of any length and depth (vectors and other mutable objects are equal only to themselves); it is reflexive, symmetric, transitive and agrees everywhere it is used (patterns, membership, tables, compiled and called as a function).',
  ['inputs'], 'every pair of values, equal in structure, nearly equal or of different kinds',
  'Tests compare a few constants.',
  ['src/types.c', 'src/str.c', 'src/runtime.c'],
  [('eq', 'src/types.c'), ('strCmp', 'src/str.c')])

p('C17', 'Names and literals survive compilation',
  'Every identifier the reader accepts can name a variable, function, parameter or quoted symbol, distinct identifiers stay distinct, and every number, string and quoted datum in the source is exactly the value the compiled program sees, whatever characters it contains.',
  ['inputs', 'programs'], 'every identifier spelling and every literal, including C keywords, names that differ only in punctuation, control characters, quotes, backslashes, trigraphs and bytes above 127',
  'The tests use alphabetic names and plain strings.',
  ['lib/toc.cora', 'lib/toc/internal.c'],
  [('generate-sym, escape-str, generate-num', 'lib/toc/internal.c')])

p('C18', 'String functions agree with a byte-string model',
  'Each function of the string library and each builtin on strings returns what the same operation on byte sequences returns, for every string including empty ones, without changing its arguments.',
  ['inputs', 'histories'], 'every argument combination within each function\'s stated domain',
  'string functions have no tests but their use in one script.',
  ['lib/string.c', 'src/str.c', 'src/runtime.c'],
  [('string-append, substring, split, index', 'lib/string.c'), ('strBuf operations', 'src/str.c')])

p('C19', 'Hash tables are finite maps',
  'After any sequence of insertions, replacements, deletions and lookups with any keys a table answers every lookup as a finite map would.',
  ['histories', 'inputs'], 'every operation sequence and every mix of keys (numbers of any sign and size, symbols, strings), with collisions',
  'No test inserts colliding or deleted keys.',
  ['lib/hash.cora', 'lib/hash-h.c'],
  [('hash table of association lists', 'lib/hash.cora'), ('hash function', 'lib/hash-h.c')])

p('C20', 'List and queue functions agree with their models',
  'The list functions (map, filter, append, reverse, length, elem?, assq, foldl and relatives) compute what they do on sequences without changing their arguments, and a queue returns its elements in the order they were added under any interleaving of additions and removals.',
  ['inputs', 'histories'], 'every list and element kind, every queue operation sequence',
  'Lists are tested indirectly; the queue has no test.',
  ['init.cora', 'lib/sys.cora', 'lib/queue.cora', 'lib/eval.cora'],
  [('map-h, filter-h, append', 'init.cora'), ('two-list queue', 'lib/queue.cora')])

p('C21', 'Records and named loops behave as defined',
  'A defined record type gives a constructor, a predicate and independent accessors and mutators for its fields, and a named let is the loop it abbreviates, for any fields, initial values and bodies (names that redefine the language itself excepted).',
  ['programs', 'inputs'], 'every record definition with its operation sequences, every named let',
  'One record with two fields is tested.',
  ['lib/define-record.cora', 'lib/let-loop.cora'],
  [('define-record macro', 'lib/define-record.cora'), ('let-loop macro', 'lib/let-loop.cora')])

p('C22', 'A parsing expression grammar parses as PEGs are defined',
  'Matching a grammar against a text succeeds exactly if the PEG semantics (ordered choice, greedy repetition, unlimited lookahead) say so, consumes exactly that prefix, and computes the result its actions describe.',
  ['inputs', 'programs'], 'every grammar built of the supported operators and every text',
  'peg-test parses one text with one grammar.',
  ['lib/peg.cora'], [('peg combinators', 'lib/peg.cora')])

p('C23', 'Markup written from trees is well formed and keeps the content',
  'Rendering an element tree gives markup that parses back to the same elements, attributes and text, with every special character escaped, whatever characters the text and attributes contain.',
  ['inputs'], 'every tree of elements, attributes and text',
  'sxml-test renders one page.',
  ['lib/sxml.cora'], [('escape and render', 'lib/sxml.cora')])

p('C24', 'A JSON document is read as the value it denotes',
  'Loading a JSON document and asking for its elements, members, sizes, types and scalar values gives exactly the value the document denotes, absent elements and members are absent, and a malformed document is reported as an error.',
  ['inputs'], 'every JSON document and every order of asking for its parts',
  'There is no test of the JSON library.',
  ['lib/json.c'], [('jsonLoadFile and the accessors', 'lib/json.c')])

p('C25', 'Channels and events deliver each message once, in order',
  'On a channel every message sent is received exactly once and in order, a sender or receiver waits exactly while no partner is ready, and choosing among events commits exactly one of them, under every interleaving of the participants.',
  ['schedules', 'histories'], 'every set of senders, receivers and choices over several channels, in every order of steps',
  'Only one ping-pong example exists.',
  ['lib/chan.cora', 'lib/cml.cora', 'lib/queue.cora'],
  [('chan send/recv queues', 'lib/chan.cora'), ('event choice', 'lib/cml.cora')])

p('C26', 'File and process functions transfer bytes unchanged',
  'What a program writes to a file and reads back, copies or pipes through a process is byte for byte what it wrote, with the counts and results reported truthfully, for any content and any chunking.',
  ['inputs', 'histories', 'fault_sequences'], 'every content and every sequence of open, read, write, copy and close operations, including missing directories and a full device',
  'io functions are used by one script only.',
  ['lib/io.c', 'lib/os.c'], [('open/read/write/copy', 'lib/io.c')])

p('C27', 'The embedding interface builds and runs values faithfully',
  'Values made through the C interface are the values programs see and the reverse, natives registered by a host are called with exactly their arguments, and calls from C into programs return their results, in any order and nesting.',
  ['inputs', 'histories'], 'every sequence of interface calls over all kinds of values',
  'The C tests use two or three of the interface functions.',
  ['src/export.c', 'src/cora.h', 'src/runtime.c', 'src/types.c'],
  [('coraCall/coraRun/coraRegisterAPI', 'src/runtime.c'), ('export wrappers', 'src/export.c')])

p('C28', 'Native strings, maps and vectors are what their names say',
  'The runtime\'s byte strings, hash map and growable vector behave as sequences and finite maps for every operation sequence and size, and never touch memory outside their buffers.',
  ['histories', 'inputs'], 'every operation sequence, content and size, across every growth step',
  'They have no tests of their own.',
  ['src/str.c', 'src/str.h', 'src/map.h', 'src/vector.h'],
  [('strBuf', 'src/str.c'), ('map and vec macros', 'src')])

p('C29', 'Type inference accepts what is typable and finds the principal type',
  'For an expression of the typed subset, inference yields the most general type if the expression is typable and rejects it otherwise, independent of variable names.',
  ['programs'], 'every expression of lambda, application, let, if, literals and declared constants',
  'One example file exercises it.',
  ['lib/infer.cora'], [('unification and generalisation', 'lib/infer.cora')])

p('C30', 'Multiple values, per-thread variables and monads do what they abbreviate',
  'let-values binds exactly the values a producer gives, in order and once; a per-thread variable holds what was last stored under its name, whatever else is stored; computations in the state and continuation monads thread the state and the continuation in the order they are bound, a continuation may be dropped or used several times.',
  ['programs'], 'every program with producers and consumers of up to 4 values, any history of per-thread variables, every composition of monadic computations',
  'One line of the tests uses let-values, nothing else here is tested.',
  ['lib/sys.cora', 'lib/monad.cora', 'src/runtime.c'],
  [('values, let-values, call-with-values, thread-local-get/set', 'lib/sys.cora'), ('state-bind, cont-bind, shift', 'lib/monad.cora'), ('primVMSymbolForTLS', 'src/runtime.c')])

p('C31', 'Concurrent tasks and sockets deliver what was sent',
  'Tasks run by the event loop all finish, each in its own order, and a byte stream sent over a connection arrives complete and in order whatever its size and chunking.',
  ['schedules', 'inputs'], 'every number of tasks and connections, message size and chunking',
  'The examples are run by hand.',
  ['lib/async.cora', 'lib/net.c', 'lib/epoll.c'], [('event loop', 'lib/async.cora')])

p('C32', 'Changed sources take effect',
  'Importing a package whose source is newer than its compiled form uses the new source, and otherwise does not compile again; loading a file runs its current content, every time.',
  ['histories', 'configurations'], 'every sequence of edits, imports, loads and program runs, for files inside and outside the package path',
  'No test edits a package.',
  ['src/runtime.c'], [('safeToUseSo, builtinLoad', 'src/runtime.c')])

p('C33', 'The compiler reproduces itself and is deterministic',
  'Compiling any source twice gives the same code up to generated names, and a compiler built from its own output compiles every program as its predecessor does.',
  ['programs'], 'every source program',
  'The bootstrap test compares two files for one input.',
  ['lib/toc.cora', 'init.cora', 'lib/toc.c', 'init.c'], [('compile-to-c', 'lib/toc.cora')])

p('C34', 'Markdown converts to the document it describes',
  'Parsing Markdown yields the tree of blocks and inline elements the text describes with all of its text, for any combination of the supported constructs, and no input crashes the parser.',
  ['inputs'], 'every Markdown text',
  'There is no test of the Markdown library.',
  ['lib/md4c/wrap.c', 'lib/md4c'], [('md4c callbacks', 'lib/md4c/wrap.c')])

p('C35', 'Scripts and the prompt run their text form by form',
  'Running a script evaluates each of its forms in order with the command line available unchanged, prints only what the script prints and ends with its end; the prompt prints the value of every form entered.',
  ['inputs', 'configurations'], 'every script text, first line, argument list and sequence of forms',
  'One script is run without arguments.',
  ['main.c', 'src/reader.c'], [('repl, shebang', 'main.c')])

p('C36', 'Numbers are integers, and every value has one type',
  'Addition, subtraction, multiplication, truncating division and the comparisons of integers give the integer result, for every result within 2^53, whether the operation is inline, a function value or partially applied; every value satisfies exactly the type tests of its one type, however the test is used.',
  ['inputs'], 'every pair of integers up to 2^53 in magnitude and every kind of value',
  'Tests compute with a few small constants; a confusion of tags depends on particular bit patterns of a number.',
  ['src/types.h', 'src/types.c', 'src/runtime.c', 'lib/toc.cora', 'init.cora'],
  [('NaN boxing: isNumber, tag, ptr', 'src/types.h, src/gc.h'), ('PRIM_ADD..PRIM_LT, primDiv', 'src/types.h')])

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
