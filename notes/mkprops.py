#!/usr/bin/env python3
"""Writes properties.jsonl. (Editing aid: the statements live here.)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p('C01', 'Values read back exactly as they were constructed',
  'A struct, union, list, literal, function or native value of any arity, tag and nesting reads back through the accessors with exactly the fields, tag and argument it was constructed with, and asking for a field of a tag it does not carry is reported as a wrong tag. This stays true when the value was reached through a reference, was returned from any number of stack frames, or survived a full collection, and reading from an undefined value is reported as undefined.',
  ['inputs'], 'Every tree of values: struct arities, union tags, nesting depths and mixtures of word-packed and allocated representations.',
  'The tests construct the few shapes that appear in spec programs; whether a value is packed in a word or allocated depends on the exact bit length of the whole tree, and the boundaries are met by accident only.',
  ['lib/value.c', 'include/fble/fble-value.h'],
  [('packing into a pointer word with unary tags and arities', 'lib/value.c FbleNewStructValue, FbleNewUnionValue, PackedValueLength'), ('accessors', 'lib/value.c FbleStructValueField, FbleUnionValueTag, FbleUnionValueArg, FbleUnionValueField'), ('reallocation on return', 'lib/value.c GcRealloc')])

p('C02', 'The collector never frees reachable values and frees everything else',
  'Whatever the history of allocations, frames pushed and popped, references assigned, calls and tail calls, a value still reachable from a live frame, an argument in use or the value just returned is never freed or altered. After a full collection every value that is unreachable has been released, destroying the heap releases everything that remains, and each native value has its release function run exactly once.',
  ['histories'], 'Every sequence of heap operations, including those that return from or tail-call out of a frame in the middle of an incremental collection.',
  'Collection is incremental and interleaves with frames: a wrong move of one list element needs a particular allocation at a particular step of a collection interrupted by a return; the tests only watch the memory high-water mark of some programs.',
  ['lib/value.c'],
  [('incremental mark/sweep with generations', 'lib/value.c IncrGc, MarkRef, MarkRefs'), ('frame return and compaction', 'lib/value.c FblePopFrame, CompactFrame, PushFrame'), ('full collection and teardown', 'lib/value.c FbleValueFullGc, FbleFreeValueHeap')])

p('C03', 'Application gives the same result however the arguments are supplied',
  'Applying a function value to its arguments all at once, one by one, in any grouping, or with extra arguments for the function it returns, directly or by tail call, from native code or from an evaluated program, gives the same result and passes every argument exactly once in order. If the function or the result being applied is undefined, or the body aborts, the application as a whole aborts and returns nothing, and the heap stays usable.',
  ['inputs', 'histories'], 'Every function arity, argument grouping, chain of calls and tail calls of functions returning functions, and abort position.',
  'Tests apply functions of small arity in fixed ways; the argument buffers of partial, excess and tail application interact and only particular combinations exercise each.',
  ['lib/value.c', 'lib/interpret.c', 'include/fble/fble-function.h'],
  [('call, excess and partial application', 'lib/value.c FbleCall, PartialApply, PartialApplyImpl'), ('tail call buffer', 'lib/value.c TailCall, FbleTailCall, EnsureTailCallArgsSpace'), ('entry', 'lib/value.c Eval')])

p('C04', 'A program evaluates to the value the language gives it',
  'Every well-typed program evaluates to the value the language specification assigns to it: struct and union construction and access, tag selection with defaults, functions and their application, lets (recursive too), literals, lists, binds, polymorphic, package and copied values all give their specified results, independent of names, nesting, ordering and shadowing. Evaluating the same program with profiling enabled or disabled gives the same value.',
  ['programs'], 'Every program built from the expression forms of the language, with every choice of operands, nesting and variable reference.',
  'The spec tests contain one or two hand-written instances of each form; wrong slots, captured variables, branch targets or field offsets depend on combinations of forms that no test samples.',
  ['lib/parse.y', 'lib/typecheck.c', 'lib/compile.c', 'lib/interpret.c', 'lib/tc.c'],
  [('scopes and local slots', 'lib/compile.c'), ('instruction execution', 'lib/interpret.c'), ('elaboration', 'lib/typecheck.c')])

p('C05', 'The type checker accepts exactly the well-typed programs',
  'A program is accepted if and only if it obeys the typing rules of the language: every field, argument, branch and annotation has exactly the required type, fields and arguments exist and are complete, and types, kinds and values are used as such. A rejected program yields an error report and no result, and an accepted one never makes evaluation misinterpret a value.',
  ['programs'], 'Every combination of declared type and expression form, correct or with one thing wrong.',
  'Each rejection rule has one or two spec tests; a rule that is checked for the first field, argument or branch only, or in only one syntactic form, passes them.',
  ['lib/typecheck.c', 'lib/type.c', 'lib/kind.c'],
  [('type checking rules', 'lib/typecheck.c'), ('type equality', 'lib/type.c FbleTypesEqual')])

p('C06', 'Type equality is structural equality up to recursion and application',
  'Two types are considered equal exactly when the type language makes them equal: same shape, field names, order and component types, equal recursive unrollings, and equal results of applying polymorphic types, whatever recursion defines them. Inside an abstract cast types are compared as if abstract types of the package were their contents. Deciding equality terminates on every pair of types.',
  ['inputs', 'programs'], 'Every pair of types built from struct, union, function, poly, application, recursive and package types.',
  'Tests compare a handful of pairs; coinductive comparison of recursive types depends on the assumptions collected on the way.',
  ['lib/type.c', 'lib/type-heap.c', 'lib/kind.c'],
  [('coinductive equality', 'lib/type.c FbleTypesEqual'), ('normal forms', 'lib/type.c Normal/Subst'), ('type reference counting', 'lib/type-heap.c')])

p('C07', 'Run time errors abort evaluation cleanly wherever they happen',
  'Selecting a field of a union that has another tag, or using a value that is not defined yet, aborts the whole evaluation with no result from whatever expression and call depth it happens in, and no other well-typed program aborts. After an abort nothing is leaked and the heap remains usable for further evaluation.',
  ['programs', 'histories'], 'Every position of a failing expression in a program: argument, function, condition, branch, binding, tail call and any nesting of those.',
  'Every expression form has its own abort clean-up path; tests reach a few of them, and none of them shows whether memory or frames are left behind.',
  ['lib/interpret.c', 'lib/value.c', 'lib/compile.c'],
  [('abort path', 'lib/interpret.c'), ('failing accessors', 'lib/value.c')])

p('C08', 'Recursive bindings are tied correctly and vacuous ones rejected',
  'A recursive let makes each name refer to the value its definition evaluates to from every place it is used, including from inside functions and data defined by the other bindings, in any order. A group of definitions in which some value would be defined only as itself is reported as an error, and no other group is.',
  ['programs', 'histories'], 'Every number of bindings and every pattern of references between them.',
  'Tests use one or two bindings; chains of references unwound in different orders give many distinct shapes.',
  ['lib/value.c', 'lib/interpret.c', 'lib/compile.c', 'lib/typecheck.c'],
  [('references', 'lib/value.c FbleNewRefValue, FbleAssignRefValue, StrictValue'), ('recursive let instructions', 'lib/compile.c, lib/interpret.c')])

p('C09', 'Profiling attributes every call and every tick to the right block',
  'For any sequence of block entries, tail replacements, exits and time samples, each block and each caller-callee pair ends up with exactly the number of calls and the time that happened inside it, with recursion counted once, and the totals over blocks agree with the samples taken. Samples taken by the randomised sampler and several concurrent profiling threads are accounted the same way, and a profile is never corrupted by deep or long histories.',
  ['histories'], 'Every history of enter, replace, exit and sample operations over any set of blocks.',
  'The profile tests are a dozen fixed histories; run-length compressed call stacks and sample merging depend on repetition patterns.',
  ['lib/profile.c', 'include/fble/fble-profile.h'],
  [('call stack and sample maintenance', 'lib/profile.c EnterBlock, ReplaceBlock, ExitBlock, ProfileSample')])

p('C10', 'The parser is total: any bytes give a module or a reported error',
  'Parsing any sequence of bytes as an fble module terminates, never reads or writes memory it should not, and either gives a module or reports an error, releasing everything it allocated on failure. Every token, name and literal of an accepted module is reproduced byte for byte in the result, at the line and column it was written.',
  ['inputs'], 'Every byte string, well-formed or not.',
  'The spec has a few dozen syntax tests; lexing is by hand with look-ahead and quotes and comments, so wrong handling shows on particular byte sequences, ends of input and error recoveries.',
  ['lib/parse.y', 'lib/expr.c', 'lib/name.c', 'lib/loc.c', 'lib/string.c'],
  [('lexer', 'lib/parse.y yylex and helpers'), ('grammar and clean-up of discarded symbols', 'lib/parse.y')])

p('C11', 'Module paths denote the same module in text, file system and comparisons',
  'Parsing a text as a module path gives exactly the components written in it, quotes resolved, and any text that is not a module path is rejected with an error. Printing a path of plain words and parsing the result gives back an equal path, a name printed in a message reads back as that name, and a word needs quotes exactly when it contains a character of special meaning. Two paths are equal exactly when all their components are, and a module belongs to a package exactly when the package path is a prefix of its own.',
  ['inputs'], 'Every module path: any number of components with any characters in their names.',
  'Tests use plain alphanumeric names; quoting rules matter only for unusual characters.',
  ['lib/module-path.c', 'lib/name.c', 'lib/parse.y'],
  [('printing and quoting', 'lib/module-path.c FblePrintModulePath, FbleIsPlainWord'), ('comparison', 'lib/module-path.c, lib/name.c')])

p('C12', 'Loading a program yields each needed module once, after its dependencies',
  'Loading a module gives a program with every module that is reachable through its imports exactly once, each after everything it depends on with its dependencies in the order of its imports, each read from the first location of the search path that has it. A missing module, an import cycle or a syntax error in any module makes the load fail with a report and nothing leaked. Linking the loaded program evaluates each module once, on the values of its own imports.',
  ['programs', 'configurations'], 'Every graph of modules and imports over any arrangement of search directories.',
  'The tests load a few small fixed graphs; order, de-duplication, cycle and privacy checks are properties of the graph shape.',
  ['lib/load.c', 'lib/link.c'],
  [('dependency stack', 'lib/load.c FbleLoad'), ('search path', 'lib/load.c Find/Parse'), ('link', 'lib/link.c FbleLink')])

p('C13', 'The fbld processor is total: any document gives output or a reported error',
  'Processing any sequence of bytes as an fbld document never crashes or touches memory it should not, terminates unless the document itself defines a command that never ends, and either produces output or reports an error at the place at fault, releasing everything it allocated. This holds for every combination of built-in commands and arguments, including failing ones in any position.',
  ['inputs'], 'Every byte string, and every nesting of the built-in commands.',
  'The tests are some sixty documents; the argument forms and the error values propagate through every command, and only a few of the combinations appear.',
  ['fbld/parse.c', 'fbld/eval.c', 'fbld/markup.c'],
  [('parser', 'fbld/parse.c'), ('evaluator', 'fbld/eval.c'), ('markup reference counts', 'fbld/markup.c')])

p('C14', 'fbld evaluates documents to the text the language defines',
  'The output of a document (of characters other than NUL and ETX) is the one its specification gives: plain text unchanged, definitions and lets substituted lexically and independent of unrelated names, equality, head, tail, plain and eval commands giving their defined results. Writing the same argument in any of its inline, same-line, next-line, final or implicit forms gives the same output.',
  ['inputs', 'programs'], 'Every document built from text, arguments forms and built-in commands.',
  'Each command has a couple of tests with fixed text; interactions of scoping, concatenation and partial evaluation are not sampled.',
  ['fbld/parse.c', 'fbld/eval.c', 'fbld/markup.c'],
  [('evaluation rules', 'fbld/eval.c'), ('argument forms', 'fbld/parse.c')])

p('C15', 'Compiled C code behaves exactly as the interpreted program',
  'For every program, the C code that the compiler generates from it computes the same value, or aborts in the same cases, as interpreting the program does, for all arguments. The generated code keeps names of different modules and functions apart and reproduces every string and source name byte for byte.',
  ['programs', 'inputs'], 'Every program and argument, and every name or string occurring in one.',
  'Spec tests compile their fixed programs only; instruction templates and escaping depend on operand kinds, counts and characters the tests do not combine.',
  ['lib/c.c', 'lib/code.c', 'lib/interpret.c'],
  [('C generation', 'lib/c.c FbleGenerateC'), ('interpretation', 'lib/interpret.c')])

p('C16', 'Memory accounting and growable arrays are exact',
  'The amount of memory reported as allocated is always the sum of the live allocations, the reported maximum is the true maximum since the last reset, and resizing keeps contents. Growable arrays hold exactly the elements appended, in order, however many there are, in both the language library and the document processor.',
  ['histories'], 'Every sequence of allocate, resize, free, append and extend operations with any sizes.',
  'No test looks at these directly; growth boundaries are met by a few sizes only.',
  ['lib/alloc.c', 'lib/vector.c', 'include/fble/fble-vector.h', 'include/fble/fble-alloc.h', 'fbld/alloc.c', 'fbld/vector.c'],
  [('size header', 'lib/alloc.c'), ('doubling growth', 'lib/vector.c, fbld/vector.c')])

p('C17', 'Core library conversions between native and fble values are exact',
  'Converting a 64 bit integer to its fble representation gives the one the core package uses for that number, and converting back gives the same integer. The same holds for characters and strings, where a character the core package does not support becomes a question mark. A program reads exactly the bytes of standard input or of a file it opens, and writes exactly the bytes it means to; files that cannot be opened and variables that are not set are reported as nothing. A stdio program, interpreted or compiled, gets exactly the words of its command line that follow the options, and its result is the exit status: 0 for true, 1 for false, 2 for wrong usage, 3 when it cannot be loaded or hits undefined behaviour.',
  ['inputs'], 'Every 64-bit integer, character and string.',
  'Tests convert a few small numbers and short strings; sign, width and encoding boundaries are not among them.',
  ['pkgs/core/int.fble.c', 'pkgs/core/char.fble.c', 'pkgs/core/string.fble.c', 'pkgs/core/stdio.fble.c'],
  [('integer encoding', 'pkgs/core/int.fble.c'), ('strings', 'pkgs/core/string.fble.c, pkgs/core/char.fble.c')])

p('C18', 'Command line options are parsed exactly as documented',
  'For any list of command line words, each option is recognised exactly in its documented forms and takes its value from the same or the following word as documented; search path options accumulate in order, switches may repeat, a second value for a single valued option is an error, and any other word is left to the program or reported. No word is skipped or read twice, words and their order are not changed, and a missing value is reported as an error without crashing.',
  ['inputs'], 'Every argument vector.',
  'Tests call the tools with a few fixed command lines.',
  ['lib/arg-parse.c', 'bin/fble-compile.c', 'bin/fble-deps.c'],
  [('option parsing', 'lib/arg-parse.c')])

p('C19', 'Variables are reported unused exactly when nothing uses them',
  'A warning for an unused variable or function argument is given once, at its definition, exactly for those that nothing in use refers to and whose name does not start with an underscore, whatever the nesting and shadowing; definitions that are not in use do not count as uses, and nothing inside them is warned about. The analysis accepts every module that parses and does not change it.',
  ['programs'], 'Every nesting of binding forms and references.',
  'Warnings are not examined by any test of the suite.',
  ['lib/unused.c'],
  [('scope walk', 'lib/unused.c FbleWarnAboutUnusedVars')])

p('C20', 'Profile reports and the perf converter account for all samples',
  'For any stack samples in its input, the perf converter produces a report in which each function has the number of samples it occurs in and each caller-callee pair the number it is adjacent in, and it terminates without memory errors on any input. The printed profile lists every block that was used, ordered by time, with the callers and callees recorded in the profile.',
  ['inputs', 'histories'], 'Every input text of the converter, and every profile content of the report.',
  'There is one fixed input file for the converter and reports are compared in no test.',
  ['bin/fble-perf-profile.c', 'lib/profile.c'],
  [('line and stack reading', 'bin/fble-perf-profile.c'), ('report', 'lib/profile.c FbleGenerateProfileReport')])

p('C21', 'Tail calls run in constant space',
  'A loop written as tail calls, through any number of functions, arities, excess or partial arguments and branches of selections, runs in an amount of memory that does not depend on the number of iterations. Collected garbage is returned as the loop goes, so live memory stays within a constant factor of what the loop state reaches.',
  ['programs', 'histories'], 'Every cycle of tail calls and every number of iterations.',
  'Memory tests run a few loops at two fixed sizes.',
  ['lib/value.c', 'lib/interpret.c', 'lib/compile.c'],
  [('tail call', 'lib/value.c TailCall, CompactFrame'), ('tail position', 'lib/compile.c')])

p('C22', 'Build dependency files name exactly the files a build depends on',
  'The dependency file written for a module lists the target and exactly the files that loading it found and read, each once and in the order read, in a form the build tool reads back as those names (for names free of white space and of characters special to the build tool). The lookup of packages by name uses the first directory of the package path that holds it, else the default package directory.',
  ['inputs', 'configurations'], 'Every set of file names, targets and package directories.',
  'Tests check a single dependency file with plain names.',
  ['lib/load.c', 'bin/fble-deps.c', 'lib/arg-parse.c'],
  [('dependency output', 'lib/load.c FbleSaveBuildDeps'), ('package lookup', 'lib/load.c FbleFindPackage')])

p('C23', 'Generated AArch64 assembly behaves exactly as the interpreted program',
  'For every program, the AArch64 assembly that the compiler generates computes the same value, or aborts in the same cases, as interpreting the program does, for all arguments.',
  ['programs', 'inputs'], 'Every program and argument.',
  'The assembly is only exercised on AArch64 machines; here the tests do not run it at all.',
  ['lib/aarch64.c'],
  [('assembly generation', 'lib/aarch64.c FbleGenerateAArch64')])

p('C24', 'Arithmetic and text functions of the core package compute what they document',
  'On all integers, the core package adds, subtracts, multiplies, divides with floored quotient, takes square roots, powers of two, absolute values, minima, maxima and ranges, compares, and converts to and from decimal as documented; on all characters and strings, its classification, codes, comparison, substring tests, concatenation, joining and lines are as documented.',
  ['inputs'], 'Every integer, character and string.',
  'The tests of the package evaluate a few dozen examples.',
  ['pkgs/core/Core/Int.fble', 'pkgs/core/Core/Int', 'pkgs/core/Core/Char', 'pkgs/core/Core/String.fble', 'pkgs/core/Core/String', 'lib/interpret.c'],
  [('arithmetic', 'pkgs/core/Core/Int.fble, pkgs/core/Core/Int/IntP.fble'), ('division', 'pkgs/core/Core/Int/Div.fble'), ('text', 'pkgs/core/Core/String.fble, pkgs/core/Core/Char/Ascii.fble')])

p('C25', 'Collections of the core package behave as lists, maps, sets and queues',
  'After any history of insertions and deletions, a map holds for each key exactly the value last inserted and not since deleted, lists its entries in order of the keys, and combines with another as a union; a set holds exactly its elements; a fifo gives elements in the order they were put. The list functions (append, reverse, map, length, take, drop, first and last parts, sort) give the list they document, for every list. None of them hits undefined behaviour.',
  ['histories', 'inputs'], 'Every list, and every history of operations on a collection.',
  'The tests of the package try a few histories; rebalancing has many cases they do not reach.',
  ['pkgs/core/Core/Map/Map.fble', 'pkgs/core/Core/Set.fble', 'pkgs/core/Core/Fifo.fble', 'pkgs/core/Core/List.fble', 'pkgs/core/Core/List'],
  [('rebalancing', 'pkgs/core/Core/Map/Map.fble Rebalance'), ('list functions', 'pkgs/core/Core/List.fble, pkgs/core/Core/List/Sort.fble'), ('queue', 'pkgs/core/Core/Fifo.fble')])

p('C26', 'The SAT solver answers correctly',
  'For every formula in DIMACS form on its input, the fble-sat program prints unsat exactly if no assignment satisfies the formula, and otherwise an assignment that satisfies every clause; comments are ignored, and input that is not such a formula is reported with a failing exit status. It always ends.',
  ['inputs'], 'Every formula.',
  'The tests of the package solve a few fixed formulas.',
  ['pkgs/sat/Sat', 'pkgs/core/Core', 'lib/interpret.c'],
  [('search', 'pkgs/sat/Sat/Solver.fble'), ('reading', 'pkgs/sat/Sat/Dimacs.fble')])

p('C27', 'The MD5 program computes MD5',
  'For every sequence of bytes in a file or on standard input, the fble-md5 program prints the MD5 digest of it with its name; a file that cannot be read is reported, makes the exit status fail and does not keep the others from being processed.',
  ['inputs'], 'Every message.',
  'The tests hash a few short strings; padding has edge cases at each block boundary.',
  ['pkgs/md5/Md5', 'pkgs/core/Core', 'lib/interpret.c'],
  [('digest', 'pkgs/md5/Md5/Md5.fble'), ('files', 'pkgs/md5/Md5/Main.fble')])

p('C28', 'The games follow their rules',
  'In tic-tac-toe, a move is made exactly on a free square of a game that is not over, the players take turns, the game ends with the right winner or a draw, and the computer plays a move no other move is better than against the best play. A step of the game of life gives exactly the cells alive by its rule, anywhere on the unbounded grid, and worlds are equal exactly if they have the same cells.',
  ['inputs', 'histories'], 'Every sequence of inputs, and every world.',
  'The tests of the package try a few boards and three patterns.',
  ['pkgs/games/Games/TicTacToe', 'pkgs/games/Games/GameOfLife.fble', 'pkgs/core/Core/Map'],
  [('board', 'pkgs/games/Games/TicTacToe/Board.fble'), ('computer', 'pkgs/games/Games/TicTacToe/AI.fble'), ('life', 'pkgs/games/Games/GameOfLife.fble Step')])

p('C29', 'Hardware designs run by their rules, and the adders add',
  'A step of a design applies, in order, each rule whose inputs are there and whose outputs are free and whose cells no rule before it in the step has changed, and changes nothing else. Running an adder on the bits of two numbers and a carry leaves exactly the bits of their sum and the carry out in the places documented.',
  ['inputs', 'schedules'], 'Every design and memory, all operands.',
  'The tests of the package run a few rules, and the adders on a few operands.',
  ['pkgs/hwdg/Hwdg/Design.fble', 'pkgs/hwdg/Hwdg/Adder.fble', 'pkgs/hwdg/Hwdg/Memory.fble'],
  [('step', 'pkgs/hwdg/Hwdg/Design.fble StepInternal'), ('adders', 'pkgs/hwdg/Hwdg/Adder.fble')])

p('C30', 'The two fbld processors agree',
  'For every document the fbld program written in fble accepts it exactly if the fbld program written in C does, and gives the same output; a single error is reported at the same line and column.',
  ['inputs'], 'Every document.',
  'Both are run on the same fifty specification tests.',
  ['pkgs/fbld/Fbld', 'fbld', 'pkgs/core/Core', 'lib/interpret.c'],
  [('parsing', 'pkgs/fbld/Fbld/Parse, fbld/parse.c'), ('evaluation', 'pkgs/fbld/Fbld/Eval.fble, pkgs/fbld/Fbld/Builtin, fbld/eval.c')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
