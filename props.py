#!/usr/bin/env python3
"""The properties, in one place: running this file rewrites properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
I = 'CppLisp/CppLispInterpreter/'

# id, title, statement, (over), quantifier text, why tests cannot, files, [(mechanism, where)], rules, min, technique, rule, note
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, rules, min, technique, rule, note, assume=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, rules=rules,
                      min=min, technique=technique, rule=rule, note=note, assume=list(assume)))


NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))


prop('P01', 'Builtins enforce their documented argument counts and read no missing argument',
     'Every builtin function accepts exactly the argument counts its documented signature allows: a call with fewer or more arguments '
     'is answered with a Lisp error (builtins documented without parameters may ignore extra ones), and a documented count is never rejected. '
     'No builtin reads an argument that the call did not supply.',
     ['programs', 'inputs'], 'every builtin of the default environment, every number of arguments, every argument value',
     'The unit tests call most builtins with one right and at most one wrong argument count; the guarantee is about every builtin and every count.',
     [I + 'Environment.cpp'], [('argument count guards', 'Environment.cpp CheckArgs, CheckOptionalArgs and the Fuel* wrappers'), ('table of builtins', 'Environment.cpp CreateDefaultScope')],
     ['arity'], 600, 'abstract interpretation per argument count (sizes, paths), registry extracted from the source',
     'the table of builtins is extracted by abstractly running the function that builds the default environment; every native function is then '
     'analysed with the argument vector fixed to each size (and once to all larger sizes): it must have a normal exit exactly for the documented '
     'sizes, and every index into the argument vector must be below its size; argument vectors handed to function values must be private to the call',
     'all argument counts and all paths of every registered builtin; values of arguments are unknown; special forms included')

prop('P05', 'Each runtime value owns exactly one copy of its storage, released once',
     'Whatever kind of data a runtime value holds, creating it stores freshly owned storage of that kind, copying it gives the copy its own equal storage of the '
     'same kind, and destroying it releases exactly that storage once. No value shares, leaks or double-frees the storage of another, and none changes its kind after construction.',
     ['inputs', 'histories'], 'every kind of value and every sequence of creation, copying and destruction',
     'Tests copy a few kinds of values and run without leak or lifetime checking; the guarantee is per kind, for every kind and history.',
     [I + 'csobject.h', I + 'csobject.cpp'], [('value with type tag and union', 'csobject.h class object'), ('copy constructor and clean up', 'csobject.cpp')],
     ['ownership'], 100, 'abstract interpretation per type tag of constructors, copy constructor and destructor (ownership typestate)',
     'for every tag: constructors store a fresh allocation in the member of that tag; the destructor with the tag fixed deletes exactly that member once; '
     'the copy constructor with the tag fixed stores a fresh allocation whose members equal the source; no other function writes tag or union; no assignment exists',
     'all tags, all paths; relies on the standard library types copying their content')


prop('P12', 'A script session reads and writes only through its own streams',
     'Everything a script prints, traces or reads during an evaluation goes through the output and input streams that were handed to that evaluation (or to its '
     'scope), never to the process streams directly or to another session. When capturing is enabled, the captured text is exactly what was printed, and a printing '
     'builtin returns the text it wrote.',
     ['programs', 'inputs'], 'every function an evaluation can reach, every path, every stream configuration',
     'Tests compare the output of a few scripts; a stray direct print or a lost capture on a rare path is invisible to them.',
     [I + 'cstypes.cpp', I + 'Environment.cpp', I + 'Lisp.cpp'], [('text writer and reader', 'cstypes.h TextWriter, TextReader'), ('session streams', 'Lisp.cpp Lisp::Eval, Scope.h Output/Input'), ('printing builtins', 'Environment.cpp')],
     ['output'], 400, 'call graph reachability of stream uses, and abstract interpretation of the writer members and of the routing of streams',
     'no function an evaluation can reach refers to a standard stream outside the stream classes; writer members print and capture the same text on every path; '
     'the scope gets the streams of the caller; stream members are called only on the streams of a scope',
     'all functions, call sites and paths; what the C++ library does with the text is out of scope')

prop('P13', 'The table of builtins is consistent',
     'Every builtin name has one meaning, its documentation and signature describe that very name, an argument error names the function that was called, and a '
     'builtin receives its operands unevaluated exactly when the language defines it as a special form.',
     ['programs'], 'every entry of the default environment',
     'Tests look at a few entries; whether each of more than two hundred entries carries the right flag, name, signature and error text is a statement about the whole table.',
     [I + 'Environment.cpp'], [('table of builtins', 'Environment.cpp CreateDefaultScope'), ('documentation of builtins', 'Environment.cpp CreateFunction')],
     ['names'], 900, 'extraction of the builtin table by abstract interpretation, comparison of every entry with the language definition and with the names in its own error sites',
     'names unique; signature starts with the name; flags as the language defines; every constant name passed to an argument guard reached from the native function is a name it is registered under',
     'all entries and all guard call sites')

prop('P20', 'Nothing is read before it has a value',
     'No run of the interpreter depends on an indeterminate value: every object starts with all its scalar and pointer members set, every local is assigned before it is '
     'read on every path, and start-up does not depend on the order in which units are initialised.',
     ['inputs', 'environments'], 'every constructor, every local variable, every global initialiser; every path',
     'An uninitialised value usually happens to be zero in a test run; whether it can be read at all is a question about all paths.',
     [I + 'Scope.cpp', I + 'csobject.cpp', I + 'Token.cpp', I + 'fuel.cpp'], [('constructors', 'all classes of the interpreter and the debugger'), ('globals', 'csobject.cpp, Scope.cpp, Variant.cpp')],
     ['init'], 80, 'definite-assignment dataflow over the control flow graph, constructor member coverage, static initialisation order graph',
     'constructors assign all scalar and pointer members on all paths; no scalar local is read before assignment on some path; no global initialiser reads a global of another unit initialised at start-up',
     'all constructors, locals and globals of the repository')

prop('P37', 'Nothing is used after its lifetime ends, and nothing is lost',
     'No closure, reference or pointer kept by the interpreter outlives what it refers to, and every heap allocation has an owner that releases it completely.',
     ['programs', 'histories'], 'every closure, returned reference, local reference and allocation in the source',
     'A dangling reference or a leak shows up only when memory is reused or a tool watches; tests see neither.',
     [I + 'Environment.cpp', I + 'Lisp.cpp', I + 'csobject.cpp', 'CppLisp/CppLispDebugger/Debugger.cpp'], [('closures of forms', 'Environment.cpp fn_form, setf, nth'), ('debugger ownership', 'Debugger.cpp, fuel.cpp')],
     ['lifetime'], 150, 'escape analysis of closures with reference captures, of references and of allocations',
     'a closure capturing by reference is only called or handed to functions that only call it; no returned reference to own storage; no reference into a dead temporary; every new reaches an owner; '
     'classes deleted through a base have virtual destructors',
     'all closures, reference returns, reference locals and allocation sites')


prop('P16', 'Sessions in one process do not influence each other',
     'Evaluating a script changes only the session it runs in (its scopes, values and streams): no variable shared by all sessions of the process and no process-wide '
     'setting can be changed by an evaluation, so the result of a script never depends on what other sessions did before.',
     ['programs', 'histories'], 'every function an evaluation can reach, every global and static variable',
     'Tests run scripts one after another in fresh interpreters and look at each result; hidden state leaking between sessions needs an exhaustive look at all shared state.',
     [I + 'Variant.cpp', I + 'csobject.cpp', I + 'Environment.cpp'], [('shared constants', 'Variant.cpp g_Empty, csobject.cpp g_Nil, g_EmptyList'), ('settings', 'Variant.h Tolerance, Environment.cpp LispUtils_LibraryPath')],
     ['isolation'], 300, 'alias-following effect analysis of every use of a global or static variable within the call graph of an evaluation',
     'every use of a shared variable is followed through references, iterators, parameters and results: none may be a change; no reachable function calls an operation of the C library that changes process state',
     'all globals, statics and reachable functions; files and the clock are outside')

prop('P04', 'A value is never read as a kind it does not have',
     'Whatever kind of data a runtime value holds, asking it for data of another kind yields a Lisp error or an empty result, never the bytes of the other kind or '
     'a stray pointer. Every question about the kind of a value is true for exactly one kind, and every kind has a type name of its own.',
     ['programs', 'inputs'], 'every accessor of a runtime value, every kind of value, every path',
     'Tests read values as what they are; a wrong read usually looks harmless in a test and must be excluded for every accessor and kind.',
     [I + 'csobject.h', I + 'csobject.cpp', I + 'Variant.cpp'], [('tag and union of a value', 'csobject.h class object'), ('accessors', 'csobject.cpp object::To*'), ('type names', 'csobject.cpp GetTypeName, Variant.cpp TypeString')],
     ['kinds'], 60, 'abstract interpretation of every accessor with an unknown and with each fixed type tag (tag/union discipline)',
     'with an unknown tag no path of a function of the value reads a member of the union unless the tag is one that stores it; with the tag fixed each predicate is true for one tag only and the name tables are injective',
     'all accessors, tags and paths; the correspondence between tag and member is derived from the constructors')

prop('P03', 'Errors of a script surface as Lisp errors, complete and reported',
     'Whatever a script does wrong, the failure surfaces as an error of the interpreter with its message and position data: no foreign exception reaches an embedder or ends the '
     'process, an error passed on keeps its type and data, and every place that takes an error of script code reports its message on an output (Lisp::SaveEval also returns '
     'it as an error value). No error is silently lost.',
     ['programs', 'inputs'], 'every throw, conversion, handler and rethrow in the source; every path through a handler',
     'Tests trigger a handful of errors through one entry; whether a rare failure in a nested function escapes, is sliced or vanishes is a question about all call paths.',
     [I + 'Lisp.cpp', I + 'Exception.h', I + 'Environment.cpp', I + 'Token.cpp', 'CppLisp/CppLispDebugger/Debugger.cpp'],
     [('safe evaluation', 'Lisp.cpp Lisp::SaveEval'), ('function call boundary', 'Environment.cpp fn_form'), ('number recognition', 'Token.cpp *_TryParse'), ('debugger loops', 'Debugger.cpp')],
     ['errors'], 500, 'interprocedural exception-flow analysis over the call graph with handler typing, and must-report dataflow in handlers',
     'the exceptions every function lets out are computed to a fixpoint from throw expressions, throwing library conversions, rethrows and indirect calls minus matching handlers (public bases, in order); '
     'no foreign type may reach a root; handlers of script errors must write text derived from the message or pass the error on with its dynamic type on every path',
     'exhaustion of memory and of the stack are out of scope; out of range positions are P02')

prop('P02', 'No script or input makes the interpreter touch memory outside its data',
     'Every element of a list, vector, string or array the interpreter and its debugger read or write exists: for every script, input text, argument count and debugger command each position used '
     'is inside the container, each iterator that is read refers to an element, and nothing that runs inside a loop over a container changes that container.',
     ['programs', 'inputs'], 'every indexed access, iterator dereference and loop over a container in the source, on every path',
     'A test touches the positions its few inputs lead to, and a read just behind the end often goes unnoticed; that no input leads outside is a question about all lengths and all loop counts.',
     [I + 'Environment.cpp', I + 'Tokenizer.cpp', I + 'Parser.cpp', I + 'Interpreter.cpp', I + 'cstypes.cpp', 'CppLisp/CppLispDebugger/Debugger.cpp'],
     [('argument lists', 'Environment.cpp fn_form, Map, ForEach'), ('text positions', 'Tokenizer.cpp LispTokenizer::Tokenize'), ('reader', 'Parser.cpp LispParser::ParseTokens'), ('expansion', 'Interpreter.cpp EvalAst, ResolveArgsInScopesForward')],
     ['bounds'], 150, 'abstract interpretation of every function with difference bounds on sizes, positions and iterators; alias and effect analysis of loops',
     'every access is an obligation decided on all paths of all functions with unknown callers, unknown values and unknown loop counts; a loop over a container must not reach an effect on it unless the container is private',
     'all index, iterator and loop sites; argv is trusted to have argc elements')

prop('P07', 'Arithmetic on numbers of a script is always defined',
     'For all numbers a script or a user can supply, every arithmetic operation of the interpreter has a defined outcome: no integer division by zero, no overflow of signed integers, no shift by a '
     'count outside the width, and no real number (or NaN) converted to an integer it does not fit in.',
     ['programs', 'inputs'], 'every arithmetic operation and conversion in the source, for all values, on every path',
     'The failing values are single points (the smallest integer, zero, NaN) which tests do not hit, and undefined results often look right in one build.',
     [I + 'Variant.cpp', I + 'Environment.cpp', I + 'csstring.cpp', 'CppLisp/CppLispDebugger/Debugger.cpp'],
     [('operators', 'Variant.cpp LispVariant::operator+ - * / %'), ('conversions', 'Variant.cpp LispVariant::ToInt'), ('shifts', 'Environment.cpp LeftShift, RightShift'), ('positions', 'Environment.cpp Pop, Search, Slice')],
     ['arith'], 8, 'taint analysis of script numbers combined with abstract interpretation (difference bounds) and dominating-guard analysis of real to integer conversions',
     'divisions and shifts are obligations on all paths; signed operations are obligations where an operand can come from a value or text; conversions of reals need dominating comparisons that bound the value and exclude NaN',
     'all operations of the source; the values computed are not checked')

prop('P08', 'Constructs restore the bookkeeping of their session, also after an error',
     'Whatever happens during the evaluation of a form - also when it ends with an error - the state the evaluator steers itself with (the mode in which places are '
     'evaluated, the chain of active calls, the module name, tracing, source tokens, the session\'s streams, the data kept for a function definition, a pending return) is afterwards what it was before, so '
     'that the rest of the session behaves as if the form had not been there, apart from its documented effects. Only an evaluation that is started on a scope sets up module name, tracing, tokens and streams of that scope.',
     ['programs', 'histories', 'faults'], 'every builtin, closure and debugger callback, every path, every point at which an error can be raised',
     'The tests run each construct once in a fresh session; a register left changed shows only in later forms, mostly only after an error at one point of the construct.',
     [I + 'Environment.cpp', I + 'Lisp.cpp', I + 'Interpreter.cpp', I + 'Scope.h', 'CppLisp/CppLispDebugger/Debugger.cpp'],
     [('registers', 'Scope.h class LispScope'), ('constructs that change them', 'Environment.cpp setf_form, RValue, EvalStrFcn, Import, fn_form, defn_form_helper, DumpDocumentation'), ('start of an evaluation', 'Lisp.cpp Lisp::Eval')],
     ['restore'], 1500, 'interprocedural may-change analysis of the registers of a scope over normal and exceptional exits, with recognition of saving, restoring and restoring destructors',
     'the registers are the data members of the scope class; for every function the registers (by access path of the scope) that may differ from their value at the entry are computed for every '
     'normal exit and every operation that can let an exception out (exception sets of the call graph); storing back the saved value or the destructor of a restoring object makes them clean; effects '
     'of callees are mapped through the arguments to a fixpoint. For every builtin, function value, evaluation entry and debugger callback nothing may remain; Lisp::Eval must clear a pending return first',
     'all functions; scopes created by the function itself are exempt; access paths up to length 3; the members Previous and CurrentToken are exempt (not used for control); streams and tracing set up by the interactive debugger loop for its session are exempt')

prop('P06', 'No script and no input makes the interpreter follow a pointer to nothing',
     'Whatever the script, the arguments, the input, the settings of the session and the commands of the debugger are: the interpreter never uses a pointer that points to nothing. A form without a '
     'result, a variable or module that does not exist, a value without content, a missing token, module table or call argument leads to a value (nil) or to a reported error, never to a crash.',
     ['programs', 'inputs', 'histories'], 'every use of a pointer in every function, on every path, for every value the pointer may have there',
     'A crash needs the one combination in which a value is missing (a form without a result as the argument of one construct, a deleted builtin, a replaced table); the tests give every construct proper values.',
     [I + 'Environment.cpp', I + 'Interpreter.cpp', I + 'Lisp.cpp', I + 'Scope.cpp', I + 'Variant.cpp', I + 'Parser.cpp', 'CppLisp/CppLispDebugger/Debugger.cpp', 'CppLisp/CppLisp/FuelMain.cpp'],
     [('values', 'Variant.h LispVariant::Value, csobject.h object'), ('results of evaluations', 'Interpreter.cpp LispInterpreter::EvalAst, Lisp.cpp Lisp::Eval'), ('tables of a session', 'Scope.h LispScope::FindInnerScope')],
     ['null'], 1500, 'abstract interpretation for nullness, interprocedural to a fixpoint over fields, parameters, results and container contents',
     'every function is analysed in its callers or on its own; what parameters, results, out-parameters, fields and values of function types may be null is collected over the whole program to a fixpoint; every '
     'dereference, member call and use of an element must be of a pointer that is not null on any path, with what the tests on the path establish (including "found" results of lookups)',
     'shared, unique and plain pointers; members of the tagged union are P04. Four kinds of places are accepted with a reason in sa/rules/null.py (a loop invariant of the parser, a stack of frames), counted per file and type')

prop('P24', 'Every loop ends, apart from those of the script, also at the end of the input',
     'Reading, evaluating one call, printing, looking something up and every command of the debugger come to an end for every text and every value: no loop of the interpreter can go round for ever, apart from '
     'those a script asks for (while, recursion, macros that expand to macros). When the input of the debugger ends, each dialog and the command loop end as well, they do not ask again and again.',
     ['programs', 'inputs'], 'every loop in the source, for all values and texts',
     'An endless loop needs the one text or answer that a test does not contain, and one that is there shows up as a hanging test, not as a failure; what ends a loop is a relation between its rounds, for all inputs.',
     [I + 'Tokenizer.cpp', I + 'Parser.cpp', I + 'csstring.h', I + 'csstring.cpp', I + 'Interpreter.cpp', I + 'Environment.cpp', 'CppLisp/CppLispDebugger/Debugger.cpp'],
     [('reader', 'Tokenizer.cpp LispTokenizer::Tokenize, Parser.cpp LispParser::ParseTokens'), ('text functions', 'csstring.h do_replace, csstring.cpp string::Split'), ('dialogs of the debugger', 'Debugger.cpp InteractiveLoop, ClearBreakpoints')],
     ['loops'], 40, 'ranking analysis on top of abstract interpretation: for each loop a variable that moves strictly towards something that no round changes',
     'for each loop the states at its head and at its back edges are compared: a position, counter or iterator must move strictly in every round towards a bound that stays; or a text must shrink behind the position of a replacement; or '
     'the loop follows a chain of frames; or, for loops that read lines, there is no further round when the reader has nothing left; "the position handed back is not before the one given" is assumed for all functions and shown for each (greatest fixpoint)',
     'all loops of interpreter, debugger and command line; accepted with a reason and counted per file: while, macro expansion, the loop of the debugger that runs the script again, the loop over evaluated arguments (its list is its own), the chain of frames. Recursion is not covered')

prop('P10', 'Script values change in place only through the builtins made for it',
     'A value that a script holds in a variable, a list or a dictionary stays as it is, whatever functions it is handed to, unless it is handed to one of those that are there to change it (push, pop, dict-set, dict-remove, dict-clear) '
     'or assigned to as a place (setf of first, car, last, nth). These change the one argument they are for; list, cons, append, rest, reverse, map, args and dict-keys make a new list each time. All other functions, and reading, printing, comparing, sorting, mapping, evaluating, stepping in the debugger, leave the values they get as they were.',
     ['programs', 'histories'], 'every function of the interpreter, for all values that can reach it, on every path',
     'Values are shared by reference, so a function that changes its argument shows only in a program that uses the same value again afterwards; the tests look at the result of one call.',
     [I + 'Environment.cpp', I + 'Interpreter.cpp', I + 'Variant.cpp', I + 'csobject.cpp', I + 'cstypes.h'],
     [('builtins', 'Environment.cpp, all functions registered in CreateDefaultScope'), ('places', 'Environment.cpp setf_form, Variant.cpp ToSetterAction'), ('values', 'Variant.cpp, csobject.cpp')],
     ['values'], 100, 'effect analysis by abstract interpretation: all writes to objects that a function has not made itself, mapped along calls',
     'abstract interpretation tells for each write (member, element, key, std algorithm, changing container call) whether the object is fresh; all others are kept with the path from the parameter to the object, and carried from summarised callees to '
     'their callers; a write to a part of a value must start at the argument that the table of changing builtins names, or be inside the setter of a place; setters are called from setf only; what a list-making builtin returns is on every path allocated in the call',
     'all functions reachable from the entry points; accepted with a reason: the mark of an unquoted part. Variable tables (scopes) are not values here')

prop('P14', 'Names mean the innermost variable; only the form for it writes a variable',
     'A name means the variable of the scope it is used in if there is one, else the one of the nearest enclosing function that has it (where the function was defined, not where it is called from), else the global one, else what an '
     'imported module defines. setf changes exactly the variable that the name means there, and fails if there is none; def writes only the scope it is evaluated in and gdef only the global one; no other function of the '
     'interpreter writes to variables of the script (delvar removes one of its own scope, import and the macro forms write their own tables). Each call has a scope of its own in which each parameter has the argument at its position.',
     ['programs', 'histories'], 'every lookup, assignment and call, for all contents of the scopes',
     'Which variable is meant depends on which of several scopes happen to have that name, also on ones that were added after the function was defined; tests use few nested functions with the same names.',
     [I + 'Scope.cpp', I + 'Scope.h', I + 'Environment.cpp', I + 'Interpreter.cpp'],
     [('lookup', 'Scope.cpp LispScope::ResolveInScopes, IsInClosureChain'), ('assignment', 'Scope.cpp LispScope::SetInScopes'), ('calls', 'Environment.cpp fn_form')],
     ['scoping'], 80, 'abstract interpretation of lookup, assignment and calls (which tables are known not to have the name); effect analysis of all writes to variable tables',
     'at each return of the lookup the table that the result is from is found, and the state must prove that each table that comes before does not have the name (same order for the assignment; the search through the enclosing functions by '
     'induction: nearest first, found has it, none left); for functions made by lambda: the scope of the body is fresh, around it is the scope lambda was evaluated in, its global scope that of caller or function, and the indices of name and argument are equal; '
     'writes to tables (P10\'s effect analysis) are compared with the table of what each builtin is for',
     'all builtins and all paths of lookup, assignment and calls. The names of the tables of the interpreter itself (__modules__ and so on) are not protected against the script')

prop('P09', 'Arguments are evaluated once and in order; forms evaluate just their parts',
     'Each argument of a call of a function or ordinary builtin is evaluated exactly once, from left to right, in the scope of the caller, before the function is called; builtins do not evaluate arguments a second time (except apply the '
     'function it is given, and eval the expression it is given). A special form evaluates just what it is for: if its condition once and then exactly one of the two blocks; while the condition before each round and the block only when it is '
     'true; do the statements in order, up to the end or a return; and/or the arguments in order up to the first that decides (and: the first false, or: the first true), which is also the result; def, gdef and setf the value once; quote, lambda and '
     'define-macro nothing; quasiquote exactly the parts that are marked, at any depth.',
     ['programs', 'inputs'], 'every builtin and the evaluator, for all argument lists and all results of the evaluations in it, on every path',
     'A part that is evaluated twice, too early, or although it is not needed shows only if its evaluation has an effect of its own and only for the results that lead there; the tests evaluate mostly constants and variables.',
     [I + 'Environment.cpp', I + 'Interpreter.cpp'],
     [('calls', 'Interpreter.cpp LispInterpreter::EvalAst'), ('forms', 'Environment.cpp if_form, while_form, do_form, bool_operation_form, def_form_helper, setf_form, ProcessQuotedSExpression'), ('ordinary builtins', 'Environment.cpp')],
     ['forms'], 120, 'abstract interpretation of each builtin and the evaluator with ghost state: how often each argument has been evaluated, in which order, with which result',
     'each call that leads to the evaluator is an event; the argument it gets is identified as an element of the argument list; the state carries the number of evaluations of each argument, the next index, and what is known of the truth of the last '
     'result; at each event and at each exit the state must prove the discipline of the form (loops by induction over the index)',
     'the programs inside a form (what a macro expands to, what eval is given) are evaluated by the same evaluator and covered by it')

prop('P15', 'Only the builtins made for it reach files, clock, terminal or processes',
     'What a script can do to the world outside is what the builtins for it are for: only File-WriteAllText writes a file, only File-Exists, File-ReadAllText and import read files, only date-time and tickcount read the clock, only '
     'readline and the debugger read input, only sleep waits; no builtin starts a process, loads a library, removes, renames or creates other files or directories, opens a connection, draws a random number, or asks for an environment '
     'variable other than FUELPATH; reading, parsing and evaluating a program does none of that. File builtins open exactly the file they are given, File-WriteAllText replaces the content by exactly the text given and tells #t only if the text has been written out.',
     ['programs', 'inputs'], 'every builtin and the evaluator, over all calls that can be reached from them',
     'That something is never done cannot be tested; a forbidden effect would be on a path no test takes, or would leave no trace in what a test looks at.',
     [I + 'Environment.cpp', I + 'Interpreter.cpp', I + 'Lisp.cpp', I + 'Parser.cpp', I + 'Tokenizer.cpp'],
     [('builtins', 'Environment.cpp, all functions registered in CreateDefaultScope'), ('files', 'Environment.cpp File_Exists, ReadFileOrEmptyString, WriteTextFile'), ('import', 'Environment.cpp Import'), ('evaluator', 'Interpreter.cpp LispInterpreter::EvalAst')],
     ['effects'], 150, 'effect analysis over the call graph (operations of the system by name and by the header that declares them), abstract interpretation of the file builtins',
     'for each builtin the operations of the system that can be reached over the call graph (calls, virtual targets, functions whose address is taken, lambdas; the evaluator and the debugger stand for themselves) must be among those the language gives it, '
     'and it must reach the one it is for; in the file builtins the text that names the file and the text written are followed back to the argument, and the state of the stream may be asked only when nothing is in its buffer',
     'the standalone program and the debugger (which read scripts, input and libraries) are not scripts')

prop('P21', 'Comparisons and arithmetic agree with each other for all kinds of values',
     'The comparisons < > <= >= = == equal != decide by the values alone: for numbers (integers and doubles mixed) and for texts they are the usual order, everything with a double that is no number is false (except !=), and for values of '
     'any kinds: a < b is b > a, a <= b is b >= a, < implies <=, = is symmetric and != its opposite, symbols and nil equal only themselves, and a comparison that is an error one way round is one the other way round too. The operations + - * / % of two '
     'integers make an integer, with a double a double, + with a text a text, + of lists a list, from the left operand and the right operand in this order; with a list, function or object in place of a number they are errors.',
     ['inputs'], 'all pairs of kinds of values and all relations between their contents',
     'There are 81 pairs of kinds, two orders and eight comparisons, and contents that are equal, less, greater or not a number; the tests have a few pairs for each operator, mostly of like kinds.',
     [I + 'Variant.cpp', I + 'Variant.h', I + 'Environment.cpp'],
     [('comparisons', 'Environment.cpp LessTest, GreaterTest, EqualTest ..., CompareOperation'), ('operators', 'Variant.cpp LispVariant::operator<, operator<=, EqualOp, operator+ ...')],
     ['compare'], 1000, 'abstract interpretation of each comparison for each pair of abstract values (kind and position of the content in an order)',
     'what a comparison can tell of two values is their kinds and how their contents relate; each builtin is run abstractly with the kinds fixed and the contents known only by this relation (contents are opaque terms, comparisons of them are decided by the '
     'relation); the answers must be the ones laid down, and agree with each other over all pairs; for operations the kind of the result and the terms it is made of must be the ones laid down',
     'the accuracy of floating point arithmetic and conversions of texts to numbers are not decided; equality of lists goes element by element and is not unfolded')

prop('P22', 'Dictionary keys are totally ordered: an entry is found under its key only',
     'A dictionary finds an entry exactly under the key it was set with, whatever other keys (numbers, texts, symbols, truth values, nil, lists, functions, objects, doubles that are no number) are set before or after it: the order of the keys is a total order on all values, '
     'keys of different kinds are different keys (1 and "1"), equal values of one kind are one key, and no key is an error. The dict builtins look up the key they are given in the dictionary they are given and store the value they are given.',
     ['inputs', 'histories'], 'all pairs and triples of kinds of keys and all relations between their contents; every use of a dictionary in the dict builtins',
     'A wrong order loses entries only for certain sets of keys in a certain sequence of insertions; tests use one or two keys of one kind.',
     [I + 'Variant.cpp', I + 'csobject.h', I + 'cstypes.h', I + 'Environment.cpp'],
     [('order', 'Variant.cpp std::less<LispVariant>'), ('builtins', 'Environment.cpp DictSet, DictGet, DictRemove, DictKeys, DictContainsKey'), ('container', 'cstypes.h Dictionary')],
     ['keys'], 800, 'abstract interpretation of the comparison of keys for each pair of abstract values; the laws of a total order decided over all triples',
     'the comparison of keys depends only on the kinds and on the relation of the contents; it is run abstractly for each pair (kinds fixed, contents opaque), each answer must be decided, not both ways round, and transitive, as must be "neither before the other", '
     'which must hold exactly for the same key; in the dict builtins dictionary, key and value are followed back to the arguments',
     'left open: whether 1 and 1.0, or a symbol and the text of its name, are one key. A key that is a list counts as the object it is')


prop('P18', 'Cutting a program into tokens loses no character and counts its lines',
     'Every character of a program text is part of a token, a blank between tokens, a delimiter of a string or the backslash of an escape: no text is dropped because of what follows it '
     '(a quote, a string, a bracket, a comment, the end of the text), and the line number a token gets, shown in error messages and used by breakpoints, goes up by one with each line of the text and only with it.',
     ['inputs'], 'every program text, every order of symbols, strings, escapes, quotes, comments and line ends',
     'Tests read well formatted programs; a token glued to the next one, an escape at an unusual place or a comment mark in a string silently changes the program or shifts all line numbers behind it.',
     [I + 'Tokenizer.cpp'], [('tokens', 'Tokenizer.cpp LispTokenizer::Tokenize, ProcessComment, GetRestOfLine')],
     ['reader'], 5, 'abstract interpretation of the tokenizer, its loop divided by the flags and by what is known of the collected text, with ghosts for characters, texts and lines',
     'in each kind of round of the loop each character was put into a collected text or a token, or is a blank outside of a text, a delimiter or a backslash; a text that is set anew or dropped is empty or was handed on; '
     'the line counter grows by the line feeds of the round',
     'all rounds of the loop; inside of a comment and of the character conversions only the amounts are known')


na('P11', 'What is printed reads back as the same value',
   'The text a value is printed with, read again as a program, gives an equal value for numbers, strings, booleans, symbols and lists of them.',
   ['inputs'], 'every value that has a written form',
   'Tests print a few values; escapes, exponents and extreme numbers break it.',
   [I + 'Variant.cpp', I + 'Tokenizer.cpp'], [('printing', 'Variant.cpp ToString'), ('reading', 'Tokenizer.cpp, Token.cpp')],
   'It relates two runtime texts through formatting and number parsing of the C++ library; no static rule over the source in reach decides equality of the results.')

na('P19', 'Arithmetic gives the result the mathematics says',
   'For all numbers the arithmetic builtins yield the sum, difference, product, quotient and remainder up to the rounding of the number type, with integers staying integers where they fit.',
   ['inputs'], 'every pair of numbers', 'Tests try small numbers; overflow and mixed kinds are where it goes wrong.',
   [I + 'Variant.cpp', I + 'Environment.cpp'], [('operators', 'Variant.cpp operator+ operator-')],
   'The accuracy of a result is a fact about runtime numbers (rounding, overflow of 64 bit integers); the parts with a static core are decided elsewhere: kinds and undefined operations by P03 and P06, comparison by P21.')

na('P25', 'Deep nesting ends in an error, not in a crash',
   'A program nested or recursing arbitrarily deep, or calling itself without end, is answered by a Lisp error and never exhausts the native stack.',
   ['inputs', 'programs'], 'every depth of nesting of program texts, lists and calls', 'Tests nest a few levels.',
   [I + 'Interpreter.cpp', I + 'Parser.cpp'], [('recursion', 'Interpreter.cpp EvalAst, Parser.cpp ParseTokens')],
   'The interpreter is recursive by design and bounds no depth; how deep the native stack reaches is a runtime quantity of the platform, not of the source.')

na('P26', 'Programs that end in theory end in practice',
   'Evaluation makes progress: a program whose loops and recursion end by their Lisp meaning ends, in time proportional to the steps it makes.',
   ['programs'], 'every program', 'Tests have small programs and no time limits that mean anything.',
   [I + 'Interpreter.cpp', I + 'Environment.cpp'], [('loops', 'Environment.cpp while_form, Interpreter.cpp EvalAst')],
   'Whether the loop of the evaluator ends depends on the Lisp program it runs (undecidable) and its cost on runtime sizes; the loops of the builtins over their own data are covered by P24.')

na('P27', 'A macro expands to what its definition says',
   'Evaluating a macro call equals evaluating the text obtained by putting the argument expressions into its body, at whatever depth and in whatever order macros are defined and nested.',
   ['programs'], 'every macro definition and call', 'Tests expand a dozen macros.',
   [I + 'Interpreter.cpp'], [('expansion', 'Interpreter.cpp ExpandMacros, ReplaceFormalArgumentsInExpression')],
   'Compares the values of two runtime programs; the static parts (a macro is never called as a function, arguments are not evaluated early) belong to P04, P09 and P14.')

na('P28', 'The text builtins compute what their documentation says',
   'search, slice, replace, trim, split, upper and lower case, format and parsing yield the text or number that is documented for every text, position and length.',
   ['inputs'], 'every text, pattern, position and length', 'Tests use a few short texts.',
   [I + 'Environment.cpp', I + 'csstring.cpp'], [('texts', 'Environment.cpp StringFct, csstring.cpp string')],
   'The result is a function of runtime texts computed by library calls; static rules here decide only that positions and lengths stay inside of the text (P07) and that no loop runs away (P24).')

prop('P29', 'Steps and breakpoints of the debugger stop where they say',
     'Before every call of a function the evaluator asks the debugger, if there is one, and hands over to it when it wants to stop. It stops if and only if a step ends here or a breakpoint is hit, and a stop ends the step. '
     'After step the next call stops, after step over the next one that is not deeper, after step out the next one that is less deep, after run only breakpoints. A breakpoint is hit exactly at its line and module, if its condition is '
     'empty or holds there, whatever other breakpoints exist.',
     ['histories', 'programs'], 'every sequence of debugger commands, every call depth, every set of breakpoints', 'Tests run a few scripted sessions with one breakpoint; two breakpoints at a line, deeper calls or a failing condition are not in them.',
     ['CppLisp/CppLispDebugger/Debugger.cpp', I + 'Interpreter.cpp'], [('stepping', 'Debugger.cpp LispDebugger::NeedsBreak, DoStep, DoStepOver, DoStepOut, DoRun, HitsBreakpoint'), ('question', 'Interpreter.cpp LispInterpreter::EvalAst')],
     ['stepping'], 12, 'abstract interpretation of the question, the commands with the closures they leave behind, the loop over the breakpoints and the evaluator',
     'at every exit the answer equals flag and condition or hit, and the flag is right; the closure a command leaves compares the depth of the asking scope with that of the command in the right way; each round of the loop over the '
     'breakpoints either stops at a match or passes over one that does not match or whose condition does not hold; on every path to a call in the evaluator the debugger was asked and its answer followed',
     'all paths of these functions; the result of a condition, the comparison of module names and the depth of a scope are taken as they are')


na('P17', 'A debugger or a trace does not change what a program computes',
   'A program gives the same values and output (without the trace itself) whether it runs with tracing, with a debugger that only runs and steps, or without both.',
   ['programs', 'histories'], 'every program, every debugger session that only looks', 'Tests compare nothing between runs with and without.',
   ['CppLisp/CppLispDebugger/Debugger.cpp', I + 'Interpreter.cpp'], [('evaluation in the debugger', 'Debugger.cpp InteractiveLoop')],
   'The debugger evaluates expressions of the user and conditions of breakpoints in the scopes of the program, which may change anything; that looking alone changes nothing relates two runtime histories. The parts with a static core are decided by P20 (scopes are restored) and P29.')


def load(R=None):
    return {p['id']: (p['rules'], p) for p in PROPS}


def main():
    from json import dumps
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(PROPS + NA, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['title']
            f.write(dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                           'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                           'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 sa/prog.py', 'checks': [], 'not_applicable': []}
    for p in sorted(PROPS, key=lambda p: p['id']):
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 sa/check.py ' + p['id'], 'thorough_cmd': 'python3 sa/check.py %s --thorough' % p['id'],
                            'technique': p['technique'], 'level': 'other', 'level_note': 'static analysis: ' + p['note']})
    for p in sorted(NA, key=lambda p: p['id']):
        m['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    design()


def design():
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    mark = '<!-- generated by props.py from here -->\n'
    s = s[:s.index(mark) + len(mark)]
    fs = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    seeds = {}
    for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        mt = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
        seeds.setdefault(mt['property'], []).append((d, mt))
    s += '\n## Properties\n'
    for p_ in sorted(PROPS, key=lambda p: p['id']):
        s += '\n### %s %s\n\n%s\n\n' % (p_['id'], p_['title'], p_['statement'])
        s += '* Technique: %s.\n* Rule (`%s`): %s.\n* Covers: %s.\n* Beyond tests: %s\n' % (p_['technique'], '`, `'.join('sa/rules/%s.py' % x.split(':')[0] for x in p_['rules']), p_['rule'], p_['note'], p_['why'])
        for f in fs:
            if f['property'] == p_['id']:
                s += '* Finding, %s\n' % (f.get('text') or f['key'])
        for d, mt in seeds.get(p_['id'], ()):
            s += '* Planted bug `%s` (needs %s): caught.\n' % (d, mt['needs']) if d not in MISSED else '* Planted bug `%s` (needs %s): not caught; %s\n' % (d, mt['needs'], MISSED[d])
    s += '\n## Not applicable\n\n'
    for p_ in sorted(NA, key=lambda p: p['id']):
        s += '* **%s %s**: %s\n' % (p_['id'], p_['title'], p_['reason'])
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(s)


MISSED = {}


if __name__ == '__main__':
    main()
