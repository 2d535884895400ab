import json
C='src/wizard/contexts/contexts.py'; K='src/wizard/contexts/keywords.py'; F='src/wizard/contexts/factory.py'
E='src/wizard/expr.py'; V='src/wizard/value.py'; FN='src/wizard/functions.py'; R='src/wizard/runner.py'; S='src/wizard/scriptrunner.py'
U='src/wizard/utils/__init__.py'; M='src/wizard/utils/mappings.py'; ES='src/wizard/utils/error_strategy.py'; SV='src/wizard/severity.py'
ST='src/wizard/state.py'; T='src/wizard/tweaks.py'; ER='src/wizard/errors.py'; MG='src/wizard/manager.py'; I='src/wizard/interpreter.py'
G='src/wizard/antlr4/wizardParser.py'; L='src/wizard/antlr4/wizardLexer.py'
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    assert len(title)<=80,title
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
RUN=['WizardScriptRunner.run() result and callbacks']
p('C01','Operators compute what the language defines, with its precedence',
 "Evaluating any expression built from literals, variables and the operators (arithmetic, comparison, case-insensitive comparison (of the lower-case forms), logical, unary, parentheses) gives the value and the type that the language defines, grouping operators by the grammar's precedence and associativity (`^` is left-associative, `or` binds tighter than `and`, unary minus and not bind tighter than indexing and every binary operator). The logical operators always evaluate both operands, left to right, and always give a boolean.",
 ['inputs'],'every well-typed expression tree, however deep, with minimal or redundant parentheses, over every value of its variables',
 'test_expr samples about a hundred fixed expressions with at most two or three operators; precedence between every pair of operators and results over all operand types are not reachable that way.',
 [E,V,G],[('one visitor method per grammar alternative',E),('typed operators on Value',V)],['variables and values after evaluation'])
p('C02','Operators reject operands of the wrong types, and only those',
 "For every operator and every pair of operand types (bool, int, float, string, void, sub-package, sub-packages), evaluation gives a value when the language allows the combination (booleans count as integers except for unary minus; strings only add to and compare with strings) and otherwise raises a type error, never another exception and never a value of a wrong type. A compound assignment follows the same rules as its operator.",
 ['inputs'],'every operator (including compound forms, indexing, slicing and containment) applied to every combination of operand types and values',
 'The tests check a dozen type errors; the table of operators by operand types has several hundred cells.',
 [V,E,C],[('isinstance guards in Value operators',V),('TypeError to WizardTypeError conversion in visitExpr',E)],['value or error class of one expression'])
p('C03','String literals denote exactly the characters written',
 "A quoted string literal evaluates to exactly its characters, whatever they are (any Unicode, newlines, the other quote), with the escapes \\\\ \\a \\b \\f \\n \\r \\t, octal, \\xHH, \\uHHHH and \\UHHHHHHHH replaced by the character they denote. A backslash that starts no complete escape is dropped and the characters after it are kept; an escaped backslash never takes part in another escape.",
 ['inputs'],'every literal body over all of Unicode and every sequence of well-formed, malformed and truncated escapes, with either quote',
 'The tests use a handful of ASCII literals; interactions of escapes with each other and with non-ASCII text need every combination.',
 [E,L],[('bad-escape removal and unicode_escape decoding in visitString',E)],['value of the literal'])
p('C04','Indexing, slicing and containment agree with the sequence they denote',
 "Indexing a string or the sub-packages list, and slicing a string with any combination of start, end and step (negative and out-of-range included), give what the same operation on the sequence gives; an index out of range is an index error carrying that index, indexing a sub-package indexes its name. `x in SubPackages` and `x in subpackage` are true exactly when a name, respectively a file, equals x, ignoring case (comparing the lower-case forms) exactly when the trailing colon is given.",
 ['inputs'],'every string and sub-package list, every integer index and slice bound (omitted, negative, beyond the ends), every name in any case',
 'The tests use a few fixed strings and bounds; off-by-one and omitted-bound errors show only for particular combinations.',
 [V,E],[('Value.__getitem__, slice and contains',V),('visitSlice locating the optional bounds',E)],['value or error of the expression'])
p('C05','String and conversion functions follow their specification on all inputs',
 "str, int, float, len, startswith, endswith, lower, find and rfind give the documented result for every argument, called as functions or as string methods (with the same result): any number of prefixes or suffixes, optional start and end of find (an end of -1 being the end of the string), and the neutral value (0, False, -1 or the value itself) when the argument has the wrong kind. Calling them with too few or too many arguments is a type error, and calling an unknown function or method is a name error.",
 ['inputs'],'every function, every number of arguments, every argument type and value, both call syntaxes',
 'The tests call each function once or twice with convenient arguments.',
 [FN,E],[('wrap_function argument checking',FN),('WizardFunctions implementations',FN)],['value or error of the call'])
p('C06','Manager queries reach the manager with exactly the script\'s arguments',
 "Each game or file query (CompareGameVersion, CompareSEVersion, CompareGEVersion, CompareWBVersion, GetPluginLoadOrder, GetPluginStatus/GetEspmStatus, GetFilename, GetFolder, DataFileExists) calls the corresponding manager method exactly once per evaluation, in evaluation order, with exactly the arguments of the script (an omitted optional argument is omitted), and its value is what the manager returned. With a wrong number or type of arguments, a type error is raised and the manager is not called.",
 ['inputs','programs'],'every query, argument list (count, types, values, any number of files for DataFileExists) and nesting of queries in expressions, and every answer of the manager',
 'The tests call each query once with one correct argument list.',
 [FN,S,MG],[('make_manager_functions table',FN),('wrap_function optional and variable arguments',FN)],['calls received by the manager'])
p('C07','Variables hold the last value assigned to them',
 "After any sequence of assignments, compound assignments, increments and decrements (prefix and postfix, both giving the updated value, also nested in expressions), each variable holds the value, with its type, that executing them in order gives; names are case-sensitive. Reading a variable never set gives 0 and one warning, while a compound assignment, increment or decrement of one is a name error.",
 ['programs'],'every straight-line program over several variables of every type, with side effects nested in the expressions of any statement',
 'The tests check single assignments; lost or duplicated updates appear in sequences and in side effects nested in other statements.',
 [C,E,ST],[('assignment and compound assignment contexts',C),('_visitIncDec',E)],['final variables'])
p('C08','Branches and loops execute exactly the statements they should',
 "If/Elif/Else runs the body of the first condition that is true and evaluates no condition after it; For ranges include both ends in either direction with the given step, For-in visits every file, sub-package or character in order, and the loop variable stays set afterwards; While re-evaluates its condition before every iteration. Break leaves the innermost enclosing loop or select and Continue goes to the next iteration of the innermost enclosing loop, from any nesting of other statements; outside of one they are errors.",
 ['programs'],'every nesting of If, For, While, Break and Continue with other statements, for all bounds, steps and values',
 'The tests run a few fixed loops; combinations of nested loops, selects, Break and Continue are unbounded.',
 [C],[('If, For, While, Break and Continue contexts',C)],['order of effects and final variables'])
p('C09','Select statements offer the right options and run the matching cases',
 "SelectOne and SelectMany ask the user once with the description, the options (name, description, image or none when blank) and the defaults (options marked with `|`, the first option when SelectOne has none, the first marked one with an issue when it has several). Then cases are run in order: a case runs when its label equals a selected option or when the previous body that ran did not Break, Default runs after the cases when none matched or by falling through, SelectMany goes on to later matching cases after a Break while SelectOne stops.",
 ['programs'],'every select with any number of options, markers, labels (repeated, missing, computed), Break positions and every user answer',
 'The tests try a few answers on fixed selects; matching depends on the combination of answers, labels, Break and fallthrough.',
 [C,MG],[('parse_select_options',C),('WizardSelectCasesContext.exec_',C)],['selectOne/selectMany calls and executed cases'])
p('C10','A script ends with the right status, message and state',
 "Cancel ends the script with the cancel status after calling cancel() (its message available, or none), Return with the return status and the end of the script with the complete status after calling complete(), from any nesting depth. No statement after it runs, and the reported state has exactly the effects of what ran before.",
 ['programs'],'every placement of Cancel and Return in nested branches, loops, selects and executed strings',
 'The tests place Cancel and Return at the top level or in one fixed position.',
 [C,S],[('WizardTerminationContext',C),('termination handling in run()',S)],RUN)
p('C11','Exec behaves as if the executed script were written in place',
 "Running Exec(s) has the same effects, callbacks, user choices and result as having the statements of s in place of the call, wherever the call is and however s is computed, including control flow in s that refers to enclosing loops (Break, Continue) or ends the script (Return, Cancel). Effects of computing s are kept; Exec in an expression is a name error and Exec of anything but one string is a type error.",
 ['programs'],'every program and every sequence of its statements moved into an Exec string, nested to any depth',
 'The tests run two or three fixed Exec strings.',
 [C,E,U],[('WizardExecContext and top-level context with an enclosing parent',C)],RUN)
p('C12','Contexts are immutable: re-executing one replays the same run',
 "Executing a context, selecting an option on it, or anything done to the contexts that follow never changes that context nor its state: whenever a context obtained earlier is executed again, in any order and any number of times, it gives the same next states, and continuing from it gives the same run for the same choices and different choices do not influence each other.",
 ['histories','programs'],'every program and every history of execute, select and go-back operations over all contexts reached so far',
 'The tests rewind once in fixed scripts; leaks of state between copies need re-execution from arbitrary points after arbitrary other runs.',
 [C,F,R,ST,K],[('copy_context / copy_parent',F),('state copy()',R)],['state of every context reached'],[('context state','variables and runner effects before the context','src/wizard/contexts/contexts.py')])
p('C13','The runner protocol: answers, rewind, abort and errors are honoured',
 "During run(), calling rewind(context) from any callback (selectOne, selectMany, a manager query, error, cancel, complete) resumes from exactly that context and its state, as if nothing after it had happened, and abort() behaves as a Cancel at that point; an exception raised by a callback is an error of the statement being executed. If error() returns, run() gives the error status with the state before the failing step; when cancel(), or complete() for a Return, gives False, the script continues after that keyword.",
 ['histories','fault_sequences'],'every program and every sequence of callback behaviours (answer, rewind to any earlier callback, abort, raise, return False) up to the length of the run',
 'The tests never abort and rewind in one or two fixed scripts.',
 [S,C],[('run() loop with RewindFlow and CancelFlow',S)],RUN)
p('C14','The selection of sub-packages and plugins follows the keywords',
 "After any sequence of SelectSubPackage, DeSelectSubPackage, SelectPlugin, DeSelectPlugin, SelectAllPlugins, DeSelectAllPlugins, SelectAll and DeSelectAll (and the Espm spellings), the result lists exactly the sub-packages and plugins selected and not deselected since, each once, sorted by name without regard to case. Names are matched ignoring case; selecting a sub-package selects its plugins, deselecting it keeps them; SelectAllPlugins selects exactly the plugins of the selected sub-packages; and naming something that does not exist changes nothing and raises the corresponding issue; the keyword visitor's lists of sub-packages and plugins that can be selected are always those given, each plugin once.",
 ['histories'],'every set of sub-packages (also sharing plugins or with none) and every sequence of the keywords with names in any case, existing or not',
 'The tests run short fixed sequences on one set of sub-packages.',
 [R,V],[('WizardRunnerKeywordVisitor',R),('case-insensitive names',V)],['state.subpackages and state.plugins'])
p('C15','Plugin renames reflect the last rename or reset of each plugin',
 "After any sequence of RenamePlugin, ResetPluginName and ResetAllPluginNames (and Espm spellings), the renames map each plugin renamed and not reset since to its last new name; plugins are identified without regard to case, and resetting a plugin that is not renamed changes nothing.",
 ['histories'],'every sequence of rename and reset keywords over names in any case',
 'The tests rename and reset one plugin once.',
 [R],[('visitRenamePlugin / visitResetPluginName / visitResetAllPluginNames',R)],['state.renames'])
p('C16','Notes and INI tweaks record every request, in order and unaltered',
 "The notes are the texts of the executed Note statements in order (non-strings converted, with an issue), and the tweaks are the executed EditINI and DisableINILine calls in order with their file, section, setting, value (of any type) and comment (empty when omitted). tweaks.files() lists the files sorted, each once; tweaks.tweaks(file) gives the modified then the disabled settings of that file whatever its case; the tweaks are true exactly when there is one.",
 ['histories'],'every sequence of Note, EditINI and DisableINILine with any argument values, inside any control flow',
 'The tests record a few tweaks in fixed order.',
 [R,T,K],[('visitEditINI / visitDisableINILine / visitNote',R),('WizardINITweaks',T)],['state.notes and state.tweaks'])
p('C17','Issues are allowed, warned about or raised as configured, per interpreter',
 "For each issue (unset variable, several defaults in SelectOne, non-string Note, missing sub-package or plugin), its own severity if set and otherwise the default severity decides: ERROR raises the corresponding error, WARNING calls warning() once per occurrence and goes on, ALLOW goes on silently; going on has the same effects under WARNING and ALLOW. Settings apply from when they are made, and only to the interpreter they were made on.",
 ['configurations','histories','programs'],'every assignment of severities to issues and the default, set in any order on any number of interpreters, and every program raising issues',
 'The tests set one or two severities and never use two interpreters at once.',
 [SV,E,C,K,R],[('SeverityContext.raise_or_warn',SV)],['warnings, errors and final state'],[('severities','issue to severity','src/wizard/severity.py')])
p('C18','Errors are of the right class, at the right place and leave no partial effect',
 "When a step fails, the error is a wizard error of the class of the fault (type, name, index, parse, missing package or plugin), its line and column are those of the start of the offending expression or statement in the script, and the state reported is the one before the failing step, with every earlier effect kept. Name, index and missing package or plugin errors tell the name or the index that is not there. Inserting lines before the fault shifts the line by exactly that many and changes nothing else.",
 ['programs','inputs'],'every program with a fault of every class planted at every position, in any layout',
 'The tests check the class of a few errors, a position for almost none, and the state for none.',
 [ER,E,C,K],[('WizardError.line / column',ER),('visitExpr and wrap_exceptions conversions',E)],RUN)
p('C19','Layout, comments and keyword spellings do not change a script\'s meaning',
 "Replacing the spaces between tokens by any other spaces, tabs, newlines, line continuations or comments (or by nothing where tokens stay apart), adding or removing the optional comma after the options of a select, choosing the other quote or redundant parentheses, and choosing either spelling of keywords and operators with two (Plugin/Espm, and/&, or/|, not/!) gives the same run: same callbacks, result and state.",
 ['programs','inputs'],'every program and every choice of layout and spelling for it',
 'The tests have one layout per script.',
 [L,G,K],[('skipped whitespace and comments',L),('keyword aliases',K)],RUN)
p('C20','A syntax error is raised only if execution reaches it',
 "A broken statement that starts like a statement and that no single added or removed token can repair (nor the rest of its block be taken for its end) does not prevent the rest of the script from being read: as long as the execution does not reach it, because it lies in a branch, loop body or case that is never entered or after the end of the execution, the script runs as if that statement were valid. A script that reaches it has run all of the statements before it, then stops with a parse error and keeps their effects.",
 ['programs','inputs'],'every program with such broken statements at every position, reached or not',
 'The tests try three fixed broken scripts.',
 [ES,C,E,U],[('WizardErrorStrategy.recover',ES),('exec() and visitExpr checking the recorded exception',C)],RUN)
p('C21','Any text is handled: a script ends with a result or a wizard error',
 "For any text whatsoever (nested within the limits of the Python stack), reading it as a script gives a context or a parse error, and each step of its execution ends, with a next context or with an error that is a wizard error telling its line and column, or one of the documented arithmetic and conversion errors of the values themselves (division by zero, overflow, a conversion of unconvertible text, a zero step). The parser and the interpreter never fail with an internal error, and the same text gives the same outcome each time, stepping or running.",
 ['inputs'],'every character string: arbitrary Unicode, token sequences, and mutated, truncated and spliced valid scripts',
 'The tests only use well-formed scripts and three malformed ones.',
 [ES,C,E,ER,U,G],[('wrap_exceptions',  'src/wizard/contexts/utils.py'),('WizardErrorStrategy',ES)],['outcome of make_top_level_context() and of execution, str(error)'])
p('C22','A script means the same whatever source it is read from',
 "Running a script given as a string, an ANTLR input stream, a text file object, a binary file object or a path gives the same outcome, with errors at the same places, for ASCII text and for any Unicode text stored in UTF-8 (with a byte order mark or not) or in UTF-16 with a byte order mark. An empty source is an empty script. (ASCII text with the escape sequences of a 7-bit encoding is ambiguous when read as bytes, and not covered.)",
 ['inputs','configurations'],'every script text and every kind of source and encoding above',
 'The tests read a few ASCII files.',
 [U],[('make_parse_wizard_context',U)],RUN)
p('C23','Sub-package and plugin names compare, sort and hash without regard to case',
 "Sub-packages and plugins compare with each other, and with plain strings on either side, by case-folded name: the comparisons form a total order consistent with equality, equal ones are found in lists, and equal sub-packages or plugins have the same hash and find each other in sets and mappings. The original spelling is kept for display. Comparing with anything else is a type error.",
 ['inputs'],'every pair and triple of names, over all of Unicode, as objects or strings on either side',
 'The tests never compare names directly.',
 [V],[('CaseFoldNamedObject',V)],['comparison operators, hash, str'])
p('C24','A stacked mapping is its parent overlaid with its own changes',
 "After any sequence of sets, deletions and reads on a chain of stacked mappings, each shows its parent's current items, minus those deleted from it and not set since, plus those set on it; length, iteration, membership, equality and missing-key errors agree with that view, and no operation on a mapping changes its parent.",
 ['histories'],'every history of mapping operations on chains of any depth, including changes to parents made after the children',
 'No test covers it.',
 [M],[('StackMutableMapping',M)],['mapping interface'])
p('C25','Runs and interpreters do not influence each other',
 "Running a script gives the same outcome whatever (well formed or not) was run before on the same runner, or is executed step by step in between on the same or other interpreters, or is run by its callbacks on other ones; a copied state is equal to the original and changing one afterwards never changes the other; the sub-packages given to an interpreter are never modified.",
 ['histories','schedules'],'every sequence and interleaving of runs of programs over one or several interpreters, and every sequence of changes after a state copy',
 'The tests use a fresh interpreter for each script.',
 [ST,R,SV,FN,S],[('state copy()',R),('no module-level mutable state',FN)],['outcomes and states'])
p('C26','Every way of driving the interpreter gives the same execution',
 "Executing contexts one at a time, exec_until() with any set of target context types, and run() with the equivalent callbacks all execute the same statements and end in the same state (selects that nobody answers keep their defaults); exec_until() stops exactly at the first context of a target type, or the termination, returning at once if already on one.",
 ['programs','configurations'],'every program and every set of targets',
 'The tests compare no two drivers.',
 [I,S,C],[('exec_until',I),('run',S)],['sequence of stops and final state'])
p('C27','RequireVersions passes the required versions to the manager',
 "Each executed RequireVersions calls requiresVersions() exactly once with the game version and the script extender, graphics extender and wrye bash versions given, with None for each that is omitted or empty, its arguments being evaluated once and in order; without any version or with more than four it is a type error and the manager is not called.",
 ['programs','inputs'],'every list of version arguments (any count, empty or not, computed with side effects) in any program',
 'The tests call it with one full argument list.',
 [K,S],[('WizardRequireVersionsContext',K),('WizardScriptRunnerKeywordFactory',S)],['calls of requiresVersions'])
p('C28','Contexts tell where the execution is and what it is about to do',
 "Each executed statement is seen as one context of its own class, at the line and column of the statement, with the state before it, and whose chain of parents leads through the enclosing loops and selects to the top-level context; select contexts expose the description, options and defaults computed by the script, a Cancel its message, a RequireVersions its versions. During the callbacks of a run, context() is the context being executed.",
 ['programs','histories'],'every program and every sequence of answers, at each of its steps',
 'The tests look at contexts in one short script only.',
 [C,I,S],[('contexts and their parents',C),('WizardScriptRunner.context()',S)],['class, place, parents, state and properties of contexts'])
p('C29','Functions, methods, keywords and states of the host behave as built-in ones',
 "Functions and type methods the host puts in the mapping, visitXxx methods of its expression visitor, its keyword visitor, and its state subclass take part in any script as the built-in ones do: called once per evaluation and in order with the evaluated arguments and the current state, their changes to the state and their results kept, their replacements of basic functions effective; a TypeError or IndexError of theirs becomes the wizard error of the call, any other exception passes unchanged.",
 ['programs','inputs','faults'],'every program that mixes calls of host functions of any outcome with any other feature',
 'The tests define no function, method, keyword or state of a host.',
 [E,K,FN,I],[('visitFunctionCall and visitDotFunctionCall',E),('WizardKeywordVisitor',K),('state copy()',I)],['calls received by the host, their arguments and states, outcome'])
p('C30','Values used from Python obey the same semantics as in scripts',
 "The operators, comparisons, indexing, slicing and membership of Value objects give what the same operators give in scripts, or a TypeError or IndexError where those are errors, and never change their operands; == and != between values, and with plain Python values, hold exactly when both type and value are the same; the truth, type and voidness of a value are those of what it holds.",
 ['inputs','histories'],'every history of operations over any pool of values of every type, results being reused as operands',
 'The tests use a few operators on a few values.',
 [V],[('Value',V)],['results and exceptions of operators; operands afterwards'])
p('C31','A host that implements only the documented methods gets correct runs',
 "A runner that implements only the required methods runs any script as the language says: options equal to the ones offered (the same, rebuilt, of a subclass, in any sequence type) select them, warnings are harmless, cancel and complete end the run, and the default error() makes run() raise the very exception of the script, the runner being usable again afterwards; interruptions of Python (KeyboardInterrupt and the like) in a method of the host leave run() as they are, without a call of error(). Options are equal exactly when name, description and image are.",
 ['programs','configurations','faults'],'every program, with any way to answer, with or without calling the inherited methods, after any earlier outcome',
 'The tests override nearly every method and answer with the given options.',
 [S,C],[('WizardScriptRunner',S),('SelectOption',C)],['outcome of run(), exception, callbacks'])
p('C32','Context factories and contexts of the host take part in every execution',
 "Every context of an execution, apart from the top-level ones of scripts, comes from the make_xxx_context method of the host's factory for its statement, or from copy_context of a context that did: contexts that the host's factory replaces by its own are executed once each time they are reached, in order, keep their class and attributes when copied, and what they change in the state is kept; a factory that gives the parent for a kind of statement leaves these statements out and nothing else changes.",
 ['programs','configurations'],'every program, under factories that replace every kind of context, and leave any kinds of statements out',
 'The tests use the default factory only.',
 [F,C],[('WizardInterpreterContextFactory',F),('exec_ of contexts',C)],['contexts obtained, their class, attributes and chain of parents, order of executions, final state, callbacks'])
p('C33','The text of an error tells what is wrong and where',
 "str() of every error of the wizard is 'Line L, Column C: ' and its message, L and C being its line and column, those of a token of the script it is in (-1 when it has no context), and the message is never empty. Name and missing package or plugin errors quote the name as the script has it, index errors tell the index, which is an integer or None; parse errors quote the exact input that is wrong on one line, line ends and tabs escaped, <EOF> for the end of the script, and are not placed after it. The text of an error is the same whenever it is asked for, and each time the script is run, whatever was run in between.",
 ['inputs','faults'],'every script, valid or not, and every error a host builds',
 'The tests look at no text of an error.',
 ['src/wizard/errors.py','src/wizard/contexts/utils.py'],[('WizardError.message, str()','src/wizard/errors.py'),('wrap_exceptions, check_exception','src/wizard/contexts/utils.py')],['str(), message, line, column, name, index of errors'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
