NA = []
prop('N01', 'Exact integer arithmetic is never silently wrong',
     'For every pair of 64-bit exact integers, addition, subtraction, multiplication, comparison, negation and absolute value yield the mathematically correct value whenever it is representable. No arithmetic operation applied to a non-number ever produces a number, and no combination of number operands terminates the process.',
     ['inputs'], 'all pairs (triples for folds) of 64-bit integers, and every kind of non-number operand at every position',
     'Unit tests sample a handful of small operands; overflow boundaries and wrong-typed operands form a 2^128 space that only symbolic reasoning covers.',
     ['number.cc', 'eval.cc'], [('+ - * and comparisons', 'number.cc'), ('argument evaluation', 'eval.cc')], ['evaluating arithmetic expressions through the public evaluation API'])
prop('N02', 'Integer division obeys the division law for every operand pair',
     'For all integers a and non-zero b with a representable quotient, quotient, remainder and modulo satisfy a = b*q + r, with the sign of the remainder following a and that of the modulo following b, and gcd/lcm divide and are divided as they should. Division by zero is a reported error and never a crash.',
     ['inputs'], 'all pairs of 64-bit integers (gcd and lcm: smaller ranges)', 'The sign cases and the extreme values (most negative integer, divisor -1 or 0) are points in a space the tests sample at a few small numbers.',
     ['number.cc'], [('quotient remainder modulo', 'number.cc'), ('gcd lcm', 'number.cc')], ['evaluating division expressions'])
prop('N03', 'Numeric predicates, min/max and rounding agree with the value of the number',
     'For every number, the type, sign and parity predicates, min, max, abs and the rounding operations agree with its mathematical value, including integers beyond 2^53 and every finite real. Mixed exact/inexact comparison follows the numeric value.',
     ['inputs'], 'all 64-bit integers and all finite doubles within the stated bounds', 'Parity of big integers, halves in rounding and mixed exact/inexact operands are edge values tests miss.',
     ['number.cc', 'predicate.cc'], [('numeric predicates', 'number.cc'), ('type predicates', 'predicate.cc')], ['evaluating predicate expressions'])
prop('N04', 'Exact fractions are computed exactly and kept in lowest terms',
     'Dividing exact integers yields the exact quotient: an integer when it divides evenly, otherwise a fraction in lowest terms with positive denominator. Arithmetic and comparison on fractions and integers give the exact rational result, and never an approximation, a wrong sign or a crash.',
     ['inputs'], 'all numerator/denominator combinations within the stated ranges', 'Sign and reduction cases over four operands cannot be sampled exhaustively.',
     ['number.cc'], [('/ and ratio arithmetic', 'number.cc')], ['evaluating expressions with fractions'])
prop('N05', 'Integers and their text convert back and forth without loss',
     'Converting any 64-bit integer to text in the supported radices and back gives the same integer, and text converts to a number exactly when it is a numeral in the requested radix whose value is representable. Anything else gives false, never a wrong number.',
     ['inputs'], 'all integers within the stated ranges, and all byte strings up to the stated length', 'The tests use a few literals; malformed numerals (signs, prefixes, embedded NULs, overflow) are unbounded in variety.',
     ['string.cc', 'parse.cc'], [('string->number', 'string.cc'), ('number->string', 'string.cc')], ['string->number and number->string'])
prop('S01', 'Strings behave as mutable character arrays with checked indices',
     'Indexing, updating, slicing, appending and converting a string observe exactly the characters stored in it: an update changes the indexed character of that string only, slices and copies are independent, and conversions to lists and symbols are inverse. An index or range outside the string, or an operand of the wrong type, is a reported error and leaves every string unchanged.',
     ['inputs'], 'all byte contents up to the stated length and all 64-bit indices', 'Off-by-one ranges, negative or huge indices, NUL and high bytes are outside the sampled literals of the tests.',
     ['string.cc', 'symbol.cc'], [('string-ref string-set! substring string-append', 'string.cc'), ('string<->symbol', 'symbol.cc')], ['string procedures'])
prop('S02', 'Character and string order, equality and case mapping are consistent',
     'Character and string comparisons (case-sensitive and case-insensitive) agree with the lexicographic order of the character codes, for all contents and lengths including NUL and non-ASCII characters, and so form a total order. Character classification, case mapping and conversion to and from integers agree with ASCII and are inverse where they should be.',
     ['inputs'], 'all characters, and all pairs of strings up to the stated length', 'Prefix, NUL, sign-extension and case-fold cases are combinations the tests do not enumerate.',
     ['string.cc', 'char.cc', 'eq.cc'], [('string comparison', 'string.cc'), ('char comparison and case', 'char.cc'), ('equal?', 'eq.cc')], ['comparison and case procedures'])
prop('V01', 'Vectors behave as mutable arrays with checked indices',
     'Reading and updating a vector observe exactly the elements stored in it: an update changes one element of that vector, visible through every reference to it, and conversions to and from lists preserve length, order and elements and yield independent objects. An index outside the vector, a negative length or a wrong-typed operand is a reported error and changes nothing.',
     ['inputs'], 'all lengths up to the bound, all elements and all 64-bit indices', 'Index edges (negative, length, huge) and aliasing combinations are not covered by the sampled tests.',
     ['vector.cc'], [('vector-ref vector-set! make-vector', 'vector.cc'), ('list<->vector', 'vector.cc')], ['vector procedures'])
prop('E01', 'eq?, eqv? and equal? are equivalences that respect identity and structure',
     'equal? holds between two values exactly when they have the same structure and the same atoms, whatever their nesting, length or dotted tails. eq? and eqv? hold for one object however it was reached, hold for atoms with the same value, and never hold between separately created pairs or vectors.',
     ['inputs'], 'all pairs of values built from every kind within the stated nesting and length', 'Tests compare a few literals; the law is about every pair of shapes, including proper against improper tails and objects reached by different paths.',
     ['eq.cc', 'list.cc'], [('eq? eqv? equal?', 'eq.cc'), ('pair access', 'list.cc')], ['the three equivalence procedures'])
prop('L01', 'List procedures agree with the sequence model, proper or not, and never alias wrongly',
     'Length, indexing, tails, prefixes, reversal, concatenation, last pair and component access give exactly what the sequence of elements and the final tail dictate, for every list including improper and circular ones. Updating a pair changes that pair alone and is seen through every list sharing it, fresh results never share updated pairs with their operands, and a bad index or operand is a reported error.',
     ['inputs', 'histories'], 'all lists up to the stated length with proper, improper or circular tails; all 64-bit indices', 'Odd/even lengths, improper tails, negative and huge indices, and aliasing between lists are combinations outside the sampled tests.',
     ['list.cc', 'predicate.cc'], [('list procedures', 'list.cc'), ('list?', 'predicate.cc')], ['list procedures'])
prop('L02', 'Membership and association find the first equivalent entry and nothing else',
     'Searching a list or association list returns the first entry whose key is equivalent to the one sought (by identity, by value or structurally, as the procedure promises), the very object stored, and false exactly when there is none. Updating an association gives a list in which the key has the new value and every other association is unchanged; a non-list operand is a reported error.',
     ['inputs'], 'all keys of every kind and all lists up to the stated length', 'The kind of the key (symbol, character, fraction, string, list) crossed with position and duplicates is not sampled by tests.',
     ['list.cc', 'alist.cc', 'eq.cc'], [('memq memv member', 'list.cc'), ('assq assv assoc and updaters', 'alist.cc')], ['membership and association procedures'])
prop('H01', 'Hash tables are finite maps over the equivalence they promise',
     'After any sequence of insertions, removals and updates, a table maps each key to the value last stored under an equivalent key, reports false for every other key, and folding visits each association exactly once. Entries obtained as handles stay connected to the table, values of any shape are returned as stored, and tables of any requested size behave alike.',
     ['histories', 'inputs'], 'all operation sequences up to the stated length over keys of every kind', 'Whether two equivalent keys built separately meet in the same bucket depends on the hash of every key kind; tests use a few symbols.',
     ['hash_table.cc', 'eq.cc'], [('hash functions and bucket chains', 'hash_table.cc'), ('key equivalence', 'eq.cc')], ['hash table procedures'])
prop('R01', 'The reader accepts exactly the data language and means the right value',
     'Every program text either denotes one definite datum or is a reported error, and after an error the reader keeps working; nothing a text contains can crash the process or be silently misread. Literals of every kind, quotation forms, dotted and nested data, vectors and comments denote the value their notation says, wherever white space and comments are placed.',
     ['inputs'], 'all byte strings up to the stated length, alone and inside every kind of enclosing notation',
     'The grammar is unbounded: truncated escapes, misplaced dots, out-of-range literals and unterminated forms are outside the handful of sampled programs.',
     ['parse.cc', 'pscm.cc'], [('scanner and expression stack', 'parse.cc')], ['reading text through pscm_parse, read and files'])
prop('R02', 'What write prints reads back as the same datum',
     'For every datum built from integers, fractions, short reals, booleans, characters, strings with any contents, symbols, pairs and vectors, reading the text produced by write yields a datum with the same structure and atoms, and printing changes nothing. display prints strings and characters as their bare contents, and the same text is produced whether output goes to standard output or to a port.',
     ['inputs'], 'all values of the stated kinds up to the stated nesting and length',
     'Escapes, quotation forms with unusual shapes, dotted tails holding lists and odd symbol names combine in ways no list of examples covers.',
     ['print.cc', 'parse.cc', 'port.cc'], [('printer', 'print.cc'), ('reader', 'parse.cc')], ['write, display and read on ports and standard output'])
prop('O01', 'Ports deliver and accept exactly the characters, in order',
     'Any mix of reading and peeking on a string, file or soft port yields the characters of its source in order, peeking consumes nothing, and the end of file is reported exactly at the end. Whatever is written goes in order to the port named (or the current output port) and to no other, survives buffer growth, and reads back unchanged from a file. Operations on a port of the wrong direction, a closed port or a non-port have no effect.',
     ['histories', 'inputs'], 'all operation sequences up to the stated length over all port kinds and all characters',
     'The interleavings of operations over several ports and the buffer boundaries cannot be enumerated by examples.',
     ['port.cc', 'string.cc', 'print.cc'], [('port reading and writing', 'port.cc'), ('redirection of the printer', 'string.cc')], ['port procedures'])
prop('B01', 'Every variable reference means the innermost lexically enclosing binding',
     'In every composition of the binding forms (lambda, let, let*, letrec, named let, do, internal define), a reference or assignment reaches the innermost enclosing binding of that name at the place where the expression is written, never the one at the place where a procedure is called. Every call and every loop iteration has bindings of its own, which closures keep and share, and no inner binding or assignment disturbs an outer or global variable of the same name.',
     ['inputs'], 'all nestings of the binding forms to the stated depth, and all values of the variables', 'Scoping faults show only in particular combinations of nested forms, shadowed names and closures called later, of which the tests contain a few.',
     ['eval.cc', 'let.cc', 'do.cc', 'environment.cc'], [('binding forms', 'let.cc'), ('do', 'do.cc'), ('environment lookup and update', 'environment.cc'), ('evaluator', 'eval.cc')], ['evaluating programs'])
prop('B02', 'A procedure call evaluates each operand once and binds exactly the arguments given',
     'A call evaluates the operator and every operand exactly once and passes the resulting values, whatever they are, without evaluating them again. The parameters receive the corresponding arguments and a rest parameter a fresh list of the remaining ones, however the procedure is reached (by name, as a value, through apply). A wrong number of arguments, an improper argument list or an operator that is not a procedure is a reported error, and executing a call never changes the program text, so repeated calls see their own arguments only.',
     ['inputs'], 'all parameter and argument counts within the bound, all ways of reaching a procedure, all values',
     'The combinations of call route, parameter list, argument kind and repetition are far more than the examples in the tests, and double evaluation shows only for values that look like code.',
     ['eval.cc', 'apply.cc', 'procedure.cc', 'function.cc'], [('application', 'eval.cc'), ('apply', 'apply.cc'), ('parameter binding', 'procedure.cc'), ('builtin calls', 'function.cc')], ['evaluating calls'])
prop('C01', 'Conditionals take the first branch that applies and evaluate nothing else',
     'In if, and, or, cond (with plain, valued, => and else clauses) and case, every value except #f counts as true, tests run in order each at most once, exactly the selected branch runs, and its last value is the result. case selects the first clause listing a datum equivalent to the key, evaluating the key once. Sequences of expressions run in order, each once.',
     ['inputs'], 'all test outcomes over the value kinds and all key values, for every clause combination within the bound',
     'Which branch is right depends on arbitrary values; the tests contain a few clause shapes with fixed values.',
     ['eval.cc', 'cond.cc', 'case.cc'], [('if and or begin', 'eval.cc'), ('cond', 'cond.cc'), ('case', 'case.cc')], ['evaluating conditional expressions'])
prop('C02', 'Iteration visits every element once, in order, with the right values',
     'map, map-in-order and for-each call the procedure once per position with the corresponding elements of all lists, in order for for-each, and map returns the results in list order without changing its operands. do steps all its variables together from the previous values until its test is true and returns its last result expression. call-with-values passes exactly the values produced. A list operand that is not a list is a reported error.',
     ['inputs'], 'all list lengths and element values within the bound, all step and result shapes of do',
     'Elements that are lists, false or code-like, several lists, and the interplay of steps and assignments in loops are only sampled by the tests.',
     ['map.cc', 'for_each.cc', 'do.cc', 'values.cc'], [('map', 'map.cc'), ('for-each', 'for_each.cc'), ('do', 'do.cc'), ('multiple values', 'values.cc')], ['evaluating iteration forms'])
prop('X01', 'A throw reaches the innermost enclosing matching catch and nothing else',
     'throw transfers control to the innermost catch in progress whose tag is the key (as a whole) or #t; its handler is called, outside that catch, with the key and exactly the thrown arguments, and its value is the value of the catch. Errors are throws with key error (wrong-number-of-args for arity errors of built-ins) carrying a message. A body that returns normally gives the value of the catch. This holds at any nesting depth, from any construct the throw leaves, for repeated throws, throws from handlers, built-in procedures and continuations as bodies and handlers, and for catches and lazy catches made through the C interface (a lazy handler runs at the throw, and the throw then goes on to the catch around). Afterwards no catch of the left computation is active any more.',
     ['inputs', 'histories'], 'every nesting of catches, sequencing and conditionals within the bound and every data-driven choice of value, throw or error at each leaf; all keys of up to two bytes',
     'Which catch applies depends on the dynamic history of nested and abandoned catches; the tests sample a dozen fixed nestings.',
     ['throw.cc', 'error.cc', 'pscm_api.cc'], [('catch and throw', 'throw.cc'), ('lazy catch', 'throw.cc'), ('errors as throws', 'error.cc')], ['evaluating catch and throw', 'scm_internal_catch, scm_internal_lazy_catch, scm_throw'])
prop('K01', 'A continuation is the rest of the computation, whenever and however often it is invoked',
     'The value of (call/cc f) is what f returns or what is passed to the continuation; invoking the continuation abandons the current computation and resumes the captured one exactly there, whether the call/cc form is still active (escape) or has returned already (re-entry), any number of times: effects before the capture are not repeated, pending operations use the values they had at capture, assigned variables keep their current values. It accepts any number of values and works wherever a procedure does (apply, map, for-each, call-with-values, handlers). Catches active at capture are active again, others are not.',
     ['inputs', 'histories'], 'every context of the bound, every number of re-entries and every value within it; every program tree of the bound against a reference machine',
     'Continuations copy the C stack: which intermediate results survive re-entry depends on where each form keeps its state; tests only sample a few generators.',
     ['continuation.cc', 'eval.cc', 'apply.cc', 'map.cc', 'do.cc', 'let.cc'], [('capture and resume', 'continuation.cc'), ('calls of continuations', 'apply.cc')], ['evaluating call/cc programs'])
prop('K02', 'dynamic-wind guards run exactly when control enters or leaves, by whatever route',
     'Every entry into the thunk of a dynamic-wind, first or through a continuation, runs its before guard, and every exit, by returning, invoking a continuation, throwing to a catch or an error reported to the host, runs its after guard, once each; leaving or entering several at once runs the after guards innermost first, then the before guards outermost first, and none for those that both sides share; each guard runs in the dynamic context of its dynamic-wind form, so throws and jumps out of a guard behave as if made there. The value is the thunk\'s. Afterwards nothing is left in effect.',
     ['inputs', 'histories'], 'every nesting of dynamic-wind, catch, call/cc, sequencing and conditionals within the bound and every data-driven choice of value, throw, error, escape or re-entry at each leaf, guards and handlers included',
     'The guard order depends on the pair of dynamic contexts of each jump; tests sample a few fixed ones.',
     ['dynwind.cc', 'continuation.cc', 'throw.cc'], [('wind and unwind', 'dynwind.cc'), ('jumps', 'continuation.cc'), ('throws', 'throw.cc')], ['evaluating programs with dynamic-wind'])
prop('X02', 'No program kills the host: every failure is a reported error after which evaluation goes on',
     'Whatever a program or datum handed to the evaluator looks like, evaluating it ends with a value or a reported error, never with the death of the host process: built-in procedures given operands of any types and values, special forms, macros and parameter lists of any shape, malformed files and source text, uncaught throws with names of any length. No such evaluation reads or writes outside the objects involved, and afterwards evaluation, throws and catches work as before. (Explicit exit, exhausted memory and endless computations excepted.)',
     ['inputs'], 'operands of symbolic type and value for every built-in procedure, form shapes symbolic to the stated depth, all bytes in the file contexts of the bound',
     'The failing combinations are operand types, boundary integers and malformed shapes nobody wrote a test for; a crash takes the embedding application with it.',
     ['eval.cc', 'error.cc', 'throw.cc', 'pscm_api.cc', 'vector.cc', 'string.cc', 'list.cc', 'macro.cc'], [('type checks of built-ins', 'pscm.h'), ('syntax checks', 'eval.cc'), ('error reporting', 'error.cc'), ('API boundary', 'pscm_api.cc')], ['pscm_eval, pscm_eval_string, pscm_parse_file, pscm_eval_file', 'primitive-load'])
prop('M01', 'A macro call means its expansion, and a quasiquote template means itself with the holes filled',
     'A macro receives its operands as they are written, unevaluated and complete (a wrong number is an error); its body runs in the environment where the macro was defined, and the expansion is evaluated exactly once, in the environment of the call, each time the call is evaluated. Local bindings shadow macros, local macros are local, quoted text is never expanded, and macros may expand to definitions, macros and themselves. A quasiquote template yields its structure with unquoted expressions replaced by their values and spliced lists inserted, at the right nesting level, in lists, improper lists and vectors, leaving the template unchanged.',
     ['inputs'], 'all templates and operand shapes of the bound with symbolic leaves and values, all macro and calling-context combinations listed',
     'Template structure is an unbounded space with levels, splices and improper tails interacting; the tests fix a few shapes.',
     ['macro.cc', 'quasiquote.cc', 'eval.cc'], [('expansion', 'macro.cc'), ('templates', 'quasiquote.cc'), ('dispatch of macro calls', 'eval.cc')], ['evaluating macro definitions, macro calls and quasiquote', 'macroexpand'])
prop('P01', 'A promise evaluates its expression when first forced, once, and keeps the value',
     'delay evaluates nothing; force evaluates the expression in the environment of the delay and returns its value; once a force has completed, every force returns that same object without evaluating again, including forces already in progress. A force left by a throw, an error or a continuation leaves the promise unforced. Forcing anything but a promise is a reported error.',
     ['histories', 'inputs'], 'every sequence of forces within the bound and every data-driven outcome (value, throw, error, escape, forcing itself) of each run of the body',
     'What a promise yields depends on the history of completed, abandoned and nested forces.',
     ['delay.cc'], [('delay and force', 'delay.cc')], ['delay, force'])
prop('M02', 'In a module, a name denotes its own variable, else an exported variable of a used module',
     'A module owns the variables defined while it is current (or from C); they are visible there, and elsewhere only as far as it exports them (a module that exports nothing shares everything) to modules that use it, the module used last coming first, one\'s own variables before imported ones, then the root module and builtins. Exporting, re-exporting and using share the variable itself: later assignments and definitions are seen by all, in whatever order definition, export and use happened. Procedures, macros and promises read and assign the variables of the module they are written in, whichever module is current when they run; a definition shadows a builtin in its module only. module-ref, module-bound? and module-map agree with this. A module file is loaded once, from the first directory of %load-path that has it, and loading or calling into a module restores the current module, also on failure.',
     ['histories', 'inputs'], 'every history of definitions, exports, uses and assignments over three modules within the bound; every builtin; all values; every combination of calling module and shadowed names',
     'Visibility depends on the order of definitions, exports and uses in several modules and on which module is current at each moment; tests contain a dozen fixed scripts.',
     ['module.cc', 'environment.cc', 'eval.cc', 'define.cc', 'macro.cc', 'load.cc'], [('modules, interfaces and lookup', 'module.cc'), ('top-level scope of code', 'environment.cc'), ('definitions', 'define.cc')], ['evaluating module programs', 'scm_c_define_module, scm_c_call_with_current_module, scm_c_module_lookup, scm_c_module_define'])
prop('D01', 'The script runner and the REPL run every form, in order, and show its value',
     'pscm FILE (also -s FILE, --test FILE) evaluates all top-level forms of the file in order, printing each value in write form on a line of the standard output, and nothing for forms without a value; an error ends only the form it occurs in, is reported on the standard error, and leaves earlier effects in place; (exit n) ends the process with status n; a wrong command line, a missing file or malformed text is reported with a non-zero status, and no form of a malformed file is run. The REPL evaluates every expression of its input, however expressions, comments, strings and characters are spread over lines of whatever length, shows each value, survives errors and malformed input, and ends at the end of input.',
     ['inputs', 'histories'], 'all sequences of forms, separators and options within the bound with symbolic data, all command lines of three words, all short byte sequences as REPL input',
     'What is shown depends on the sequence of forms, errors and line breaks; the tests run whole scripts that mostly succeed and never the REPL.',
     ['../main.cc', 'repl.cc', 'parse.cc', 'exit.cc'], [('script runner and command line', '../main.cc'), ('interactive loop', 'repl.cc'), ('exit', 'exit.cc')], ['pscm FILE, pscm -s, pscm --test, standard output and exit status', 'pscm without arguments'])
prop('T01', 'C and Scheme call one another with the arguments, results, throws and escapes intact',
     'A C function registered with required, optional and rest arguments is a procedure: it runs exactly once per call, with the evaluated arguments in order, when their number fits, and otherwise the call is a wrong-number-of-args error and it does not run. scm_call_n and scm_apply_0 apply any closure, builtin (apply, map and call/cc included) or continuation to the given values as they are, never evaluating them, and leave the caller\'s argument list unchanged. Throws, errors and escapes travel through any nesting of C and Scheme frames to the nearest matching catch (Scheme catch, scm_c_catch, pscm_eval) or to their continuation, running exactly the lazy handlers and dynamic-wind thunks on the way, in order, and leave nothing behind; a failed pscm_eval returns NULL, reports the key and message of that failure, keeps earlier effects and later evaluations work, from whatever stack depth the host calls. Strings and symbols cross the boundary byte for byte as copies; variables defined or assigned on one side are seen on the other; whole sources are evaluated expression by expression, in order, yielding the last value.',
     ['inputs', 'histories'], 'every arity and argument count, callee and argument value kinds, every nesting of eight kinds of frame within the bound, every history of definitions, every byte of the strings',
     'Control passes between two languages that share one stack: what must be run or abandoned depends on the nesting; tests use one level.',
     ['apply.cc', 'procedure.cc', 'function.cc', 'module.cc', 'pscm_api.cc', 'throw.cc', 'error.cc', 'continuation.cc', 'string.cc', 'symbol.cc', 'load.cc', 'variable.cc'],
     [('C calls of procedures', 'apply.cc'), ('C procedures', 'function.cc'), ('registration', 'module.cc'), ('API boundary and last error', 'pscm_api.cc'), ('catch and throw', 'throw.cc')], ['pscm_api.h', 'scm_call_n, scm_apply_0, scm_c_catch, scm_internal_lazy_catch', 'scm_from_locale_stringn, scm_to_locale_stringn'])
prop('T02', 'User-defined types and variable objects hold what was stored and act as their type says',
     'An object of a user-defined type (smob) keeps its type and its three data fields and flags exactly as last stored, independently of other objects and types; it is of no other type; making one with a tag that was not registered is an error, and 256 types can be registered. equal? on two smobs, directly or inside lists and vectors, is the type\'s equality function for objects of the same type and identity otherwise, eq? and eqv? are identity. Writing or displaying one calls the type\'s print function, by default #<name data>, on the port in use. Calling one, through whatever expression or variable, evaluates the arguments once, from left to right, and calls the type\'s function for that many arguments with the object and them; without such a function it is an error. A variable object holds the value last stored in it from C or Scheme; reading an unbound one is an error. Each operation on a value of another type is a reported error.',
     ['inputs', 'histories'], 'all field and tag values, all histories within the bound, all combinations of apply functions, argument counts and heads',
     'Each of the combinations of type functions, argument counts and access paths is a separate path of the code; the tests fix a few.',
     ['smob.cc', 'eq.cc', 'print.cc', 'eval.cc', 'variable.cc'], [('types and fields', 'smob.cc'), ('application', 'eval.cc'), ('equality', 'eq.cc'), ('printing', 'print.cc'), ('variable objects', 'variable.cc')], ['scm_make_smob_type and friends, scm-make-smob, scm-smob-data', 'equal?, display, application', 'make-variable, variable-ref, variable-set!'])
prop('G01', 'Garbage collection is invisible, and what is not in use is reclaimed',
     'Whenever a collection happens, before a program, at any allocation in it, inside a C procedure it calls, or by (gc), no object still in use is reclaimed, moved or changed: values of variables and of the running computation, C frames of any host (whether or not it named its stack base), registered roots, closures, promises, macros, modules, variable objects, tables, vectors, improper lists, ports, stored continuations with the stack they saved, dynamic-wind guards, and Scheme objects stored in smobs. So every program gives the same result, or the same reported failure, as without collections, and so do reading, loading and later evaluations. Objects that nothing refers to are reclaimed, each released once, and their storage is used again, zeroed and not overlapping anything live. A word that happens to hold the address of something reclaimed does no harm.',
     ['histories', 'inputs'], 'every collection schedule of the bound on programs over all data types, special forms, control contexts and C callbacks, symbolic values; every choice of block sizes and dropped blocks of the bound',
     'A missing root or mark shows only when a collection happens at the one allocation where nothing else holds the object and its storage is used again; tests run with collections almost never happening.',
     ['gc.cc', 'pscm.h', 'continuation.cc', 'smob.cc', 'pscm_api.cc'],
     [('marking, sweeping, allocation', 'gc.cc'), ('object construction', 'pscm.h'), ('saved stacks', 'continuation.cc'), ('roots of the host', 'pscm_api.cc')], ['evaluating programs', '(gc)', 'gc_register_root, gc_set_stack_top, pscm_init', 'smobs, C procedures'])
