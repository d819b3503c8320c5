--------------------------- MODULE FuelBuiltins ---------------------------
(* The built-in functions: name, signature, documentation, special form?,   *)
(* evaluated while macros are expanded?                                      *)
EXTENDS FuelChars
BuiltinList == <<
  <<"!", "(! expr)", "see: not", FALSE, FALSE>>,
  <<"!=", "(!= expr1 expr2)", "Returns #t if value of expression1 is not equal with value of expression2 and returns #f otherwiese.", FALSE, FALSE>>,
  <<"%", "(% expr1 expr2)", "see: mod", FALSE, FALSE>>,
  <<"&", "(& expr1 expr2)", "Binary and for integer numbers (bitwise and).", FALSE, FALSE>>,
  <<"&&", "(&& expr1 expr2 ...)", "See: and", TRUE, FALSE>>,
  <<"*", "(* expr1 expr2 ...)", "see: mul", FALSE, FALSE>>,
  <<"+", "(+ expr1 expr2 ...)", "see: add", FALSE, FALSE>>,
  <<"-", "(- expr1 expr2 ...)", "see: sub", FALSE, FALSE>>,
  <<"/", "(/ expr1 expr2 ...)", "see: div", FALSE, FALSE>>,
  <<"<", "(< expr1 expr2)", "Returns #t if value of expression1 is smaller than value of expression2 and returns #f otherwiese.", FALSE, FALSE>>,
  <<"<<", "(>> expr1 expr2)", "Integer left shift. Returns integer expression1 left shifted for expression2 binary digits.", FALSE, FALSE>>,
  <<"<=", "(<= expr1 expr2)", "Returns #t if value of expression1 is equal or smaller than value of expression2 and returns #f otherwiese.", FALSE, FALSE>>,
  <<"=", "(= expr1 expr2)", "see: equal", FALSE, FALSE>>,
  <<"==", "(== expr1 expr2)", "see: equal", FALSE, FALSE>>,
  <<">", "(> expr1 expr2)", "Returns #t if value of expression1 is larger than value of expression2 and returns #f otherwiese.", FALSE, FALSE>>,
  <<">=", "(>= expr1 expr2)", "Returns #t if value of expression1 is equal or larger than value of expression2 and returns #f otherwiese.", FALSE, FALSE>>,
  <<">>", "(>> expr1 expr2)", "Integer right shift. Returns integer expression1 right shifted for expression2 binary digits.", FALSE, FALSE>>,
  <<"File-Exists", "(File-Exists name)", "Returns #t if the file exists, otherwise returns #f.", FALSE, FALSE>>,
  <<"File-ReadAllText", "(File-ReadAllText name)", "Returns the content of the file with name.", FALSE, FALSE>>,
  <<"File-WriteAllText", "(File-WriteAllText name content)", "Writes the content to the file with name.", FALSE, FALSE>>,
  <<"Math-Abs", "(Math-Abs expr)", "Returns absolute value of expr", FALSE, FALSE>>,
  <<"Math-Acos", "(Math-Acos expr)", "Returns acos value of expr", FALSE, FALSE>>,
  <<"Math-Asin", "(Math-Asin expr)", "Returns asin value of expr", FALSE, FALSE>>,
  <<"Math-Atan", "(Math-Atan expr)", "Returns atan value of expr", FALSE, FALSE>>,
  <<"Math-Ceiling", "(Math-Ceiling expr)", "Returns ceiling value of expr", FALSE, FALSE>>,
  <<"Math-Cos", "(Math-Cos expr)", "Returns cos value of expr", FALSE, FALSE>>,
  <<"Math-Cosh", "(Math-Cosh expr)", "Returns cosh value of expr", FALSE, FALSE>>,
  <<"Math-Exp", "(Math-Exp expr)", "Returns exp value of expr", FALSE, FALSE>>,
  <<"Math-Floor", "(Math-Floor expr)", "Returns floor value of expr", FALSE, FALSE>>,
  <<"Math-Log", "(Math-Log expr)", "Returns log value of expr", FALSE, FALSE>>,
  <<"Math-Log10", "(Math-Log10 expr)", "Returns log value of expr", FALSE, FALSE>>,
  <<"Math-Pi", "(Math-Pi)", "Returns the pi value", FALSE, FALSE>>,
  <<"Math-Pow", "(Math-Pow expr1 expr2)", "Returns power of expr1 with expr2 value of expr", FALSE, FALSE>>,
  <<"Math-Round", "(Math-Round expr)", "Returns rounded value of expr", FALSE, FALSE>>,
  <<"Math-Sin", "(Math-Sin expr)", "Returns sin value of expr", FALSE, FALSE>>,
  <<"Math-Sinh", "(Math-Sinh expr)", "Returns sinh value of expr", FALSE, FALSE>>,
  <<"Math-Sqrt", "(Math-Sqrt expr)", "Returns sqrt value of expr", FALSE, FALSE>>,
  <<"Math-Tan", "(Math-Tan expr)", "Returns tan value of expr", FALSE, FALSE>>,
  <<"Math-Tanh", "(Math-Tanh expr)", "Returns tanh value of expr", FALSE, FALSE>>,
  <<"Math-Truncate", "(Math-Truncate expr)", "Returns truncated value of expr", FALSE, FALSE>>,
  <<"^", "(^ expr1 expr2)", "Binary xor for integer numbers (bitwise xor).", FALSE, FALSE>>,
  <<"_unquote", "(unquote expr)", "Special form for unquoting expressions in quasiquote functions.", TRUE, FALSE>>,
  <<"_unquotesplicing", "(unquotesplicing expr)", "Special form for unquotingsplicing expressions in quasiquote functions.", TRUE, FALSE>>,
  <<"add", "(add expr1 expr2 ...)", "Returns value of expr1 added with expr2 added with ...", FALSE, FALSE>>,
  <<"and", "(and expr1 expr2 ...)", "And operator with short cut.", TRUE, FALSE>>,
  <<"append", "(append list1 list2 ...)", "Returns a new list containing all given lists elements.", FALSE, FALSE>>,
  <<"apply", "(apply function arguments-list)", "Calls the function with the arguments.", FALSE, FALSE>>,
  <<"arg", "(arg number)", "Returns the value of the [number] argument for the current function.", FALSE, FALSE>>,
  <<"args", "(args)", "Returns all the values of the arguments for the current function.", FALSE, FALSE>>,
  <<"argscount", "(argscount)", "Returns the number of arguments for the current function.", FALSE, FALSE>>,
  <<"begin", "(begin statement1 statement2 ...)", "see: do", TRUE, FALSE>>,
  <<"break", "(break)", "Sets a breakpoint in the code.", FALSE, FALSE>>,
  <<"car", "(car list)", "Returns the first element of the list.", FALSE, FALSE>>,
  <<"cdr", "(cdr list)", "Returns a new list containing all elements except the first of the given list.", FALSE, FALSE>>,
  <<"cons", "(cons item list)", "Returns a new list containing the item and the elements of the list.", FALSE, FALSE>>,
  <<"copyright", "(copyright)", "Returns and shows the copyright of the fuel language.", FALSE, FALSE>>,
  <<"date-time", "(date-time)", "Returns a list with informations about the current date and time: (year month day hours minutes seconds).", FALSE, FALSE>>,
  <<"def", "(def symbol expression)", "Creates a new variable with name of symbol in current scope. Evaluates expression and sets the value of the expression as the value of the symbol.", TRUE, FALSE>>,
  <<"define-macro", "(define-macro name (arguments) statement)", "see: define-macro-eval", TRUE, FALSE>>,
  <<"define-macro-eval", "(define-macro-eval name (arguments) statement)", "Special form: Defines a macro which will be evaluated at run time.", TRUE, FALSE>>,
  <<"define-macro-expand", "(define-macro-expand name (arguments) statement)", "Special form: Defines a macro which will be evaluated at compile time.", FALSE, TRUE>>,
  <<"defn", "(defn name (args) block)", "Defines a function in the current scope.", TRUE, FALSE>>,
  <<"delvar", "(delvar name)", "Deletes a local variable with the given name and returns a success flag.", FALSE, FALSE>>,
  <<"dict-clear", "(dict-clear dict)", "Clears the dictionary.", FALSE, FALSE>>,
  <<"dict-contains-key", "(dict-contains-key dict key)", "Returns #t if key is contained in dictionary, otherwise #f.", FALSE, FALSE>>,
  <<"dict-contains-value", "(dict-contains-value dict value)", "Returns #t if value is contained in dictionary, otherwise #f.", FALSE, FALSE>>,
  <<"dict-get", "(dict-get dict key)", "Returns the value for the key or nil if key is not in dictionary.", FALSE, FALSE>>,
  <<"dict-keys", "(dict-keys dict)", "Returns all keys in the dictionary.", FALSE, FALSE>>,
  <<"dict-remove", "(dict-remove dict key)", "Removes the value / key pair from the directory and returns success flag.", FALSE, FALSE>>,
  <<"dict-set", "(dict-set dict key value)", "Sets the value for the key in the dictionary.", FALSE, FALSE>>,
  <<"div", "(div expr1 expr2 ...)", "Returns value of expr1 divided by expr2 divided by ...", FALSE, FALSE>>,
  <<"do", "(do statement1 statement2 ...)", "Returns a sequence of statements.", TRUE, FALSE>>,
  <<"doc", "(doc functionname ...)", "Returns and shows the documentation of all builtin functions or for the given function name(s).", FALSE, FALSE>>,
  <<"equal", "(equal expr1 expr2)", "Returns #t if value of expression1 is equal with value of expression2 and returns #f otherwiese.", FALSE, FALSE>>,
  <<"eval", "(eval ast)", "Evaluates the abstract syntax tree (ast).", FALSE, FALSE>>,
  <<"evalstr", "(evalstr string)", "Evaluates the string.", FALSE, FALSE>>,
  <<"first", "(first list)", "see: car", FALSE, FALSE>>,
  <<"float", "(float expr)", "Convert the expr into a float value", FALSE, FALSE>>,
  <<"flush", "(flush)", "Flushes the output to the console.", FALSE, FALSE>>,
  <<"fn", "(fn (arguments) block)", "Returns a function.", TRUE, FALSE>>,
  <<"format", "(format format-str expr1 expr2 ...)", "Formats the content of the format string with the values of the given expressions and returns a string.", FALSE, FALSE>>,
  <<"fuel", "(fuel)", "Returns and shows information about the fuel language.", FALSE, FALSE>>,
  <<"gdef", "(gdef symbol expression)", "Creates a new variable with name of symbol in global scope. Evaluates expression and sets the value of the expression as the value of the symbol.", TRUE, FALSE>>,
  <<"gdefn", "(gdefn name (args) block)", "Defines a function in the global scope.", TRUE, FALSE>>,
  <<"gettrace", "(gettrace)", "Returns the trace output.", FALSE, FALSE>>,
  <<"help", "(help)", "Returns and shows the available builtin functions.", FALSE, FALSE>>,
  <<"htmldoc", "(htmldoc)", "Returns and shows the documentation of all builtin functions in html format.", FALSE, FALSE>>,
  <<"if", "(if cond then-block [else-block])", "The if statement.", TRUE, FALSE>>,
  <<"import", "(import module1 ...)", "Imports modules with fuel code.", FALSE, FALSE>>,
  <<"int", "(int expr)", "Convert the expr into an integer value", FALSE, FALSE>>,
  <<"lambda", "(lambda (arguments) block)", "Returns a lambda function.", TRUE, FALSE>>,
  <<"last", "(last list)", "Returns the last element of the list.", FALSE, FALSE>>,
  <<"len", "(len list)", "Returns the length of the list.", FALSE, FALSE>>,
  <<"list", "(list item1 item2 ...)", "Returns a new list with the given elements.", FALSE, FALSE>>,
  <<"lower-case", "(lower-case expr1)", "Returns a string with only lower case characters.", FALSE, FALSE>>,
  <<"make-dict", "(make-dict)", "Returns a new dictionary.", FALSE, FALSE>>,
  <<"map", "(map function list)", "Returns a new list with elements, where all elements of the list where applied to the function.", FALSE, FALSE>>,
  <<"mod", "(mod expr1 expr2)", "Returns value of modulo operation between expr1 and expr2", FALSE, FALSE>>,
  <<"mul", "(mul expr1 expr2 ...)", "Returns value of expr1 multipied by expr2 multiplied by ...", FALSE, FALSE>>,
  <<"need-l-value", "(need-l-value)", "Returns #t if a l-value is needed as return value of the current function.", FALSE, FALSE>>,
  <<"nop", "(nop)", "Does nothing (no operation).", FALSE, FALSE>>,
  <<"not", "(not expr)", "Returns the inverted bool value of the expression.", FALSE, FALSE>>,
  <<"nth", "(nth number list)", "Returns the [number] element of the list.", FALSE, FALSE>>,
  <<"or", "(or expr1 expr2 ...)", "Or operator with short cut.", TRUE, FALSE>>,
  <<"parse-float", "(parse-float expr)", "Convert the string expr into a float value", FALSE, FALSE>>,
  <<"parse-integer", "(parse-integer expr)", "Convert the string expr into an integer value", FALSE, FALSE>>,
  <<"platform", "(platform)", "Returns a list with informations about the current platform: (operating_system runtime_environment).", FALSE, FALSE>>,
  <<"pop", "(pop list [index])", "Removes the element at the given index (default value 0) from the list and returns the removed element.", FALSE, FALSE>>,
  <<"print", "(print expr1 expr2 ...)", "Prints the values of the given expressions on the console.", FALSE, FALSE>>,
  <<"println", "(println expr1 expr2 ...)", "Prints the values of the given expressions on the console adding a new line at the end of the output.", FALSE, FALSE>>,
  <<"push", "(push elem list [index])", "Inserts the element at the given index (default value 0) into the list (implace) and returns the updated list.", FALSE, FALSE>>,
  <<"quasiquote", "(quasiquote expr)", "Returns expression without evaluating it, but processes evaluation operators , and ,@.", TRUE, FALSE>>,
  <<"quote", "(quote expr)", "Returns expression without evaluating it.", TRUE, FALSE>>,
  <<"readline", "(readline)", "Reads a line from the console input.", FALSE, FALSE>>,
  <<"reduce", "(reduce function list initial)", "Reduce function.", FALSE, FALSE>>,
  <<"replace", "(replace expr1 searchtxt replacetxt)", "Returns a string of the given string expr1 with replacing searchtxt with replacetxt.", FALSE, FALSE>>,
  <<"rest", "(rest list)", "see: cdr", FALSE, FALSE>>,
  <<"return", "(return expr)", "Returns the value of the expression and quits the function.", FALSE, FALSE>>,
  <<"reverse", "(reverse expr)", "Returns a list or string with a reverted order.", FALSE, FALSE>>,
  <<"rval", "(rval expr)", "Returns a RValue of the expr, disables LValue evaluation.", TRUE, FALSE>>,
  <<"search", "(search searchtxt expr [pos] [len])", "Returns the first position of the searchtxt in the string, starting from position pos.", FALSE, FALSE>>,
  <<"searchdoc", "(searchdoc name ...)", "Returns and shows the documentation of functions containing name(s).", FALSE, FALSE>>,
  <<"setf", "(setf symbol expression)", "Evaluates expression and sets the value of the expression as the value of the symbol.", TRUE, FALSE>>,
  <<"sleep", "(sleep time-in-ms)", "Sleeps the given number of milliseconds.", FALSE, FALSE>>,
  <<"slice", "(slice expr1 pos len)", "Returns a substring of the given string expr1, starting from position pos with length len.", FALSE, FALSE>>,
  <<"str", "(str expr)", "Returns the evaluated expression as string.", FALSE, FALSE>>,
  <<"string", "(string expr1 expr2 ...)", "see: add", FALSE, FALSE>>,
  <<"sub", "(sub expr1 expr2 ...)", "Returns value of expr1 subtracted with expr2 subtracted with ...", FALSE, FALSE>>,
  <<"sym", "(sym expr)", "Returns the evaluated expression as symbol.", FALSE, FALSE>>,
  <<"tickcount", "(tickcount)", "Returns the current tick count in milliseconds, can be used to measure times.", FALSE, FALSE>>,
  <<"trace", "(trace value)", "Switches the trace modus on or off.", FALSE, FALSE>>,
  <<"trim", "(trim expr1)", "Returns a string with no starting and trailing whitespaces.", FALSE, FALSE>>,
  <<"type", "(type expr)", "Returns the type id of the value of the expression.", FALSE, FALSE>>,
  <<"typestr", "(typestr expr)", "Returns a readable string representing the type of the value of the expression.", FALSE, FALSE>>,
  <<"upper-case", "(upper-case expr1)", "Returns a string with only upper case characters.", FALSE, FALSE>>,
  <<"vars", "(vars)", "Returns a dump of all variables.", FALSE, FALSE>>,
  <<"version", "(version)", "Returns the version of the fuel language.", FALSE, FALSE>>,
  <<"while", "(while cond block)", "The while loop.", TRUE, FALSE>>,
  <<"|", "(| expr1 expr2)", "Binary or for integer numbers (bitwise or).", FALSE, FALSE>>,
  <<"||", "(|| expr1 expr2 ...)", "See: or", TRUE, FALSE>>,
  <<"~", "(~ expr1)", "Binary not for integer numbers (bitwise not).", FALSE, FALSE>>
>>
BuiltinNames == TLCEval({BuiltinList[i][1] : i \in DOMAIN BuiltinList})
BI == TLCEval([n \in BuiltinNames |-> LET r == BuiltinList[CHOOSE i \in DOMAIN BuiltinList : BuiltinList[i][1] = n]
                              IN [name |-> n, sig |-> r[2], doc |-> r[3], sp |-> r[4], ex |-> r[5]]])
\* several names for the same function
AliasList == << <<"!", "not">>, <<"&&", "and">>, <<"=", "==">>, <<"add", "+">>, <<"begin", "do">>, <<"car", "first">>, <<"cdr", "rest">>, <<"define-macro", "define-macro-eval">>, <<"div", "/">>, <<"equal", "==">>, <<"lambda", "fn">>, <<"mod", "%">>, <<"mul", "*">>, <<"string", "+">>, <<"sub", "-">>, <<"||", "or">> >>
Canon == TLCEval([n \in BuiltinNames |-> IF \E i \in DOMAIN AliasList : AliasList[i][1] = n THEN AliasList[CHOOSE i \in DOMAIN AliasList : AliasList[i][1] = n][2] ELSE n])
=============================================================================
