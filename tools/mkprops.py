#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
I = "CppLisp/CppLispInterpreter/"
D = "CppLisp/CppLispDebugger/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Tokenizing: every source text yields exactly its tokens, with positions",
 "For every source text the tokenizer yields the unique token sequence of the language's lexical grammar: string literals with their escapes, comments to the end of their line, quote marks, brackets, and words classified as integer, float, boolean, nil or symbol. Every token carries the start, stop and line it has in the text. An invalid escape or an out-of-range number is an ordinary reported outcome, never a crash or a silently swallowed rest of the text.",
 ["inputs"], "all source texts (exhaustive over short texts of a lexically complete alphabet, random beyond)",
 "The tests tokenize about a dozen well-formed snippets; the guarantee is for every character sequence, including escapes, comments and quotes next to each other.",
 [I+"Tokenizer.cpp", I+"Token.cpp"], [("character loop of Tokenize", I+"Tokenizer.cpp"), ("token classification", I+"Token.cpp")],
 [("isInString/isInSymbol/wasLastBackslash", "lexer mode", I+"Tokenizer.cpp")], ["LispTokenizer::Tokenize"])

prop("C02", "Parsing: well-formed text gives its tree, everything else a located error",
 "For every token sequence the parser either yields the tree that bracket nesting and the quote, quasiquote and unquote marks dictate, or reports unbalanced brackets or an unexpected token at the offending token. Comments never change the tree, and text after the closing bracket of the program is never silently ignored.",
 ["inputs"], "all token sequences (exhaustive over short sequences, random beyond)",
 "The tests parse a handful of snippets; stacked quote marks, misplaced brackets and trailing text are an unbounded input space.",
 [I+"Parser.cpp"], [("list stack of ParseTokens", I+"Parser.cpp"), ("OnlyCommentTokensFrom", I+"Parser.cpp")],
 None, ["LispParser::Parse"])

prop("C03", "Calls evaluate each argument exactly once, in order, before the call",
 "Evaluating a call evaluates the nested argument expressions exactly once, left to right, before the called function runs, and passes exactly those values. Special forms evaluate only the operands their meaning requires (the chosen branch, operands up to the deciding one of a short-circuit and/or, the quoted operand never). The sequence of side effects, printed lines and calls is therefore the one the program text dictates.",
 ["programs", "inputs"], "all programs of nested calls, special forms and side-effecting operands",
 "Tests assert final results of fixed programs; a doubled, skipped or reordered evaluation is only visible in programs whose operands have side effects.",
 [I+"Interpreter.cpp", I+"Environment.cpp"], [("EvalAst", I+"Interpreter.cpp"), ("special forms", I+"Environment.cpp")],
 None, ["Lisp::SaveEval output and result, call trace lines"])

prop("C04", "Names resolve to the binding their scope dictates; assignments hit that one",
 "A definition creates or replaces a binding in the current scope, a global definition in the global scope, an assignment changes the visible existing binding (and fails with an error if there is none), and deleting removes only the current scope's one. A function body sees its parameters and locals first, then the bindings of the scopes where the function was created (the innermost first), then global bindings, then those of imported modules; a closure keeps that scope alive, shares its variables with sibling closures, and locals of a call never leak to the caller.",
 ["programs", "histories"], "all programs defining, assigning, deleting and reading names across scopes, closures and recursion",
 "Tests check single closure examples; visibility depends on arbitrary nestings and histories of definitions.",
 [I+"Scope.cpp", I+"Environment.cpp", I+"Interpreter.cpp"], [("ResolveInScopes / SetInScopes", I+"Scope.cpp"), ("def/gdef/setf/delvar", I+"Environment.cpp"), ("closure scope creation in fn", I+"Environment.cpp")],
 [("LispScope map, ClosureChain, GlobalScope", "bindings and their lookup chain", I+"Scope.h")], ["Lisp::SaveEval"])

prop("C05", "Function calls bind parameters positionally and keep surplus arguments",
 "Calling a user function binds its parameters to the arguments by position, missing ones to NIL, and leaves surplus arguments reachable through the variadic list and the argument accessors without disturbing the others. Applying, mapping and reducing a function calls it exactly with the elements given, in order, and yields the corresponding results. Built-in functions called with a wrong number of arguments report an error naming the expected counts.",
 ["programs", "inputs"], "all functions, argument counts and argument values",
 "Tests cover a few fixed arities; the guarantee is for every combination of parameter and argument counts and nesting.",
 [I+"Environment.cpp"], [("fn / defn / apply / map / reduce", I+"Environment.cpp"), ("CheckArgs", I+"Environment.cpp")],
 None, ["Lisp::SaveEval"])

prop("C06", "if, while, do and return follow their control-flow meaning",
 "A conditional runs exactly the branch its boolean condition selects, a loop runs its body exactly as long as its condition holds, a block runs its statements in order and yields the last value. A return ends the enclosing function at once, skipping the remaining statements and loops of that call only, and gives its value to the caller.",
 ["programs"], "all nestings of conditionals, loops, blocks and returns within functions",
 "Early exit out of nested loops and blocks in nested calls has unboundedly many shapes, tests contain three.",
 [I+"Environment.cpp", I+"Scope.h"], [("if_form / while_form / do_form / return_form", I+"Environment.cpp")],
 [("IsInReturn", "pending return of the current call", I+"Scope.h")], ["Lisp::SaveEval"])

prop("C07", "Arithmetic and bit operations are typed, exact, and reject bad operands",
 "Addition, subtraction, multiplication, division, remainder and the bit operations fold their operands from left to right, give integers for integers and floats as soon as a float takes part, concatenate strings and lists under +, and leave their operands unchanged. Operand types for which an operation is undefined, and integer division or remainder by zero, give an error and no value.",
 ["inputs"], "all operand tuples over the value types",
 "Tests sample single operand pairs; the law quantifies over types × values × operand counts.",
 [I+"Variant.cpp", I+"Environment.cpp", I+"csobject.cpp"], [("operators of LispVariant", I+"Variant.cpp"), ("ArithmetricOperation", I+"Environment.cpp")],
 None, ["Lisp::SaveEval"])

prop("C08", "Comparison and equality are consistent laws over all values",
 "Equality is reflexive and symmetric, compares numbers by value (floats up to the fixed tolerance of 1e-8; what is not a number equals nothing), lists element by element, symbols only with symbols and a string with another value by its text, and unequal is its exact negation. The order comparisons agree with each other and with equality on numbers and on strings (exactly one of less, equal, greater holds, floats within the tolerance aside) and report an error on operands without an order. and/or/not are boolean connectives.",
 ["inputs"], "all pairs of values, including nested lists",
 "Laws over pairs and nested values; tests compare fewer than twenty pairs.",
 [I+"Variant.cpp", I+"Environment.cpp", I+"csobject.cpp"], [("CompareOperation / EqualOp / LessOp", I+"Environment.cpp, Variant.cpp"), ("and/or/not", I+"Environment.cpp")],
 None, ["Lisp::SaveEval"])

prop("C09", "List operations compute exact sequences and mutate only what they say",
 "first, last, nth, rest, cons, append, reverse, len, slice, search, map and reduce return exactly the elements the sequence meaning dictates and leave their arguments unchanged. push and pop change the one list they are given, visible through every name of that list and in no other list; push returns the updated content, pop the removed element. A position outside the list is reported or yields the empty result (NIL), and never reads or writes other memory.",
 ["histories", "inputs"], "all lists, positions and histories of list operations with several names for one list",
 "Aliasing after a history of mutations and out-of-range positions are not sampled by the tests.",
 [I+"Environment.cpp"], [("First/Last/Nth/Rest/Append/Push/Pop/Slice", I+"Environment.cpp")],
 None, ["Lisp::SaveEval"])

prop("C10", "Dictionaries behave as finite maps keyed by value",
 "A dictionary holds at most one value per key (keys are numbers, booleans, strings, symbols or nil, compared by value), get after set returns the value last set for that key, remove and clear delete exactly what they name, and length, key list and membership agree with the content. Dictionaries are shared by reference: every name of one dictionary sees the same content and other dictionaries are unaffected. Other kinds of key, and dictionary operations on other values, are reported as errors.",
 ["histories"], "all histories of dictionary operations over mixed keys and several dictionaries",
 "A map law over operation histories; tests exercise one short history per operation.",
 [I+"Environment.cpp", I+"Variant.cpp", I+"csobject.cpp"], [("dict operations", I+"Environment.cpp"), ("key order", I+"Variant.cpp")],
 None, ["Lisp::SaveEval"])

prop("C11", "String functions, conversions, formatting and type tests are exact",
 "Substring, search, replace, trim, upper/lower case, length and concatenation return exactly the characters dictated, for every position and length. Conversions between string, integer, float and boolean give the value denoted or an error, converting a value to text and reading the text back gives an equal value, and exactly one basic type test holds for a value. Formatted output substitutes each placeholder by its argument with the requested width, and reports missing arguments.",
 ["inputs"], "all strings, positions, values and format strings",
 "Input-space laws (positions, lengths, widths, types); the tests check one or two points of each function.",
 [I+"Environment.cpp", I+"csstring.cpp", I+"Variant.cpp", I+"csobject.cpp"], [("string builtins", I+"Environment.cpp"), ("string::Format", I+"csstring.cpp"), ("value conversions", I+"Variant.cpp")],
 None, ["Lisp::SaveEval"])

prop("C12", "quote, quasiquote, unquote and eval compose exactly",
 "Quoting yields the code as data without evaluating any of it; quasiquoting does the same except that unquoted parts are replaced by their value and spliced parts by the elements of their list. Evaluating data as code gives what running that code would give in the current scope, for lists and for program text.",
 ["programs", "inputs"], "all nestings of quote, quasiquote, unquote, splice, eval and evalstr",
 "Nesting depth and position of unquotes are unbounded; tests have a few templates.",
 [I+"Environment.cpp", I+"Interpreter.cpp"], [("quote/quasiquote/eval/evalstr forms", I+"Environment.cpp"), ("ProcessQuotedSExpression", I+"Environment.cpp"), ("unquote handling in EvalAst", I+"Interpreter.cpp")],
 None, ["Lisp::SaveEval"])

prop("C13", "Macros expand their arguments textually, in the caller's scope",
 "Calling a run-time macro evaluates its body with every parameter replaced by the unevaluated argument expression, in the scope of the call. A compile-time macro is expanded in code that is evaluated after its definition, before that code runs, with the same textual replacement; code without macro calls is never altered.",
 ["programs"], "all macro definitions, argument expressions and nestings",
 "Tests expand fixed macros; textual replacement must hold for all bodies, argument expressions and nested uses.",
 [I+"Environment.cpp", I+"Interpreter.cpp"], [("define-macro-eval / define-macro-expand", I+"Environment.cpp"), ("ExpandMacros", I+"Interpreter.cpp")],
 None, ["Lisp::SaveEval"])

prop("C14", "Imported modules provide their definitions under their own identity",
 "Importing a module evaluates its file in a scope of its own: its definitions become visible to the importing program and to its own functions, its errors and positions name that module, and in the importer's code the importer's own local and global names take precedence and are not overwritten. A missing module gives a warning naming it and the program continues.",
 ["configurations", "programs", "histories"], "all module contents, name clashes, import orders and search locations",
 "Name clashes and import orders combine; tests import one or two fixed files.",
 [I+"Environment.cpp", I+"Scope.cpp"], [("import form", I+"Environment.cpp"), ("module lookup", I+"Scope.cpp")],
 None, ["Lisp::SaveEval with files in a scratch directory"])

prop("C15", "Every failing program ends as one located error, never a crash",
 "A program that fails ends the evaluation with exactly one error value, after the side effects that precede the failure and none that follow. An error of an expression is also printed with its message, the line, start, stop and module where it happened, and a call stack of exactly the active calls; errors raised below that level (an invalid escape, a bad format width, a value operation without scope) give just the error value. No program or program text, however malformed, kills the host process or escapes as a foreign exception (exhaustion of memory excluded).",
 ["programs", "fault_sequences"], "all programs with a failing operation at any depth, all malformed programs",
 "The failing point, depth and kind of error multiply; tests assert message fragments for a few.",
 [I+"Lisp.cpp", I+"Exception.cpp", I+"Scope.cpp", I+"Environment.cpp"], [("SaveEval", I+"Lisp.cpp"), ("LispException data", I+"Exception.cpp"), ("DumpStackToString", I+"Scope.cpp")],
 None, ["Lisp::SaveEval"])

prop("C16", "Output, input, tracing and files carry exactly what the program does",
 "print, println and formatted prints write exactly the text of their arguments in program order, reading a line consumes the input lines in order, and a scope with recording switched on (trace) collects exactly what is printed in it, call tracing prints exactly one line naming the called function per call made while it is on. Writing a file and reading it back yields the same text, and file queries agree with the file system.",
 ["programs", "histories"], "all sequences of output, input, tracing and file operations",
 "Sequences interleaving output, input and trace switching are unbounded; tests look at single calls.",
 [I+"Environment.cpp", I+"cstypes.cpp"], [("print/println/readline/trace/gettrace", I+"Environment.cpp"), ("TextWriter/TextReader", I+"cstypes.cpp")],
 None, ["Lisp::SaveEval output"])

prop("C17", "The debugger stops exactly where its commands and breakpoints say",
 "Stepping in stops at the next call, stepping over at the next call of the same or an outer frame, stepping out after the current function returned, and run only at a breakpoint. A breakpoint stops execution exactly when its line in its module is reached with its condition true; listing, adding, deleting and clearing act on exactly the named breakpoints. Stack, variable and expression displays describe the stopped frame, and changing a variable there affects the continuing program.",
 ["histories", "programs"], "all programs × histories of debugger commands",
 "Command histories × programs; tests drive a few scripted sessions and check fragments of their output.",
 [D+"Debugger.cpp", I+"Interpreter.cpp"], [("NeedsBreak / InteractiveLoop / breakpoints", D+"Debugger.cpp")],
 None, ["create_debugger / DebuggerLoop output"])

prop("C18", "Tracing and debugging never change what a program computes",
 "A program run with tracing on, or under the debugger with commands that only inspect and continue, prints the same own output, ends with the same value or error and leaves the same definitions as the plain run.",
 ["programs", "configurations", "histories"], "all programs × observation modes",
 "A relational property between two runs; the tests never compare runs.",
 [I+"Interpreter.cpp", D+"Debugger.cpp"], [("trace and NeedsBreak in EvalAst", I+"Interpreter.cpp"), ("DebuggerLoop", D+"Debugger.cpp")],
 None, ["Lisp::SaveEval, DebuggerLoop"])

prop("C19", "An interactive session keeps state across inputs and survives errors",
 "In a session each input is evaluated in the state left by the previous ones: definitions, macros, modules and mutations persist, and each result is shown. An input that fails reports its error and leaves the session as if the rest of that input had not been given; later inputs behave exactly as they would have otherwise.",
 ["histories", "fault_sequences"], "all histories of inputs, including failing ones",
 "A history property with faults; tests evaluate one program per scope.",
 [I+"Lisp.cpp", D+"Debugger.cpp", I+"Environment.cpp"], [("SaveEval with a reused scope", I+"Lisp.cpp"), ("InteractiveLoop", D+"Debugger.cpp")],
 None, ["several evaluations in one scope; fuel -i"])

prop("C20", "The command line runs what it names, with the switches it is given",
 "The command-line program runs exactly the named scripts, in the order given, or the given expression, each in a fresh environment and with the given switches, shows the final result, trace, timing or documentation only when asked, and reports unknown switches without running anything.",
 ["configurations"], "all combinations and orders of switches and script kinds",
 "Tests call the entry point with single switches; the guarantee is for their combinations.",
 [I+"fuel.cpp"], [("MainExtended", I+"fuel.cpp")], None, ["Fuel::MainExtended"])

prop("C21", "The standard library's definitions behave as documented",
 "Every function and macro of the shipped standard library returns, for every argument in its domain, what its documentation says, expressed in terms of the built-in operations, and evaluates macro operands as often as documented.",
 ["inputs", "programs"], "all arguments of every library definition",
 "Tests call most library functions with one argument tuple each.",
 ["Library/fuellib.fuel"], [("library definitions", "Library/fuellib.fuel")], None, ["Lisp::SaveEval after import of the library"])

prop("C22", "Independent evaluations never influence each other",
 "Evaluating programs one after another, each in a fresh environment, gives each of them the result, output and errors it has when run alone, whatever the others defined, mutated, imported, traced or failed on. Within one environment, two calls of the same function are independent except through the variables and objects they share by scope.",
 ["histories"], "all sequences of programs in one process",
 "State leaking through the process shows only in particular orders of particular programs.",
 [I+"Environment.cpp", I+"Scope.cpp", I+"Lisp.cpp"], [("CreateDefaultScope", I+"Environment.cpp")], None, ["Lisp::SaveEval repeatedly in one process"])

prop("C23", "Place assignments write exactly the addressed element",
 "Assigning to a place (first, last or nth element, a function returning a place) changes exactly that element of that list for every name of the list, and nothing else; reading the same expression outside an assignment gives the element's value. Assigning to a place that does not exist is an error.",
 ["histories", "programs"], "all lists, places and histories of assignments",
 "Place expressions nest and alias; tests assign to three fixed places.",
 [I+"Environment.cpp", I+"Variant.cpp"], [("setf, rval, need-l-value", I+"Environment.cpp"), ("LispType LValue", I+"Variant.cpp")], None, ["Lisp::SaveEval"])

prop("C24", "Introspection reports the actual definitions",
 "The listings of variables, functions, built-ins and modules and the documentation queries report exactly the names, values, types, signatures and documentation texts of the definitions in effect, including those of user functions documented by a comment.",
 ["programs", "histories"], "all sets of definitions",
 "Tests check that single names occur; exactness over arbitrary definition sets is not sampled.",
 [I+"Environment.cpp", I+"Scope.cpp", I+"cstypes.cpp"], [("vars/fuel/doc", I+"Environment.cpp"), ("DumpVars/Dump", I+"Scope.cpp")], None, ["Lisp::SaveEval output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
