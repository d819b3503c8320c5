----------------------------- MODULE FuelDebug -----------------------------
(* The debugger and the command line program as part of the machine.         *)
(*                                                                           *)
(* m.dbg = [on, stop, mode, depth, bps, script]: attached to the running     *)
(* program; stop |-> the program is to stop at the next call for which       *)
(* StepHit holds; bps breakpoints [ln, mod, cond]; script: program text of   *)
(* the command line; first: what the first complete run wrote and answered.  *)
(* Frames:                                                                   *)
(*   dl     command loop [top, cur, fm, isc, cont]: scope it was entered in, *)
(*          scope looked at, started by the main program (not inside of a    *)
(*          stopped program), commands so far, what follows                  *)
(*   dr     evaluation of a command [kind, cmd, sv]                          *)
(*   bcond  evaluation of the condition of a breakpoint [call, bp, sv]       *)
(*   dloop  the debugger running a program again and again [code, mod,       *)
(*          tracing, value, heap (of the run the value belongs to)]          *)
(*   cli    the command line program [plan, ...]                             *)
EXTENDS Fuel

VersionLine == "\nFUEL(isp) v0.99.6 (for C++) from 16.12.2023, (C) by Michael Neuroth\n\n"
AboutText == VersionLine \o "FUEL(isp) is a fast usable embeddable lisp interpreter\n\n"
HelpLines == "\nhelp for interactive loop:\n\n"
  \o "  (h)elp                       : show this help\n"
  \o "  version                      : show of this interpreter\n"
  \o "  about                        : show informations about this interpreter\n"
  \o "  (c)ode                       : show the program code\n"
  \o "  stac(k)                      : show the current call stack\n"
  \o "  (u)p                         : go one step up in call stack\n"
  \o "  (d)own                       : go one step down in call stack\n"
  \o "  (r)un                        : execute the program\n"
  \o "  (s)tep                       : step into function\n"
  \o "  o(v)er                       : step over function\n"
  \o "  (o)ut                        : step out of function\n"
  \o "  (b)reak [module:]line [cond] : set a breakpoint in line no with condition cond\n"
  \o "  clear [no]                   : clears a breakpoint with number no or clears all\n"
  \o "  lis(t)                       : shows all breakpoints\n"
  \o "  restart                      : restart program\n"
  \o "  (l)ocals                     : show all local variables of current scope\n"
  \o "  (g)lobals                    : show all global variables\n"
  \o "  modules                      : show all available modules\n"
  \o "  builtins                     : show all builtin functions\n"
  \o "  funcs                        : show all available functions\n"
  \o "  macros                       : show all available macros\n"
  \o "  doc [function]               : show documentation for all or only given function(s)\n"
  \o "  searchdoc name               : show documentation for function(s) containing name\n"
  \o "  exit                         : exit the interactive loop\n\n"

\* ------------------------------------------------------------- breakpoints
SameModule(a, b) == a = "" \/ b = "" \/ a = b
RECURSIVE BpAt(_, _, _, _)
BpAt(bps, i, ln, mod) == IF i > Len(bps) THEN 0 ELSE IF SameModule(bps[i].mod, mod) /\ bps[i].ln = ln THEN i ELSE BpAt(bps, i + 1, ln, mod)
LnText(n) == IF n >= 0 THEN ToString(n) ELSE "184467440737095516" \o ToString(16 + n)        \* used for -6..-1 only
SetBp(bps, b) == IF \E i \in DOMAIN bps : bps[i].ln = b.ln /\ bps[i].mod = b.mod
                 THEN [bps EXCEPT ![CHOOSE i \in DOMAIN bps : bps[i].ln = b.ln /\ bps[i].mod = b.mod] = b] ELSE Append(bps, b)
RECURSIVE SplitAt(_, _)
SplitAt(t, c) == LET i == FindFrom(t, c, 0) IN IF i < 0 THEN <<t>> ELSE <<SubSeq(t, 1, i)>> \o SplitAt(SubSeq(t, i + 2, Len(t)), c)
LastColon(t) == LET P == {i \in 1..Len(t) : Ch(t, i) = ":"} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : j <= i
\* "break" command: what follows the word -> [ok, bp]
ParseBp(text, mod) ==
  LET quoted == StartsWith(text, "\"")
      q == FindFrom(text, "\"", 1)
      stop == IF q < 0 THEN Len(text) ELSE q
      r1 == IF quoted THEN SubSeq(text, stop + 2, Len(text)) ELSE text
      mod1 == IF quoted THEN SubSeq(text, 2, stop) ELSE mod
      word == IF ~quoted THEN SplitAt(r1, " ")[1] ELSE IF StartsWith(r1, ":") THEN SplitAt(SubSeq(r1, 2, Len(r1)), " ")[1] ELSE ""
      sp == FindFrom(r1, " ", 0)
      c == LastColon(word)
      num == IF c = 0 THEN word ELSE SubSeq(word, c + 1, Len(word))
  IN [ok |-> IsIntText(num) /\ IntDigits(num) # "2147483648",
      bp |-> [ln |-> IF IsIntText(num) THEN IntOfText(num) ELSE 0, mod |-> IF c = 0 THEN mod1 ELSE SubSeq(word, 1, c - 1),
              cond |-> IF sp < 0 THEN "" ELSE Trim(SubSeq(r1, sp + 2, Len(r1)))]]

\* ------------------------------------------------------------------- stops
StepHit(m, s) == CASE m.dbg.mode = "all" -> TRUE
                   [] m.dbg.mode = "over" -> m.dbg.depth >= Depth(m, s)
                   [] m.dbg.mode = "out" -> m.dbg.depth - 1 >= Depth(m, s)
\* the command loop; text: head of the call or code the program stopped at, "" for none
Arrow(m, s, text) == LET k == m.S[s].tok none == k.ty = "none"
                     IN "--> " \o text \o " line=" \o (IF none THEN "-1" ELSE ToString(k.ln)) \o " start=" \o (IF none THEN "0" ELSE ToString(k.st))
                        \o " stop=" \o (IF none THEN "0" ELSE ToString(k.sp)) \o " module=" \o m.S[s].mod \o " token=" \o (IF none THEN "?" ELSE k.tx) \o "\n"
Loop(m, s, fm, cont) == Push(Go(m, [k |-> "dp"]), [f |-> "dl", top |-> s, cur |-> s, fm |-> fm, isc |-> "", cont |-> cont])
StopAt(m, c) == Loop(Show([m EXCEPT !.dbg.stop = FALSE], Arrow(m, c.s, Str(m, c.at))), c.s, FALSE, [k |-> "call", c |-> c])
\* the state of a scope that evaluating for the debugger must not change
Saved(m, s) == [s |-> s, tok |-> m.S[s].tok, next |-> m.S[s].next, tokens |-> m.S[s].tokens, tracing |-> m.S[s].tracing, gtracing |-> m.S[1].tracing,
                ret |-> m.S[s].ret, lval |-> m.S[s].lval, on |-> m.dbg.on]
Restore(m, v) == [m EXCEPT !.S[v.s].tok = v.tok, !.S[v.s].next = v.next, !.S[v.s].tokens = v.tokens, !.S[v.s].tracing = v.tracing, !.S[1].tracing = v.gtracing,
                           !.S[v.s].ret = v.ret, !.S[v.s].lval = v.lval, !.dbg.on = v.on]
\* the breakpoints from the j-th on: the program stops at the first one of this line whose condition holds
TryBps(m, call, j) ==
  LET s == call.s hk == AsVar(call.at).k
      i == BpAt(m.dbg.bps, j, IF hk.ty = "none" THEN -1 ELSE hk.ln, m.S[s].mod)
      bp == m.dbg.bps[i]
      m1 == Push([m EXCEPT !.S[s].lval = FALSE, !.S[1].tracing = FALSE, !.dbg.on = FALSE], [f |-> "bcond", call |-> call, i |-> i, bp |-> bp, sv |-> Saved(m, s)])
  IN IF i = 0 THEN Go(m, call)
     ELSE IF bp.cond = "" THEN StopAt(m, call)
     ELSE Program(m1, s, bp.cond, m.S[s].mod, FALSE, FALSE)
DoNeedsBreak(m) == LET c == m.c call == [c EXCEPT !.k = "ap"]
                   IN IF m.dbg.stop /\ StepHit(m, c.s) THEN StopAt(m, call) ELSE TryBps(m, call, 1)
BadCond(m, f) == TryBps(ShowLine(m, "Error: bad condition for line " \o LnText(f.bp.ln) \o ": " \o f.bp.cond), f.call, f.i + 1)
\* an error leaves a function: the debugger shows it where it happened
DoErrorStop(m) ==
  LET c == m.c es == IF c.body.t \in {"raw", "list"} THEN m.H[c.body.v] ELSE <<c.body>>
      m1 == ShowLine(m, "EXCEPTION: " \o c.e.msg)
  IN Loop(Show(m1, Arrow(m, c.child, IF es = <<>> THEN "()" ELSE Str(m, es[1]))), c.child, FALSE, [k |-> "throw", e |-> c.e, child |-> c.child])
DoBreakStop(m) == Loop(m, m.c.s, FALSE, [k |-> "break"])

\* ---------------------------------------------------------------- commands
StopExc == Exc("stop", "", "", "", NoTok)
\* the loop ends (restart: the user asked for it)
Leave(m, restart) ==
  LET f == Top1(m) p == PopK(m) c == f.cont
  IN CASE c.k = "call" -> Go(p, c.c)
       [] c.k = "throw" -> Throw(DropScope(p, c.child), c.e)
       [] c.k = "break" -> Ret(p, Und)
       [] c.k = "done" -> Go(p, [k |-> "dn", restart |-> restart])
Quit(m) == LET c == Top1(m).cont
           IN IF Top1(m).fm THEN Leave(m, FALSE) ELSE Throw(IF c.k = "throw" THEN DropScope(PopK(m), c.child) ELSE PopK(m), StopExc)
Again(m) == Go(m, [k |-> "dp"])
Say(m, t) == Again(Show(m, t))
\* a function or value per line; only the functions that select accepts
DumpSel(m, s, sel(_), info(_)) ==
  LET ks == SelectSeq(Keys(m, s), LAMBDA k : sel(AsVar(VarAt(m, s, k))))
  IN CatText([i \in DOMAIN ks |-> LET n == AsVar(VarAt(m, s, ks[i])) IN DumpLine(m, ks[i], n, info(n))])
NoInfo(n) == ""
NoStar(x) == ~StartsWith(x, "###")
ExtractModule(x) == IF StartsWith(x, "<evalstr>:") THEN SubSeq(x, 11, FindFrom(x, ":", 10)) ELSE x
ModOf(m, n) == " : module=" \o (IF n.t = "bfun" THEN "<builtin>" ELSE ExtractModule(m.C[n.v].mod))
FuncsText(m) ==
  LET fs == SortTexts(DOMAIN m.mods) I(n) == ModOf(m, n)
  IN DumpSel(m, 1, IsFun, I) \o CatText([i \in DOMAIN fs |-> DumpSel(m, m.mods[fs[i]], IsFun, I)])
IsBuiltin(n) == n.t = "bfun"
HelpTable(m) ==
  LET ks == SelectSeq(Keys(m, 1), LAMBDA k : IsBuiltin(AsVar(VarAt(m, 1, k))))
  IN CatText([i \in DOMAIN ks |-> LET n == AsVar(VarAt(m, 1, ks[i])) IN PadL(ks[i], 20) \o " --> " \o SigOf(m, n) \o "\n"
                                  \o (IF DocOf(m, n) = "" THEN "" ELSE PadL(" ", 20) \o "     " \o DocOf(m, n) \o "\n")])
LinesOf(ts) == CatText([i \in DOMAIN ts |-> ts[i] \o "\n"])
BpsText(m) == "Breakpoints:\n" \o CatText([i \in DOMAIN m.dbg.bps |-> LET b == m.dbg.bps[i]
                IN "#" \o PadR(ToString(i), 3) \o " line=" \o PadR(LnText(b.ln), 5) \o " module=" \o PadR(b.mod, 25) \o " condition=" \o b.cond \o "\n"])
CodeText(m, script, mod, ln) ==
  LET ls == Lines(script)
  IN CatText([i \in DOMAIN ls |-> PadL(ToString(i), 3) \o " " \o (IF BpAt(m.dbg.bps, 1, i, mod) = 0 THEN "  " ELSE "B ") \o " " \o PadL(IF ln = i THEN "-->" ELSE "", 3) \o " " \o ls[i] \o "\n"])
CodeOf(m, f) ==
  LET mod == m.S[f.cur].mod
      t == IF mod = "" THEN f.isc
           ELSE IF StartsWith(mod, "<evalstr>:") THEN SubSeq(mod, FindFrom(mod, ":", 10) + 2, Len(mod))
           ELSE IF Exists(m, mod) THEN m.fs[FileName(mod)] ELSE ""
  IN IF t = "" THEN m.dbg.script ELSE t
\* code is evaluated in the scope that is looked at
EvalIn(m, kind, cmd, code) ==
  LET s == Top1(m).cur
  IN Program(Push([m EXCEPT !.S[s].lval = FALSE], [f |-> "dr", kind |-> kind, cmd |-> cmd, sv |-> Saved(m, s)]), s, code, m.S[s].mod, IF kind = "eval" THEN m.S[1].tracing ELSE FALSE, FALSE)
DocCommand(m, name, cmd) == LET w == SplitAt(cmd, " ") IN IF Len(w) > 1 THEN EvalIn(m, "doc", cmd, "(" \o name \o " '" \o w[2] \o ")") ELSE Say(m, HelpTable(m))
Step(m, mode) == Leave([m EXCEPT !.dbg.stop = TRUE, !.dbg.mode = mode, !.dbg.depth = Depth(m, Top1(m).cur)], FALSE)
Clear(m, rest) ==
  LET n == IF IsIntText(rest) THEN IntOfText(rest) ELSE 0
  IN IF rest = "" THEN Go(ShowLine(m, "Really delete all breakpoints? (y/n)"), [k |-> "dy"])
     ELSE IF IsIntText(rest) /\ n \in DOMAIN m.dbg.bps THEN Again([m EXCEPT !.dbg.bps = SubSeq(@, 1, n - 1) \o SubSeq(@, n + 1, Len(@))])
     ELSE Say(m, "Warning: no breakpoint cleared\n")
\* any other answer is asked for again (without a word)
DoAnswer(m) ==
  LET a == IF m.inp = <<>> THEN "" ELSE ToUpper(m.inp[1]) m1 == [m EXCEPT !.inp = IF @ = <<>> THEN @ ELSE Tail(@)]
  IN IF a \in {"Y", "YES"} THEN Again([m1 EXCEPT !.dbg.bps = <<>>]) ELSE IF a \in {"N", "NO", ""} THEN Again(m1) ELSE m1
DoCommand(m0) ==
  LET line == IF m0.inp = <<>> THEN "" ELSE m0.inp[1]
      m == Show([m0 EXCEPT !.inp = IF @ = <<>> THEN @ ELSE Tail(@)], "FUEL(isp)-DBG> ")
      cmd == Trim(line) f == Top1(m) s == f.cur
      With(g) == [PopK(m) EXCEPT !.c = [k |-> "dp"], !.K = Append(@, g)]
      bp == ParseBp(Trim(SubSeq(cmd, FindFrom(cmd, " ", 0) + 1, Len(cmd))), m.S[s].mod)
  IN CASE cmd \in {"", "exit", "quit", "q"} -> Quit(m)
       [] cmd \in {"help", "h"} -> Say(m, HelpLines)
       [] cmd = "about" -> Say(m, AboutText)
       [] cmd = "funcs" -> Say(m, FuncsText(m))
       [] cmd = "macros" -> Say(m, LinesOf(SortTexts(DOMAIN m.mac)))
       [] cmd = "builtins" -> Say(m, DumpSel(m, 1, IsBuiltin, NoInfo))
       [] StartsWith(cmd, "doc") -> DocCommand(m, "doc", cmd)
       [] StartsWith(cmd, "searchdoc") -> DocCommand(m, "searchdoc", cmd)
       [] cmd = "modules" -> Say(m, LinesOf(SortTexts(DOMAIN m.mods)))
       [] StartsWith(cmd, "clear") -> Clear(m, Trim(SubSeq(cmd, 6, Len(cmd))))
       [] StartsWith(cmd, "k") \/ cmd = "stack" -> Say(m, Stack(m, f.top, Depth(m, s)) \o "\n")
       [] StartsWith(cmd, "c") -> IF StartsWith(m.S[s].mod, "<evalstr>:<evalstr>:") THEN Uns(m, "code of nested evalstr")
                                  ELSE IF m.S[s].mod # "" /\ ~LocalName(m, m.S[s].mod) /\ ~StartsWith(m.S[s].mod, "<evalstr>:") THEN Uns(m, "path")
                                  ELSE Say(m, CodeText(m, CodeOf(m, f), m.S[s].mod, IF m.S[s].tok.ty = "none" THEN -1 ELSE m.S[s].tok.ln))
       [] StartsWith(cmd, "list") \/ StartsWith(cmd, "t") -> Say(m, BpsText(m))
       [] StartsWith(cmd, "break ") \/ StartsWith(cmd, "b ") -> IF bp.ok THEN IF bp.bp.ln < -6 THEN Uns(m, "line number") ELSE Again([m EXCEPT !.dbg.bps = SetBp(@, bp.bp)])
                                                               ELSE Say(m, "Warning: no breakpoint set or modified\n")
       [] StartsWith(cmd, "u") -> IF m.S[s].next # 0 THEN With([f EXCEPT !.cur = m.S[s].next]) ELSE Again(m)
       [] StartsWith(cmd, "d") -> IF m.S[s].prev # 0 THEN With([f EXCEPT !.cur = m.S[s].prev]) ELSE Again(m)
       [] cmd \in {"step", "s"} -> Step(m, "all")
       [] cmd \in {"over", "v"} -> Step(m, "over")
       [] cmd \in {"out", "o"} -> Step(m, "out")
       [] cmd \in {"run", "r"} -> Leave([m EXCEPT !.dbg.stop = FALSE], FALSE)
       [] StartsWith(cmd, "l") -> Say(m, VarsText(m, s))
       [] StartsWith(cmd, "g") -> Say(m, VarsText(m, 1))
       [] cmd = "restart" -> Leave(m, TRUE)
       [] cmd \in {"version", "ver"} -> Say(m, VersionLine)
       [] OTHER -> EvalIn(m, "eval", cmd, cmd)

\* -------------------------------------------------------- the debugger runs
\* a new interpreter state for the same files, input and debugger
FreshFor(m) == [Machine0 EXCEPT !.fs = m.fs, !.inp = m.inp, !.lib = m.lib, !.envp = m.envp, !.n = m.n, !.xonly = m.xonly, !.out = m.out, !.own = m.own, !.dbg = m.dbg, !.K = m.K]
RunAgain(m, f) ==
  LET m1 == [FreshFor(m) EXCEPT !.dbg.on = TRUE, !.dbg.script = IF f.mod = "command-line" THEN f.code ELSE @]
  IN Program(Push(m1, f), 1, f.code, f.mod, f.tracing, FALSE)
DebugProgram(m, code, mod, tracing) == RunAgain(m, [f |-> "dloop", code |-> code, mod |-> mod, tracing |-> tracing, value |-> Null, heap |-> 0])
RestartOrLoop(m, f) ==                             \* m: without the frame f
  LET m1 == ShowLine(m, "restart program")
  IN IF f.value.t = "null" THEN Loop(Push(m1, [f EXCEPT !.f = "dlempty"]), 1, TRUE, [k |-> "done"]) ELSE RunAgain(m1, f)
Heap(m) == [H |-> m.H, C |-> m.C, D |-> m.D, S |-> m.S]
Ended(m, tx) == IF m.dbg.first.done THEN m ELSE [m EXCEPT !.dbg.first = [done |-> TRUE, end |-> [out |-> m.own, tx |-> tx]]]
DebuggerEnds(m, f) ==                              \* the value may be one of an earlier run
  LET m1 == [m EXCEPT !.dbg.on = FALSE]
  IN IF f.value.t = "null" THEN Ret(m1, f.value) ELSE Ret([m1 EXCEPT !.H = f.heap.H, !.C = f.heap.C, !.D = f.heap.D, !.S = [i \in DOMAIN f.heap.S |-> [f.heap.S[i] EXCEPT !.lval = FALSE, !.ineval = FALSE, !.prev = 0, !.next = 0]]], f.value)

\* ------------------------------------------------- the command line program
\* what Lisp::SaveEval adds to the output when a program failed
ErrOf(e) == IF e.kind = "base" THEN [exc |-> "base", msg |-> e.msg, line |-> "", start |-> "", stop |-> "", module |-> "", stack |-> ""]
            ELSE IF e.tok.ty = "lost" THEN [exc |-> "located", msg |-> e.msg, line |-> "?", start |-> "?", stop |-> "?", module |-> e.mod, stack |-> e.stack]
            ELSE [exc |-> "located", msg |-> e.msg, line |-> IF e.tok.ty = "none" THEN "-1" ELSE ToString(e.tok.ln),
                  start |-> IF e.tok.ty = "none" THEN "-1" ELSE ToString(e.tok.st), stop |-> IF e.tok.ty = "none" THEN "-1" ELSE ToString(e.tok.sp),
                  module |-> e.mod, stack |-> e.stack]
ReportText(e, verbose) ==
  LET x == ErrOf(e)
  IN IF e.kind = "base" THEN ""
     ELSE "\nError executing script.\n\n" \o x.msg \o " --> line=" \o x.line \o " start=" \o x.start \o " stop=" \o x.stop \o " module=" \o x.module \o "\n"
          \o "\nCallstack:\n" \o x.stack \o "\n"
          \o (IF verbose THEN "Exception in eval(): exc->ToString() \ndata=exc.Data\n" ELSE "")
UsageText == AboutText \o "usage:\n>fuel [options] [script_file_name]\n\noptions:\n"
  \o "  -v          : show version\n"
  \o "  -h          : show help\n"
  \o "  -e \"script\" : execute given script\n"
  \o "  -l=\"path\"   : path to library\n"
  \o "  --doc       : show language documentation\n"
  \o "  --html      : show language documentation in html\n"
  \o "  --macro-expand : expand all macros and show resulting code\n"
  \o "  -m          : measure execution time\n"
  \o "  -t          : enable tracing\n"
  \o "  -x          : exhaustive error output\n"
  \o "  -i          : interactive shell\n"
  \o "  -d          : start debugger\n\n"
LoopHeader == VersionLine \o "Type \"help\" for informations.\n\n"
RECURSIVE DropFirst(_, _), DropEach(_, _)
DropFirst(xs, x) == IF xs = <<>> THEN <<>> ELSE IF xs[1] = x THEN Tail(xs) ELSE <<xs[1]>> \o DropFirst(Tail(xs), x)
DropEach(xs, ys) == IF ys = <<>> THEN xs ELSE DropEach(DropFirst(xs, ys[1]), Tail(ys))
CliOptions == <<"-m", "--doc", "--html", "--macro-expand", "-x", "-t", "-e", "-i", "-d">>
Finish(m, text) == Ret(Show(m, text), Und)
\* todo: what remains to be done, one entry after the other
CliNext(m, f) ==
  LET a == f.todo[1] g == [f EXCEPT !.todo = Tail(@)] k == [m EXCEPT !.K = Append(@, g)] fresh == FreshFor(k)
      text == Str(m, ToV(f.value))
      Read(x) == IF Exists(m, x) THEN m.fs[FileName(x)] ELSE ""
  IN IF f.todo = <<>> THEN Finish(m, (IF f.x THEN "Macro expand: " \o text \o "\n" ELSE "") \o (IF f.trace THEN "Result=" \o text \o "\n" ELSE "")
                                     \o (IF f.time THEN "Execution time = # s\n" ELSE ""))
     ELSE IF a.a = "loop" THEN Loop(Show([fresh EXCEPT !.S[1].tracing = f.trace, !.dbg.on = FALSE], LoopHeader), 1, TRUE, [k |-> "done"])
     ELSE IF a.a \in {"file", "debugfile"} /\ ~LocalName(m, a.name) THEN Uns(m, "path")
     ELSE IF a.a = "debug" THEN DebugProgram(Show(k, LoopHeader), a.code, "command-line", f.trace)
     ELSE IF a.a = "debugfile" THEN DebugProgram(Show(k, LoopHeader), Read(a.name), a.name, f.trace)
     ELSE Program([fresh EXCEPT !.xonly = f.x, !.dbg.on = FALSE], 1, IF a.a = "file" THEN Read(a.name) ELSE a.code, IF a.a = "file" THEN a.name ELSE "cmdline", a.a = "file" /\ f.trace, FALSE)
CliStart(m, args, compiler) ==
  LET Has(o) == \E i \in DOMAIN args : args[i] = o
      scripts == SelectSeq(args, LAMBDA a : ~StartsWith(a, "-"))
      libs == SelectSeq(args, LAMBDA a : StartsWith(a, "-l="))
      rest == DropEach(DropEach(DropEach(args, CliOptions), libs), scripts)
      script == IF Has("-e") THEN IF scripts = <<>> THEN "" ELSE scripts[1] ELSE IF Has("--html") THEN "(htmldoc)" ELSE IF Has("--doc") THEN "(doc)" ELSE ""
      load == ~Has("-e") /\ ~Has("--html") /\ ~Has("--doc")
      debug == Has("-i") \/ Has("-d")
      first == IF scripts = <<>> THEN "" ELSE scripts[1]
      todo == (IF Has("-i") THEN <<[a |-> "loop"]>> ELSE <<>>)
              \o (IF Has("-d") THEN IF script = "" THEN <<[a |-> "debugfile", name |-> first]>> ELSE <<[a |-> "debug", code |-> script]>> ELSE <<>>)
              \o (IF debug THEN <<>> ELSE IF load THEN [i \in DOMAIN scripts |-> [a |-> "file", name |-> scripts[i]]] ELSE IF script # "" THEN <<[a |-> "code", code |-> script]>> ELSE <<>>)
      f == [f |-> "cli", todo |-> todo, value |-> Und, x |-> Has("--macro-expand"), trace |-> Has("-t") \/ Has("--doc") \/ Has("--html"), time |-> Has("-m"), verbose |-> Has("-x") /\ load]
      m1 == IF libs = <<>> THEN m ELSE [m EXCEPT !.lib = SubSeq(libs[1], 4, Len(libs[1]))]
  IN IF args = <<>> THEN Finish(m, UsageText)
     ELSE IF Has("-v") THEN Finish(m, "fuel v0.99.6 from 16.12.2023 compiled with " \o compiler \o "\n")
     ELSE IF Has("-h") THEN Finish(m, UsageText)
     ELSE IF Len(libs) > 1 THEN Finish(m, "Error: only one library path is supported\n")
     ELSE IF rest # <<>> THEN Finish(m, "Error: unknown option(s) " \o CatText([i \in DOMAIN rest |-> rest[i] \o " "]) \o "\n")
     ELSE CliNext(m1, f)

DbgFrames == {"dr", "bcond", "dloop", "dlempty", "cli"}
DoDbgReturn(m) ==
  LET v == m.c.v f == Top1(m) p == PopK(m)
  IN CASE f.f = "bcond" -> LET q == Restore(p, f.sv)
                           IN IF v.t = "null" \/ v = Bool(FALSE) THEN TryBps(q, f.call, f.i + 1)
                              ELSE IF v.t # "bool" THEN BadCond(q, f) ELSE StopAt(q, f.call)
       [] f.f = "dr" -> LET q == Restore(p, f.sv) l == Top1(q)
                        IN IF f.kind = "doc" THEN Say(q, Str(q, ToV(v)) \o "\n")
                           ELSE Say([q EXCEPT !.K[Len(q.K)] = [l EXCEPT !.isc = @ \o f.cmd \o "\n"]], "result=" \o Str(q, ToV(v)) \o "\n")
       [] f.f = "cli" -> CliNext(p, [f EXCEPT !.value = v])
       [] f.f = "dloop" -> RestartOrLoop(Ended([p EXCEPT !.dbg.stop = TRUE, !.dbg.mode = "all"], IF m.c.v.t = "null" THEN "" ELSE Str(m, v)), [f EXCEPT !.value = m.c.v, !.heap = Heap(m)])
DoDbgThrow(m) ==
  LET e == m.c.e f == Top1(m) p == PopK(m)
  IN CASE f.f = "bcond" -> BadCond(Restore(p, f.sv), f)
       [] f.f = "cli" -> CliNext(Show(p, ReportText(e, f.verbose)), [f EXCEPT !.value = N("err", e.msg)])
       [] f.f = "dr" -> Say(Restore(p, f.sv), IF e.kind = "stop" THEN "Native Exception\n" ELSE "Exception: " \o e.msg \o "\n")
       [] f.f = "dloop" -> IF e.kind = "stop" THEN DebuggerEnds(p, f)
                           ELSE Loop(Push(Show(Ended(p, "EXCEPTION: " \o e.msg), "\nException: EXCEPTION: " \o e.msg \o "\n" \o "\nStack:\n<TODO>\n"), f), 1, TRUE, [k |-> "done"])
\* a command loop of the main program has ended
DoLoopDone(m) ==
  LET f == Top1(m) p == PopK(m)
  IN CASE f.f = "cli" -> CliNext(p, f)
       [] f.f = "dloop" -> IF m.c.restart THEN RestartOrLoop(p, f) ELSE DebuggerEnds(p, f)
       [] f.f = "dlempty" -> LET g == [f EXCEPT !.f = "dloop"] IN IF m.c.restart THEN RunAgain(p, g) ELSE DebuggerEnds(p, g)
=============================================================================
