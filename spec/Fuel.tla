-------------------------------- MODULE Fuel --------------------------------
(* The interpreter as a state machine.  One record m is the whole state:     *)
(*   c    control: what is done next                                         *)
(*   K    stack of frames: what is done with the result                      *)
(*   H,C,D  cells, closures, dictionaries;   S  scopes (1 is the global one) *)
(*   mac  macros;  mods  imported modules;  out  output;  inp  input lines   *)
(*   fs   files;  lib, envp  library paths;  n  number of steps              *)
(*   xonly  programs are only macro expanded, not evaluated                  *)
(*   own  the part of the output that the program itself wrote (without the  *)
(*        lines of a trace and of the debugger)                              *)
(*   dbg  debugger (see FuelDebug): attached, stop wanted (mode, depth),     *)
(*        breakpoints, program given on the command line                     *)
(* The operators DoEval, DoApply, DoReturn, ... map a state to its successor,*)
(* the actions of Next in FuelTrace apply them.                              *)
EXTENDS FuelValues

Put(f, x, v) == (x :> v) @@ f
NoVars == [x \in {} |-> Und]
NewScope(name, mod, clos, lval) ==
  [name |-> name, vars |-> NoVars, clos |-> clos, mod |-> mod, tok |-> NoTok, ret |-> FALSE, lval |-> lval,
   tracing |-> FALSE, prev |-> 0, next |-> 0, tokens |-> <<>>, ineval |-> FALSE, args |-> <<>>, hasargs |-> FALSE,
   ton |-> FALSE, tset |-> FALSE, bset |-> FALSE, tbuf |-> "", del |-> {}]
NoDbg == [on |-> FALSE, stop |-> TRUE, mode |-> "all", depth |-> 0, bps |-> <<>>, script |-> "", first |-> [done |-> FALSE]]
GlobalScope == [NewScope("<main>", "", 0, FALSE) EXCEPT !.tset = TRUE, !.bset = TRUE]
Machine0 == [c |-> [k |-> "idle"], K |-> <<>>, H |-> <<>>, S |-> <<GlobalScope>>, C |-> <<>>, D |-> <<>>,
             mac |-> [x \in {} |-> 0], mods |-> [x \in {} |-> 0], out |-> "", own |-> "", inp |-> <<>>, fs |-> [x \in {} |-> ""],
             lib |-> "", envp |-> "", dbg |-> NoDbg, n |-> 0, xonly |-> FALSE]

Go(m, c) == [m EXCEPT !.c = c]
Ret(m, v) == [m EXCEPT !.c = [k |-> "rt", v |-> v]]
Push(m, f) == [m EXCEPT !.K = Append(@, f)]
Top1(m) == m.K[Len(m.K)]
PopK(m) == [m EXCEPT !.K = SubSeq(@, 1, Len(@) - 1)]
Ev(m, n, s) == [m EXCEPT !.c = [k |-> "ev", n |-> n, s |-> s]]
EvThen(m, n, s, f) == [m EXCEPT !.c = [k |-> "ev", n |-> n, s |-> s], !.K = Append(@, f)]
Ap(m, fn, args, s) == [m EXCEPT !.c = [k |-> "ap", fn |-> fn, args |-> args, s |-> s]]
Uns(m, why) == [m EXCEPT !.c = [k |-> "un", why |-> why]]
NewId(m) == Len(m.H) + 1
AddCell(m, seq) == [m EXCEPT !.H = Append(@, seq)]
RetList(m, seq) == Ret(AddCell(m, seq), ListN(NewId(m)))
Write(m, t) == [m EXCEPT !.out = @ \o t, !.own = @ \o t]
WriteLine(m, t) == Write(m, t \o "\n")
Show(m, t) == [m EXCEPT !.out = @ \o t]             \* not written by the program
ShowLine(m, t) == Show(m, t \o "\n")

\* ------------------------------------------------------------------ errors
\* token of a scope that an unspecified program has used (see PassOver in FuelTrace)
LostTok == [NoTok EXCEPT !.ty = "lost"]
LineText(k) == IF k.ty = "lost" THEN "?" ELSE IF k.ty = "none" THEN "18446744073709551615" ELSE ToString(k.ln)
RECURSIVE Depth(_, _), StackText(_, _, _, _)
Depth(m, s) == IF s = 0 THEN 0 ELSE 1 + Depth(m, m.S[s].prev)
StackText(m, s, i, level) ==
  IF s = 0 THEN ""
  ELSE StackText(m, m.S[s].prev, i - 1, level)
       \o (IF i = level THEN "-->" ELSE "   ") \o PadL(ToString(i), 5) \o " name=" \o PadR(m.S[s].name, 35)
       \o " lineno=" \o PadR(LineText(m.S[s].tok), 4) \o " module=" \o m.S[s].mod \o "\n"
Stack(m, s, level) == StackText(m, s, Depth(m, s), level)
Exc(kind, msg, mod, stack, tok) == [kind |-> kind, msg |-> msg, mod |-> mod, stack |-> stack, tok |-> tok]
Throw(m, e) == [m EXCEPT !.c = [k |-> "ex", e |-> e]]
ScopeExc(m, s, msg) == Exc("located", msg, m.S[s].mod, Stack(m, s, -1), m.S[s].tok)
ThrowAt(m, s, msg) == Throw(m, ScopeExc(m, s, msg))
ThrowTok(m, s, msg, tok) == Throw(m, Exc("located", msg, m.S[s].mod, Stack(m, s, -1), tok))
\* result of an operation: value or error
Fin(m, s, r) ==
  CASE r.s = "ok" -> Ret(m, r.v)
    [] r.s = "er" -> Throw(m, Exc("located", r.msg, "???", "???", r.tok))
    [] r.s = "sc" -> ThrowAt(m, s, r.msg)
    [] r.s = "bs" -> Throw(m, Exc("base", r.msg, "", "", NoTok))
    [] OTHER -> Uns(m, r.msg)
BadCount(name, n, e) == "Bad argument count in " \o name \o ", has " \o ToString(n) \o " expected " \o e
BadIndex(name, i, max) == "Index out of range in " \o name \o " (index=" \o ToString(i) \o " max=" \o ToString(max) \o ")"

\* ------------------------------------------------------------------- names
HasVar(m, s, x) == x \in DOMAIN m.S[s].vars \/ (s = 1 /\ x \in BuiltinNames /\ x \notin m.S[1].del)
VarAt(m, s, x) == IF x \in DOMAIN m.S[s].vars THEN m.S[s].vars[x] ELSE N("bfun", x)
RECURSIVE InChain(_, _, _), FirstModule(_, _, _)
InChain(m, s, x) == LET c == m.S[s].clos IN IF c = 0 THEN 0 ELSE IF HasVar(m, c, x) THEN c ELSE InChain(m, c, x)
FirstModule(m, files, x) == IF files = <<>> THEN 0 ELSE IF x \in DOMAIN m.S[m.mods[files[1]]].vars THEN m.mods[files[1]] ELSE FirstModule(m, Tail(files), x)
\* scope that gives x its meaning: the local one, the enclosing ones, the global one, the modules; 0: none
WhereIs(m, s, x) ==
  IF HasVar(m, s, x) THEN s
  ELSE IF InChain(m, s, x) # 0 THEN InChain(m, s, x)
  ELSE IF HasVar(m, 1, x) THEN 1
  ELSE IF DOMAIN m.mods = {} THEN 0 ELSE FirstModule(m, SortTexts(DOMAIN m.mods), x)
Resolve(m, s, n) == LET w == WhereIs(m, s, n.v) IN IF w = 0 THEN n ELSE VarAt(m, w, n.v)
SetVar(m, s, x, v) == [m EXCEPT !.S[s].vars = Put(@, x, v)]
\* scope an assignment changes: the local one, the enclosing ones, the global one
WhereSet(m, s, x) == IF HasVar(m, s, x) THEN s ELSE IF InChain(m, s, x) # 0 THEN InChain(m, s, x) ELSE IF HasVar(m, 1, x) THEN 1 ELSE 0
Reserved(x) == StartsWith(x, "###")

PrevTok(toks, k) ==
  IF k.ty = "none" \/ ~(\E i \in DOMAIN toks : toks[i] = k) THEN NoTok
  ELSE LET i == CHOOSE i \in DOMAIN toks : toks[i] = k IN IF i = 1 THEN NoTok ELSE toks[i - 1]

\* ------------------------------------------------------------- source text
Leaf0(k) ==
  LET t == IF k.ln = -1 /\ k.st = -1 /\ k.sp = -1 THEN NoTok ELSE k
      W(n) == [n EXCEPT !.k = t]
      d == DoubleOf(k.tx)
  IN CASE k.ty = "str" -> W(StrN(k.tx))
       [] k.ty = "int" -> W(IntN(IntOfText(k.tx)))
       [] k.ty = "dbl" -> W(IF d.ok THEN Dbl(d.v) ELSE FltN(FOfText(StripL(k.tx), ScanDouble(StripL(k.tx)))))
       [] k.ty = "true" -> W(Bool(TRUE))
       [] k.ty = "false" -> W(Bool(FALSE))
       [] k.ty = "nil" -> W(N("nil", 1))
       [] OTHER -> W(Sym(k.tx))
RECURSIVE Build(_, _)
Build(H, t) == IF t.leaf THEN [H |-> H, n |-> Leaf0(t.tok)]
               ELSE LET Next1(acc, kid) == LET r == Build(acc.H, kid) IN [H |-> r.H, s |-> Append(acc.s, r.n)]
                        r == FoldSeqLeft(Next1, [H |-> H, s |-> <<>>], t.kids)
                    IN [H |-> Append(r.H, r.s), n |-> Raw(Len(r.H) + 1)]
TooHard(k) == \/ k.ty = "int" /\ k.tx = "-2147483648"
              \/ k.ty = "dbl" /\ ~DoubleOf(k.tx).ok /\ LET r == ScanDouble(StripL(k.tx)) IN DoubleRange(r) # "in" \/ (r.kind = "name" /\ ToLower(Ch(Unsigned(StripL(k.tx)), 1)) = "n")
              \/ k.ty = "sym" /\ k.tx \in {"###macros###", "###modules###", "###args###", "###traceon###", "###tracebuffer###"}

\* Lisp::Eval: evaluates a program text in scope s, the result goes to the frame on top of the stack
Program(m, s, code, mod, tracing, inEval) ==
  LET m1 == [m EXCEPT !.S[s].mod = mod, !.S[s].tracing = tracing, !.S[s].ret = IF m.S[s].ineval THEN @ ELSE FALSE]
      L == Lex("(do " \o code \o "\n)", 4)
      P == Parse(L.toks)
      r == Build(m.H, P.res)
  IN IF L.err # "" THEN Throw(m1, Exc("base", L.err, "", "", NoTok))
     ELSE LET m2 == [m1 EXCEPT !.S[s].tokens = L.toks]
          IN IF P.err # "" THEN Throw(m2, Exc("located", P.err, mod, "not available", P.etok))
             ELSE IF \E i \in DOMAIN L.toks : TooHard(L.toks[i]) THEN Uns(m2, "literal outside of the specified range")
             ELSE [m2 EXCEPT !.H = r.H, !.c = [k |-> "xp", n |-> r.n, s |-> 1, lp |-> TRUE], !.K = Append(@, [f |-> "run", s |-> s, xonly |-> m.xonly /\ Top1(m).f \in {"prog", "cli"}])]

\* --------------------------------------------------------- macro expansion
IsExFun(n) == n.t = "bfun" /\ BI[n.v].ex
DefinesMacro(m, s, h) == HasVar(m, s, h) /\ IsExFun(VarAt(m, s, h))
CallsMacro(m, s, h) == s = 1 /\ h \in DOMAIN m.mac /\ m.mac[h].kind = "expand"
RECURSIVE NeedsX(_, _, _)
NeedsX(m, s, n) ==
  /\ n.t = "raw" /\ m.H[n.v] # <<>>
  /\ LET es == m.H[n.v] h == IF es[1].t = "raw" THEN "(" ELSE Str(m, es[1])
     IN DefinesMacro(m, s, h) \/ CallsMacro(m, s, h) \/ \E i \in DOMAIN es : NeedsX(m, s, es[i])
\* expansion without any macro: a copy of the code; lists that are values become code
AsCode(H, n) == IF n.t = "nil" THEN [H |-> Append(H, <<>>), n |-> Raw(Len(H) + 1)]
                ELSE IF n.t = "list" THEN [H |-> Append(H, H[n.v]), n |-> Raw(Len(H) + 1)]
                ELSE [H |-> H, n |-> n]
RECURSIVE CopyIn(_, _)
CopyIn(H, n) == IF n.t # "raw" \/ H[n.v] = <<>> THEN [H |-> H, n |-> n]
                ELSE LET Next1(acc, e) == LET c == CopyIn(acc.H, e) r == AsCode(c.H, c.n) IN [H |-> r.H, s |-> Append(acc.s, r.n)]
                         r == FoldSeqLeft(Next1, [H |-> H, s |-> <<>>], H[n.v])
                     IN [H |-> Append(r.H, r.s), n |-> Raw(Len(r.H) + 1)]
CopyCode(m, n) == CopyIn(m.H, n)

\* replaces symbol x by value v in a sequence of nodes; "splice": v's elements are inserted
RECURSIVE Subst(_, _, _, _, _)
Subst(H, x, v, es, splice) ==
  LET Next1(acc, e) == IF e.t = "sym" /\ e.v = x THEN [acc EXCEPT !.s = @ \o (IF splice THEN H[v.v] ELSE <<v>>)]
                       ELSE IF e.t = "raw" THEN LET r == Subst(acc.H, x, v, H[e.v], splice)
                                                IN [H |-> Append(r.H, r.s), s |-> Append(acc.s, Raw(Len(r.H) + 1))]
                       ELSE [acc EXCEPT !.s = Append(@, e)]
  IN FoldSeqLeft(Next1, [H |-> H, s |-> <<>>], es)
\* macro call "ast" in scope s; what: "run" (evaluate the result in s) or "xm" (compile time)
StartReplace(m, s, mc, ast, what) ==
  LET m1 == AddCell(m, Tail(ast))
      m2 == AddCell(m1, <<Sym("quote"), ListN(NewId(m))>>)
      r == Subst(m2.H, "quoted-macro-args", Raw(NewId(m1)), mc.body, TRUE)
  IN [m EXCEPT !.H = r.H, !.c = [k |-> "mr", s |-> s, formals |-> mc.formals, ast |-> ast, body |-> r.s, i |-> 1, what |-> what]]
RECURSIVE ReplaceArgs(_, _)
ReplaceWith(m, c, v) ==
  LET fo == AsVar(c.formals[c.i])
      r == Subst(m.H, fo.v, v, c.body, FALSE)
      c1 == [c EXCEPT !.i = @ + 1]
  IN IF fo.t = "sym" THEN ReplaceArgs([m EXCEPT !.H = r.H], [c1 EXCEPT !.body = r.s]) ELSE ReplaceArgs(m, c1)
ReplaceArgs(m, c) ==
  IF c.i > Len(c.formals)
  THEN LET n == Raw(NewId(m)) m1 == AddCell(m, c.body)
       IN IF c.what = "run" THEN Ev(m1, n, c.s) ELSE EvThen(m1, n, c.s, [f |-> "xm", s |-> c.s])
  ELSE IF c.i + 1 > Len(c.ast)
  THEN ThrowAt(m, c.s, "Bad argument count in macro " \o Str(m, c.ast[1]) \o ", has " \o ToString(Len(c.ast) - 1) \o " expected " \o ToString(Len(c.formals)))
  ELSE LET a == c.ast[c.i + 1] x == CopyCode(m, a)
       IN IF NeedsX(m, c.s, a) THEN Push(Go(m, [k |-> "xp", n |-> a, s |-> c.s, lp |-> FALSE]), [f |-> "mra", c |-> c])
          ELSE ReplaceWith([m EXCEPT !.H = x.H], c, x.n)
DoReplace(m) == ReplaceArgs(m, m.c)

\* expansion of node c.n in scope c.s; c.lp: until no macro call is left
XRet(m, v, any) == Go(m, [k |-> "xr", v |-> v, any |-> any])
NextElem(m, fr) ==
  IF fr.todo = <<>> THEN XRet(AddCell(m, fr.done), Raw(NewId(m)), FALSE)
  ELSE Push(Go(m, [k |-> "xp", n |-> fr.todo[1], s |-> fr.s, lp |-> TRUE]), [fr EXCEPT !.todo = Tail(@)])
DoExpand(m) ==
  LET c == m.c s == c.s x == CopyCode(m, c.n)
  IN IF ~NeedsX(m, s, c.n) THEN XRet([m EXCEPT !.H = x.H], x.n, FALSE)
     ELSE IF c.lp THEN Push(Go(m, [c EXCEPT !.lp = FALSE]), [f |-> "xl", s |-> s])
     ELSE LET es == m.H[c.n.v] h == Str(m, es[1]) a == Tail(es)
          IN IF DefinesMacro(m, s, h)
             THEN IF Len(a) # 3 THEN ThrowAt(m, s, BadCount("define-macro-expand", Len(a), "3"))
                  ELSE IF a[1].t = "raw" THEN Uns(m, "macro without a name")
                  ELSE IF a[2].t # "raw" \/ a[3].t # "raw" THEN ThrowAt(m, s, "List expected in define-macro-expand")
                  ELSE Push(Go(m, [k |-> "xp", n |-> a[3], s |-> s, lp |-> TRUE]), [f |-> "xd", s |-> s, name |-> Str(m, a[1]), formals |-> m.H[a[2].v]])
             ELSE IF CallsMacro(m, s, h) THEN StartReplace(m, s, m.mac[h], es, "xm")
             ELSE NextElem(m, [f |-> "xe", s |-> s, done |-> <<>>, todo |-> es])
DoExpanded(m) ==
  LET v == m.c.v any == m.c.any f == Top1(m) p == PopK(m)
  IN CASE f.f = "xl" -> IF any THEN Push(Go(p, [k |-> "xp", n |-> v, s |-> f.s, lp |-> FALSE]), f) ELSE XRet(p, v, FALSE)
       [] f.f = "xe" -> IF v.t = "null" THEN NextElem(p, f) ELSE LET r == AsCode(p.H, v) IN NextElem([p EXCEPT !.H = r.H], [f EXCEPT !.done = Append(@, r.n)])
       [] f.f = "xd" -> IF v.t # "raw" THEN ThrowAt(p, f.s, "List expected in define-macro-expand")
                        ELSE XRet([p EXCEPT !.mac = Put(@, f.name, [kind |-> "expand", formals |-> f.formals, body |-> p.H[v.v]])], Null, FALSE)
       [] f.f = "mra" -> ReplaceWith(p, f.c, IF v.t = "null" THEN Und ELSE v)
       [] f.f = "run" -> LET x == IF v.t = "null" THEN Und ELSE v IN IF f.xonly THEN Ret(p, VarOf(x)) ELSE Ev(p, x, f.s)
MacroValue(m, v) ==                                \* value of a compile time macro call -> code
  IF v.t = "und" THEN XRet(m, Null, TRUE) ELSE LET r == AsCode(m.H, v) IN XRet([m EXCEPT !.H = r.H], r.n, TRUE)

\* -------------------------------------------------------------- evaluation
RECURSIVE Arguments(_, _)
Arguments(m, fr) ==                                \* take over arguments up to the next one that has to be evaluated
  IF fr.todo = <<>> THEN Go(m, [k |-> IF m.dbg.on THEN "nb" ELSE "ap", fn |-> fr.fn, args |-> fr.done, s |-> fr.s, at |-> fr.at])
  ELSE LET a == fr.todo[1] f1 == [fr EXCEPT !.todo = Tail(@)]
       IN IF a.t = "raw" /\ ~IsSpecial(m, fr.fn) THEN EvThen(m, a, fr.s, f1)
          ELSE Arguments(m, [f1 EXCEPT !.done = IF a.q = 2 /\ a.t \in {"list", "nil"} THEN @ \o Kids(m, a) ELSE Append(@, a)])
EvalCall(m, es, s) ==
  LET h == es[1] name == Str(m, h)
      tk == AsVar(h).k
      m1 == IF tk.ty = "none" THEN m ELSE [m EXCEPT !.S[s].tok = tk]
      fn == IF h.t = "sym" THEN Resolve(m, s, h) ELSE h
      rest == IF IsSpecial(m, AsVar(fn)) THEN Tail(es) ELSE [i \in 1..(Len(es) - 1) |-> IF es[i + 1].t = "sym" THEN Resolve(m, s, es[i + 1]) ELSE es[i + 1]]
      m2 == IF m.S[1].tracing THEN ShowLine(m1, "--> " \o name) ELSE m1
  IN IF name \in DOMAIN m.mac
     THEN IF m.mac[name].kind = "eval" THEN StartReplace(m, s, m.mac[name], es, "run")
          ELSE IF m.mac[name].kind = "lib" THEN Go(m, [k |-> "lm", name |-> name, es |-> es, s |-> s])
          ELSE Throw(m, Exc("base", "Unexpected macro modus!", "", "", NoTok))
     ELSE IF ~IsFun(AsVar(fn)) THEN ThrowAt(m1, s, "Function \"" \o Str(m, fn) \o "\" not found")
     ELSE Arguments(m2, [f |-> "args", s |-> s, fn |-> fn, done |-> <<>>, todo |-> rest, at |-> h])
DoEval(m) ==
  LET n == m.c.n s == m.c.s
  IN CASE n.t = "null" -> Ret(m, Null)
       [] n.t = "sym" -> Ret(m, VarOf(Resolve(m, s, n)))
       [] n.t \in {"list", "raw"} -> IF m.H[n.v] = <<>> THEN Ret(m, Nil) ELSE EvalCall(m, m.H[n.v], s)
       [] OTHER -> Ret(m, n)

\* ------------------------------------------------------- functions: calls
\* number of arguments: minimum, maximum, name in the error message
ArgSpec ==
  LET One == {"type", "typestr", "return", "parse-integer", "parse-float", "int", "float", "trim", "lower-case", "upper-case", "not", "len", "first", "last",
              "rest", "reverse", "rval", "sym", "str", "arg", "eval", "evalstr", "quote", "quasiquote", "_unquote", "_unquotesplicing", "delvar", "trace", "sleep",
              "File-ReadAllText", "Math-Sin", "Math-Sinh", "Math-Asin", "Math-Cos", "Math-Cosh", "Math-Acos", "Math-Tan", "Math-Tanh", "Math-Atan", "Math-Exp",
              "Math-Log", "Math-Log10", "Math-Sqrt", "Math-Round", "Math-Abs", "Math-Floor", "Math-Ceiling", "dict-keys"}
      Two == {"map", "nth", "apply", "dict-get", "dict-remove", "dict-contains-key", "dict-contains-value", "def", "gdef", "setf", "while", "<", ">", "<=", ">=", "==", "!=",
              "File-WriteAllText", "Math-Pow"}
      Three == {"slice", "replace", "reduce", "dict-set", "define-macro-eval", "define-macro-expand"}
      Zero == {"need-l-value", "tickcount", "flush", "readline", "argscount", "args", "make-dict", "Math-Pi"}
      A(lo, hi, name) == [lo |-> lo, hi |-> hi, name |-> name]
  IN TLCEval([n \in BuiltinNames |->
      CASE n \in Zero -> A(0, 0, n) [] n \in One -> A(1, 1, n) [] n \in Two -> A(2, 2, n) [] n \in Three -> A(3, 3, n)
        [] n = "if" -> A(2, 3, n) [] n = "format" -> A(1, 6, n) [] n = "search" -> A(2, 4, n) [] n = "push" -> A(2, 3, n) [] n = "pop" -> A(1, 2, n)
        [] n = "defn" -> A(3, 3, "def") [] n = "gdefn" -> A(3, 3, "gdef")
        [] n \in {"<<", "|", "&", "^"} -> A(2, 2, "lef-shift") [] n = ">>" -> A(2, 2, "right-shift") [] n = "~" -> A(1, 1, "binary-not")
        [] n = "dict-clear" -> A(1, 1, "dict-clean") [] n = "File-Exists" -> A(1, 1, "File-Exits") [] n = "Math-Truncate" -> A(1, 1, "Math-Truncated")
        [] OTHER -> A(0, 999999, n)])
CountError(cn, n) ==
  LET a == ArgSpec[cn]
  IN IF cn = "fn" THEN IF n < 2 THEN BadCount("fn", n, "2") ELSE ""
     ELSE IF n >= a.lo /\ n <= a.hi THEN ""
     ELSE IF a.lo = a.hi THEN BadCount(a.name, n, ToString(a.lo))
     ELSE BadCount(a.name, n, "between " \o ToString(a.lo) \o " and " \o ToString(a.hi))

\* --------------------------------------------- functions without an effect
RECURSIVE Fold(_, _, _, _)
Fold(m, op, acc, rest) ==                          \* left to right; lists are concatenated by FoldPlus
  IF rest = <<>> THEN Ok(acc)
  ELSE LET r == Arith(m, op, acc, VarOf(rest[1])) IN IF r.s # "ok" THEN r ELSE Fold(m, op, r.v, Tail(rest))
RECURSIVE FoldPlus(_, _, _, _)
FoldPlus(m, s, acc, rest) ==
  IF rest = <<>> THEN Ret(m, acc)
  ELSE LET x == VarOf(rest[1]) r == Arith(m, "+", acc, x)
       IN IF r.s = "cat" THEN FoldPlus(AddCell(m, Kids(m, acc) \o Kids(m, x)), s, ListN(NewId(m)), Tail(rest))
          ELSE IF r.s # "ok" THEN Fin(m, s, r) ELSE FoldPlus(m, s, r.v, Tail(rest))
ParseInt(text) == IF IsIntText(text) THEN IF IntDigits(text) = "2147483648" THEN Big ELSE MkInt(IntOfText(text)) ELSE Ok(Und)
ParseDbl(text) == LET r == ScanDouble(StripL(text)) d == DoubleOf(text)
                  IN IF r.len = 0 THEN Ok(Und)
                     ELSE IF d.ok THEN MkDbl(d.v)
                     ELSE IF DoubleRange(r) = "out" THEN Ok(Und)
                     ELSE IF DoubleRange(r) = "in" THEN MkF(FOfText(StripL(text), r)) ELSE Un("float")
FloatPi == [c |-> "num", s |-> 0, m |-> <<1443, 21777, 4349, 25>>, e |-> -48]
MathOp(name, n) ==
  LET v == IF n.t = "dbl" THEN n.v ELSE 7 x == FOf(n) IN
  CASE name = "Math-Abs" -> MkF([x EXCEPT !.s = 0])
    [] name = "Math-Floor" -> MkF(FFloor(x))
    [] name = "Math-Ceiling" -> MkF(FCeil(x))
    [] name = "Math-Round" -> MkF(FNearest(x))
    [] name = "Math-Truncate" -> MkF(FTrunc(x))
    [] name = "Math-Sqrt" -> MkF(FSqrt(x))
    [] name \in {"Math-Sin", "Math-Sinh", "Math-Asin", "Math-Tan", "Math-Tanh", "Math-Atan"} /\ v = 0 -> MkDbl(0)
    [] name \in {"Math-Cos", "Math-Cosh", "Math-Exp"} /\ v = 0 -> MkDbl(64)
    [] name \in {"Math-Acos", "Math-Log", "Math-Log10"} /\ v = 64 -> MkDbl(0)
    [] name = "Math-Log10" /\ v = 6400 -> MkDbl(128)
    [] x.c # "num" -> Un("float")
    [] OTHER -> LET r == FloatText(CASE name = "Math-Sin" -> FSin(x) [] name = "Math-Cos" -> FCos(x) [] name = "Math-Tan" -> FTan(x) [] name = "Math-Sinh" -> FSinh(x)
                                     [] name = "Math-Cosh" -> FCosh(x) [] name = "Math-Tanh" -> FTanh(x) [] name = "Math-Asin" -> FAsin(x) [] name = "Math-Acos" -> FAcos(x)
                                     [] name = "Math-Atan" -> FAtan(x) [] name = "Math-Exp" -> FExp(x) [] name = "Math-Log" -> FLog(x) [] name = "Math-Log10" -> FLog10(x)
                                     [] OTHER -> NoNumber)
                IN IF r = "" THEN Un("float") ELSE Ok(Opq(r))
\* the power of two floats: exact where it is representable, otherwise by its text
PowOp(x, y) ==
  LET a == FOf(x) b == FOf(y) n == FToInt(b) r == FloatText(FPow(a, b))
  IN IF a.c # "num" \/ b.c # "num" \/ (FIsZero(a) /\ b.s = 1) THEN Un("float")
     ELSE IF FIsZero(b) THEN MkDbl(64)
     ELSE IF b = FOfInt(1) THEN MkF(a)
     ELSE IF FIsZero(a) THEN IF FIntFits(b) /\ FIsWhole(b) THEN MkF(IF n % 2 = 1 THEN a ELSE FZero(0)) ELSE Un("float")
     ELSE IF FIsWhole(b) /\ b.s = 0 /\ FIntFits(b) /\ n <= 200 /\ BLen(a.m) * n < 54 /\ Abs(a.e * n) < 900 THEN MkF(PowExact(a, n))
     ELSE IF a.m = <<1>> /\ FIsWhole(b) /\ FIntFits(b) /\ Abs(n) < 200 /\ Abs(a.e * n) < 900 THEN MkF(FNum(IF n % 2 = 1 THEN a.s ELSE 0, <<1>>, a.e * n))
     ELSE IF r = "" THEN Un("float") ELSE Ok(Opq(r))

StringIndex(src, txt, pos, len) ==                 \* search: 0-based position or -1; pos = -1: no position given
  IF pos = -1 THEN FindFrom(src, txt, 0)
  ELSE IF pos < -1 \/ pos > Len(src) THEN -1
  ELSE IF len < 0 \/ len >= Len(src) - pos THEN FindFrom(src, txt, pos)
  ELSE FindFrom(SubSeq(src, 1, pos + len), txt, pos)
RECURSIVE ListIndex(_, _, _, _)
ListIndex(m, es, txt, i) == IF i > Len(es) THEN -1 ELSE IF Str(m, es[i]) = txt THEN i - 1 ELSE ListIndex(m, es, txt, i + 1)
SearchOp(m, a) ==
  LET txt == Str(m, VarOf(a[1])) l == AsVar(a[2])
      p == IF Len(a) > 2 THEN ToIntR(m, VarOf(a[3])) ELSE MkInt(-1)
      n == IF Len(a) > 3 THEN ToIntR(m, VarOf(a[4])) ELSE MkInt(-1)
  IN IF p.s # "ok" THEN p ELSE IF n.s # "ok" THEN n
     ELSE IF l.t = "str" THEN MkInt(StringIndex(l.v, txt, p.v.v, n.v.v))
     ELSE IF IsList(l) THEN MkInt(ListIndex(m, Kids(m, l), txt, 1))
     ELSE Bs("search not supported for type " \o (IF a[2].t = "raw" THEN "List" ELSE TypeName[l.t]))
SliceOp(m, a) ==
  LET v == Str(m, VarOf(a[1])) p == ToIntR(m, VarOf(a[2])) n == ToIntR(m, VarOf(a[3]))
  IN IF p.s # "ok" THEN p ELSE IF n.s # "ok" THEN n
     ELSE IF p.v.v < 0 \/ p.v.v > Len(v) THEN Sc(BadIndex("slice", p.v.v, Len(v) + 1))
     ELSE Ok(StrN(SubSeq(v, p.v.v + 1, IF n.v.v < 0 THEN Len(v) ELSE Min2(Len(v), p.v.v + Min2(n.v.v, Len(v))))))
LenOp(m, n) == CASE n.t = "nat" -> MkInt(Len(m.D[n.v])) [] n.t = "str" -> MkInt(Len(n.v))
                 [] IsList(n) -> MkInt(Len(Kids(m, n))) [] OTHER -> ListR(m, n)
ElemAt(m, name, n, i) ==                           \* element i (0-based) of a list
  IF ~IsList(n) THEN ListR(m, n)
  ELSE IF i < 0 \/ i >= Len(Kids(m, n)) THEN Sc(BadIndex(name, i, Len(Kids(m, n)))) ELSE Ok(VarOf(Kids(m, n)[i + 1]))
Place(m, s, op, n, i) == IF m.S[s].lval THEN Ok(N("lv", [op |-> op, n |-> n, i |-> i, s |-> s])) ELSE ElemAt(m, op, AsVar(n), i)
FirstOp(m, s, a) == LET n == AsVar(a) IN IF n.t = "str" THEN Ok(StrN(IF n.v = "" THEN "" ELSE Ch(n.v, 1))) ELSE Place(m, s, "first", a, 0)
LastOp(m, s, a) ==
  LET n == AsVar(a)
  IN IF n.t = "str" THEN IF n.v = "" THEN Sc(BadIndex("last", -1, 0)) ELSE Ok(StrN(Ch(n.v, Len(n.v))))
     ELSE Place(m, s, "last", a, IF IsList(n) THEN Len(Kids(m, n)) - 1 ELSE 0)
NthOp(m, s, a) ==
  LET i == IntR(m, AsVar(a[1])) n == AsVar(a[2])
  IN IF i.s # "ok" THEN i
     ELSE IF n.t = "str" THEN IF i.v.v < 0 \/ i.v.v >= Len(n.v) THEN Sc(BadIndex("nth", i.v.v, Len(n.v))) ELSE Ok(StrN(Ch(n.v, i.v.v + 1)))
     ELSE Place(m, s, "nth", a[2], i.v.v)
Minus1(n) == CASE n.t = "int" -> MkInt(-n.v) [] n.t = "dbl" /\ n.v # 0 -> MkDbl(-n.v) [] n.t \in {"dbl", "flt"} -> MkF(FNeg(FOf(n)))
               [] n.t = "opq" -> Ok(Opq(IF SignOf(n.v) < 0 THEN Unsigned(n.v) ELSE "-" \o n.v))
               [] OTHER -> Bs("Unary operator - not available for " \o TypeName[n.t])
LicenseText == "Copyright: MIT-License http://opensource.org/licenses/MIT"
KeyErr(m, fname, key) == IF key.t \in {"int", "dbl", "flt", "opq", "bool", "str", "sym", "nil", "und"} THEN "" ELSE "Invalid key type " \o (IF key.t = "raw" THEN "List" ELSE TypeName[key.t]) \o " in " \o fname

PureOp(m, s, cn, a) ==
  LET v1 == AsVar(a[1]) v2 == AsVar(a[2]) 
  IN CASE cn = "-" -> IF Len(a) = 1 THEN Minus1(VarOf(a[1])) ELSE IF a = <<>> THEN Ok(Und) ELSE Fold(m, "-", VarOf(a[1]), Tail(a))
       [] cn \in {"*", "/", "%"} -> IF a = <<>> THEN Ok(Und) ELSE Fold(m, cn, VarOf(a[1]), Tail(a))
       [] cn = "<" -> Less(m, v1, v2, FALSE)
       [] cn = ">" -> Less(m, v2, v1, FALSE)
       [] cn = "<=" -> Less(m, v1, v2, TRUE)
       [] cn = ">=" -> Less(m, v2, v1, TRUE)
       [] cn = "==" -> EqualR(m, v1, v2)
       [] cn = "!=" -> LET r == EqualR(m, v1, v2) IN IF r.s = "ok" THEN Ok(Bool(~r.v.v)) ELSE r
       [] cn = "not" -> LET r == BoolR(m, v1) IN IF r.s = "ok" THEN Ok(Bool(~v1.v)) ELSE r
       [] cn \in {"<<", ">>", "|", "&", "^"} -> BitOps(m, cn, v1, v2)
       [] cn = "~" -> LET r == IntR(m, v1) IN IF r.s = "ok" THEN MkInt(Not32(v1.v)) ELSE r
       [] cn = "first" -> FirstOp(m, s, a[1])
       [] cn = "last" -> LastOp(m, s, a[1])
       [] cn = "nth" -> NthOp(m, s, a)
       [] cn = "len" -> LenOp(m, v1)
       [] cn = "type" -> MkInt(TypeNum[v1.t])
       [] cn = "typestr" -> Ok(StrN(TypeName[v1.t]))
       [] cn = "nop" -> Ok(Und)
       [] cn = "sym" -> Ok(Sym(Str(m, a[1])))
       [] cn = "str" -> Ok(StrN(Str(m, a[1])))
       [] cn = "format" -> Format(Str(m, a[1]), [i \in 1..(Len(a) - 1) |-> Str(m, a[i + 1])])
       [] cn = "parse-integer" -> ParseInt(Str(m, VarOf(a[1])))
       [] cn = "parse-float" -> ParseDbl(Str(m, VarOf(a[1])))
       [] cn = "int" -> LET x == VarOf(a[1]) IN IF x.t = "str" THEN ParseInt(x.v) ELSE IF x.t \in {"int", "dbl", "flt", "opq", "bool"} THEN ToIntR(m, x) ELSE Ok(Und)
       [] cn = "float" -> LET x == VarOf(a[1]) IN IF x.t = "str" THEN ParseDbl(x.v) ELSE IF x.t = "opq" THEN Ok(x) ELSE IF x.t \in {"int", "dbl", "flt", "bool"} THEN ToDblR(m, x) ELSE Ok(Und)
       [] cn = "search" -> SearchOp(m, a)
       [] cn = "slice" -> SliceOp(m, a)
       [] cn = "replace" -> Ok(StrN(ReplaceAll(Str(m, a[1]), Str(m, a[2]), Str(m, a[3]))))
       [] cn = "trim" -> Ok(StrN(Trim(Str(m, v1))))
       [] cn = "lower-case" -> Ok(StrN(ToLower(Str(m, v1))))
       [] cn = "upper-case" -> Ok(StrN(ToUpper(Str(m, v1))))
       [] cn = "argscount" -> IF m.S[s].hasargs THEN MkInt(Len(m.S[s].args)) ELSE Sc("No function arguments available in argscount")
       [] cn = "arg" -> LET i == IntR(m, v1)
                        IN IF i.s # "ok" THEN i ELSE IF ~m.S[s].hasargs THEN Sc("No function arguments available in arg")
                           ELSE IF i.v.v < 0 \/ i.v.v >= Len(m.S[s].args) THEN Bs("Index out of range in args function (index=" \o ToString(i.v.v) \o " max=" \o ToString(Len(m.S[s].args)) \o ")")
                           ELSE Ok(VarOf(m.S[s].args[i.v.v + 1]))
       [] cn = "need-l-value" -> Ok(Bool(m.S[s].lval))
       [] cn = "gettrace" -> Ok(StrN(m.S[s].tbuf))
       [] cn \in {"quote1", "_unquote", "_unquotesplicing"} -> Ok(VarOf(a[1]))
       [] cn = "fuel" -> Ok(StrN("fuel version v0.99.6 from 16.12.2023"))
       [] cn = "version" -> Ok(StrN("v0.99.6"))
       [] cn = "copyright" -> Ok(StrN(LicenseText))
       [] cn = "Math-Pi" -> Ok(Flt(FloatPi))
       [] cn = "Math-Pow" -> LET x == ToDblR(m, v1) y == ToDblR(m, v2) IN IF x.s # "ok" THEN x ELSE IF y.s # "ok" THEN y ELSE PowOp(x.v, y.v)
       [] StartsWith(cn, "Math-") -> LET x == ToDblR(m, v1) IN IF x.s # "ok" THEN x ELSE MathOp(cn, x.v)
       [] OTHER -> Un(cn \o " is not specified")

\* ------------------------------------------------ functions with an effect
Traced(m, s, text) == IF m.S[s].ton THEN [m EXCEPT !.S[s].tbuf = @ \o text, !.S[s].bset = TRUE] ELSE m
PrintText(m, a) == JoinNonEmpty("", [i \in DOMAIN a |-> Str(m, a[i])])
RECURSIVE Concat(_, _)
Concat(m, ls) == IF ls = <<>> THEN <<>> ELSE Kids(m, AsVar(ls[1])) \o Concat(m, Tail(ls))
FirstNoList(a) == IF \E i \in DOMAIN a : ~IsList(AsVar(a[i])) THEN AsVar(a[CHOOSE i \in DOMAIN a : ~IsList(AsVar(a[i])) /\ \A j \in 1..(i - 1) : IsList(AsVar(a[j]))]) ELSE Nil
RECURSIVE FileName(_)
FileName(x) == IF StartsWith(x, "./") THEN FileName(SubSeq(x, 3, Len(x))) ELSE IF FindFrom(x, "/./", 0) >= 0 THEN FileName(ReplaceAll(x, "/./", "/")) ELSE x
Exists(m, x) == FileName(x) \in DOMAIN m.fs
DirOf(m, x) == x = "" \/ \E f \in DOMAIN m.fs : StartsWith(f, x \o "/")
\* names of files below the working directory (no directories, no paths leading elsewhere)
LocalName(m, x) == LET f == FileName(x) IN x = "" \/ (f \notin {"", ".", ".."} /\ ~StartsWith(f, "/") /\ ~StartsWith(f, "../") /\ FindFrom(f, "/../", 0) < 0 /\ FindFrom(f, "//", 0) < 0 /\ FindFrom(f, "\\", 0) < 0
                                          /\ Ch(f, Len(f)) # "/" /\ ~EndsWith(f, "/..") /\ ~EndsWith(f, "/.") /\ ~DirOf(m, f))
LastSlash(f) == LET P == {i \in 1..Len(f) : Ch(f, i) = "/"} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : j <= i
Writable(m, x) == LET f == FileName(x) IN x # "" /\ (LastSlash(f) = 0 \/ DirOf(m, SubSeq(f, 1, LastSlash(f) - 1)))

RECURSIVE Merge(_, _)
Merge(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
               ELSE IF a[1] = b[1] THEN Merge(a, Tail(b))
               ELSE IF CmpText(a[1], b[1]) < 0 THEN <<a[1]>> \o Merge(Tail(a), b) ELSE <<b[1]>> \o Merge(a, Tail(b))
SortedBuiltins == TLCEval([i \in DOMAIN BuiltinList |-> BuiltinList[i][1]])      \* the table is sorted
\* all names of a scope in order, the interpreter's own ones included
MetaKeys(m, s) == (IF s = 1 THEN {"###macros###", "###modules###"} ELSE {}) \cup (IF m.S[s].tset THEN {"###traceon###"} ELSE {})
                  \cup (IF m.S[s].bset THEN {"###tracebuffer###"} ELSE {}) \cup (IF m.S[s].hasargs THEN {"###args###"} ELSE {})
UserKeys(m, s) == SortTexts(DOMAIN m.S[s].vars)
Keys(m, s) == IF s = 1 THEN Merge(UserKeys(m, s), SelectSeq(SortedBuiltins, LAMBDA x : x \notin m.S[1].del)) ELSE UserKeys(m, s)
AllKeys(m, s) == Merge(SortTexts(MetaKeys(m, s)), Keys(m, s))
RECURSIVE CatText(_)
CatText(ts) == IF ts = <<>> THEN "" ELSE IF Len(ts) = 1 THEN ts[1] ELSE CatText(SubSeq(ts, 1, Len(ts) \div 2)) \o CatText(SubSeq(ts, Len(ts) \div 2 + 1, Len(ts)))
DumpLine(m, key, n, info) == PadL(key, 20) \o " --> " \o PadR(Dbg(m, n), 40) \o " : " \o TypeName[n.t] \o " " \o info \o "\n"
IsUser(n) == n.t # "bfun"
VarsText(m, s) == LET ks == UserKeys(m, s)
                  IN CatText([i \in DOMAIN ks |-> LET n == AsVar(m.S[s].vars[ks[i]]) IN IF IsUser(n) THEN DumpLine(m, ks[i], n, "") ELSE ""])
DocOf(m, n) == IF n.t = "bfun" THEN BI[n.v].doc ELSE m.C[n.v].doc
HelpName(sig) == LET sp == FindFrom(sig, " ", 0) IN IF StartsWith(sig, "(") THEN SubSeq(sig, 2, IF sp < 0 THEN FindFrom(sig, ")", 0) ELSE sp + 1) ELSE "???"
HelpText(m, n) ==
  LET sig == SigOf(m, n) doc == DocOf(m, n)
  IN "-------------------------------------------------\n\n" \o HelpName(sig) \o (IF IsSpecial(m, n) THEN " [special form]" ELSE "") \o "\n\n"
     \o "Syntax: " \o sig \o "\n\n" \o (IF doc = "" THEN ">not available<" ELSE doc) \o "\n\n" \o "\n"
HtmlText(m, n) ==
  LET sig == SigOf(m, n) doc == DocOf(m, n)
  IN "<hr><br>" \o (IF StartsWith(sig, "(") THEN "<b>" \o HelpName(sig) \o "</b>" ELSE "???") \o (IF IsSpecial(m, n) THEN " [special form]" ELSE "") \o "<br><br>"
     \o "<code>Syntax: " \o sig \o "</code><br><br>" \o (IF doc = "" THEN ">not available<" ELSE doc) \o "<br><br>" \o "\n"
\* documentation of the functions of scope s whose name matches
HelpFor(m, s, x, anywhere) ==
  LET ks == SelectSeq(Keys(m, s), LAMBDA k : IF anywhere THEN FindFrom(k, x, 0) >= 0 ELSE StartsWith(k, x))
  IN CatText([i \in DOMAIN ks |-> LET n == AsVar(VarAt(m, s, ks[i])) IN IF IsFun(n) THEN HelpText(m, n) ELSE ""])
AllHelp(m, html) == LET ks == Keys(m, 1) IN CatText([i \in DOMAIN ks |-> LET n == AsVar(VarAt(m, 1, ks[i])) IN IF n.t = "bfun" THEN (IF html THEN HtmlText(m, n) ELSE HelpText(m, n)) \o "\n" ELSE ""])
HtmlAll(m) == "<html>\n<head>\n<title>\nDocumentation of fuel language\n</title>\n</head>\n<h2>Documentation of builtin functions of the fuel language:</h2>\n<body>\n" \o AllHelp(m, TRUE) \o "</body>\n</html>\n"
SearchDoc(m, s, a, anywhere) ==
  LET files == SortTexts(DOMAIN m.mods)
  IN CatText([i \in DOMAIN a |-> HelpFor(m, s, Str(m, a[i]), anywhere) \o CatText([j \in DOMAIN files |-> HelpFor(m, m.mods[files[j]], Str(m, a[i]), anywhere)])]) \o "\n"

PushOp(m, s, a) ==
  LET l == AsVar(a[2]) p == IF Len(a) > 2 THEN ToIntR(m, AsVar(a[3])) ELSE MkInt(0) v == AsVar(a[1])
  IN IF p.s # "ok" THEN Fin(m, s, p)
     ELSE IF ~IsList(l) THEN Fin(m, s, Bs("push not supported for type " \o TypeName[l.t]))
     ELSE IF a[2].t = "raw" THEN Ret(m, Nil)
     ELSE LET es == Kids(m, l) i == p.v.v new == SubSeq(es, 1, i) \o <<v>> \o SubSeq(es, i + 1, Len(es))
          IN IF i < 0 \/ i >= Len(es) THEN Ret(m, Nil)
             ELSE IF Reaches(m, v, "cell", l.v) THEN Uns(m, "cyclic list")
             ELSE RetList([m EXCEPT !.H[l.v] = new], new)
PopOp(m, s, a) ==
  LET l == AsVar(a[1]) p == IF Len(a) > 1 THEN ToIntR(m, AsVar(a[2])) ELSE MkInt(0)
  IN IF p.s # "ok" THEN Fin(m, s, p)
     ELSE IF ~IsList(l) THEN Fin(m, s, Bs("pop not supported for type " \o TypeName[l.t]))
     ELSE LET es == Kids(m, l) i == p.v.v
          IN IF i < 0 \/ i >= Len(es) THEN Ret(m, Nil)
             ELSE Ret([m EXCEPT !.H[l.v] = SubSeq(es, 1, i) \o SubSeq(es, i + 2, Len(es))], VarOf(es[i + 1]))
DictName(cn) == cn
DictOp(m, s, cn, a) ==
  LET d == AsVar(a[1]) key == a[2] ke == KeyErr(m, cn, key)
      es == m.D[d.v] i == DictPos(m, es, key)
      opaque == KeyOpaque(key) \/ \E j \in DOMAIN es : KeyOpaque(es[j][1])
      needsKey == cn \in {"dict-set", "dict-get", "dict-remove", "dict-contains-key"}
  IN IF d.t # "nat" THEN ThrowAt(m, s, "No dictionary in " \o cn)
     ELSE IF needsKey /\ ke # "" THEN ThrowAt(m, s, ke)
     ELSE IF needsKey /\ opaque THEN Uns(m, "dictionary key")
     ELSE CASE cn = "dict-set" -> IF Reaches(m, a[3], "dict", d.v) THEN Uns(m, "cyclic dictionary")
                                  ELSE Ret([m EXCEPT !.D[d.v] = DictPut(m, @, key, AsVar(a[3]))], AsVar(a[3]))
            [] cn = "dict-get" -> Ret(m, IF i = 0 THEN Und1 ELSE es[i][2])
            [] cn = "dict-remove" -> Ret(IF i = 0 THEN m ELSE [m EXCEPT !.D[d.v] = DictDrop(@, i)], Bool(i # 0))
            [] cn = "dict-keys" -> RetList(m, [j \in DOMAIN es |-> es[j][1]])
            [] cn = "dict-clear" -> Ret([m EXCEPT !.D[d.v] = <<>>], Und)
            [] cn = "dict-contains-key" -> Ret(m, Bool(i # 0))
            [] cn = "dict-contains-value" ->
                 LET rs == [j \in DOMAIN es |-> SameElem(m, es[j][2], AsVar(a[2]))]
                 IN IF \E j \in DOMAIN es : rs[j].s # "ok" THEN Uns(m, "float") ELSE Ret(m, Bool(\E j \in DOMAIN es : rs[j].v.v))

EffectNames == TLCEval({"list", "cons", "append", "rest", "reverse", "args", "push", "pop", "+", "print", "println", "trace", "delvar", "return", "flush", "readline", "make-dict",
                "dict-set", "dict-get", "dict-remove", "dict-keys", "dict-clear", "dict-contains-key", "dict-contains-value", "vars", "help", "doc", "searchdoc", "htmldoc", "sleep",
                "File-Exists", "File-ReadAllText", "File-WriteAllText", "quote", "break"})
EffectOp(m, s, cn, a) ==
  LET v1 == AsVar(a[1])
  IN CASE cn = "list" -> RetList(m, a)
       [] cn = "quote" -> IF a[1].t = "raw" THEN RetList(m, m.H[a[1].v]) ELSE Ret(m, a[1])
       [] cn = "cons" -> RetList(m, IF Len(a) < 2 THEN a ELSE IF IsList(AsVar(a[2])) THEN <<a[1]>> \o Kids(m, AsVar(a[2])) ELSE SubSeq(a, 1, 2))
       [] cn = "append" -> IF FirstNoList(a).t = "nil" THEN RetList(m, Concat(m, a)) ELSE Fin(m, s, ListR(m, FirstNoList(a)))
       [] cn = "rest" -> IF v1.t = "str" THEN IF v1.v = "" THEN ThrowAt(m, s, BadIndex("rest", 0, 0)) ELSE Ret(m, StrN(SubSeq(v1.v, 2, Len(v1.v))))
                         ELSE IF ~IsList(v1) THEN Fin(m, s, ListR(m, v1))
                         ELSE RetList(m, IF Kids(m, v1) = <<>> THEN <<>> ELSE Tail(Kids(m, v1)))
       [] cn = "reverse" -> IF v1.t = "str" THEN Ret(m, StrN(Reversed(v1.v))) ELSE IF ~IsList(v1) THEN Fin(m, s, ListR(m, v1))
                            ELSE RetList(m, LET k == Kids(m, v1) IN [i \in DOMAIN k |-> k[Len(k) + 1 - i]])
       [] cn = "args" -> IF m.S[s].hasargs THEN RetList(m, m.S[s].args) ELSE ThrowAt(m, s, "No function arguments available in args")
       [] cn = "push" -> PushOp(m, s, a)
       [] cn = "pop" -> PopOp(m, s, a)
       [] cn = "+" -> IF a = <<>> THEN Ret(m, Und) ELSE FoldPlus(m, s, VarOf(a[1]), Tail(a))
       [] cn = "print" -> Ret(Write(Traced(m, s, PrintText(m, a)), PrintText(m, a)), StrN(PrintText(m, a)))
       [] cn = "println" -> Ret(WriteLine(Traced(m, s, PrintText(m, a)), PrintText(m, a)), StrN(PrintText(m, a)))
       [] cn = "trace" -> IF v1.t # "bool" THEN Fin(m, s, BoolR(m, v1)) ELSE Ret([m EXCEPT !.S[s].ton = v1.v, !.S[s].tset = TRUE], Bool(v1.v))
       [] cn = "delvar" -> LET x == Str(m, v1)
                           IN IF Reserved(x) THEN ThrowAt(m, s, "Reserved symbol " \o x)
                              ELSE Ret([m EXCEPT !.S[s].vars = [y \in DOMAIN @ \ {x} |-> @[y]], !.S[s].del = IF s = 1 THEN @ \cup {x} ELSE @], Bool(HasVar(m, s, x)))
       [] cn = "return" -> Ret([m EXCEPT !.S[s].ret = TRUE], VarOf(a[1]))
       [] cn = "flush" -> Ret(m, Und)
       [] cn = "sleep" -> LET r == ToIntR(m, VarOf(a[1])) IN IF r.s = "ok" THEN Ret(m, Und) ELSE Fin(m, s, r)
       [] cn = "readline" -> IF m.inp = <<>> THEN Ret(m, StrN("")) ELSE Ret([m EXCEPT !.inp = Tail(@)], StrN(m.inp[1]))
       [] cn = "make-dict" -> Ret([m EXCEPT !.D = Append(@, <<>>)], N("nat", Len(m.D) + 1))
       [] cn = "vars" -> Ret(Write(m, "variables:\n" \o VarsText(m, s)), Und)
       [] cn = "help" -> LET t == "available functions:\n" \o CatText([i \in DOMAIN AllKeys(m, s) |-> AllKeys(m, s)[i] \o "\n"]) IN Ret(WriteLine(m, t), StrN(t))
       [] cn \in {"doc", "searchdoc"} -> Ret(m, StrN(IF a = <<>> THEN AllHelp(m, FALSE) ELSE SearchDoc(m, s, a, cn = "searchdoc")))
       [] cn = "htmldoc" -> Ret(m, StrN(HtmlAll(m)))
       [] cn = "File-Exists" -> LET x == Str(m, v1) IN IF LocalName(m, x) THEN Ret(m, Bool(Exists(m, x))) ELSE Uns(m, "path")
       [] cn = "File-ReadAllText" -> LET x == Str(m, v1) IN IF ~LocalName(m, x) THEN Uns(m, "path") ELSE Ret(m, StrN(IF Exists(m, x) THEN m.fs[FileName(x)] ELSE ""))
       [] cn = "File-WriteAllText" -> LET x == Str(m, v1)
                                      IN IF ~LocalName(m, x) THEN Uns(m, "path") ELSE IF ~Writable(m, x) THEN Ret(m, Bool(FALSE))
                                         ELSE Ret([m EXCEPT !.fs = Put(@, FileName(x), Str(m, AsVar(a[2])))], Bool(TRUE))
       [] cn = "break" -> LET m1 == WriteLine(m, "break -> call stack:\n" \o Stack(m, s, Depth(m, s)))
                          IN IF m.dbg.on THEN Go(m1, [k |-> "db", s |-> s]) ELSE Ret(WriteLine(m1, "Warning: can not break, because no debugger support availabe!"), Und)
       [] OTHER -> DictOp(m, s, cn, a)

\* -------------------------------------------------- functions that evaluate
SameTop(x) == x.t = "raw"
StartDo(m, s, a, i) ==
  IF i > Len(a) THEN Ret(m, Und)
  ELSE IF a[i].t # "raw" THEN ThrowTok(m, s, "List expected in do", AsVar(a[i]).k)
  ELSE EvThen(m, a[i], s, [f |-> "do", s |-> s, a |-> a, i |-> i])
StartBool(m, s, a, i, isAnd) ==
  IF i > Len(a) THEN Ret(m, Bool(isAnd)) ELSE EvThen(m, a[i], s, [f |-> "bo", s |-> s, a |-> a, i |-> i, isand |-> isAnd])
FnNode(m, s, name, sig, doc, formals, body) ==
  Ret([m EXCEPT !.C = Append(@, [name |-> name, mod |-> m.S[s].mod, formals |-> formals, body |-> body, scope |-> s, sig |-> sig, doc |-> doc, lib |-> ""])],
      N("cfun", Len(m.C) + 1))
\* def/gdef with an evaluated name; the value still has to be evaluated
DefNamed(m, s, target, symbol, value) ==
  IF symbol.t \notin {"sym", "str"} THEN ThrowAt(m, s, "Symbol expected")
  ELSE IF Reserved(Str(m, symbol)) THEN ThrowAt(m, s, "Reserved symbol " \o Str(m, symbol))
  ELSE EvThen(m, value, s, [f |-> "def2", target |-> target, name |-> Str(m, symbol)])
DefnNamed(m, s, target, symbol, a) ==
  LET t3 == PrevTok(m.S[s].tokens, PrevTok(m.S[s].tokens, PrevTok(m.S[s].tokens, a[1].k)))
      doc == IF a[1].t # "raw" /\ t3.ty = "cmt" THEN t3.tx ELSE ""
      fo == a[2]
      sig == "(" \o Str(m, a[1]) \o (LET t == JoinNonEmpty("", [i \in DOMAIN Kids(m, fo) |-> Str(m, Kids(m, fo)[i])]) IN IF t = "" THEN "" ELSE " " \o t) \o ")"
      m1 == FnNode(m, s, Str(m, symbol), sig, doc, fo, a[3])
  IN IF fo.t # "raw" /\ ~IsList(fo) THEN Fin(m, s, ListR(m, fo))
     ELSE IF symbol.t \notin {"sym", "str"} THEN ThrowAt(m1, s, "Symbol expected")
     ELSE IF Reserved(Str(m, symbol)) THEN ThrowAt(m1, s, "Reserved symbol " \o Str(m, symbol))
     ELSE Ret(SetVar(m1, target, Str(m, symbol), m1.c.v), m1.c.v)
MapNext(m, f) == IF f.i > Len(f.es) THEN RetList(m, f.acc) ELSE Push(Ap(m, f.fn, <<VarOf(f.es[f.i])>>, f.s), f)
ReduceNext(m, f) == IF f.i > Len(f.es) THEN Ret(m, f.acc) ELSE Push(Ap(m, f.fn, <<VarOf(f.es[f.i]), f.acc>>, f.s), f)
NoListErr(m, s, name, n) == ThrowTok(m, s, "No list in " \o name, PrevTok(m.S[s].tokens, n.k))
\* the quasi quote
QNext(m, f) ==
  IF f.todo = <<>> THEN Go(AddCell(m, f.done), [k |-> "qr", v |-> Raw(NewId(m)), sp |-> FALSE])
  ELSE LET a == f.todo[1]
       IN IF a.t = "raw" THEN Push(Go(m, [k |-> "qq", es |-> m.H[a.v], s |-> f.s]), [f EXCEPT !.todo = Tail(@)])
          ELSE Go(m, [k |-> "qn", f |-> [f EXCEPT !.todo = Tail(@), !.done = Append(@, a)]])
RECURSIVE QPlain(_, _)
QPlain(m, f) == IF f.todo = <<>> \/ f.todo[1].t = "raw" THEN f ELSE QPlain(m, [f EXCEPT !.todo = Tail(@), !.done = Append(@, f.todo[1])])
DoQuasi(m) ==
  LET es == m.c.es s == m.c.s
  IN IF Len(es) = 2 /\ es[1].t = "sym" /\ es[1].v \in {"_unquote", "_unquotesplicing"}
     THEN EvThen(m, es[2], s, [f |-> "uq", sp |-> es[1].v = "_unquotesplicing"])
     ELSE QNext(m, QPlain(m, [f |-> "qe", s |-> s, done |-> <<>>, todo |-> es]))
DoQuasied(m) ==
  LET f == Top1(m) p == PopK(m) v == m.c.v
  IN IF f.f = "qt" THEN Ret(p, VarOf(v))
     ELSE IF ~m.c.sp THEN QNext(p, QPlain(p, [f EXCEPT !.done = Append(@, v)]))
     ELSE IF ~IsList(AsVar(v)) THEN Fin(p, f.s, ListR(p, v))
     ELSE QNext(p, QPlain(p, [f EXCEPT !.done = @ \o Kids(p, v)]))

\* import: one module after the other
ImportFile(m, name) ==
  LET E(x) == IF Len(x) >= 5 /\ SubSeq(x, Len(x) - 4, Len(x)) = ".fuel" THEN x ELSE x \o ".fuel"
      c == <<name, E(m.lib \o "/" \o name), E("./Library/" \o name), E("./lib/fuel/" \o name)>> \o (IF m.envp = "" THEN <<>> ELSE <<E(m.envp \o "/" \o name)>>)
      Found == {i \in DOMAIN c : Exists(m, c[i])}
  IN c[IF Found = {} THEN Len(c) ELSE CHOOSE i \in Found : \A j \in Found : i <= j]
RECURSIVE ImportNext(_, _, _, _, _)
ImportNext(m, s, a, i, last) ==
  IF i > Len(a) THEN Ret(m, last)
  ELSE LET name == ReplaceAll(SV(m, AsVar(a[i])), "\\", "/")
           file == ImportFile(m, name)
           code == IF Exists(m, file) THEN m.fs[FileName(file)] ELSE ""
           id == Len(m.S) + 1
           m1 == [m EXCEPT !.S = Append([@ EXCEPT ![s].next = id], [NewScope("import " \o file, file, 0, FALSE) EXCEPT !.prev = s]),
                           !.K = Append(@, [f |-> "im", s |-> s, a |-> a, i |-> i, id |-> id, file |-> file])]
       IN IF DirOf(m, name) THEN Uns(m, "directory")
          ELSE IF ~Exists(m, file) THEN ImportNext(WriteLine(m, "WARNING: Library " \o name \o " not found! Tried path " \o file), s, a, i + 1, last)
          ELSE IF code = "" THEN ImportNext(m, s, a, i + 1, last)
          ELSE IF code = "<library>" THEN Go(m1, [k |-> "li"])
          ELSE Program(m1, id, code, file, FALSE, FALSE)

ControlNames == TLCEval({"if", "while", "do", "and", "or", "def", "gdef", "setf", "rval", "define-macro-eval", "define-macro-expand", "quasiquote", "fn", "defn", "gdefn",
                 "map", "reduce", "apply", "eval", "evalstr", "import"})
ControlOp(m, s, cn, a) ==
  CASE cn = "if" -> EvThen(m, a[1], s, [f |-> "if", s |-> s, a |-> a])
    [] cn = "while" -> EvThen(m, a[1], s, [f |-> "wc", s |-> s, a |-> a, last |-> Und])
    [] cn = "do" -> StartDo(m, s, a, 1)
    [] cn \in {"and", "or"} -> StartBool(m, s, a, 1, cn = "and")
    [] cn \in {"def", "gdef"} -> LET target == IF cn = "def" THEN s ELSE 1
                                 IN IF a[1].t = "raw" THEN EvThen(m, a[1], s, [f |-> "def1", s |-> s, target |-> target, v |-> a[2]])
                                    ELSE DefNamed(m, s, target, a[1], a[2])
    [] cn \in {"defn", "gdefn"} -> LET target == IF cn = "defn" THEN s ELSE 1
                                   IN IF a[1].t = "raw" THEN EvThen(m, a[1], s, [f |-> "defn1", s |-> s, target |-> target, a |-> a])
                                      ELSE DefnNamed(m, s, target, a[1], a)
    [] cn = "setf" -> LET m1 == [m EXCEPT !.S[s].lval = TRUE]
                      IN IF a[1].t = "raw" THEN EvThen(m1, a[1], s, [f |-> "setf1", s |-> s, v |-> a[2], old |-> m.S[s].lval])
                         ELSE EvThen(m, a[2], s, [f |-> "setf2", s |-> s, place |-> a[1]])
    [] cn = "rval" -> IF a[1].t = "raw" THEN EvThen([m EXCEPT !.S[s].lval = FALSE], a[1], s, [f |-> "rval", s |-> s, old |-> m.S[s].lval]) ELSE Ret(m, a[1])
    [] cn = "define-macro-eval" -> IF a[2].t # "raw" \/ a[3].t # "raw" THEN ThrowAt(m, s, "List expected in define-macro-eval")
                                   ELSE IF a[1].t = "raw" THEN Uns(m, "macro without a name")
                                   ELSE Ret([m EXCEPT !.mac = Put(@, Str(m, a[1]), [kind |-> "eval", formals |-> m.H[a[2].v], body |-> m.H[a[3].v]])], Und)
    [] cn = "define-macro-expand" -> IF a[2].t # "raw" \/ a[3].t # "raw" THEN ThrowAt(m, s, "List expected in define-macro-expand") ELSE Uns(m, "define-macro-expand at run time")
    [] cn = "quasiquote" -> IF a[1].t = "raw" THEN Push(Go(m, [k |-> "qq", es |-> m.H[a[1].v], s |-> s]), [f |-> "qt"]) ELSE Ret(m, a[1])
    [] cn = "fn" -> FnNode(m, s, "", "", "", a[1], a[2])
    [] cn = "map" -> IF ~IsFun(AsVar(a[1])) THEN ThrowAt(m, s, "No function in map")
                     ELSE IF a[2].t # "raw" /\ ~IsList(a[2]) THEN NoListErr(m, s, "map", a[2])
                     ELSE MapNext(m, [f |-> "map", s |-> s, fn |-> AsVar(a[1]), es |-> Kids(m, a[2]), i |-> 1, acc |-> <<>>])
    [] cn = "reduce" -> IF ~IsFun(AsVar(a[1])) THEN ThrowAt(m, s, "No function in reduce")
                        ELSE IF a[2].t # "raw" /\ ~IsList(a[2]) THEN NoListErr(m, s, "reduce", a[2])
                        ELSE ReduceNext(m, [f |-> "red", s |-> s, fn |-> AsVar(a[1]), es |-> Kids(m, a[2]), i |-> 1, acc |-> AsVar(a[3])])
    [] cn = "apply" -> EvThen(m, a[1], s, [f |-> "apl", s |-> s, l |-> a[2]])
    [] cn = "eval" -> LET v == AsVar(a[1]) IN IF v.t = "nil" THEN Ret(m, Nil) ELSE Ev(m, v, s)
    [] cn = "evalstr" -> LET text == SV(m, AsVar(a[1]))
                             m1 == Push([m EXCEPT !.S[s].ineval = TRUE], [f |-> "es", s |-> s, mod |-> m.S[s].mod, toks |-> m.S[s].tokens])
                         IN Program(m1, s, text, "<evalstr>:" \o m.S[s].mod \o ":" \o text, m.S[s].tracing, TRUE)
    [] cn = "import" -> ImportNext(m, s, a, 1, Und)

\* ------------------------------------------------------------ applications
Formals(m, cl) == IF cl.formals.t = "raw" THEN Ok(cl.formals) ELSE ListR(m, cl.formals)
RECURSIVE Bind(_, _, _, _, _)
Bind(m, vars, fs, args, i) == IF i > Len(fs) THEN vars ELSE Bind(m, Put(vars, Str(m, fs[i]), args[i]), fs, args, i + 1)
CallClosure(m, fn, args, s) ==
  LET cl == m.C[fn.v] r == Formals(m, cl) fs == Kids(m, cl.formals) id == Len(m.S) + 1
      all == [i \in 1..Max2(Len(args), Len(fs)) |-> IF i <= Len(args) THEN args[i] ELSE Nil]
      more == Len(all) > Len(fs)
      m1 == IF more THEN AddCell(m, SubSeq(all, Len(fs) + 1, Len(all))) ELSE m
      vars0 == Bind(m, NoVars, fs, all, 1)
      vars == IF more THEN Put(vars0, "_additionalArgs", ListN(NewId(m))) ELSE vars0
      sc == [NewScope(cl.name, IF cl.mod = "" THEN m.S[1].mod ELSE cl.mod, cl.scope, m.S[cl.scope].lval) EXCEPT !.prev = s, !.vars = vars, !.args = all, !.hasargs = TRUE]
  IN IF cl.lib # "" THEN Go(m, [k |-> "lb", name |-> cl.lib, args |-> args, s |-> s])
     ELSE IF r.s # "ok" THEN Fin(m, s, r)
     ELSE EvThen([m1 EXCEPT !.S = Append([@ EXCEPT ![s].next = id], sc)], cl.body, id, [f |-> "clos", child |-> id, idx |-> fn.v])
DoApply(m) ==
  LET fn == m.c.fn args == m.c.args s == m.c.s
      cn == IF fn.t = "bfun" THEN Canon[fn.v] ELSE ""
      ce == IF cn = "" THEN "" ELSE CountError(cn, Len(args))
  IN IF cn = "" THEN CallClosure(m, fn, args, s)
     ELSE IF ce # "" THEN ThrowAt(m, s, ce)
     ELSE IF cn \in ControlNames THEN ControlOp(m, s, cn, args)
     ELSE IF cn \in EffectNames THEN EffectOp(m, s, cn, args)
     ELSE Fin(m, s, PureOp(m, s, cn, args))

\* ------------------------------------------------------------ continuations
SetPlace(m, p, v) ==                               \* p: a place made by first, last or nth
  LET n == AsVar(p.n) es == Kids(m, n) i == IF p.op = "last" THEN Len(es) - 1 ELSE IF p.op = "first" THEN 0 ELSE p.i
  IN IF p.n.t = "raw" \/ n.t = "nil" THEN ThrowAt(m, p.s, BadIndex(p.op, i, 0))
     ELSE IF n.t # "list" THEN Fin(m, p.s, ListR(m, n))
     ELSE IF i < 0 \/ i >= Len(es) THEN ThrowAt(m, p.s, BadIndex(p.op, i, Len(es)))
     ELSE IF Reaches(m, v, "cell", n.v) THEN Uns(m, "cyclic list")
     ELSE Ret([m EXCEPT !.H[n.v][i + 1] = v], v)
Assign(m, f, v) ==
  LET x == Str(m, f.place) w == WhereSet(m, f.s, x)
  IN IF f.place.t = "lv" THEN SetPlace(m, f.place.v, v)
     ELSE IF Reserved(x) THEN ThrowAt(m, f.s, "Reserved symbol " \o x)
     ELSE IF x = "" \/ w = 0 THEN ThrowAt(m, f.s, "Symbol " \o x \o " not found")
     ELSE Ret(SetVar(m, w, x, v), v)
DropScope(m, id) == IF m.S[id].prev = 0 THEN m ELSE [m EXCEPT !.S[m.S[id].prev].next = 0, !.S[id].prev = 0]
DoReturn(m) ==
  LET v0 == m.c.v v == ToV(v0) f == Top1(m) p == PopK(m)
  IN CASE f.f = "args" -> Arguments(p, [f EXCEPT !.done = IF v.q = 2 /\ IsList(v) THEN @ \o Kids(m, v) ELSE Append(@, v)])
       [] f.f = "clos" -> Ret(DropScope(p, f.child), v0)
       [] f.f = "if" -> LET b == BoolR(m, v) IN IF b.s # "ok" THEN Fin(p, f.s, b) ELSE Ev(p, IF v.v THEN f.a[2] ELSE IF Len(f.a) > 2 THEN f.a[3] ELSE Null, f.s)
       [] f.f = "wc" -> LET b == ToBoolR(m, v) IN IF b.s # "ok" THEN Fin(p, f.s, b)
                        ELSE IF b.v.v THEN EvThen(p, f.a[2], f.s, [f EXCEPT !.f = "wb"]) ELSE Ret(p, f.last)
       [] f.f = "wb" -> IF m.S[f.s].ret THEN Ret(p, v0) ELSE EvThen(p, f.a[1], f.s, [f EXCEPT !.f = "wc", !.last = v0])
       [] f.f = "do" -> IF m.S[f.s].ret \/ f.i = Len(f.a) THEN Ret(p, v0) ELSE StartDo(p, f.s, f.a, f.i + 1)
       [] f.f = "bo" -> LET b == BoolR(m, v) IN IF b.s # "ok" THEN Fin(p, f.s, b)
                        ELSE IF v.v # f.isand THEN Ret(p, Bool(v.v)) ELSE StartBool(p, f.s, f.a, f.i + 1, f.isand)
       [] f.f = "def1" -> DefNamed(p, f.s, f.target, v, f.v)
       [] f.f = "def2" -> Ret(SetVar(p, f.target, f.name, v), v)
       [] f.f = "defn1" -> DefnNamed(p, f.s, f.target, v, f.a)
       [] f.f = "setf1" -> EvThen([p EXCEPT !.S[f.s].lval = f.old], f.v, f.s, [f |-> "setf2", s |-> f.s, place |-> v])
       [] f.f = "setf2" -> Assign(p, f, v)
       [] f.f = "rval" -> Ret([p EXCEPT !.S[f.s].lval = f.old], v)
       [] f.f = "map" -> MapNext(p, [f EXCEPT !.i = @ + 1, !.acc = Append(@, v)])
       [] f.f = "red" -> ReduceNext(p, [f EXCEPT !.i = @ + 1, !.acc = v])
       [] f.f = "apl" -> LET l == AsVar(f.l) fn == FunR(m, v)
                         IN IF ~IsList(l) THEN ThrowAt(p, f.s, "Expected list as arguments in apply")
                            ELSE IF fn.s # "ok" THEN Fin(p, f.s, fn)
                            ELSE Ap(p, v, IF IsSpecial(m, v) THEN Kids(m, l) ELSE [i \in DOMAIN Kids(m, l) |-> VarOf(Kids(m, l)[i])], f.s)
       [] f.f = "es" -> Ret([p EXCEPT !.S[f.s].ineval = FALSE, !.S[f.s].mod = f.mod, !.S[f.s].tokens = f.toks], v0)
       [] f.f = "im" -> LET id == Len(m.S) + 1
                            m1 == [DropScope(p, f.id) EXCEPT !.S = Append(@, [m.S[f.id] EXCEPT !.prev = 0]), !.mods = Put(@, f.file, id)]
                        IN ImportNext(m1, f.s, f.a, f.i + 1, v0)
       [] f.f = "uq" -> Go(p, [k |-> "qr", v |-> [v EXCEPT !.q = IF f.sp THEN 2 ELSE 1], sp |-> f.sp])
       [] f.f = "xm" -> MacroValue(p, v)
\* an error ends everything up to the frame "prog"; what is in between restores its part of the state
DoThrow(m) ==
  LET f == Top1(m) p == PopK(m)
  IN CASE f.f = "clos" -> IF m.dbg.on /\ m.c.e.kind # "stop" THEN Go(p, [k |-> "de", e |-> m.c.e, child |-> f.child, body |-> m.C[f.idx].body]) ELSE DropScope(p, f.child)
       [] f.f = "setf1" -> [p EXCEPT !.S[f.s].lval = f.old]
       [] f.f = "rval" -> [p EXCEPT !.S[f.s].lval = f.old]
       [] f.f = "es" -> [p EXCEPT !.S[f.s].ineval = FALSE, !.S[f.s].mod = f.mod, !.S[f.s].tokens = f.toks]
       [] f.f = "im" -> DropScope(p, f.id)
       [] OTHER -> p
=============================================================================
