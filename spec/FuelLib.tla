------------------------------- MODULE FuelLib -------------------------------
(* The standard library (module fuellib), by what its definitions mean.      *)
(*                                                                           *)
(* A program that imports the library gets, instead of the definitions of    *)
(* the file, closures with a name in `lib` and macros of kind "lib"; calling *)
(* them takes the transitions of this module.  Arguments outside of the      *)
(* documented domain are not specified.                                      *)
(* Frames: lfor  foreach [fn, v, i, n, s];  ltn, ltt, ltb, lti, lts  dotimes  *)
(*   [c, n, body, s]: count, test, body, increment, end                      *)
EXTENDS FuelDebug

LibFunctions ==                                    \* name -> documented parameters
  [isNET |-> <<>>, isCpp |-> <<>>, isHaxe |-> <<>>, second |-> <<"l">>, length |-> <<"l">>, strlen |-> <<"s">>, find |-> <<"key", "_list">>, foreach |-> <<"container", "fcn">>]
  @@ ("dict-len" :> <<"d">>) @@ ("arg-list-expression" :> <<"argcount">>) @@ ("arg-list-with-obj-expression" :> <<"obj", "argcount">>)
  @@ ("create-call-expression" :> <<"callfcn", "methodname", "obj", "argcount">>)
  @@ ("create-native-method-expression" :> <<"lisp-prefix", "full-class-name", "name", "netName", "isStatic", "argcount">>)
LibMacros == {"dotimes", "setq", "defstruct"}

DoLibImport(m) ==
  LET f == Top1(m)                                 \* the frame of the import
      names == SortTexts(DOMAIN LibFunctions)
      fo == FoldSeqLeft(LAMBDA a, x : [H |-> Append(a.H, [i \in DOMAIN LibFunctions[x] |-> Sym(LibFunctions[x][i])]), ids |-> Append(a.ids, Len(a.H) + 1)], [H |-> m.H, ids |-> <<>>], names)
      cl == [i \in DOMAIN names |-> [name |-> names[i], mod |-> f.file, formals |-> Raw(fo.ids[i]), body |-> Nil, scope |-> f.id, doc |-> "", lib |-> names[i],
                                     sig |-> "(" \o JoinNonEmpty("", <<names[i]>> \o LibFunctions[names[i]]) \o ")"]]
      vars == [x \in DOMAIN LibFunctions |-> N("cfun", Len(m.C) + CHOOSE i \in DOMAIN names : names[i] = x)]
  IN Ret([m EXCEPT !.H = fo.H, !.C = @ \o cl, !.S[f.id].vars = vars @@ @,
                   !.mac = [x \in LibMacros |-> [kind |-> "lib", formals |-> <<>>, body |-> <<>>]] @@ @], Und)

Unspecified(m) == Uns(m, "library function outside of its domain")
\* a value written in the library: its place in the text is not specified
At(v) == [v EXCEPT !.k = LostTok]
Num(v) == v.t = "int" /\ v.v >= 0
PureIn(m, s, name, a) == PureOp(m, s, name, a)
Params(n) == [i \in 1..n |-> Sym("p" \o ToString(i - 1))]
\* least position at which the key is; 0: none, -1: not comparable
RECURSIVE FindAt(_, _, _, _, _)
FindAt(m, s, key, es, i) ==
  IF i > Len(es) THEN 0
  ELSE LET r == PureIn(m, s, "==", <<key, es[i]>>)
       IN IF r.s # "ok" THEN -1 ELSE IF r.v.v THEN i ELSE FindAt(m, s, key, es, i + 1)
Items(m, v) == IF v.t = "str" THEN [i \in 1..Len(v.v) |-> N("str", Ch(v.v, i))] ELSE [i \in DOMAIN Kids(m, v) |-> VarOf(Kids(m, v)[i])]
IsSeq(v) == v.t = "str" \/ IsList(v)
CallForm(m, s, callfcn, method, obj, n) ==         \* [ok, es]
  LET none == PureIn(m, s, "!=", <<obj, Nil>>) name == PureIn(m, s, "sym", <<method>>)
  IN [ok |-> none.s = "ok" /\ name.s = "ok" /\ Num(n),
      es |-> IF none.s = "ok" /\ name.s = "ok" /\ Num(n) THEN <<callfcn>> \o (IF none.v.v THEN <<obj>> ELSE <<>>) \o <<name.v>> \o Params(n.v) ELSE <<>>]
\* an error of an operation of the library, somewhere in its text
LibError(m, msg) == Throw(m, Exc("located", msg, "?", "", LostTok))
ForeachNext(m, f) ==
  IF f.i > f.n THEN Ret(m, IF f.n = 0 THEN Und ELSE N("int", f.n))
  ELSE IF f.i > Len(Items(m, f.v)) THEN LibError(m, BadIndex("nth", f.i - 1, Len(Items(m, f.v))))
  ELSE Push(Ap(m, f.fn, <<Items(m, f.v)[f.i]>>, f.s), f)
Callable(m, fn) == fn.t = "cfun" \/ (fn.t = "bfun" /\ (Canon[fn.v] \in {"list", "println", "print", "+", "make-dict", "append"} \/ (~IsSpecial(m, fn) /\ Canon[fn.v] \notin EffectNames)))

DoLib(m) ==
  LET c == m.c s == c.s name == c.name
      a == [i \in 1..Len(LibFunctions[name]) |-> IF i <= Len(c.args) THEN AsVar(c.args[i]) ELSE Und]
      enough == Len(c.args) >= Len(a)
      L(es) == RetList(m, es)
      call == CallForm(m, s, a[1], a[2], a[3], a[4])
      native == CallForm(m, s, At(Sym("call")), a[4], At(Sym("obj")), a[6])
      static == CallForm(m, s, At(Sym("call-static")), a[4], a[2], a[6])
      texts == a[1].t = "str" /\ a[3].t = "str"
      found == FindAt(m, s, a[1], Items(m, a[2]), 1)
      size == PureIn(m, s, "len", <<a[1]>>)
  IN IF ~enough \/ m.S[s].lval THEN Unspecified(m)
     ELSE CASE name \in {"isNET", "isHaxe"} -> Ret(m, Bool(FALSE))
            [] name = "isCpp" -> Ret(m, Bool(TRUE))
            [] name = "second" -> IF IsList(a[1]) /\ Len(Items(m, a[1])) < 2 THEN LibError(m, BadIndex("first", 0, 0))
                                  ELSE IF a[1].t = "str" /\ Len(a[1].v) < 2 THEN IF a[1].v = "" THEN LibError(m, BadIndex("rest", 0, 0)) ELSE Ret(m, StrN(""))
                                  ELSE IF IsSeq(a[1]) THEN Ret(m, Items(m, a[1])[2]) ELSE Unspecified(m)
            [] name = "length" -> IF IsSeq(a[1]) THEN Fin(m, s, size) ELSE Unspecified(m)
            [] name = "strlen" -> IF a[1].t = "str" THEN Fin(m, s, size) ELSE Unspecified(m)
            [] name = "dict-len" -> IF a[1].t = "nat" THEN Fin(m, s, size) ELSE Unspecified(m)
            [] name = "find" -> IF ~IsSeq(a[2]) \/ found < 0 THEN Unspecified(m) ELSE Ret(m, IF found < 2 THEN At(N("int", found - 1)) ELSE N("int", found - 1))
            [] name = "foreach" -> IF ~IsSeq(a[1]) \/ ~Callable(m, a[2]) THEN Unspecified(m)
                                   ELSE ForeachNext(m, [f |-> "lfor", fn |-> a[2], v |-> a[1], i |-> 1, n |-> Len(Items(m, a[1])), s |-> s])
            [] name = "arg-list-expression" -> IF Num(a[1]) THEN L(Params(a[1].v)) ELSE Unspecified(m)
            [] name = "arg-list-with-obj-expression" -> IF Num(a[2]) THEN L(<<a[1]>> \o Params(a[2].v)) ELSE Unspecified(m)
            [] name = "create-call-expression" -> IF call.ok THEN L(call.es) ELSE Unspecified(m)
            [] name = "create-native-method-expression" ->
                 LET m1 == AddCell(m, Params(IF Num(a[6]) THEN a[6].v ELSE 0))
                     m2 == AddCell(m, <<At(Sym("obj"))>> \o Params(IF Num(a[6]) THEN a[6].v ELSE 0))
                     m3 == IF a[5].v THEN AddCell(m1, static.es) ELSE AddCell(m2, native.es)
                 IN IF a[5].t # "bool" \/ ~texts \/ ~(IF a[5].v THEN static.ok ELSE native.ok) THEN Unspecified(m)
                    ELSE RetList(m3, <<At(Sym("defn")), N("str", a[1].v \o a[3].v), ListN(NewId(m)), ListN(NewId(m) + 1)>>)

\* ------------------------------------------------------------------ macros
Fn(name) == N("bfun", name)
ApThen(m, name, a, s, f) == Push(Ap(m, Fn(name), a, s), f)
ValueOf(m, f) == VarAt(m, WhereIs(m, f.s, f.c), f.c)
Bound(m, f) == WhereIs(m, f.s, f.c) # 0
EvalNode(m, n, s, f) == IF n.t = "nil" THEN Ret(Push(m, f), Nil) ELSE EvThen(m, n, s, f)
Count(m, f) == EvalNode(m, f.n, f.s, [f EXCEPT !.f = "ltn"])
\* code without positions in the text
Code(m, es) == [m |-> AddCell(m, es), n |-> Raw(NewId(m))]
RECURSIVE Forms(_, _)
Forms(m, es) ==                                    \* es: texts (symbols), integers and lists of these -> code
  FoldSeqLeft(LAMBDA a, e : IF e.k = "sym" THEN [a EXCEPT !.ns = Append(@, At(Sym(e.v)))] ELSE IF e.k = "int" THEN [a EXCEPT !.ns = Append(@, At(N("int", e.v)))]
                            ELSE LET r == Forms(a.m, e.v) c == Code(r.m, r.ns) IN [m |-> c.m, ns |-> Append(a.ns, c.n)], [m |-> m, ns |-> <<>>], es)
Y(x) == [k |-> "sym", v |-> x]
I(x) == [k |-> "int", v |-> x]
Q(xs) == [k |-> "list", v |-> xs]
Ys(xs) == [i \in DOMAIN xs |-> Y(xs[i])]
StructForms(name, fields) ==
  <<Y("do"), Q(<<Y("defn"), Y("make-" \o name), Q(Ys(fields)), Q(<<Y("list"), Y("#" \o name)>> \o Ys(fields))>>),
    Q(<<Y("defn"), Y("is-" \o name \o "-p"), Q(<<Y("data")>>), Q(<<Y("and"), Q(<<Y("=="), Q(<<Y("type"), Y("data")>>), I(6)>>),
       Q(<<Y(">"), Q(<<Y("len"), Y("data")>>), I(0)>>), Q(<<Y("=="), Q(<<Y("first"), Y("data")>>), Y("#" \o name)>>)>>)>>)>>
  \o [i \in DOMAIN fields |-> Q(<<Y("defn"), Y("get-" \o name \o "-" \o fields[i]), Q(<<Y("data")>>), Q(<<Y("nth"), I(i), Y("data")>>)>>)]
  \o <<Q(<<Y("delvar"), Q(<<Y("quote"), Y("__i")>>)>>)>>
DoLibMacro(m) ==
  LET c == m.c s == c.s es == c.es
      info == IF Len(es) > 1 /\ es[2].t = "raw" THEN m.H[es[2].v] ELSE <<>>
      symbols == \A i \in DOMAIN es : es[i].t = "sym"
      fields == [i \in 1..(Len(es) - 2) |-> es[i + 2].v]
      m1 == [m EXCEPT !.H = Append(@, <<At(Sym("setf")), es[2], es[3]>>)]
      m2 == SetVar(m, s, info[1].v, At(N("int", 0)))
      st == Forms(m, StructForms(es[2].v, fields))
      code == Code(st.m, st.ns)
  IN CASE c.name = "setq" -> IF Len(es) < 3 THEN Unspecified(m) ELSE Ev(m1, Raw(NewId(m)), s)
       [] c.name = "dotimes" -> IF Len(es) < 3 \/ Len(info) < 2 THEN Unspecified(m)
                                ELSE IF info[1].t # "sym" \/ Reserved(info[1].v) THEN Unspecified(m)
                                ELSE IF WhereIs(m, 1, info[1].v) # 0 /\ IsFun(VarAt(m, 1, info[1].v)) THEN Unspecified(m)   \* the macro may use it
                                ELSE Count(m2, [f |-> "ltn", c |-> info[1].v, n |-> info[2], body |-> es[3], s |-> s])
       [] c.name = "defstruct" -> IF Len(es) < 2 \/ ~symbols THEN Unspecified(m)
                                  ELSE IF WhereIs(m, s, es[2].v) # 0 THEN Unspecified(m)
                                  ELSE Ev(code.m, code.n, s)

LibFrames == {"lfor", "ltn", "ltt", "ltb", "lti", "lts"}
DoLibReturn(m) ==
  LET v0 == m.c.v v == ToV(v0) f == Top1(m) p == PopK(m)
  IN CASE f.f = "lfor" -> ForeachNext(p, [f EXCEPT !.i = @ + 1])
       \* the count is evaluated before every turn
       [] f.f = "ltn" -> IF ~Bound(p, f) THEN Unspecified(m) ELSE ApThen(p, "<", <<ValueOf(p, f), v>>, f.s, [f EXCEPT !.f = "ltt"])
       [] f.f = "ltt" -> IF v.v THEN EvalNode(p, f.body, f.s, [f EXCEPT !.f = "ltb"]) ELSE ApThen(p, "delvar", <<Sym(f.c)>>, f.s, [f EXCEPT !.f = "lts"])
       [] f.f = "ltb" -> IF m.S[f.s].ret THEN Ret(p, v0)
                         ELSE IF WhereSet(p, f.s, f.c) = 0 THEN Unspecified(m)
                         ELSE ApThen(p, "+", <<ValueOf(p, f), N("int", 1)>>, f.s, [f EXCEPT !.f = "lti"])
       [] f.f = "lti" -> Count(SetVar(p, WhereSet(p, f.s, f.c), f.c, v), f)
       [] f.f = "lts" -> Ret(p, v0)
\* an error of an operation of the library is at a place of the library's text
InLibrary(m, f) == f.f = "lfor" /\ m.c.e.kind = "located" /\ (f.fn.t = "bfun" \/ Len(Kids(m, m.C[f.fn.v].formals)) # 1)
DoLibThrow(m) == IF Top1(m).f \in {"ltt", "lti", "lts"} /\ m.c.e.kind = "located" THEN [PopK(m) EXCEPT !.c.e.tok = LostTok]
                 ELSE IF InLibrary(m, Top1(m)) THEN [PopK(m) EXCEPT !.c.e.tok = LostTok, !.c.e.mod = "?"]
                 ELSE PopK(m)
=============================================================================
