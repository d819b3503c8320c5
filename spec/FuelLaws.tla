------------------------------ MODULE FuelLaws ------------------------------
(* The laws of the properties about values, checked on the specification     *)
(* itself: TLC visits every pair (a, b) of a universe of values, with a      *)
(* third one c in the laws that need it.  (The laws about behaviour are in   *)
(* FuelTrace and LexTrace, where they are checked on all recorded programs.) *)
EXTENDS Fuel

F(t) == FltN(FOfText(t, ScanDouble(t)))
\* the heap of the universe: some lists, equal ones too, and two dictionaries
H0 == << <<>>, <<IntN(1), IntN(2)>>, <<IntN(1), IntN(2)>>, <<Dbl(64), IntN(2)>>, <<IntN(1)>>, <<ListN(1), StrN("a")>>, <<ListN(1), StrN("a")>>,
         <<StrN("1"), IntN(2)>>, <<Sym("a"), Nil>>, <<IntN(1), IntN(2), IntN(3)>>, <<F("0.1")>>, <<Bool(TRUE)>> >>
Machine == [Machine0 EXCEPT !.H = H0, !.D = << <<>>, <<>> >>]
Numbers == <<IntN(0), IntN(1), IntN(-1), IntN(2), IntN(7), IntN(-3), IntN(100), IntN(2147483647), IntN(-2147483647), IntN(16777217), Dbl(0), Dbl(64), Dbl(-64), Dbl(32), Dbl(-144), Dbl(448),
             F("0.1"), F("-0.1"), F("0.3"), F("1e-8"), F("9e-9"), F("-1e-9"), F("1.000000009"), F("1e20"), F("-1e300"), F("-0.0"), F("inf"), F("-inf"), F("2147483647.5"), F("16777217.0"), F("3.3333333333")>>
Texts == <<StrN(""), StrN("a"), StrN("A"), StrN("ab"), StrN("b"), StrN("1"), StrN("10"), StrN("9"), StrN("-1"), StrN("1.000000"), StrN("NIL"), StrN("#t"), StrN("(1 2)"), StrN(" a")>>
Others == <<Nil, N("nil", 1), Und, Bool(TRUE), Bool(FALSE), Sym("a"), Sym("b"), N("bfun", "+"), N("nat", 1), N("nat", 2)>> \o [i \in DOMAIN H0 |-> ListN(i)]
VARIABLES i, j, U, M                               \* U and M never change
vars == <<i, j, U, M>>
Init == U = Numbers \o Texts \o Others /\ M = Machine /\ i \in DOMAIN U /\ j = 1
View == <<i, j>>
Next == j < Len(U) /\ j' = j + 1 /\ UNCHANGED <<i, U, M>>     \* the workers of TLC share the rows
Spec == Init /\ [][Next]_vars
a == U[i]
b == U[j]

Is(r, v) == r.s = "ok" /\ r.v.v = v
Eq(x, y) == EqualR(M, x, y)
Lt(x, y) == Less(M, x, y, FALSE)
Le(x, y) == Less(M, x, y, TRUE)
\* ---------------------------------------------------- comparison (C08)
Reflexive == i = j => (Is(Eq(a, a), TRUE) \/ Eq(a, a).s = "er")               \* functions have no equality
Symmetric == Eq(a, b).s = Eq(b, a).s /\ (Eq(a, b).s = "ok" => Eq(a, b).v.v = Eq(b, a).v.v)
SymbolsApart == a.t = "sym" /\ b.t # "sym" => Is(Eq(a, b), FALSE)
TextsByText == a.t = "str" /\ b.t \notin {"sym", "nil", "und"} => Is(Eq(a, b), a.v = Str(M, b))
ListsByElement == a.t = "list" /\ b.t = "list" =>
   LET x == M.H[a.v] y == M.H[b.v] IN Is(Eq(a, b), Len(x) = Len(y) /\ \A k \in DOMAIN x : Is(Eq(x[k], y[k]), TRUE))
Near(x, y) == IsNum(x) /\ IsNum(y) /\ Is(Eq(x, y), TRUE) /\ FCmp(FOf(x), FOf(y)) # 0
Ordered == (IsNum(a) /\ IsNum(b)) \/ (a.t = "str" /\ b.t = "str")
Trichotomy == Ordered => /\ Cardinality({k \in 1..3 : <<Is(Lt(a, b), TRUE), Is(Eq(a, b), TRUE), Is(Lt(b, a), TRUE)>>[k]}) = (IF Near(a, b) THEN 2 ELSE 1)
                         /\ Is(Le(a, b), ~Lt(b, a).v.v)
Transitive == Ordered /\ Is(Lt(a, b), TRUE) => \A k \in DOMAIN U : LET c == U[k] IN (c.t = a.t \/ (IsNum(c) /\ IsNum(a))) /\ Is(Lt(b, c), TRUE) => Is(Lt(a, c), TRUE)
NoOrder == a.t \in {"list", "nil", "sym", "bool", "nat"} /\ b.t \in {"list", "nil", "sym", "bool", "nat"} => Lt(a, b).s = "er" /\ Le(a, b).s = "er"
Comparison == Reflexive /\ Symmetric /\ SymbolsApart /\ TextsByText /\ ListsByElement /\ Trichotomy /\ Transitive /\ NoOrder
\* ---------------------------------------------------- arithmetic (C07)
Value(r) == IF r.s = "ok" THEN FOf(r.v) ELSE FNan
SameNum(r, s) == r.s = s.s /\ (r.s = "ok" => r.v.t = s.v.t /\ r.v.v = s.v.v)
Typed == IsNum(a) /\ IsNum(b) => \A op \in {"+", "-", "*", "/", "%"} :
   LET r == Arith(M, op, a, b)
   IN /\ r.s = "ok" => (IsDbl(r.v) <=> IsDbl(a) \/ IsDbl(b)) /\ IsNum(r.v)
      /\ op \in {"/", "%"} /\ a.t = "int" /\ b.t = "int" /\ b.v = 0 => r.s = "er"
Commutes == IsNum(a) /\ IsNum(b) => SameNum(Arith(M, "+", a, b), Arith(M, "+", b, a)) /\ SameNum(Arith(M, "*", a, b), Arith(M, "*", b, a))
WholeAndRest == a.t = "int" /\ b.t = "int" /\ b.v # 0 => LET q == Arith(M, "/", a, b) r == Arith(M, "%", a, b) IN q.s = "ok" => r.s = "ok" /\ a.v = q.v.v * b.v + r.v.v /\ Abs(r.v.v) < Abs(b.v)
\* the exact floats agree with the integers and with the multiples of 1/64, which are computed in another way
FloatsAgree == (a.t = "dbl" /\ b.t = "dbl" /\ Abs(a.v) < 536870912 /\ Abs(b.v) < 536870912) =>
  /\ FAdd(FOf(a), FOf(b)) = FOf(Dbl(a.v + b.v)) /\ FSub(FOf(a), FOf(b)) = FOf(Dbl(a.v - b.v))
  /\ (FCmp(FOf(a), FOf(b)) < 0) = (a.v < b.v) /\ FText(FOf(a)) = DoubleText(a.v)
  /\ (MulFits(a.v, b.v) /\ a.v * b.v # 0 /\ (a.v * b.v) % 64 = 0) => FMul(FOf(a), FOf(b)) = FOf(Dbl((a.v * b.v) \div 64))
Finite(x) == IsNum(x) /\ FOf(x).c = "num"
RoundTrips ==
  Finite(a) /\ Finite(b) =>
    LET x == FOf(a) y == FOf(b) Mag(z) == [z EXCEPT !.s = 0] q == FDiv(x, y) d == FSub(x, y) e == FSub(y, x) r == FSqrt(x) tiny == FOfDec(0, "1", -15)
    IN /\ FIsZero(d) = FIsZero(e) /\ (FIsZero(d) \/ d = FNeg(e))
       /\ ~FIsZero(y) /\ q.c = "num" /\ BLen(q.m) + q.e > -1000 => FCmp(Mag(FSub(FMul(q, y), x)), FMul(Mag(x), tiny)) <= 0
       /\ ~FIsZero(y) => FCmp(Mag(FMod(x, y)), Mag(y)) < 0
       /\ (x.s = 0 /\ i = j) => FCmp(Mag(FSub(FMul(r, r), x)), FMul(x, tiny)) <= 0
NoOperator == (a.t \in {"list", "nil", "sym", "bool", "nat", "und"} /\ b.t \in {"list", "nil", "sym", "bool", "nat", "und"}) =>
   \A op \in {"-", "*", "/", "%"} : Arith(M, op, a, b).s = "er"
BitLaws == (a.t = "int" /\ b.t = "int") =>
  /\ ~AddFits(a.v, b.v) \/ Bits("&", a.v, b.v) + Bits("|", a.v, b.v) = a.v + b.v
  /\ Bits("^", Bits("^", a.v, b.v), b.v) = a.v
  /\ Bits("&", a.v, Not32(a.v)) = 0 /\ Bits("|", a.v, Not32(a.v)) = -1
Constants == i = 1 /\ j = 1 => Tolerance = FOfDec(0, "1", -8) /\ FloatPi = FOfDec(0, "3141592653589793238463", -21)
Arithmetic == Constants /\ Typed /\ Commutes /\ WholeAndRest /\ FloatsAgree /\ RoundTrips /\ NoOperator /\ BitLaws
\* -------------------------------------------------- dictionaries (C10)
KeyOk(n) == KeyErr(M, "x", n) = ""
Get(d, k) == LET p == DictPos(M, d, k) IN IF p = 0 THEN Und ELSE d[p][2]
MapLaws == KeyOk(a) /\ KeyOk(b) =>
   LET d == DictPut(M, <<>>, a, IntN(1)) e == DictPut(M, d, b, IntN(2)) same == KeySame(M, a, b)
   IN /\ Get(e, b).v = 2 /\ Get(e, a).v = (IF same THEN 2 ELSE 1) /\ Len(e) = (IF same THEN 1 ELSE 2)
      /\ KeySame(M, a, b) = KeySame(M, b, a) /\ (i = j => same)
      /\ (~same => e = DictPut(M, DictPut(M, <<>>, b, IntN(2)), a, IntN(1)))                \* in any order
      /\ LET r == DictDrop(e, DictPos(M, e, b)) IN DictPos(M, r, b) = 0 /\ Len(r) = Len(e) - 1 /\ (~same => Get(r, a).v = 1)
\* ---------------------------------------------- texts, conversions (C11)
Wide(x) == FCmp([FOf(x) EXCEPT !.s = 0], FOfDec(0, "1", 15)) >= 0
IntTexts == (i = j /\ a.t = "int") => Is(ParseInt(Str(M, a)), a.v) /\ (Abs(a.v) > 999999999 \/ Is(ToIntR(M, StrN(Str(M, a))), a.v))
FloatTexts == (i = j /\ Finite(a) /\ IsDbl(a) /\ ~Wide(a)) => LET r == ParseDbl(Str(M, a)) IN                       \* six digits are kept
        r.s = "ok" /\ FCmp([FSub(FOf(r.v), FOf(a)) EXCEPT !.s = 0], FOfDec(0, "51", -8)) < 0
TextOps == (a.t = "str" /\ b.t = "str") =>
  /\ Len(a.v \o b.v) = Len(a.v) + Len(b.v) /\ FindFrom(a.v \o b.v, b.v, 0) >= 0
  /\ (b.v = "" \/ ReplaceAll(a.v, b.v, b.v) = a.v) /\ Trim(Trim(a.v)) = Trim(a.v) /\ ToLower(ToUpper(a.v)) = ToLower(a.v) /\ Reversed(Reversed(a.v)) = a.v
  /\ \A p \in 0..Len(a.v) : SliceOp(M, <<a, IntN(0), IntN(p)>>).v.v \o SliceOp(M, <<a, IntN(p), IntN(-1)>>).v.v = a.v
Conversions == IntTexts /\ FloatTexts /\ TextOps
=============================================================================
