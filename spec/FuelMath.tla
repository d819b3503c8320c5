------------------------------ MODULE FuelMath ------------------------------
(* Transcendental functions.  The C library does not promise their last bit, *)
(* so the result is known by its text only (six decimals): the function is   *)
(* computed with the floats of FuelFloat, and the text is given if every     *)
(* number within the error bound has it; otherwise the value is unknown.     *)
(* Result of the F... functions: [v |-> float, d |-> error bound, float].    *)
EXTENDS FuelFloat

HalfPiHi == [c |-> "num", s |-> 0, m |-> <<27985, 18703, 1>>, e |-> -30]
HalfPiLo == [c |-> "num", s |-> 0, m |-> <<25393, 13508, 20868, 133>>, e |-> -86]
Ln2Hi == [c |-> "num", s |-> 0, m |-> <<12271, 17864, 5>>, e |-> -33]
Ln2Lo == [c |-> "num", s |-> 0, m |-> <<30957, 21988, 20345, 163>>, e |-> -86]
TwoOverPi == [c |-> "num", s |-> 0, m |-> <<18563, 23443, 31937, 162>>, e |-> -53]
OneOverLn2 == [c |-> "num", s |-> 0, m |-> <<16767, 25899, 10894, 92>>, e |-> -51]
Ln10 == [c |-> "num", s |-> 0, m |-> <<10891, 15285, 22371, 73>>, e |-> -50]
RootHalf == [c |-> "num", s |-> 0, m |-> <<15309, 19710, 633, 181>>, e |-> -53]
FOne == [c |-> "num", s |-> 0, m |-> <<1>>, e |-> 0]
NoNumber == [v |-> FNan, d |-> FNan]

FScale(x, k) == IF FIsZero(x) THEN x ELSE [x EXCEPT !.e = @ + k]           \* x * 2^k
FAbs(x) == [x EXCEPT !.s = 0]
FLess(x, y) == FCmp(x, y) < 0
\* error bounds: a part of the value, and of a number of the size 2^k
FNear(v) == [v |-> v, d |-> FScale(FAbs(v), -40)]
FAround(v, k) == [v |-> v, d |-> FAdd(FScale(FAbs(v), -40), FScale(FOne, k))]
\* 1 + t/n1 * (1 + t/n2 * (1 + ...)), the numbers from the last to the first
Horner(t, ns) == LET F(acc, n) == FAdd(FOne, FDiv(FMul(t, acc), FOfInt(n))) IN FoldSeqLeft(F, FOne, ns)
\* c1 + t * (c2 + t * (...)) with 1/n for c, the numbers from the last to the first
Powers(t, ns) == LET F(acc, n) == FAdd(FDiv(FOne, FOfInt(n)), FMul(t, acc)) IN FoldSeqLeft(F, FZero(0), ns)

ExpSmall(r) == Horner(r, <<16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>)
FExp(x) == IF FLess(FOfInt(60), FAbs(x)) THEN NoNumber
           ELSE LET n == FNearest(FMul(x, OneOverLn2))
                IN FNear(FScale(ExpSmall(FSub(FSub(x, FMul(n, Ln2Hi)), FMul(n, Ln2Lo))), FToInt(n)))
SinSmall(r) == FMul(r, Horner(FNeg(FMul(r, r)), <<18 * 19, 16 * 17, 14 * 15, 12 * 13, 10 * 11, 8 * 9, 6 * 7, 4 * 5, 2 * 3>>))
CosSmall(r) == Horner(FNeg(FMul(r, r)), <<17 * 18, 15 * 16, 13 * 14, 11 * 12, 9 * 10, 7 * 8, 5 * 6, 3 * 4, 1 * 2>>)
\* sine of x + q quarters of a circle
FSinQ(x, q) == IF FLess(FOfInt(100000), FAbs(x)) THEN NoNumber
               ELSE LET n == FNearest(FMul(x, TwoOverPi))
                        r == FSub(FSub(x, FMul(n, HalfPiHi)), FMul(n, HalfPiLo))
                        k == (FToInt(n) + q) % 4
                        y == IF k % 2 = 0 THEN SinSmall(r) ELSE CosSmall(r)
                    IN FAround(IF k > 1 THEN FNeg(y) ELSE y, IF FIsZero(n) THEN -100 ELSE -46)
FSin(x) == FSinQ(x, 0)
FCos(x) == FSinQ(x, 1)
FRatio(a, b) == IF a.v.c = "nan" \/ b.v.c = "nan" \/ FLess(FAbs(b.v), FScale(FOne, -10)) THEN NoNumber
                ELSE LET q == FDiv(a.v, b.v) IN [v |-> q, d |-> FAdd(FScale(FAbs(q), -30), FScale(FOne, -40))]
FTan(x) == FRatio(FSin(x), FCos(x))
FSinh(x) == IF FLess(FAbs(x), FOne) THEN FNear(FMul(x, Horner(FMul(x, x), <<18 * 19, 16 * 17, 14 * 15, 12 * 13, 10 * 11, 8 * 9, 6 * 7, 4 * 5, 2 * 3>>)))
            ELSE LET e == FExp(x).v IN IF e.c = "nan" THEN NoNumber ELSE FNear(FScale(FSub(e, FDiv(FOne, e)), -1))
FCosh(x) == LET e == FExp(x).v IN IF e.c = "nan" THEN NoNumber ELSE FNear(FScale(FAdd(e, FDiv(FOne, e)), -1))
FTanh(x) == LET a == FSinh(x) b == FCosh(x) IN IF a.v.c = "nan" THEN NoNumber ELSE FNear(FDiv(a.v, b.v))
FLog(x) == IF x.c # "num" \/ x.s = 1 \/ FIsZero(x) THEN NoNumber
           ELSE LET l == BLen(x.m)
                    half == FNum(0, x.m, -l)                                     \* 1/2 <= half < 1
                    low == FLess(half, RootHalf)
                    f == IF low THEN FScale(half, 1) ELSE half
                    n == FOfInt(x.e + l - (IF low THEN 1 ELSE 0))
                    z == FDiv(FSub(f, FOne), FAdd(f, FOne))
                    s == FMul(FScale(z, 1), Powers(FMul(z, z), <<23, 21, 19, 17, 15, 13, 11, 9, 7, 5, 3, 1>>))
                IN FNear(FAdd(FMul(n, Ln2Hi), FAdd(FMul(n, Ln2Lo), s)))
FLog10(x) == LET l == FLog(x) IN IF l.v.c = "nan" THEN l ELSE FNear(FDiv(l.v, Ln10))
Flatter(x) == FDiv(x, FAdd(FOne, FSqrt(FAdd(FOne, FMul(x, x)))))                 \* tangent of the half angle
AtanSmall(x) == LET y == Flatter(Flatter(x)) IN FScale(FMul(y, Powers(FNeg(FMul(y, y)), <<25, 23, 21, 19, 17, 15, 13, 11, 9, 7, 5, 3, 1>>)), 2)
HalfPi == FAdd(HalfPiHi, HalfPiLo)
AtanPos(x) == IF FLess(FOne, x) THEN FSub(HalfPi, AtanSmall(FDiv(FOne, x))) ELSE AtanSmall(x)
FAtan(x) == IF x.c # "num" THEN NoNumber ELSE LET y == AtanPos(FAbs(x)) IN FNear([y EXCEPT !.s = x.s])
FAsin(x) == IF x.c # "num" \/ FLess(FOne, FAbs(x)) THEN NoNumber
            ELSE IF FAbs(x) = FOne THEN FNear([HalfPi EXCEPT !.s = x.s])
            ELSE FNear(FAtan(FDiv(x, FSqrt(FMul(FSub(FOne, x), FAdd(FOne, x))))).v)
FAcos(x) == LET a == FAsin(x) IN IF a.v.c = "nan" THEN a ELSE FAround(FSub(HalfPi, a.v), -44)
\* x to the power of y, if that is exact
RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN <<1>> ELSE LET h == BPow(a, n \div 2) q == BMul(h, h) IN IF n % 2 = 1 THEN BMul(q, a) ELSE q
PowExact(x, n) == FExact(IF n % 2 = 1 THEN x.s ELSE 0, BPow(x.m, n), x.e * n)
FPow(x, y) == LET l == FLog(FAbs(x)) t == FMul(y, l.v) r == FExp(t).v odd == FIsWhole(y) /\ FToInt(y) % 2 = 1
              IN IF x.c # "num" \/ y.c # "num" \/ l.v.c = "nan" \/ (x.s = 1 /\ ~(FIsWhole(y) /\ FIntFits(y))) \/ FLess(FOfInt(60), FAbs(t)) THEN NoNumber
                 ELSE [v |-> IF x.s = 1 /\ odd THEN FNeg(r) ELSE r, d |-> FScale(FAbs(r), -36)]

\* the text of such a number, "" if it is not clear
FloatText(r) == IF r.v.c # "num" THEN ""
                ELSE LET a == FText(FSub(r.v, r.d)) b == FText(FAdd(r.v, r.d)) IN IF a = b THEN a ELSE ""
=============================================================================
