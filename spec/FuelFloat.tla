----------------------------- MODULE FuelFloat -----------------------------
(* Floating point numbers exactly as IEEE 754 doubles with rounding to the   *)
(* nearest (ties to even).  A float is a record                              *)
(*    [c, s, m, e]   c "num", "inf";  s sign 0 or 1;  value (-1)^s * m * 2^e *)
(* with m a natural number of any size: a sequence of limbs in base 2^15,    *)
(* the lowest first, none for zero; m is odd or zero (then e = 0), so equal  *)
(* floats of one sign are equal records.  Not-a-number is c = "nan".         *)
EXTENDS FuelChars

Base == 32768
Idx == TLCEval([i \in 1..400 |-> i])
Upto(n) == SubSeq(Idx, 1, n)
P2 == TLCEval([i \in 0..30 |-> LET F(x) == 2 * x IN Iterate(F, 1, i)])

\* ------------------------------------------------- naturals of any size
RECURSIVE BNorm(_)
BNorm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BNorm(SubSeq(a, 1, Len(a) - 1)) ELSE a
BGet(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
BOf(n) == IF n < Base THEN IF n = 0 THEN <<>> ELSE <<n>>
          ELSE IF n < 1073741824 THEN <<n % Base, n \div Base>> ELSE <<n % Base, (n \div Base) % Base, n \div 1073741824>>
RECURSIVE BCmpAt(_, _, _)
BCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN a[i] - b[i] ELSE BCmpAt(a, b, i - 1)
BCmp(a, b) == IF Len(a) # Len(b) THEN Len(a) - Len(b) ELSE BCmpAt(a, b, Len(a))
BAdd(a, b) ==
  LET F(x, i) == LET t == BGet(a, i) + BGet(b, i) + x.c IN [c |-> t \div Base, r |-> Append(x.r, t % Base)]
      z == FoldSeqLeft(F, [c |-> 0, r |-> <<>>], Upto(Max2(Len(a), Len(b))))
  IN IF z.c = 0 THEN z.r ELSE Append(z.r, z.c)
BSub(a, b) ==                                      \* a >= b
  LET F(x, i) == LET t == a[i] - BGet(b, i) - x.c IN [c |-> IF t < 0 THEN 1 ELSE 0, r |-> Append(x.r, t % Base)]
  IN BNorm(FoldSeqLeft(F, [c |-> 0, r |-> <<>>], Upto(Len(a))).r)
\* a * k + c for a small k and c
BMulS(a, k, c) ==
  LET F(x, i) == LET t == a[i] * k + x.c IN [c |-> t \div Base, r |-> Append(x.r, t % Base)]
      z == FoldSeqLeft(F, [c |-> c, r |-> <<>>], Upto(Len(a)))
  IN BNorm(IF z.c = 0 THEN z.r ELSE Append(z.r, z.c))
\* [q, r] of a division by a small k
BDivS(a, k) ==
  LET n == Len(a)
      F(x, i) == LET t == x.r * Base + a[n + 1 - i] IN [q |-> <<t \div k>> \o x.q, r |-> t % k]
      z == FoldSeqLeft(F, [q |-> <<>>, r |-> 0], Upto(n))
  IN [q |-> BNorm(z.q), r |-> z.r]
Zeros(n) == TLCEval([i \in 1..n |-> 0])
BMul(a, b) ==
  LET F(x, i) == IF b[i] = 0 THEN x ELSE BAdd(x, Zeros(i - 1) \o BMulS(a, b[i], 0))
  IN IF a = <<>> THEN <<>> ELSE FoldSeqLeft(F, <<>>, Upto(Len(b)))
BShl(a, k) == IF a = <<>> THEN a ELSE Zeros(k \div 15) \o (IF k % 15 = 0 THEN a ELSE BMulS(a, P2[k % 15], 0))
BShr(a, k) == LET d == SubSeq(a, k \div 15 + 1, Len(a)) IN IF k = 0 THEN a ELSE IF k % 15 = 0 THEN d ELSE BDivS(d, P2[k % 15]).q
RECURSIVE Bits1(_)
Bits1(n) == IF n = 0 THEN 0 ELSE 1 + Bits1(n \div 2)
BLen(a) == IF a = <<>> THEN 0 ELSE 15 * (Len(a) - 1) + Bits1(a[Len(a)])     \* number of bits
RECURSIVE LowBits(_)
LowBits(n) == IF n % 2 = 1 THEN 0 ELSE 1 + LowBits(n \div 2)
RECURSIVE BLow(_, _)
BLow(a, i) == IF a[i] # 0 THEN 15 * (i - 1) + LowBits(a[i]) ELSE BLow(a, i + 1)   \* zero bits at the low end
BOdd(a) == a # <<>> /\ a[1] % 2 = 1
BToInt(a) == BGet(a, 1) + Base * BGet(a, 2) + (IF BGet(a, 3) = 0 THEN 0 ELSE 1073741824 * a[3])   \* below 2^31
RECURSIVE BPow10(_)
BPow10(n) == IF n = 0 THEN <<1>> ELSE IF n < 4 THEN BMulS(BPow10(n - 1), 10, 0) ELSE BMulS(BPow10(n - 4), 10000, 0)
\* from and to decimal digits
RECURSIVE BOfDec(_)
BOfDec(t) == IF t = "" THEN <<>>
             ELSE LET n == Len(t) k == IF n % 4 = 0 THEN 4 ELSE n % 4
                      c == NatOf(SubSeq(t, n - k + 1, n))
                  IN IF n <= 4 THEN BOf(NatOf(t))
                     ELSE BMulS(BOfDec(SubSeq(t, 1, n - k)), IF k = 4 THEN 10000 ELSE IF k = 3 THEN 1000 ELSE IF k = 2 THEN 100 ELSE 10, c)
FourDigits(n) == LET s == ToString(n) IN SubSeq("0000", 1, 4 - Len(s)) \o s
RECURSIVE BToDec(_)
BToDec(a) == IF Len(a) < 2 THEN ToString(BGet(a, 1)) ELSE LET d == BDivS(a, 10000) IN BToDec(d.q) \o FourDigits(d.r)
\* [q, r] of a division: limb by limb from the top, each digit of the quotient estimated by the top limbs
\* (the divisor is shifted until its top bit is set, so the estimate is too large by two at most)
RECURSIVE BFit(_, _, _)
BFit(r, b, d) == LET t == BMulS(b, d, 0) IN IF BCmp(t, r) > 0 THEN BFit(r, b, d - 1) ELSE [d |-> d, r |-> BSub(r, t)]
BDivN(a, b) ==
  LET n == Len(b) k == Len(a)
      F(x, i) == LET r == BNorm(<<a[k + 1 - i]>> \o x.r)
                     top == IF Len(r) > n THEN r[n + 1] * Base + r[n] ELSE r[n]
                     z == BFit(r, b, Min2(top \div b[n], Base - 1))
                 IN IF BCmp(r, b) < 0 THEN [q |-> <<0>> \o x.q, r |-> r] ELSE [q |-> <<z.d>> \o x.q, r |-> z.r]
  IN FoldSeqLeft(F, [q |-> <<>>, r |-> <<>>], Upto(k))
BDiv(a, b) == LET s == 15 - Bits1(b[Len(b)]) z == BDivN(BShl(a, s), BShl(b, s)) IN [q |-> BNorm(z.q), r |-> BShr(z.r, s)]
\* a / b = q * 2^x, with at least n bits in q and "rest" if something remains
BQuot(a, b, n) ==
  LET s == Max2(0, BLen(b) + n - BLen(a)) z == BDiv(BShl(a, s), b)
  IN [q |-> z.q, rest |-> z.r # <<>>, x |-> -s]
BBit(a, i) == (BGet(a, i \div 15 + 1) \div P2[i % 15]) % 2       \* bit i, the lowest is 0
BMod(a, b) == BDiv(a, b).r
\* integer square root, and whether there is a rest (Newton)
RECURSIVE BNewton(_, _)
BNewton(a, x) == LET y == BDivS(BAdd(x, BDiv(a, x).q), 2).q IN IF BCmp(y, x) >= 0 THEN x ELSE BNewton(a, y)
BRoot(a) == LET q == BNewton(a, BShl(<<1>>, (BLen(a) + 1) \div 2)) IN [q |-> q, rest |-> BMul(q, q) # a]

\* ---------------------------------------------------------------- floats
FNum(s, m, e) == [c |-> "num", s |-> s, m |-> m, e |-> e]
FInf(s) == [c |-> "inf", s |-> s, m |-> <<>>, e |-> 0]
FNan == [c |-> "nan", s |-> 0, m |-> <<>>, e |-> 0]
FZero(s) == FNum(s, <<>>, 0)
FExact(s, m, e) == IF m = <<>> THEN FZero(s) ELSE LET k == BLow(m, 1) IN FNum(s, BShr(m, k), e + k)
\* the float nearest to m * 2^e, where "rest" says that the number is a little larger than that
\* (then m has at least 55 bits)
FRound(s, m, e, rest) ==
  IF m = <<>> THEN FZero(s)
  ELSE LET cut == Max2(0, Max2(BLen(m) - 53, (-1074) - e))
           q == BShr(m, cut)
           half == cut > 0 /\ BBit(m, cut - 1) = 1
           more == rest \/ (half /\ BLow(m, 1) < cut - 1)
           r == IF half /\ (more \/ BOdd(q)) THEN BAdd(q, <<1>>) ELSE q
       IN IF r # <<>> /\ BLen(r) + e + cut > 1024 THEN FInf(s) ELSE FExact(s, r, e + cut)
FOfInt(n) == FExact(IF n < 0 THEN 1 ELSE 0, BOf(Abs(n)), 0)
FNeg(x) == [x EXCEPT !.s = 1 - @]
FIsZero(x) == x.c = "num" /\ x.m = <<>>

\* -1, 0, 1
FCmp(x, y) ==
  LET Mag(a, b) ==                                  \* of numbers of one sign
        IF a.c = "inf" \/ b.c = "inf" THEN IF a.c = b.c THEN 0 ELSE IF a.c = "inf" THEN 1 ELSE -1
        ELSE LET la == BLen(a.m) + a.e lb == BLen(b.m) + b.e IN IF a.m = <<>> \/ b.m = <<>> THEN IF a.m = b.m THEN 0 ELSE IF a.m = <<>> THEN -1 ELSE 1
             ELSE IF la # lb THEN IF la < lb THEN -1 ELSE 1
             ELSE LET e == Min2(a.e, b.e) c == BCmp(BShl(a.m, a.e - e), BShl(b.m, b.e - e)) IN IF c < 0 THEN -1 ELSE IF c > 0 THEN 1 ELSE 0
  IN IF FIsZero(x) /\ FIsZero(y) THEN 0
     ELSE IF FIsZero(x) THEN IF y.s = 1 THEN 1 ELSE -1
     ELSE IF FIsZero(y) THEN IF x.s = 1 THEN -1 ELSE 1
     ELSE IF x.s # y.s THEN IF x.s = 1 THEN -1 ELSE 1
     ELSE IF x.s = 0 THEN Mag(x, y) ELSE Mag(y, x)
FAdd(x, y) ==
  IF x.c = "nan" \/ y.c = "nan" THEN FNan
  ELSE IF x.c = "inf" THEN IF y.c = "inf" /\ y.s # x.s THEN FNan ELSE x
  ELSE IF y.c = "inf" THEN y
  ELSE IF FIsZero(x) /\ FIsZero(y) THEN FZero(Min2(x.s, y.s))
  ELSE IF FIsZero(x) THEN y ELSE IF FIsZero(y) THEN x
  ELSE LET e == Min2(x.e, y.e) a == BShl(x.m, x.e - e) b == BShl(y.m, y.e - e) c == BCmp(a, b)
       IN IF x.s = y.s THEN FRound(x.s, BAdd(a, b), e, FALSE)
          ELSE IF c = 0 THEN FZero(0) ELSE IF c > 0 THEN FRound(x.s, BSub(a, b), e, FALSE) ELSE FRound(y.s, BSub(b, a), e, FALSE)
FSub(x, y) == IF y.c = "nan" THEN FNan ELSE FAdd(x, FNeg(y))
FMul(x, y) ==
  LET s == (x.s + y.s) % 2
  IN IF x.c = "nan" \/ y.c = "nan" THEN FNan
     ELSE IF x.c = "inf" \/ y.c = "inf" THEN IF FIsZero(x) \/ FIsZero(y) THEN FNan ELSE FInf(s)
     ELSE FRound(s, BMul(x.m, y.m), x.e + y.e, FALSE)
FDiv(x, y) ==
  LET s == (x.s + y.s) % 2
  IN IF x.c = "nan" \/ y.c = "nan" THEN FNan
     ELSE IF x.c = "inf" THEN IF y.c = "inf" THEN FNan ELSE FInf(s)
     ELSE IF y.c = "inf" THEN FZero(s)
     ELSE IF FIsZero(y) THEN IF FIsZero(x) THEN FNan ELSE FInf(s)
     ELSE IF FIsZero(x) THEN FZero(s)
     ELSE LET z == BQuot(x.m, y.m, 58) IN FRound(s, z.q, x.e - y.e + z.x, z.rest)
FMod(x, y) ==                                      \* remainder of the division rounded to zero
  IF x.c # "num" \/ y.c = "nan" \/ FIsZero(y) THEN FNan
  ELSE IF y.c = "inf" \/ FIsZero(x) THEN x
  ELSE LET e == Min2(x.e, y.e) IN FExact(x.s, BMod(BShl(x.m, x.e - e), BShl(y.m, y.e - e)), e)
FSqrt(x) ==
  IF x.c = "nan" \/ FIsZero(x) THEN x ELSE IF x.s = 1 THEN FNan ELSE IF x.c = "inf" THEN x
  ELSE LET k == 120 + (x.e % 2) z == BRoot(BShl(x.m, k)) IN FRound(0, z.q, (x.e - k) \div 2, z.rest)
FTrunc(x) == IF x.c # "num" \/ x.e >= 0 THEN x ELSE FExact(x.s, BShr(x.m, -x.e), 0)
FIsWhole(x) == x.e >= 0
FAway(x) == FExact(x.s, BAdd(BShr(x.m, -x.e), <<1>>), 0)      \* next whole number away from zero, of a number with a fraction
FFloor(x) == IF x.c # "num" \/ FIsWhole(x) THEN x ELSE IF x.s = 0 THEN FTrunc(x) ELSE FAway(x)
FCeil(x) == IF x.c # "num" \/ FIsWhole(x) THEN x ELSE IF x.s = 1 THEN FTrunc(x) ELSE FAway(x)
FNearest(x) == IF x.c # "num" \/ FIsWhole(x) THEN x ELSE IF BBit(x.m, (-x.e) - 1) = 1 THEN FAway(x) ELSE FTrunc(x)   \* half away from zero
\* fits into 31 bits after truncation?
FIntFits(x) == x.c = "num" /\ (x.m = <<>> \/ BLen(x.m) + x.e <= 31)
FToInt(x) == LET t == IF x.e >= 0 THEN BShl(x.m, x.e) ELSE BShr(x.m, -x.e) IN IF x.s = 1 THEN -BToInt(t) ELSE BToInt(t)

\* ------------------------------------------------------------------ texts
\* digits * 10^p
FOfDec(s, ds, p) ==
  LET d == StripZeros(ds) m == BOfDec(IF d = "0" THEN "" ELSE d)
  IN IF m = <<>> THEN FZero(s)
     ELSE IF p >= 0 THEN FRound(s, BMul(m, BPow10(p)), 0, FALSE)
     ELSE LET z == BQuot(m, BPow10(-p), 58) IN FRound(s, z.q, z.x, z.rest)
HexVal == TLCEval([c \in HexDigits |-> IF c \in Digits THEN DigitVal[c] ELSE 10 + (CHOOSE i \in 0..5 : c \in {SubSeq("abcdef", i + 1, i + 1), SubSeq("ABCDEF", i + 1, i + 1)})])
RECURSIVE BOfHex(_)
BOfHex(t) == IF t = "" THEN <<>> ELSE BMulS(BOfHex(SubSeq(t, 1, Len(t) - 1)), 16, HexVal[Ch(t, Len(t))])
\* the float denoted by the number at the start of t (no white space before it); r == ScanDouble(t)
FOfText(t, r) ==
  LET s == IF SignOf(t) < 0 THEN 1 ELSE 0
  IN CASE r.kind \in {"dec", "exp"} -> FOfDec(s, r.ip \o r.fp, ExpVal(r) - Len(r.fp))
       [] r.kind = "hex" -> FRound(s, BOfHex(r.ip \o r.fp), ExpVal(r) - 4 * Len(r.fp), FALSE)
       [] r.kind = "name" -> IF ToLower(Ch(Unsigned(t), 1)) = "i" THEN FInf(s) ELSE FNan
       [] OTHER -> FZero(0)
\* six decimals, rounded from the exact value
FText(x) ==
  LET sg == IF x.s = 1 THEN "-" ELSE ""
      n == BMulS(BMulS(x.m, 1000, 0), 1000, 0)
      k == -x.e
      q == BShr(n, k)
      half == BBit(n, k - 1) = 1
      up == half /\ (BLow(n, 1) < k - 1 \/ BOdd(q))
      d == BToDec(IF up THEN BAdd(q, <<1>>) ELSE q)
      w == SubSeq("0000000", 1, Max2(0, 7 - Len(d))) \o d
  IN CASE x.c = "inf" -> sg \o "inf" [] x.c = "nan" -> sg \o "nan"
       [] x.m = <<>> -> sg \o "0.000000"
       [] x.e >= 0 -> sg \o BToDec(BShl(x.m, x.e)) \o ".000000"
       [] OTHER -> sg \o SubSeq(w, 1, Len(w) - 6) \o "." \o SubSeq(w, Len(w) - 5, Len(w))
=============================================================================
