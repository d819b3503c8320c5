----------------------------- MODULE FuelChars -----------------------------
(* Characters and texts.  TLC represents texts as strings; SubSeq, Len and  *)
(* \o work on them.  Everything the specification needs to know about       *)
(* characters (order, classes, case) is defined here once.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, FuelFold

Ch(s, i) == SubSeq(s, i, i)                    \* i-th character, 1-based

\* all supported characters in their (ASCII) order
ASCII == "\t\n\f\r !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharSet == TLCEval({Ch(ASCII, i) : i \in 1..Len(ASCII)})
Ord == TLCEval([c \in CharSet |-> CHOOSE i \in 1..Len(ASCII) : Ch(ASCII, i) = c])
IsText(s) == \A i \in 1..Len(s) : Ch(s, i) \in CharSet

WhiteSpace == {" ", "\t", "\n", "\r", "\f"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == TLCEval([d \in Digits |-> Ord[d] - Ord["0"]])
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpOf == TLCEval([c \in CharSet |-> IF \E i \in 1..26 : Ch(Lower, i) = c THEN Ch(Upper, CHOOSE i \in 1..26 : Ch(Lower, i) = c) ELSE c])
LoOf == TLCEval([c \in CharSet |-> IF \E i \in 1..26 : Ch(Upper, i) = c THEN Ch(Lower, CHOOSE i \in 1..26 : Ch(Upper, i) = c) ELSE c])

RECURSIVE MapText(_, _)
MapText(f, s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in CharSet THEN f[Ch(s, 1)] ELSE Ch(s, 1)) \o MapText(f, SubSeq(s, 2, Len(s)))
ToUpper(s) == MapText(UpOf, s)
ToLower(s) == MapText(LoOf, s)

RECURSIVE StripL(_)
StripL(s) == IF s # "" /\ Ch(s, 1) \in WhiteSpace THEN StripL(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE StripR(_)
StripR(s) == IF s # "" /\ Ch(s, Len(s)) \in WhiteSpace THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == StripR(StripL(s))

RECURSIVE Reversed(_)
Reversed(s) == IF s = "" THEN "" ELSE Reversed(SubSeq(s, 2, Len(s))) \o Ch(s, 1)

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

\* 0-based position of the first occurrence of p in s at or after position "from", -1 if there is none
RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, from) ==
  IF from + Len(p) > Len(s) THEN -1
  ELSE IF SubSeq(s, from + 1, from + Len(p)) = p THEN from
  ELSE FindFrom(s, p, from + 1)

RECURSIVE ReplaceAll(_, _, _)
ReplaceAll(s, p, r) ==
  LET i == FindFrom(s, p, 0)
  IN IF p = "" \/ i < 0 THEN s
     ELSE SubSeq(s, 1, i) \o r \o ReplaceAll(SubSeq(s, i + Len(p) + 1, Len(s)), p, r)

\* ordinal comparison: -1, 0, 1
RECURSIVE CmpText(_, _)
CmpText(a, b) ==
  IF a = b THEN 0
  ELSE IF a = "" THEN -1
  ELSE IF b = "" THEN 1
  ELSE LET x == Ord[Ch(a, 1)] y == Ord[Ch(b, 1)]
       IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE CmpText(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))

RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN " " ELSE Spaces(n \div 2) \o Spaces(n - n \div 2)
PadL(s, w) == Spaces(w - Len(s)) \o s          \* right aligned in width w
PadR(s, w) == s \o Spaces(w - Len(s))          \* left aligned in width w

\* index sequence of the keys of a set of texts in ordinal order
RECURSIVE SortTexts(_)
SortTexts(S) ==
  IF S = {} THEN <<>>
  ELSE LET x == CHOOSE a \in S : \A b \in S : a = b \/ CmpText(a, b) < 0
       IN <<x>> \o SortTexts(S \ {x})

RECURSIVE Join(_, _)
Join(seq, sep) == IF seq = <<>> THEN "" ELSE IF Len(seq) = 1 THEN seq[1] ELSE seq[1] \o sep \o Join(Tail(seq), sep)

RECURSIVE Lines(_)                             \* split at newlines
Lines(s) == LET i == FindFrom(s, "\n", 0)
            IN IF i < 0 THEN <<s>> ELSE <<SubSeq(s, 1, i)>> \o Lines(SubSeq(s, i + 2, Len(s)))

\* n div/mod d truncated towards zero (C++)
Abs(n) == IF n < 0 THEN -n ELSE n
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
TMod(a, b) == a - b * TDiv(a, b)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* ------------------------------------------------------------ number texts
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in Digits
SignOf(s) == IF s # "" /\ Ch(s, 1) = "-" THEN -1 ELSE 1
Unsigned(s) == IF s # "" /\ Ch(s, 1) \in {"-", "+"} THEN SubSeq(s, 2, Len(s)) ELSE s
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZeros(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE NatOf(_)                             \* only for at most nine digits
NatOf(s) == IF s = "" THEN 0 ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + DigitVal[Ch(s, Len(s))]

\* longest prefix of digits
RECURSIVE DigitPrefix(_)
DigitPrefix(s) == IF s # "" /\ Ch(s, 1) \in Digits THEN Ch(s, 1) \o DigitPrefix(SubSeq(s, 2, Len(s))) ELSE ""

\* does the whole text denote an integer that fits into 32 bits (with leading white space and sign)?
IntDigits(s) == StripZeros(Unsigned(StripL(s)))
IsIntText(s) ==
  LET u == Unsigned(StripL(s)) d == IntDigits(s)
  IN /\ AllDigits(u)
     /\ \/ Len(d) < 10
        \/ Len(d) = 10 /\ CmpText(d, IF SignOf(StripL(s)) < 0 THEN "2147483648" ELSE "2147483647") <= 0
IsBigInt(s) == Len(IntDigits(s)) > 9           \* outside of what the specification computes with
IntOfText(s) == SignOf(StripL(s)) * NatOf(IntDigits(s))
CanonInt(s) == IF SignOf(StripL(s)) < 0 /\ IntDigits(s) # "0" THEN "-" \o IntDigits(s) ELSE IntDigits(s)

\* does a prefix of the text denote a floating point number (strtod)?  Result: length of the prefix
\* after the white space (0: none) and kind: "dec" d.d, "exp", "hex", "name"
HexDigits == Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
RECURSIVE HexPrefix(_)
HexPrefix(s) == IF s # "" /\ Ch(s, 1) \in HexDigits THEN Ch(s, 1) \o HexPrefix(SubSeq(s, 2, Len(s))) ELSE ""
Drop(s, n) == SubSeq(s, n + 1, Len(s))
ExpLen(s, marks) ==                            \* length of an exponent at the start of s, 0 if there is none
  IF s = "" \/ Ch(s, 1) \notin marks THEN 0
  ELSE LET r == Drop(s, 1)
           sg == IF r # "" /\ Ch(r, 1) \in {"+", "-"} THEN 1 ELSE 0
           d == DigitPrefix(Drop(r, sg))
       IN IF d = "" THEN 0 ELSE 1 + sg + Len(d)
NoNum == [len |-> 0, kind |-> "none", ip |-> "", fp |-> "", x |-> ""]
ScanUnsignedDouble(s) ==
  LET lo == ToLower(s)
      ip == DigitPrefix(s)
      r1 == Drop(s, Len(ip))
      dot == r1 # "" /\ Ch(r1, 1) = "."
      fp == IF dot THEN DigitPrefix(Drop(r1, 1)) ELSE ""
      base == Len(ip) + (IF dot THEN 1 + Len(fp) ELSE 0)
      x == ExpLen(Drop(s, base), {"e", "E"})
      hp == HexPrefix(Drop(s, 2))
      hr == Drop(s, 2 + Len(hp))
      hdot == hr # "" /\ Ch(hr, 1) = "."
      hf == IF hdot THEN HexPrefix(Drop(hr, 1)) ELSE ""
      hbase == 2 + Len(hp) + (IF hdot THEN 1 + Len(hf) ELSE 0)
      hx == ExpLen(Drop(s, hbase), {"p", "P"})
      Name(n) == [NoNum EXCEPT !.len = n, !.kind = "name"]
  IN IF StartsWith(lo, "infinity") THEN Name(8)
     ELSE IF StartsWith(lo, "inf") \/ StartsWith(lo, "nan") THEN Name(3)
     ELSE IF StartsWith(lo, "0x") /\ Len(hp) + Len(hf) > 0
          THEN [NoNum EXCEPT !.len = hbase + hx, !.kind = "hex", !.ip = hp, !.fp = hf, !.x = SubSeq(s, hbase + 2, hbase + hx)]
     ELSE IF Len(ip) + Len(fp) = 0 THEN NoNum
     ELSE [len |-> base + x, kind |-> IF x > 0 THEN "exp" ELSE "dec", ip |-> ip, fp |-> fp, x |-> SubSeq(s, base + 2, base + x)]
ScanDouble(t) ==                               \* t without leading white space
  LET u == Unsigned(t) r == ScanUnsignedDouble(u)
  IN IF r.len = 0 THEN NoNum ELSE [r EXCEPT !.len = r.len + (Len(t) - Len(u))]
\* decimal exponent (for exponents of at most four digits)
ExpVal(r) == IF r.x = "" THEN 0 ELSE SignOf(r.x) * NatOf(Unsigned(r.x))
RECURSIVE LeadZeros(_)
LeadZeros(s) == IF s # "" /\ Ch(s, 1) = "0" THEN 1 + LeadZeros(Drop(s, 1)) ELSE 0
\* is the number inside of the range of a float?  "in", "out" or "?" (at the border)
DoubleRange(r) ==
  LET d == r.ip \o r.fp z == LeadZeros(d) mag == Len(r.ip) - z - 1 + ExpVal(r)
  IN IF r.kind = "name" THEN "in"
     ELSE IF Len(Unsigned(r.x)) > 4 THEN "?"
     ELSE IF r.kind = "hex" THEN IF Len(r.ip \o r.fp) < 40 /\ Abs(ExpVal(r)) < 800 THEN "in" ELSE "?"
     ELSE IF z = Len(d) THEN "in"
     ELSE IF mag \in -307..307 THEN "in" ELSE IF mag \in -309..309 THEN "?" ELSE "out"
IsDoubleText(s) == LET t == StripL(s) r == ScanDouble(t) IN r.len > 0 /\ r.len = Len(t) /\ DoubleRange(r) # "out"

\* values of floats are kept as multiples of 1/64, the only ones the specification computes with
FracVal(fp) ==                                 \* 64ths of 0.fp, -1 if this is no multiple of 1/64
  LET d == IF Len(fp) > 6 THEN fp ELSE fp \o SubSeq("000000", 1, 6 - Len(fp))
      n == NatOf(SubSeq(d, 1, 6))
  IN IF (\E i \in 7..Len(d) : Ch(d, i) # "0") \/ n % 15625 # 0 THEN -1 ELSE n \div 15625
\* [ok, v]: value of the longest prefix that denotes a number; ok only if the specification can represent it
DoubleOf(s) ==
  LET t == StripL(s) r == ScanDouble(t) ip == StripZeros(r.ip) f == FracVal(r.fp)
      v == (IF ip = "" THEN 0 ELSE NatOf(SubSeq(ip, 1, Min2(Len(ip), 6)))) * 64 + f
  IN IF r.kind # "dec" \/ Len(ip) > 6 \/ f < 0 \/ (v = 0 /\ SignOf(t) < 0) THEN [ok |-> FALSE, v |-> 0]
     ELSE [ok |-> TRUE, v |-> SignOf(t) * v]
SixDigits(n) == LET s == ToString(n) IN SubSeq("000000", 1, 6 - Len(s)) \o s
\* the text ("%f") of the float a text denotes, "" if it needs rounding or more digits than a float keeps
RECURSIVE TrimZeros(_)
TrimZeros(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN TrimZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
FixedText(s) ==
  LET t == StripL(s) r == ScanDouble(t)
      e == IF r.kind = "exp" /\ Len(Unsigned(r.x)) < 3 THEN ExpVal(r) ELSE IF r.kind = "dec" THEN 0 ELSE 99
      \* shift the decimal point by e digits
      ds == r.ip \o r.fp
      zeros == "00000000000"
      pt == Len(r.ip) + e
      ip0 == IF pt <= 0 THEN "" ELSE IF pt <= Len(ds) THEN SubSeq(ds, 1, pt) ELSE ds \o SubSeq(zeros, 1, pt - Len(ds))
      fp0 == IF pt <= 0 THEN SubSeq(zeros, 1, -pt) \o ds ELSE SubSeq(ds, pt + 1, Len(ds))
      ip == IF ip0 = "" THEN "0" ELSE StripZeros(ip0)
      fp == TrimZeros(fp0)
      sg == IF SignOf(t) < 0 THEN "-" ELSE ""
  IN IF r.kind \notin {"dec", "exp"} \/ Abs(e) > 9 \/ Len(ip) > (IF fp = "" THEN 15 ELSE 9) \/ Len(fp) > 6 THEN ""   \* what a double holds exactly
     ELSE sg \o ip \o "." \o fp \o SubSeq("000000", 1, 6 - Len(fp))
DoubleText(v) == (IF v < 0 THEN "-" ELSE "") \o ToString(Abs(v) \div 64) \o "." \o SixDigits((Abs(v) % 64) * 15625)
=============================================================================
