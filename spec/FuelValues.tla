----------------------------- MODULE FuelValues -----------------------------
(* Values of the language and the operations on them.                        *)
(*                                                                           *)
(* A node is a record [t, v, k, q]: kind, value, source token, unquote mark. *)
(* Kinds: und nil bool int dbl flt opq str sym list raw bfun cfun nat lv err null*)
(*   list v = cell number: a list value;  raw v = cell number: code          *)
(*   dbl v = a float as 64ths, if it can be one;  flt v = another float (as   *)
(*   FuelFloat has it);  opq v = text of a float known to six digits only;   *)
(*    und/nil v = 0/1: two representations that differ only in *)
(*   their text in concatenations;  lv = a place for setf;  null = no value  *)
(* A machine m holds the heap: m.H cells (sequences of nodes), m.C closures, *)
(* m.D dictionaries (sequences of <<key, value>> in key order).              *)
EXTENDS FuelBuiltins, FuelParse, FuelMath

N(t, v) == [t |-> t, v |-> v, k |-> NoTok, q |-> 0]
Und == N("und", 0)
Und1 == N("und", 1)
Nil == N("nil", 0)
Null == N("null", 0)
Bool(b) == N("bool", b)
IntN(i) == N("int", i)
Dbl(x) == N("dbl", x)
Opq(x) == N("opq", x)
Flt(x) == N("flt", x)
StrN(x) == N("str", x)
Sym(x) == N("sym", x)
ListN(c) == N("list", c)
Raw(c) == N("raw", c)
IsList(n) == n.t \in {"list", "nil"}              \* of a value
IsDbl(n) == n.t \in {"dbl", "flt", "opq"}
IsNum(n) == n.t \in {"int", "dbl", "flt", "opq"}
IsFun(n) == n.t \in {"bfun", "cfun"}
AsVar(n) == IF n.t = "raw" THEN Nil ELSE n         \* code where a value is expected
VarOf(n) == IF n.t = "raw" THEN ListN(n.v) ELSE n  \* code as a list value
ToV(n) == IF n.t = "null" THEN Und ELSE n
Kids(m, n) == IF n.t \in {"list", "raw"} THEN m.H[n.v] ELSE <<>>

\* results of operations: value, error at the operand's token, error at the
\* current scope, plain error, outside of the specified domain
Ok(v) == [s |-> "ok", v |-> v, msg |-> "", tok |-> NoTok]
Er(msg, tok) == [s |-> "er", v |-> Und, msg |-> msg, tok |-> tok]
Sc(msg) == [s |-> "sc", v |-> Und, msg |-> msg, tok |-> NoTok]
Bs(msg) == [s |-> "bs", v |-> Und, msg |-> msg, tok |-> NoTok]
Un(why) == [s |-> "un", v |-> Und, msg |-> why, tok |-> NoTok]

TypeNum == [und |-> 0, nil |-> 1, bool |-> 2, int |-> 3, dbl |-> 4, flt |-> 4, opq |-> 4, str |-> 5, list |-> 6, bfun |-> 7, cfun |-> 7, sym |-> 8, nat |-> 9, lv |-> 11, err |-> 999]
TypeName == [und |-> "Undefined", nil |-> "Nil", bool |-> "Bool", int |-> "Int", dbl |-> "Double", flt |-> "Double", opq |-> "Double", str |-> "String", list |-> "List",
             bfun |-> "Function", cfun |-> "Function", sym |-> "Symbol", nat |-> "NativeDictionary", lv |-> "unknown_type", err |-> "Error"]

DblText(n) == IF n.t = "opq" THEN n.v ELSE IF n.t = "flt" THEN FText(n.v) ELSE DoubleText(n.v)
SigOf(m, n) == IF n.t = "bfun" THEN BI[n.v].sig ELSE m.C[n.v].sig
IsSpecial(m, n) == n.t = "bfun" /\ BI[n.v].sp

\* ------------------------------------------------------------ readable text
RECURSIVE Str(_, _), Dbg(_, _), Inside(_, _), ElemText(_, _), DictText(_, _), RawText(_, _)
Str(m, n) ==
  CASE n.t \in {"sym", "str", "opq"} -> n.v
    [] n.t = "int" -> ToString(n.v)
    [] n.t \in {"dbl", "flt"} -> DblText(n)
    [] n.t = "bool" -> IF n.v THEN "#t" ELSE "#f"
    [] n.t = "nil" -> "NIL"
    [] n.t = "list" -> Inside(m, m.H[n.v])
    [] n.t = "raw" -> RawText(m, m.H[n.v])
    [] IsFun(n) -> "function " \o SigOf(m, n)
    [] n.t = "nat" -> DictText(m, m.D[n.v])
    [] n.t \in {"und", "null"} -> "<undefined>"
    [] n.t = "err" -> "Error: " \o n.v
    [] OTHER -> "?"
Dbg(m, n) == IF n.t = "str" THEN "\"" \o n.v \o "\"" ELSE Str(m, n)
ElemText(m, n) == IF n.t = "raw" THEN Inside(m, m.H[n.v]) ELSE Dbg(m, n)
\* elements joined; there is no separator as long as the text is empty
RECURSIVE JoinNonEmpty(_, _)
JoinNonEmpty(acc, ts) == IF ts = <<>> THEN acc ELSE JoinNonEmpty(IF acc = "" THEN ts[1] ELSE acc \o " " \o ts[1], Tail(ts))
Inside(m, s) == "(" \o JoinNonEmpty("", [i \in DOMAIN s |-> ElemText(m, s[i])]) \o ")"
RawText(m, s) == "(" \o JoinNonEmpty("", [i \in DOMAIN s |-> Str(m, s[i])]) \o ")"
DictText(m, d) == "{ " \o Join([i \in DOMAIN d |-> "[" \o Dbg(m, d[i][1]) \o " : " \o Dbg(m, d[i][2]) \o "]"], ", ") \o " }"

\* text of the value itself (concatenation, error messages)
SV(m, n) ==
  CASE n.t \in {"sym", "str", "opq", "err"} -> n.v
    [] n.t = "int" -> ToString(n.v)
    [] n.t \in {"dbl", "flt"} -> DblText(n)
    [] n.t = "bool" -> IF n.v THEN "true" ELSE "false"
    [] n.t = "nil" -> IF n.v = 0 THEN "null" ELSE "0"
    [] n.t = "und" -> IF n.v = 0 THEN "null" ELSE "Undefined"
    [] n.t \in {"list", "raw"} -> RawText(m, m.H[n.v])
    [] IsFun(n) -> "LispFunctionWrapper"
    [] n.t = "nat" -> "Dictionary"
    [] OTHER -> "<unknown>"

\* ------------------------------------------------------------------- casts
MaxInt == 2147483647
AddFits(a, b) == IF b >= 0 THEN a <= MaxInt - b ELSE a >= (-MaxInt) - b
MulFits(a, b) == a = 0 \/ b = 0 \/ Abs(b) <= MaxInt \div Abs(a)
Big == Un("number outside of the specified range")
MkInt(i) == Ok(IntN(i))
MkDbl(v) == Ok(Dbl(v))
\* a float node; those that are small multiples of 1/64 are always kept as such
FSmall(x) == x.c = "num" /\ (IF x.m = <<>> THEN x.s = 0 ELSE x.e >= -6 /\ BLen(x.m) + x.e <= 25)
FltN(x) == IF FSmall(x) THEN Dbl((IF x.s = 1 THEN -1 ELSE 1) * (IF x.m = <<>> THEN 0 ELSE P2[x.e + 6] * BToInt(x.m))) ELSE Flt(x)
MkF(x) == IF x.c = "nan" THEN Un("not a number") ELSE Ok(FltN(x))
FOf(n) == IF n.t = "flt" THEN n.v ELSE IF n.t = "int" THEN FOfInt(n.v) ELSE FExact(IF n.v < 0 THEN 1 ELSE 0, BOf(Abs(n.v)), -6)
\* differences up to here make no difference in == and are false as a condition
Tolerance == [c |-> "num", s |-> 0, m |-> <<17949, 25136, 29469, 85>>, e |-> -78]                 \* 1e-8

BadCast(m, n, name, msg) == Er("Invalid cast for " \o name \o ", value=" \o SV(m, n) \o " " \o msg, n.k)
CanNot(m, n, name) == BadCast(m, n, name, "can not convert " \o TypeName[n.t] \o " to " \o name)
NoOp(op, l, r) == Er("no " \o op \o " operator for types " \o TypeName[l.t] \o " and " \o TypeName[r.t], l.k)

\* numbers of a cast are carried in v of an int/dbl node
Atoi(s) == LET t == StripL(s) d == StripZeros(DigitPrefix(Unsigned(t)))
           IN IF Len(d) > 9 THEN Big ELSE MkInt(IF d = "" THEN 0 ELSE SignOf(t) * NatOf(d))
Atof(s) == LET r == ScanDouble(StripL(s)) d == DoubleOf(s)
           IN IF r.len = 0 THEN MkDbl(0) ELSE IF d.ok THEN MkDbl(d.v) ELSE IF DoubleRange(r) = "in" THEN MkF(FOfText(StripL(s), r)) ELSE Un("float")
\* whole part of a float given by its text; unclear if it may have been rounded to a whole number
IntOfDec(t) == LET d == Unsigned(t) dot == FindFrom(d, ".", 1)
               IN IF dot < 1 \/ dot > 9 \/ SubSeq(d, dot + 1, Len(d)) = ".000000" THEN Un("float") ELSE MkInt(SignOf(t) * NatOf(StripZeros(SubSeq(d, 1, dot))))
ToBoolR(m, n) == CASE n.t = "bool" -> Ok(n) [] n.t \in {"int", "dbl"} -> Ok(Bool(n.v # 0)) [] n.t = "flt" -> Ok(Bool(FCmp([n.v EXCEPT !.s = 0], Tolerance) > 0))
                   [] n.t = "opq" -> Un("float") [] OTHER -> CanNot(m, n, "bool")
ToIntR(m, n) == CASE n.t = "bool" -> MkInt(IF n.v THEN 1 ELSE 0) [] n.t = "int" -> MkInt(n.v) [] n.t = "dbl" -> MkInt(TDiv(n.v, 64))
                  [] n.t = "flt" -> IF FIntFits(n.v) THEN MkInt(FToInt(n.v)) ELSE Un("number outside of the specified range")
                  [] n.t = "opq" -> IntOfDec(n.v) [] n.t = "str" -> Atoi(n.v) [] OTHER -> CanNot(m, n, "int")
ToDblR(m, n) == CASE n.t = "bool" -> MkDbl(IF n.v THEN 64 ELSE 0) [] n.t = "int" -> IF Abs(n.v) < 16777216 THEN MkDbl(n.v * 64) ELSE MkF(FOfInt(n.v))
                  [] n.t \in {"dbl", "flt"} -> Ok(n) [] n.t = "opq" -> Un("float") [] n.t = "str" -> Atof(n.v) [] OTHER -> CanNot(m, n, "double")
BoolR(m, n) == IF n.t = "bool" THEN Ok(n) ELSE BadCast(m, n, "bool", "no")
IntR(m, n) == IF n.t = "int" THEN Ok(n) ELSE BadCast(m, n, "int", "no")
ListR(m, n) == IF IsList(n) THEN Ok(n) ELSE BadCast(m, n, "list", "no")
FunR(m, n) == IF IsFun(n) THEN Ok(n) ELSE BadCast(m, n, "function", "not found")

\* both operands converted, left one first; F gets the two numbers
Both(C(_, _), m, l, r, F(_, _)) ==
  LET a == C(m, l) b == C(m, r)
  IN IF a.s # "ok" THEN a ELSE IF b.s # "ok" THEN b ELSE F(a.v.v, b.v.v)
BothN(C(_, _), m, l, r, F(_, _)) ==                \* F gets the nodes
  LET a == C(m, l) b == C(m, r)
  IN IF a.s # "ok" THEN a ELSE IF b.s # "ok" THEN b ELSE F(a.v, b.v)

\* --------------------------------------------------------------- arithmetic
AddI(a, b) == IF AddFits(a, b) THEN MkInt(a + b) ELSE Big
SubI(a, b) == IF AddFits(a, -b) THEN MkInt(a - b) ELSE Big
MulI(a, b) == IF MulFits(a, b) THEN MkInt(a * b) ELSE Big
\* of small multiples of 1/64 in a simple way where the result is one, too (and no negative zero)
Small2(x, y) == x.t = "dbl" /\ y.t = "dbl"
In64(v) == Abs(v) < 2147483647 \div 2
AddD(x, y) == IF Small2(x, y) /\ In64(x.v) /\ In64(y.v) /\ Abs(x.v + y.v) < 1073741824 THEN MkDbl(x.v + y.v) ELSE MkF(FAdd(FOf(x), FOf(y)))
SubD(x, y) == IF Small2(x, y) /\ In64(x.v) /\ In64(y.v) /\ Abs(x.v - y.v) < 1073741824 THEN MkDbl(x.v - y.v) ELSE MkF(FSub(FOf(x), FOf(y)))
MulD(x, y) == IF Small2(x, y) /\ MulFits(x.v, y.v) /\ (x.v * y.v) % 64 = 0 /\ x.v * y.v # 0 THEN MkDbl((x.v * y.v) \div 64) ELSE MkF(FMul(FOf(x), FOf(y)))
DivD(x, y) == IF Small2(x, y) /\ y.v # 0 /\ x.v # 0 /\ Abs(x.v) < 1000000 /\ TMod(x.v * 64, y.v) = 0 THEN MkDbl(TDiv(x.v * 64, y.v)) ELSE MkF(FDiv(FOf(x), FOf(y)))
ModD(x, y) == IF Small2(x, y) /\ y.v # 0 /\ TMod(x.v, y.v) # 0 THEN MkDbl(TMod(x.v, y.v)) ELSE MkF(FMod(FOf(x), FOf(y)))

\* binary operators; list concatenation needs the heap and is marked "cat"
Arith(m, op, l, r) ==
  LET dbl == IsDbl(l) \/ IsDbl(r) int == l.t = "int" \/ r.t = "int"
      DivI(a, b) == IF b = 0 THEN Er("Division by zero", l.k) ELSE MkInt(TDiv(a, b))
      ModI(a, b) == IF b = 0 THEN Er("Division by zero", l.k) ELSE MkInt(TMod(a, b))
  IN CASE op = "+" /\ (l.t = "str" \/ r.t = "str") -> Ok(StrN(SV(m, l) \o SV(m, r)))
       [] dbl /\ op = "+" -> BothN(ToDblR, m, l, r, AddD)
       [] dbl /\ op = "-" -> BothN(ToDblR, m, l, r, SubD)
       [] dbl /\ op = "*" -> BothN(ToDblR, m, l, r, MulD)
       [] dbl /\ op = "/" -> BothN(ToDblR, m, l, r, DivD)
       [] dbl /\ op = "%" -> BothN(ToDblR, m, l, r, ModD)
       [] int /\ op = "+" -> Both(ToIntR, m, l, r, AddI)
       [] int /\ op = "-" -> Both(ToIntR, m, l, r, SubI)
       [] int /\ op = "*" -> Both(ToIntR, m, l, r, MulI)
       \* the divisor is converted first
       [] int /\ op = "/" -> LET d == ToIntR(m, r) IN IF d.s # "ok" THEN d ELSE IF d.v.v = 0 THEN DivI(0, 0) ELSE Both(ToIntR, m, l, r, DivI)
       [] int /\ op = "%" -> LET d == ToIntR(m, r) IN IF d.s # "ok" THEN d ELSE IF d.v.v = 0 THEN ModI(0, 0) ELSE IF d.v.v = -1 THEN MkInt(0) ELSE Both(ToIntR, m, l, r, ModI)
       [] op = "+" /\ IsList(l) /\ IsList(r) -> [Ok(Und) EXCEPT !.s = "cat"]
       [] OTHER -> NoOp(op, l, r)

RECURSIVE BitOp(_, _, _, _)                        \* of naturals
BitOp(op, a, b, w) ==
  IF w = 0 THEN 0
  ELSE LET x == a % 2 y == b % 2
           z == IF op = "|" THEN Max2(x, y) ELSE IF op = "&" THEN Min2(x, y) ELSE (x + y) % 2
       IN z + 2 * BitOp(op, a \div 2, b \div 2, w - 1)
Not32(a) == (-1) - a
Bits(op, a, b) ==                                  \* two's complement
  LET x == IF a < 0 THEN Not32(a) ELSE a y == IF b < 0 THEN Not32(b) ELSE b
      AndNot(p, q) == p - BitOp("&", p, q, 31)     \* p and not q
  IN IF a >= 0 /\ b >= 0 THEN BitOp(op, a, b, 31)
     ELSE IF op = "^" THEN LET z == BitOp("^", x, y, 31) IN IF (a < 0) = (b < 0) THEN z ELSE Not32(z)
     ELSE IF op = "&" THEN IF a < 0 /\ b < 0 THEN Not32(BitOp("|", x, y, 31)) ELSE IF a < 0 THEN AndNot(b, x) ELSE AndNot(a, y)
     ELSE IF a < 0 /\ b < 0 THEN Not32(BitOp("&", x, y, 31)) ELSE IF a < 0 THEN Not32(AndNot(x, b)) ELSE Not32(AndNot(y, a))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
ShiftL(a, n) == IF n \notin 0..30 \/ ~MulFits(a, Pow2(n)) THEN Big ELSE MkInt(a * Pow2(n))
ShiftR(a, n) == IF n \notin 0..30 THEN Big ELSE MkInt(a \div Pow2(n))   \* \div rounds down
BitOps(m, op, l, r) ==
  LET F(a, b) == IF a < -MaxInt \/ b < -MaxInt THEN Big
                 ELSE CASE op = "<<" -> ShiftL(a, b) [] op = ">>" -> ShiftR(a, b) [] OTHER -> MkInt(Bits(op, a, b))
  IN Both(IntR, m, l, r, F)

\* --------------------------------------------------------------- comparison
\* floats that are not computed with are ordered by their texts (six digits) if these differ
DecText(n) == IF n.t = "int" THEN ToString(n.v) \o ".000000" ELSE DblText(n)
CmpMag(a, b) == IF Len(a) # Len(b) THEN Len(a) - Len(b) ELSE CmpText(a, b)
CmpDec(a, b) == IF StartsWith(a, "-") # StartsWith(b, "-") THEN IF StartsWith(a, "-") THEN -1 ELSE 1
                ELSE IF StartsWith(a, "-") THEN CmpMag(Unsigned(b), Unsigned(a)) ELSE CmpMag(a, b)
IsDec(l, r) == (l.t = "opq" \/ r.t = "opq") /\ IsNum(l) /\ IsNum(r)
DecUnclear(a, b) == a = b \/ {Unsigned(a), Unsigned(b)} = {"0.000000"}
Less(m, l, r, orEqual) ==
  LET F(a, b) == Ok(Bool(IF orEqual THEN a <= b ELSE a < b))
      G(x, y) == Ok(Bool(LET c == IF Small2(x, y) THEN x.v - y.v ELSE FCmp(FOf(x), FOf(y)) IN c < 0 \/ (orEqual /\ c = 0)))
  IN CASE IsDec(l, r) -> IF DecUnclear(DecText(l), DecText(r)) THEN Un("float") ELSE Ok(Bool(CmpDec(DecText(l), DecText(r)) < 0))
       [] IsDbl(l) \/ IsDbl(r) -> BothN(ToDblR, m, l, r, G)
       [] l.t = "int" \/ r.t = "int" -> Both(ToIntR, m, l, r, F)
       [] l.t = "str" \/ r.t = "str" -> LET c == CmpText(Str(m, l), Str(m, r)) IN Ok(Bool(c < 0 \/ (orEqual /\ c = 0)))
       [] OTHER -> NoOp(IF orEqual THEN "<= or >=" ELSE "< or >", l, r)

RECURSIVE EqualR(_, _, _), SameSeq(_, _, _, _)
EqualR(m, l, r) ==
  LET F(a, b) == Ok(Bool(a = b))
      G(x, y) == Ok(Bool(IF Small2(x, y) THEN x.v = y.v ELSE LET a == FOf(x) b == FOf(y) d == FSub(a, b) IN FCmp(a, b) = 0 \/ (d.c = "num" /\ FCmp([d EXCEPT !.s = 0], Tolerance) < 0)))
  IN CASE l.t = "nat" /\ r.t = "nat" -> Ok(Bool(l.v = r.v))
       [] l.t = "sym" \/ r.t = "sym" -> Ok(Bool(l.t = "sym" /\ r.t = "sym" /\ l.v = r.v))
       [] l.t = "bool" /\ r.t = "bool" -> Ok(Bool(l.v = r.v))
       [] l.t = "nil" \/ r.t = "nil" -> Ok(Bool(l.t = "nil" /\ r.t = "nil"))
       [] l.t = "list" /\ r.t = "list" ->
            IF Len(m.H[l.v]) # Len(m.H[r.v]) THEN Ok(Bool(FALSE)) ELSE SameSeq(m, m.H[l.v], m.H[r.v], 1)
       [] l.t = "und" \/ r.t = "und" -> Ok(Bool(l.t = "und" /\ r.t = "und"))
       [] l.t = "str" \/ r.t = "str" -> Ok(Bool(Str(m, l) = Str(m, r)))
       [] IsDec(l, r) -> IF DecUnclear(DecText(l), DecText(r)) THEN Un("float") ELSE Ok(Bool(FALSE))
       [] IsDbl(l) \/ IsDbl(r) -> BothN(ToDblR, m, l, r, G)
       [] l.t = "int" \/ r.t = "int" -> Both(ToIntR, m, l, r, F)
       [] OTHER -> NoOp("==", l, r)
\* elements without a defined equality are different
SameElem(m, a, b) == LET e == EqualR(m, VarOf(a), VarOf(b)) IN IF e.s \in {"ok", "un"} THEN e ELSE Ok(Bool(FALSE))
SameSeq(m, a, b, i) ==
  IF i > Len(a) THEN Ok(Bool(TRUE))
  ELSE LET e == SameElem(m, a[i], b[i]) IN IF e.s = "un" \/ ~e.v.v THEN e ELSE SameSeq(m, a, b, i + 1)

\* ------------------------------------------------------------- dictionaries
\* order of keys: texts, numbers (by value), other types; "un" if a key is a float that is not computed with
KeyRank(n) == IF n.t = "str" THEN -2 ELSE IF IsNum(n) THEN -1 ELSE TypeNum[n.t]
KeyOpaque(n) == n.t = "opq"
KeyLess(m, a, b) ==
  IF IsNum(a) /\ IsNum(b) THEN IF a.t = b.t /\ a.t # "flt" THEN a.v < b.v ELSE FCmp(FOf(a), FOf(b)) < 0
  ELSE IF KeyRank(a) # KeyRank(b) THEN KeyRank(a) < KeyRank(b)
  ELSE CmpText(Str(m, a), Str(m, b)) < 0
KeySame(m, a, b) == ~KeyLess(m, a, b) /\ ~KeyLess(m, b, a)
DictPos(m, d, key) == IF \E i \in DOMAIN d : KeySame(m, d[i][1], key) THEN CHOOSE i \in DOMAIN d : KeySame(m, d[i][1], key) ELSE 0
\* setting a key keeps the key that is already there
DictPut(m, d, key, val) ==
  LET i == DictPos(m, d, key)
      lt == Cardinality({j \in DOMAIN d : KeyLess(m, d[j][1], key)})
  IN IF i > 0 THEN [d EXCEPT ![i] = <<@[1], val>>]
     ELSE SubSeq(d, 1, lt) \o <<<<key, val>>>> \o SubSeq(d, lt + 1, Len(d))
DictDrop(d, i) == SubSeq(d, 1, i - 1) \o SubSeq(d, i + 1, Len(d))

\* --------------------------------------------- reachability (cyclic lists)
RECURSIVE Reaches(_, _, _, _)
Reaches(m, n, kind, id) ==                         \* does node n lead to cell/dictionary id?
  CASE n.t \in {"list", "raw"} -> (kind = "cell" /\ n.v = id) \/ \E i \in DOMAIN m.H[n.v] : Reaches(m, m.H[n.v][i], kind, id)
    [] n.t = "nat" -> (kind = "dict" /\ n.v = id) \/ \E i \in DOMAIN m.D[n.v] : Reaches(m, m.D[n.v][i][2], kind, id)
    [] OTHER -> FALSE

\* --------------------------------------------------------------- formatting
NoArg == "##<NULL>##"
IsWidth(w) == LET t == StripL(w) IN AllDigits(Unsigned(t)) /\ Len(Unsigned(t)) < 9
RECURSIVE FormatGo(_, _, _, _)
FormatGo(all, txt, args, acc) ==
  IF txt = "" THEN Ok(StrN(acc))
  ELSE LET plain == FormatGo(all, SubSeq(txt, 2, Len(txt)), args, acc \o Ch(txt, 1))
           stop == FindFrom(txt, "}", 2)
       IN IF Ch(txt, 1) # "{" \/ Len(txt) < 3 THEN plain
          ELSE IF Ch(txt, 2) \notin {"0", "1", "2", "3", "4"} \/ Ch(txt, 3) \notin {"}", ","} \/ stop < 0 THEN plain
          ELSE LET i == DigitVal[Ch(txt, 2)] + 1
                   wide == Ch(txt, 3) = ","
                   ws == SubSeq(txt, 4, stop)
                   w == IF wide THEN SignOf(StripL(ws)) * NatOf(Unsigned(StripL(ws))) ELSE 0
               IN IF wide /\ (~IsWidth(ws) \/ Abs(w) > 10000) THEN Bs("Invalid width in format string: " \o all)
                  ELSE IF i > Len(args) THEN Bs("Not enough items for format string: " \o all)
                  ELSE FormatGo(all, SubSeq(txt, stop + 2, Len(txt)), args,
                                acc \o (IF w > 0 THEN PadL(args[i], w) ELSE PadR(args[i], -w)))
Format(txt, args) == FormatGo(txt, txt, args, "")
=============================================================================
