------------------------------ MODULE LexTrace ------------------------------
(* Conformance of the tokenizer and the parser: every recorded case          *)
(*   [code, off, mode |-> "tok"/"parse", observation...]                     *)
(* is one behaviour of the lexer (and parser) machine; each character and    *)
(* each token is one step.  In the last state the observation must equal the *)
(* machine's result.  The laws below are invariants of every state.          *)
EXTENDS FuelParse, FuelFloat, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.FUEL_TRACE)
VARIABLES cs, L, P, phase
vars == <<cs, L, P, phase>>
T == Trace[cs]
Code == T.code

Init == cs \in 1..Len(Trace) /\ L = LexInit /\ P = ParseInit /\ phase = "lex"

Lexing(kinds) == /\ phase = "lex" /\ ~LexDone(Code, L) /\ LexKind(Code, L) \in kinds
                 /\ L' = LexStep(Code, L, T.off)
                 /\ UNCHANGED <<cs, P, phase>>
LexSpace == Lexing({"space"})
LexBackslash == Lexing({"backslash"})
LexBracket == Lexing({"bracket"})
LexComment == Lexing({"comment"})
LexQuoteMark == Lexing({"quote"})
LexStringMark == Lexing({"dquote"})
LexChar == Lexing({"char"})
LexEnd == /\ phase = "lex" /\ LexDone(Code, L)
          /\ L' = LexFinish(L, T.off)
          /\ phase' = IF T.mode = "parse" /\ L.err = "" THEN "parse" ELSE "judge"
          /\ UNCHANGED <<cs, P>>

Parsing(kinds) == /\ phase = "parse" /\ ~ParseFinished(P, L.toks) /\ L.toks[P.i].ty \in kinds
                  /\ P' = ParseStep(P, L.toks)
                  /\ UNCHANGED <<cs, L, phase>>
ParseOpen == Parsing({"("})
ParseClose == Parsing({")"})
ParseMark == Parsing(Marks)
ParseComment == Parsing({"cmt"})
ParseAtom == Parsing({"str", "int", "dbl", "true", "false", "nil", "sym"})
ParseStop == /\ phase = "parse" /\ ParseFinished(P, L.toks)
             /\ P' = ParseEnd(P, L.toks) /\ phase' = "judge"
             /\ UNCHANGED <<cs, L>>

\* ------------------------------------------------------------- judgement
SameTok(s, o) == /\ s.ty = o.ty /\ s.st = o.st /\ s.sp = o.sp /\ s.ln = o.ln
                 /\ IF s.ty = "dbl" THEN LET t == StripL(s.tx) x == FOfText(t, ScanDouble(t)) IN IF x.c = "nan" THEN Unsigned(o.tx) = "nan" ELSE FText(x) = o.tx ELSE s.tx = o.tx
RECURSIVE SameTree(_, _)
SameTree(s, o) == /\ s.leaf = o.leaf /\ SameTok(s.tok, o.tok) /\ Len(s.kids) = Len(o.kids)
                  /\ \A i \in 1..Len(s.kids) : SameTree(s.kids[i], o.kids[i])
NullTree == Leaf([NoTok EXCEPT !.ty = "null"])
\* numbers at the border of the range of floats are the only texts that are not judged
Unclear(toks) == \E i \in 1..Len(toks) : toks[i].ty = "dbl" /\ DoubleRange(ScanDouble(StripL(toks[i].tx))) = "?"

Why ==
  IF T.crash # "" THEN "crash: " \o T.crash
  ELSE IF T.exc = "foreign" THEN "foreign exception " \o T.msg
  ELSE IF L.err # "" THEN IF T.exc = "base" /\ T.msg = L.err THEN "" ELSE "expected error " \o L.err
  ELSE IF T.mode = "tok"
       THEN IF T.exc # "" THEN "unexpected error " \o T.msg
            ELSE IF Len(T.toks) # Len(L.toks) THEN "expected " \o ToString(Len(L.toks)) \o " tokens " \o ToString(L.toks)
            ELSE LET bad == {i \in 1..Len(L.toks) : ~SameTok(L.toks[i], T.toks[i])}
                 IN IF bad = {} THEN "" ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN "token " \o ToString(i) \o " expected " \o ToString(L.toks[i]) \o " got " \o ToString(T.toks[i])
  ELSE IF P.err # ""
       THEN IF T.exc # "located" \/ T.msg # P.err THEN "expected error " \o P.err
            ELSE IF T.line # ToString(P.etok.ln) \/ T.start # ToString(P.etok.st) \/ T.stop # ToString(P.etok.sp) \/ T.module # "mod"
                 THEN "error position, expected token " \o ToString(P.etok) \o " of module mod"
            ELSE ""
  ELSE IF T.exc # "" THEN "unexpected error " \o T.msg
  ELSE IF SameTree(IF L.toks = <<>> THEN NullTree ELSE P.res, T.tree) THEN "" ELSE "expected tree " \o TreeText(P.res)

Judge == /\ phase = "judge" /\ phase' = "end"
         /\ PrintT((IF Unclear(L.toks) THEN "SKIP" ELSE IF Why = "" THEN "ACCEPT" ELSE "REJECT") \o "|" \o ToString(cs) \o "|" \o Why)
         /\ UNCHANGED <<cs, L, P>>

Next == LexSpace \/ LexBackslash \/ LexBracket \/ LexComment \/ LexQuoteMark \/ LexStringMark \/ LexChar \/ LexEnd
        \/ ParseOpen \/ ParseClose \/ ParseMark \/ ParseComment \/ ParseAtom \/ ParseStop \/ Judge
Spec == Init /\ [][Next]_vars
View == <<cs, L.i, L.err, P.i, P.err, P.done, phase>>

\* ------------------------------------------------------------------- laws
RECURSIVE CountNl(_, _)
CountNl(s, n) == IF n = 0 THEN 0 ELSE (IF Ch(s, n) = "\n" THEN 1 ELSE 0) + CountNl(s, n - 1)
LastTok == L.toks[Len(L.toks)]
PosOf(t) == IF t.sp = -1 - T.off THEN Len(Code) ELSE t.sp + T.off
\* a token is on the line where it ends, and lies behind its predecessor
LineLaw == L.toks # <<>> => LastTok.ln = 1 + CountNl(Code, Min2(PosOf(LastTok), Len(Code)))
OrderLaw == Len(L.toks) > 1 => LET p == L.toks[Len(L.toks) - 1] IN (LastTok.st = p.sp + 1 \/ p.ty = "cmt") /\ p.ln <= LastTok.ln
\* outside of strings, comments and escapes nothing of the text is lost
RECURSIVE Squeeze(_)
Squeeze(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in WhiteSpace THEN "" ELSE Ch(s, 1)) \o Squeeze(SubSeq(s, 2, Len(s)))
Plain(s) == \A i \in 1..Len(s) : Ch(s, i) \notin {"\"", ";", "\\"}
Literal == {"q", "qq", "uq", "uqs", "(", ")", "sym", "dbl"}
NothingLost == phase = "judge" /\ L.err = "" /\ Plain(Code) /\ (\A i \in 1..Len(L.toks) : L.toks[i].ty \in Literal)
               => Join([i \in 1..Len(L.toks) |-> L.toks[i].tx], "") = Squeeze(Code)
\* the parser's stack is the nesting of the text, and a finished tree contains every token in order
RECURSIVE Count(_, _, _)
Count(toks, n, ty) == IF n = 0 THEN 0 ELSE (IF toks[n].ty = ty THEN 1 ELSE 0) + Count(toks, n - 1, ty)
ListFrames(st) == Cardinality({i \in DOMAIN st : st[i].kind = "list"})
NestingLaw == phase = "parse" /\ P.err = "" /\ ~P.done => ListFrames(P.stack) = Count(L.toks, P.i - 1, "(") - Count(L.toks, P.i - 1, ")")
RECURSIVE Atoms(_)
Atoms(t) == IF t.leaf THEN IF t.tok.st = -1 /\ t.tok.ln = -1 THEN <<>> ELSE <<t.tok>> ELSE LET RECURSIVE Cat(_)
                                                                 Cat(i) == IF i > Len(t.kids) THEN <<>> ELSE Atoms(t.kids[i]) \o Cat(i + 1)
                                                             IN Cat(1)
IsAtomTok(k) == k.ty \notin Marks \cup {"(", ")", "cmt"}
TreeLaw == phase = "judge" /\ P.done => Atoms(P.res) = SelectSeq(L.toks, IsAtomTok)
Laws == LineLaw /\ OrderLaw /\ NothingLost /\ NestingLaw /\ TreeLaw
=============================================================================
