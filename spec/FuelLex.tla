------------------------------ MODULE FuelLex ------------------------------
(* The lexical grammar: one step per character.  A lexer state L holds the   *)
(* tokens found so far and the pending text.                                 *)
EXTENDS FuelChars

NoTok == [ty |-> "none", tx |-> "", st |-> -1, sp |-> -1, ln |-> -1]

\* kind and value text of a complete token text
Classify(t) ==
  IF t # "" /\ Ch(t, 1) = "\"" THEN [ty |-> "str", tx |-> IF Len(t) < 2 THEN "" ELSE SubSeq(t, 2, Len(t) - 1)]
  ELSE IF t = "'" THEN [ty |-> "q", tx |-> t]
  ELSE IF t = "`" THEN [ty |-> "qq", tx |-> t]
  ELSE IF t = "," THEN [ty |-> "uq", tx |-> t]
  ELSE IF t = ",@" THEN [ty |-> "uqs", tx |-> t]
  ELSE IF t = "(" \/ t = ")" THEN [ty |-> t, tx |-> t]
  ELSE IF IsIntText(t) THEN [ty |-> "int", tx |-> CanonInt(t)]
  ELSE IF IsDoubleText(t) THEN [ty |-> "dbl", tx |-> t]
  ELSE IF t = "true" \/ t = "#t" THEN [ty |-> "true", tx |-> "true"]
  ELSE IF t = "false" \/ t = "#f" THEN [ty |-> "false", tx |-> "false"]
  ELSE IF ToUpper(t) = "NIL" THEN [ty |-> "nil", tx |-> "NIL"]
  ELSE IF t # "" /\ Ch(t, 1) = ";" THEN [ty |-> "cmt", tx |-> t]
  ELSE [ty |-> "sym", tx |-> t]

LexInit == [i |-> 0, toks |-> <<>>, cur |-> "", start |-> 0, line |-> 1,
            str |-> FALSE, sym |-> FALSE, bs |-> FALSE, err |-> ""]

AddTok(L, text, pos, off) ==
  LET c == Classify(text)
  IN [L EXCEPT !.toks = Append(@, [ty |-> c.ty, tx |-> c.tx, st |-> L.start - off, sp |-> pos - off, ln |-> L.line]),
               !.sym = FALSE, !.str = FALSE, !.cur = "", !.start = pos + 1]

Escapes == [c \in {"n", "r", "t"} |-> IF c = "n" THEN "\n" ELSE IF c = "r" THEN "\r" ELSE "\t"]

\* what kind of step the next character is (the names of the lexer's actions)
LexKind(code, L) ==
  LET c == Ch(code, L.i + 1)
  IN IF c \in WhiteSpace THEN "space"
     ELSE IF c = "\\" THEN "backslash"
     ELSE IF c = "(" \/ c = ")" THEN "bracket"
     ELSE IF c = ";" THEN "comment"
     ELSE IF c \in {"'", "`", ","} THEN "quote"
     ELSE IF c = "\"" THEN "dquote"
     ELSE "char"

LexStep(code, L, off) ==
  LET c == Ch(code, L.i + 1)
      k == LexKind(code, L)
      F == IF L.sym THEN AddTok(L, L.cur, L.i, off) ELSE L          \* end of a pending word
      Nx(M) == [M EXCEPT !.bs = FALSE, !.i = @ + 1]
  IN CASE k = "space" ->
            LET M == IF L.str THEN [L EXCEPT !.cur = @ \o c] ELSE F
            IN Nx([M EXCEPT !.line = IF c = "\n" THEN @ + 1 ELSE @])
       [] k = "backslash" ->
            IF L.bs THEN Nx([L EXCEPT !.cur = @ \o c]) ELSE [L EXCEPT !.bs = TRUE, !.i = @ + 1]
       [] k = "bracket" ->
            Nx(IF L.str THEN [L EXCEPT !.cur = @ \o c] ELSE AddTok(F, c, L.i, off))
       [] k = "comment" ->
            IF L.str THEN Nx([L EXCEPT !.cur = @ \o c])
            ELSE LET nl == FindFrom(code, "\n", L.i)
                     last == IF nl < 0 THEN Len(code) - 1 ELSE nl
                     M == AddTok(F, SubSeq(code, L.i + 1, last + 1), L.i, off)
                 IN [M EXCEPT !.bs = FALSE, !.i = last + 1, !.line = @ + 1]
       [] k = "quote" ->
            IF L.str THEN Nx([L EXCEPT !.cur = @ \o c])
            ELSE IF L.i + 2 <= Len(code) /\ Ch(code, L.i + 2) = "@"
            THEN LET M == AddTok(F, c \o "@", L.i + 1, off) IN [M EXCEPT !.bs = FALSE, !.i = @ + 2]
            ELSE Nx(AddTok(F, c, L.i, off))
       [] k = "dquote" ->
            Nx(IF L.bs THEN [L EXCEPT !.cur = @ \o c]
               ELSE IF L.str THEN AddTok(L, "\"" \o L.cur \o "\"", L.i, off)
               ELSE [F EXCEPT !.str = TRUE, !.cur = ""])
       [] OTHER ->
            LET M == IF L.sym \/ L.str THEN L ELSE [L EXCEPT !.sym = TRUE]
            IN IF L.bs /\ c \notin DOMAIN Escapes
               THEN [L EXCEPT !.err = "Invalid character after backslash " \o c]
               ELSE Nx([M EXCEPT !.cur = @ \o (IF L.bs THEN Escapes[c] ELSE c)])

LexDone(code, L) == L.err # "" \/ L.i >= Len(code)
LexFinish(L, off) == IF L.err = "" /\ L.cur # "" THEN AddTok(L, L.cur, -1, off) ELSE L

Lex(code, off) == LET S(L) == IF LexDone(code, L) THEN L ELSE LexStep(code, L, off)
                  IN LexFinish(Iterate(S, LexInit, Len(code)), off)
=============================================================================
