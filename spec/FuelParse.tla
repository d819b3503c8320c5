----------------------------- MODULE FuelParse -----------------------------
(* The grammar: one step per token.  A parser state P holds the stack of     *)
(* open lists and open quote marks.  Trees are records:                      *)
(*   [leaf |-> TRUE, tok |-> token, kids |-> <<>>]   an atom                 *)
(*   [leaf |-> FALSE, tok |-> NoTok, kids |-> trees] a list                  *)
EXTENDS FuelLex

Balance == "Brackets out of balance"
Surplus == "Brackets out of balance or unexpected script code"
Unexpected == "Unexpected token"

Leaf(t) == [leaf |-> TRUE, tok |-> t, kids |-> <<>>]
Branch(ts) == [leaf |-> FALSE, tok |-> NoTok, kids |-> ts]
MarkName == [q |-> "quote", qq |-> "quasiquote", uq |-> "_unquote", uqs |-> "_unquotesplicing"]
Marks == DOMAIN MarkName

ParseInit == [i |-> 1, stack |-> <<>>, done |-> FALSE, res |-> Branch(<<>>), err |-> "", etok |-> NoTok]

Top(P) == P.stack[Len(P.stack)]
Pop(P) == [P EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
PFail(P, msg, tok) == [P EXCEPT !.err = msg, !.etok = tok]
OnlyComments(toks, from) == \A j \in from..Len(toks) : toks[j].ty = "cmt"

\* a complete expression t, ended by token tok: append it to the open list, apply open quote marks
RECURSIVE Deliver(_, _, _, _)
Deliver(P, t, tok, toks) ==
  IF P.stack = <<>>
  THEN IF OnlyComments(toks, P.i + 1) THEN [P EXCEPT !.done = TRUE, !.res = t]
       ELSE PFail(P, Surplus, tok)
  ELSE LET f == Top(P)
       IN IF f.kind = "list"
          THEN [P EXCEPT !.stack[Len(P.stack)].kids = Append(@, t)]
          ELSE Deliver(Pop(P), Branch(<<Leaf([NoTok EXCEPT !.ty = "sym", !.tx = MarkName[f.kind]]), t>>), f.tok, toks)

ParseStep(P, toks) ==
  LET k == toks[P.i]
      N(Q) == IF Q.err # "" \/ Q.done THEN Q ELSE [Q EXCEPT !.i = @ + 1]
  IN CASE k.ty = "(" -> N([P EXCEPT !.stack = Append(@, [kind |-> "list", tok |-> k, kids |-> <<>>])])
       [] k.ty = ")" -> IF P.stack = <<>> \/ Top(P).kind # "list" THEN PFail(P, Balance, k)
                        ELSE N(Deliver(Pop(P), Branch(Top(P).kids), k, toks))
       [] k.ty \in Marks -> N([P EXCEPT !.stack = Append(@, [kind |-> k.ty, tok |-> k, kids |-> <<>>])])
       [] k.ty = "cmt" -> N(P)
       [] OTHER -> IF P.stack = <<>> THEN PFail(P, Unexpected, k) ELSE N(Deliver(P, Leaf(k), k, toks))

ParseEnd(P, toks) ==                            \* no token left
  IF P.done \/ P.err # "" \/ toks = <<>> THEN P
  ELSE IF P.stack # <<>> /\ Top(P).kind # "list" THEN PFail(P, Balance, Top(P).tok)
  ELSE PFail(P, Balance, toks[Len(toks)])
ParseFinished(P, toks) == P.done \/ P.err # "" \/ P.i > Len(toks)

Parse(toks) == LET S(P) == IF ParseFinished(P, toks) THEN P ELSE ParseStep(P, toks)
               IN ParseEnd(Iterate(S, ParseInit, Len(toks)), toks)

RECURSIVE TreeText(_)
TreeText(t) == IF t.leaf THEN t.tok.ty \o ":" \o t.tok.tx
               ELSE "(" \o Join([j \in 1..Len(t.kids) |-> TreeText(t.kids[j])], " ") \o ")"
=============================================================================
