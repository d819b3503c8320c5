------------------------------ MODULE FuelFold ------------------------------
(* Iteration (FoldLeft of the community modules, which TLC computes without  *)
(* recursion).                                                               *)
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE Naturals
FoldSeqLeft(op(_, _), base, seq) == FoldLeft(op, base, seq)
\* F applied n times
Iterate(F(_), base, n) == LET G(x, i) == F(x) IN FoldLeft(G, base, [i \in 1..n |-> i])
=============================================================================
