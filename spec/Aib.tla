-------------------------------- MODULE Aib --------------------------------
(* The agglomerative information bottleneck: clusters of feature values of a
   joint histogram, the mutual information between the clustering and the
   label, and the loss of merging two clusters.  h is row-major (one row of
   labels per value); a cluster is a set of 0-based values.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, RealOps
RECURSIVE ISum(_, _)
ISum(f(_), S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f(e) + ISum(f, S \ {e})
Cell(h, nl, C, c) == LET f(v) == h[v * nl + c] IN ISum(f, C)
Row(h, nl, C) == LET f(c) == Cell(h, nl, C, c) IN ISum(f, 1..nl)
PLogP(x) == IF RLe(x, 0) THEN 0 ELSE RMul(x, RLog(x))
\* I(X,C) = sum p(x,c) log p(x,c) - sum p(x) log p(x) - sum p(c) log p(c)
Info(h, nv, nl, Cs) ==
  LET T == Row(h, nl, 0..(nv-1))
      p(n) == PLogP(RDiv(n, T))
      RECURSIVE Acc(_, _)
      Acc(S, a) == IF S = {} THEN a ELSE LET C == CHOOSE C \in S : TRUE IN
         Acc(S \ {C}, TLCEval(RSub(RAdd(a, RSum([c \in 1..nl |-> p(Cell(h, nl, C, c))])), p(Row(h, nl, C)))))
  IN RSub(Acc(Cs, 0), RSum([c \in 1..nl |-> p(Cell(h, nl, 0..(nv-1), c))]))
\* what merging A and B loses
Loss(h, nv, nl, A, B) ==
  LET T == Row(h, nl, 0..(nv-1))
      p(n) == PLogP(RDiv(n, T))
      g(C) == RSub(RSum([c \in 1..nl |-> p(Cell(h, nl, C, c))]), p(Row(h, nl, C)))
  IN RSub(RAdd(g(A), g(B)), g(A \cup B))
=============================================================================
