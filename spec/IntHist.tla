------------------------------ MODULE IntHist ------------------------------
(* Integral histograms: H(i, j, k) is the mass of the pixels above and to the
   left of (i, j), included, that carry label k in any of the label maps; the
   histogram of a box is the mass of each label inside it.  Pixels count from
   one; mass(i, j, q) is the mass of pixel (i, j) of the q-th map.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, RealOps
RECURSIVE SumSet(_, _)
SumSet(F(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN RAdd(F(x), SumSet(F, S \ {x}))
Mass(m, L, lab(_, _, _), mass(_, _, _), k, i1, j1, i2, j2) ==
  LET f(p) == mass(p[1], p[2], p[3])
  IN SumSet(f, {p \in (i1..i2) \X (j1..j2) \X (1..L) : lab(p[1], p[2], p[3]) = k})
=============================================================================
