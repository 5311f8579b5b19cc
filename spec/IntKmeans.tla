----------------------------- MODULE IntKmeans -----------------------------
(* k-means on integer vectors.  Vectors are sequences; data and centres are
   sequences of vectors; clusters are numbered from 0.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE D2(_, _, _)
D2(x, c, i) == IF i = 0 THEN 0 ELSE (x[i] - c[i]) * (x[i] - c[i]) + D2(x, c, i - 1)
Dist2(x, c) == D2(x, c, Len(x))
Vecs(flat, M) == [j \in 1..(Len(flat) \div M) |-> SubSeq(flat, (j - 1) * M + 1, j * M)]
NearestAll(x, cs) == LET d == TLCEval([k \in 1..Len(cs) |-> Dist2(x, cs[k])]) IN {k - 1 : k \in {k \in 1..Len(cs) : \A h \in 1..Len(cs) : d[k] <= d[h]}}
Lowest(S) == CHOOSE k \in S : \A h \in S : k <= h
Trunc(a, n) == IF a >= 0 THEN a \div n ELSE -((-a) \div n)
RECURSIVE VSum(_, _, _, _)
VSum(data, a, k, j) == IF j = 0 THEN [i \in 1..Len(data[1]) |-> 0]
                       ELSE LET r == VSum(data, a, k, j - 1) IN IF a[j] = k THEN [i \in DOMAIN r |-> r[i] + data[j][i]] ELSE r
\* centres move to the truncated mean of their points, or stay if they have none
Moved(data, a, cs) == [k \in 1..Len(cs) |-> LET n == Cardinality({j \in 1..Len(data) : a[j] = k - 1}) s == VSum(data, a, k - 1, Len(data))
                                             IN IF n = 0 THEN cs[k] ELSE [i \in DOMAIN s |-> Trunc(s[i], n)]]
Assign(data, cs) == [j \in 1..Len(data) |-> Lowest(NearestAll(data[j], cs))]
Tied(data, cs) == \E j \in 1..Len(data) : Cardinality(NearestAll(data[j], cs)) > 1
\* at most m updates, stopping when the assignments repeat; with <<centres, whether a tie occurred>>
RECURSIVE Lloyd(_, _, _, _, _)
Lloyd(data, cs, m, prev, tied) ==
  LET a == TLCEval(Assign(data, cs))  t == TLCEval(tied \/ Tied(data, cs))
  IN IF a = prev \/ m = 0 THEN <<cs, t>> ELSE Lloyd(data, TLCEval(Moved(data, a, cs)), m - 1, a, t)
=============================================================================
