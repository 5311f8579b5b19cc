------------------------------- MODULE Kmeans -------------------------------
(* k-means over real vectors: the assignment, the move of the centres, the
   energy, and the rules that stop the alternation.  data and cs are sequences
   of vectors, dist is "L1" or "L2", tol the relative accuracy of the numbers
   at hand; clusters are numbered from 0.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, RealOps
RVecs(flat, D) == [j \in 1..(Len(flat) \div D) |-> SubSeq(flat, (j - 1) * D + 1, j * D)]
Gap(dist, a, b) == LET g == RSub(a, b) IN IF dist = "L1" THEN RAbs(g) ELSE RMul(g, g)
Dis(dist, x, c) == RSum([i \in DOMAIN x |-> Gap(dist, x[i], c[i])])
RMinOf(d) == d[CHOOSE k \in DOMAIN d : \A h \in DOMAIN d : RLe(d[k], d[h])]
MinDis(dist, x, cs) == RMinOf(TLCEval([k \in DOMAIN cs |-> Dis(dist, x, cs[k])]))
\* the clusters a point may be assigned to, given the accuracy
Cands(dist, x, cs, tol) == LET d == TLCEval([k \in DOMAIN cs |-> Dis(dist, x, cs[k])])  m == RMinOf(d)
                           IN {k - 1 : k \in {k \in DOMAIN cs : RLe(d[k], m) \/ RNear(d[k], m, tol)}}
Energy(dist, data, cs) == RSum([j \in DOMAIN data |-> MinDis(dist, data[j], cs)])
(* ------------------------------------------------------------ one update -- *)
Col(pts, i) == [j \in DOMAIN pts |-> pts[j][i]]
Count(s, P(_)) == Cardinality({j \in DOMAIN s : P(s[j])})
\* the lower median: at least half of the values do not exceed it, fewer than half are below it
IsMedian(s, m) == LET le(v) == RLe(v, m)  lt(v) == RLt(v, m)
                  IN (\E j \in DOMAIN s : REq(s[j], m)) /\ 2 * Count(s, le) >= Len(s) /\ 2 * Count(s, lt) < Len(s)
IsCentre(dist, pts, c, tol) ==
  \A i \in DOMAIN c : IF dist = "L1" THEN IsMedian(Col(pts, i), c[i]) ELSE RNear(c[i], RDiv(RSum(Col(pts, i)), Len(pts)), tol)
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : REq(a[i], b[i])
\* new centres: the centre of the points assigned to them, or some datum if there is none
Moves(dist, data, cs, new, tol) ==
  LET cand == TLCEval([j \in DOMAIN data |-> Cands(dist, data[j], cs, tol)])
      Mine(k) == {j \in DOMAIN data : (k - 1) \in cand[j]}
      clear(k) == \A j \in Mine(k) : cand[j] = {k - 1}
      RECURSIVE Pts(_, _)
      Pts(k, j) == IF j > Len(data) THEN <<>> ELSE (IF j \in Mine(k) THEN <<data[j]>> ELSE <<>>) \o Pts(k, j + 1)
  IN \A k \in DOMAIN cs : clear(k) =>
        IF Mine(k) = {} THEN \E j \in DOMAIN data : Same(new[k], data[j])
        ELSE IsCentre(dist, Pts(k, 1), new[k], tol)
(* the alternation stops when the energy does not change or its decrease is a small part of the total *)
StopsNow(es, i, minvar) ==          \* "yes", "no", or "close"
  IF i = 1 THEN "no"
  ELSE IF REq(es[i], es[i - 1]) THEN "yes"
  ELSE LET eps == RDiv(RSub(es[i - 1], es[i]), RSub(es[1], es[i]))
       IN IF RWithin(eps, minvar, "1e-9") THEN "close" ELSE IF RLt(eps, minvar) THEN "yes" ELSE "no"
=============================================================================
