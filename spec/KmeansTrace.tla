---------------------------- MODULE KmeansTrace ----------------------------
EXTENDS TraceKit, Kmeans
VARIABLE l
ev == Trace[l]
Tol == IF ev.single THEN "2e-5" ELSE "1e-11"
Dt == TLCEval(RVecs(ev.data, ev.D))
(* quantisation: exact, and by approximate search *)
QuantOk ==
  LET data == Dt  cs == TLCEval(RVecs(ev.c, ev.D))
      dist(j, k) == Dis(ev.dist, data[j], cs[k + 1])
  IN \A j \in DOMAIN data :
       LET m == TLCEval(MinDis(ev.dist, data[j], cs)) IN
       /\ RNear(dist(j, ev.a[j]), m, Tol) /\ RNear(ev.d[j], m, Tol)
       /\ ev.nodist[j] = ev.a[j]
       \* approximate: a real distance; the nearest one if the search is not limited
       /\ RNear(ev.annd[j], dist(j, ev.ann[j]), Tol)
       /\ ev.limit = 0 => RNear(ev.annd[j], m, Tol)
       \* updating keeps the earlier assignment unless a better one was found
       /\ RNear(ev.updd[j], dist(j, ev.upd[j]), Tol)
       /\ LET was == dist(j, ev.old[j]) IN
            /\ ev.upd[j] = ev.old[j] \/ RLt(dist(j, ev.upd[j]), was) \/ RNear(dist(j, ev.upd[j]), was, Tol)
            /\ ev.limit = 0 => RNear(ev.updd[j], m, Tol)
            /\ ev.updn[j] = ev.upd[j]
(* the same start refined with limits 0, 1, 2, ...: one move at a time *)
LadderOk ==
  LET data == Dt
      C == TLCEval([i \in DOMAIN ev.c |-> RVecs(ev.c[i], ev.D)])
      es == ev.energy
      n == Len(ev.c)
      exact == ev.alg # "ann" \/ ev.limit = 0
      Eq(a, b) == \A k \in DOMAIN a : Same(a[k], b[k])
      Step(i) == Moves(ev.dist, data, C[i], C[i + 1], Tol)
  IN \* the energy is that of the centres, and never goes up
     /\ \A i \in 1..n : (ev.alg # "elkan" \/ i > 1) =>
          LET e == TLCEval(Energy(ev.dist, data, C[i])) IN
          /\ IF exact THEN RNear(es[i], e, Tol) ELSE RLe(e, es[i]) \/ RNear(e, es[i], Tol)
          /\ REq(ev.got[i], es[i])
          /\ (i > 2 \/ (i > 1 /\ ev.alg # "elkan")) => RLe(es[i], es[i - 1]) \/ RNear(es[i], es[i - 1], Tol)
     /\ IF ev.alg = "elkan"
        THEN \* it stops as soon as no assignment changes, even if that leaves empty clusters
             \A i \in 1..(n - 1) :
               Step(i) \/ (i > 1 /\ Eq(C[i], C[i + 1]) /\ \E k \in DOMAIN C[i] : \A j \in DOMAIN data : (k - 1) \notin Cands(ev.dist, data[j], C[i], Tol))
        ELSE /\ \A i \in 1..(n - 1) :
               LET s == StopsNow(es, i, ev.minvar)  before == i > 1 /\ \E j \in 2..(i - 1) : StopsNow(es, j, ev.minvar) = "yes"
               IN IF before \/ s = "yes" THEN Eq(C[i], C[i + 1]) /\ REq(es[i], es[i + 1])
                  ELSE ~exact \/ Step(i) \/ (s = "close" /\ Eq(C[i], C[i + 1]))
(* several starts: the best of them *)
ClusterOk ==
  LET data == Dt  cs == TLCEval(RVecs(ev.c, ev.D)) es == ev.reps
      m == RMinOf(es)
  IN /\ REq(ev.energy, m) /\ REq(ev.got, m) /\ Len(cs) = ev.K
     /\ \E r \in DOMAIN es : REq(es[r], m) /\ Same(ev.rc[r], ev.c)
     /\ IF ev.exact THEN RNear(ev.energy, Energy(ev.dist, data, cs), Tol)
        ELSE LET e == Energy(ev.dist, data, cs) IN RLe(e, ev.energy) \/ RNear(e, ev.energy, Tol)
Distinct(vs) == Cardinality({j \in DOMAIN vs : \A i \in 1..(j - 1) : ~Same(vs[i], vs[j])})
(* the initial centres: data points, all different if there are enough *)
SeedOk ==
  LET data == Dt  cs == TLCEval(RVecs(ev.c, ev.D))
      nd == Distinct(data)
  IN /\ Len(cs) = ev.K /\ \A k \in DOMAIN cs : \E j \in DOMAIN data : Same(cs[k], data[j])
     /\ Distinct(cs) = (IF nd < ev.K THEN nd ELSE ev.K)
(* how often each sequence of data points is chosen, over many seeds *)
RECURSIVE Prob(_, _, _)
Prob(data, t, k) ==     \* probability of the first k points of the tuple t
  IF k = 0 THEN 1
  ELSE LET done == [i \in 1..(k - 1) |-> data[t[i]]]
           w == TLCEval([j \in DOMAIN data |-> IF k = 1 THEN 1
                        ELSE IF ev.plusplus THEN MinDis(ev.dist, data[j], done)
                        ELSE IF \E i \in 1..(k - 1) : t[i] = j THEN 0 ELSE 1])
       IN RMul(Prob(data, t, k - 1), RDiv(w[t[k]], RSum(w)))
FreqOk ==
  LET data == Dt IN
  /\ \A t \in [1..ev.K -> DOMAIN data] :
       LET p == TLCEval(Prob(data, t, ev.K))
           code == LET RECURSIVE c(_) c(k) == IF k = 0 THEN 0 ELSE c(k - 1) * Len(data) + (t[k] - 1) IN c(ev.K)
           n == ev.counts[code + 1]  mean == RMul(p, ev.runs)
       IN IF REq(p, 0) THEN n = 0
          ELSE RWithin(n, mean, RAdd(2, RMul("5.5", RSqrt(RMul(mean, RSub(1, p))))))
CopyOk == Same(ev.a, ev.b)
Ok == CASE ev.e = "Quant" -> QuantOk [] ev.e = "Ladder" -> LadderOk [] ev.e = "Cluster" -> ClusterOk
        [] ev.e = "Seed" -> SeedOk [] ev.e = "Freq" -> FreqOk [] ev.e = "Copy" -> CopyOk [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
