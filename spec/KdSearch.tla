------------------------------ MODULE KdSearch ------------------------------
(* Branch and bound over a forest of kd-trees: a pool of subtrees with lower
   bounds, best-first visits, bounds updated incrementally, a shared set of
   visited points, an optional budget of distance evaluations.  TLC checks for
   every small point set (duplicates included), query, k, number of trees and
   budget that the final answer is exact without a budget, sound and within
   the budget with one, and that ties in the pool do not matter.              *)
EXTENDS Kd, TLC
CONSTANTS N, Grid, QGrid, Ks, Dists, Budgets, Trees
P == 1..N
VARIABLES pts, qry, k, dist, budget, ntree, pool, seen, best, ncmp, done
vars == <<pts, qry, k, dist, budget, ntree, pool, seen, best, ncmp, done>>
INF == 1000
FullBox == [d \in 1..2 |-> <<-INF, INF>>]
Root == [pts |-> P, box |-> FullBox, bound |-> 0]

(* tree t splits along the t-th most varying dimension (ties: lowest), at the
   median value                                                               *)
Varying(S) == {d \in 1..2 : Var(pts, S, d) > 0}
SplitDim(S, t) == LET V == Varying(S)
                      best1 == CHOOSE d \in V : \A e \in V : Var(pts, S, d) > Var(pts, S, e) \/ (Var(pts, S, d) = Var(pts, S, e) /\ d <= e)
                  IN IF t = 1 \/ Cardinality(V) = 1 THEN best1 ELSE CHOOSE d \in V : d # best1
Rank(S, d) == CHOOSE f \in [1..Cardinality(S) -> S] :
                 /\ \A a, b \in 1..Cardinality(S) : a # b => f[a] # f[b]
                 /\ \A a, b \in 1..Cardinality(S) : a < b => pts[f[a]][d] < pts[f[b]][d] \/ (pts[f[a]][d] = pts[f[b]][d] /\ f[a] < f[b])
Lower(S, d) == {Rank(S, d)[i] : i \in 1..((Cardinality(S) + 1) \div 2)}
Thr(S, d) == MaxOf({pts[i][d] : i \in Lower(S, d)})

Init == /\ pts \in [P -> Grid \X Grid] /\ qry \in QGrid \X QGrid /\ k \in Ks /\ dist \in Dists /\ budget \in Budgets
        /\ ntree \in Trees
        /\ pool = {[Root EXCEPT !.pts = P] @@ [tree |-> t] : t \in 1..ntree}
        /\ seen = {} /\ best = <<>> /\ ncmp = 0 /\ done = FALSE

D(i) == Dist(dist, pts[i], qry)
Insert(b, i) == LET c == Cardinality({a \in DOMAIN b : b[a].d <= D(i)})
                    m == SubSeq(b, 1, c) \o <<[i |-> i, d |-> D(i)]>> \o SubSeq(b, c + 1, Len(b))
                IN IF Len(m) > k THEN SubSeq(m, 1, k) ELSE m
RECURSIVE Scan(_, _, _, _)             \* compare the points of a leaf, in index order, until the budget ends
Scan(S, b, c, sn) ==
  LET T == S \ sn IN
  IF T = {} \/ (budget > 0 /\ c >= budget) THEN [best |-> b, ncmp |-> c, seen |-> sn]
  ELSE LET i == MinOf(T) IN Scan(S, Insert(b, i), c + 1, sn \cup {i})

(* descend from node n to a leaf, saving the far children that may matter     *)
RECURSIVE Descend(_, _)
Descend(n, saved) ==
  IF Cardinality(n.pts) <= 1 \/ AllEqual(pts, n.pts) THEN [leaf |-> n, saved |-> saved]
  ELSE LET d == SplitDim(n.pts, n.tree)  t == Thr(n.pts, d)  x == qry[d]
           lo == [n EXCEPT !.pts = Lower(n.pts, d), !.box = [n.box EXCEPT ![d] = <<n.box[d][1], t>>]]
           up == [n EXCEPT !.pts = n.pts \ Lower(n.pts, d), !.box = [n.box EXCEPT ![d] = <<t, n.box[d][2]>>]]
           far == IF x <= t THEN up ELSE lo
           near == IF x <= t THEN lo ELSE up
           out == IF x <= t THEN (IF x <= n.box[d][1] THEN Diff(dist, x, n.box[d][1]) ELSE 0)
                            ELSE (IF x > n.box[d][2] THEN Diff(dist, x, n.box[d][2]) ELSE 0)
           b == n.bound + Diff(dist, x, t) - out
           s2 == IF Len(best) < k \/ best[Len(best)].d > b THEN saved \cup {[far EXCEPT !.bound = b]} ELSE saved
       IN Descend(near, s2)
Within == budget = 0 \/ ncmp < budget
Visit == /\ ~done /\ Within /\ pool # {}
         /\ \E n \in pool :
            /\ \A m \in pool : n.bound <= m.bound
            /\ ~(Len(best) = k /\ best[k].d < n.bound)
            /\ LET r == Descend(n, {})  s == Scan(r.leaf.pts, best, ncmp, seen)
               IN pool' = (pool \ {n}) \cup r.saved /\ best' = s.best /\ ncmp' = s.ncmp /\ seen' = s.seen
         /\ UNCHANGED <<pts, qry, k, dist, budget, ntree, done>>
Prune == /\ ~done /\ Within /\ pool # {} /\ Len(best) = k
         /\ \A m \in pool : best[k].d < m.bound
         /\ done' = TRUE /\ UNCHANGED <<pts, qry, k, dist, budget, ntree, pool, seen, best, ncmp>>
Finish == /\ ~done /\ (~Within \/ pool = {}) /\ done' = TRUE
          /\ UNCHANGED <<pts, qry, k, dist, budget, ntree, pool, seen, best, ncmp>>
Next == Visit \/ Prune \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

DD == [i \in P |-> D(i)]
BoundsSound == \A n \in pool : \A i \in n.pts : n.bound <= D(i)
AlwaysSound == Sound(DD, best) /\ (budget > 0 => ncmp <= budget) /\ ncmp = Cardinality(seen)
ExactAtEnd == (done /\ (budget = 0 \/ budget >= N)) => Exact(DD, best, k)
Terminates == <>done
=============================================================================
