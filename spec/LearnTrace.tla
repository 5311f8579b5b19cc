----------------------------- MODULE LearnTrace -----------------------------
(* The MATLAB functions of clustering, encoding, search and segmentation.
   Match: every output is the library's result on the same memory, the same
   parameters and the same random state; indexes count from one.
   Tree, Near, Path, Push, Links: what the documentation says of the returned
   structures, from the integer data alone.                                   *)
EXTENDS TraceKit, RealOps, Integers, Sequences, FiniteSets, TLC
VARIABLE l
ev == Trace[l]
OutOk(o) == /\ o.cls = o.want /\ o.size = o.wsize /\ Len(o.d) = Len(o.ref)
            /\ \A k \in 1..Len(o.d) : o.d[k] = o.ref[k]
MatchOk == \A k \in 1..Len(ev.outs) : OutOk(ev.outs[k])

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _, _)
SumTo(f(_), k, s) == IF k = 0 THEN s ELSE SumTo(f, k - 1, s + f(k))
Sum(f(_), n) == SumTo(f, n, 0)
Dist(l1, x, y) == IF l1 THEN Sum(LAMBDA k : Abs(x[k] - y[k]), Len(x)) ELSE Sum(LAMBDA k : (x[k] - y[k]) * (x[k] - y[k]), Len(x))

(* a tree of the forest: nodes from one, node 1 the root.  lo, up > 0 are children;
   lo < 0 is a leaf, whose data are dataIndex[-lo .. -up - 1]                       *)
Leaf(t, n) == t.lo[n] < 0
Range(t, n) == (-t.lo[n])..(-t.up[n] - 1)
RECURSIVE Points(_, _, _)
Points(t, n, fuel) ==
  IF fuel = 0 THEN {} ELSE
  IF Leaf(t, n) THEN { t.index[k] : k \in Range(t, n) }
  ELSE Points(t, t.lo[n], fuel - 1) \cup Points(t, t.up[n], fuel - 1)
TreeOk1(t, x) ==
  LET n == Len(t.lo)  D == Len(x[1])  N == Len(x)
      inner == { k \in 1..n : ~Leaf(t, k) }
      leaves == (1..n) \ inner
      kids == { t.lo[k] : k \in inner } \cup { t.up[k] : k \in inner } IN
  /\ n >= 1 /\ Len(t.up) = n /\ Len(t.dim) = n /\ Len(t.at) = n /\ Len(t.index) = N
  /\ { t.index[k] : k \in 1..N } = 1..N
  \* every node but the root has one parent
  /\ \A k \in inner : t.lo[k] \in 2..n /\ t.up[k] \in 2..n /\ t.lo[k] # t.up[k] /\ t.dim[k] \in 1..D
  /\ kids = 2..n /\ Cardinality(kids) = 2 * Cardinality(inner)
  \* the leaves split the permutation
  /\ \A k \in leaves : t.up[k] < 0 /\ Range(t, k) # {} /\ Range(t, k) \subseteq 1..N
  /\ \A k \in 1..N : Cardinality({ m \in leaves : k \in Range(t, m) }) = 1
  \* and the threshold the data of a node
  /\ \A k \in inner : /\ \A p \in Points(t, t.lo[k], n) : RLe(x[p][t.dim[k]], t.at[k])
                      /\ \A p \in Points(t, t.up[k], n) : RLe(t.at[k], x[p][t.dim[k]])
TreeOk ==
  /\ ev.dimension = Len(ev.x[1]) /\ ev.numData = Len(ev.x) /\ ev.distance = ev.want /\ Len(ev.trees) = ev.ntrees
  /\ \A k \in 1..Len(ev.trees) : TreeOk1(ev.trees[k], ev.x)
\* exact search: distinct points by increasing distance, and no other is closer
NearOk ==
  \A q \in 1..Len(ev.q) :
    LET a == ev.a[q]  d == ev.d[q]  m == Len(a)  N == Len(ev.x)
        best == { k \in 1..m : a[k] # 0 } IN
    /\ Cardinality(best) = (IF m < N THEN m ELSE N) /\ best = 1..Cardinality(best)
    /\ \A k \in best : a[k] \in 1..N /\ d[k] = Dist(ev.l1, ev.x[a[k]], ev.q[q])
    /\ \A k, j \in best : k < j => a[k] # a[j] /\ d[k] <= d[j]
    /\ \A p \in (1..N) \ { a[k] : k \in best } : \A k \in best : d[k] <= Dist(ev.l1, ev.x[p], ev.q[q])
\* quantisation: one of the nearest centres

PushOk == Len(ev.a) = Len(ev.x) /\ \A q \in 1..Len(ev.x) :
  ev.a[q] \in 1..Len(ev.c) /\ \A j \in 1..Len(ev.c) : Dist(FALSE, ev.c[ev.a[q]], ev.x[q]) <= Dist(FALSE, ev.c[j], ev.x[q])
\* down a tree: node = [c |-> centres, s |-> subtrees, none at the leaves]
RECURSIVE Down(_, _, _, _)
Down(t, x, p, k) ==
  \* a cluster without data has no centre: the path ends there
  \/ t.c = <<>>
  \/ /\ k <= Len(p) /\ p[k] \in 1..Len(t.c)
     /\ \A j \in 1..Len(t.c) : Dist(FALSE, t.c[p[k]], x) <= Dist(FALSE, t.c[j], x)
     /\ IF t.s = <<>> THEN k = Len(p) ELSE Len(t.s) = Len(t.c) /\ Down(t.s[p[k]], x, p, k + 1)
PathOk == /\ ev.k = ev.wk /\ ev.depth = ev.wdepth /\ Len(ev.p) = Len(ev.x)
          /\ \A q \in 1..Len(ev.x) : Len(ev.p[q]) = ev.depth /\ Down(ev.tree, ev.x[q], ev.p[q], 1)
(* quick shift: the link goes to a pixel of larger density within reach, its length
   the distance in position and value; a root links to itself at infinity           *)
LinksOk ==
  LET n == Len(ev.map) IN \A p \in 1..n :
    LET q == ev.map[p] IN
    /\ q \in 1..n
    /\ IF q = p THEN ev.gap[p] = "inf"
       ELSE /\ ev.gap[p] # "inf" /\ RLt(ev.density[p], ev.density[q])
            /\ RNear(RMul(ev.gap[p], ev.gap[p]), Dist(FALSE, ev.at[p], ev.at[q]), "1e-9")
            /\ RLe(ev.gap[p], RAdd(ev.max, "1e-9"))
Ok == CASE ev.e = "Match" -> MatchOk
        [] ev.e = "Tree" -> TreeOk
        [] ev.e = "Near" -> NearOk
        [] ev.e = "Push" -> PushOk
        [] ev.e = "Path" -> PathOk
        [] ev.e = "Links" -> LinksOk
        [] ev.e = "Refuse" -> ev.refused
        [] ev.e = "Error" -> FALSE    \* a valid call was refused
        [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
