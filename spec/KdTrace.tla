------------------------------ MODULE KdTrace ------------------------------
(* Forests and queries of the real library against the same contract that
   KdSearch establishes for the algorithm.                                    *)
EXTENDS TraceKit, Kd
VARIABLES l, prev,          \* prev: last answer of the current limit ladder
          live              \* the searchers of the current forest, oldest first
ev == Trace[l]
Pts == ev.pts
DD == LET p == Pts q == ev.q IN [i \in DOMAIN p |-> Dist(ev.dist, p[i], q)]
Res == [a \in 1..ev.added |-> [i |-> ev.idx[a] + 1, d |-> ev.ds[a]]]
Padded == \A a \in (ev.added+1)..ev.k : ev.idx[a] = -1 /\ ev.ds[a] = -1
QueryOk == /\ Len(ev.idx) = ev.k /\ Len(ev.ds) = ev.k /\ ev.added <= ev.k
           /\ Exact(DD, Res, ev.k) /\ Padded
           /\ ev.cmp \in ev.added..Len(Pts)
LimitedOk == /\ Len(ev.idx) = ev.k /\ ev.added <= ev.k
             /\ LET D == DD n == Len(Pts) IN
                /\ Sound(D, Res) /\ Padded
                /\ ev.cmp <= ev.limit /\ ev.cmp <= n
                /\ ev.added = MinOf({ev.k, ev.cmp})
                /\ ev.cmp >= MinOf({ev.limit, ev.k, n})
                /\ ev.limit >= n => Exact(D, Res, ev.k)
(* raising the limit on the same forest and query never worsens the answer    *)
LadderOk == /\ \A a \in DOMAIN prev : a \in DOMAIN Res /\ Res[a].d <= prev[a].d

(* ---- construction ---- *)
IsLeaf(nd) == nd.lo < 0
RECURSIVE Slice(_, _)
Sub(s, a, b) == SubSeq(s, a + 1, b)           \* 0-based half open slice
Slice(t, n) == LET nd == t.nodes[n + 1] IN
               IF IsLeaf(nd) THEN <<-nd.lo - 1, -nd.up - 1>>
               ELSE <<Slice(t, nd.lo)[1], Slice(t, nd.up)[2]>>
Val(i, d) == Pts[i + 1][d + 1]
Members(t, sl) == {t.index[j] : j \in (sl[1]+1)..sl[2]}
NodeOk(t, n) ==
  LET nd == t.nodes[n + 1]  sl == Slice(t, n)  S == Members(t, sl) c == sl[2] - sl[1] IN
  IF IsLeaf(nd) THEN c >= 1 /\ (c > 1 => \A i, j \in S : Pts[i+1] = Pts[j+1])
  ELSE LET a == Slice(t, nd.lo)  b == Slice(t, nd.up)
           L == Members(t, a) U == Members(t, b) d == nd.dim
           S1 == {i + 1 : i \in S}
           sum == Sum(S1, LAMBDA i : Pts[i][d+1])
       IN /\ a[2] = b[1] /\ a[1] = sl[1] /\ a[2] > a[1] /\ b[2] > b[1]
          /\ t.nodes[nd.lo + 1].par = n /\ t.nodes[nd.up + 1].par = n
          /\ d \in 0..(ev.dim - 1)
          /\ \A i \in L : 1000 * Val(i, d) <= nd.thr + 1
          /\ \A i \in U : 1000 * Val(i, d) >= nd.thr - 1
          \* the splitting dimension is one of the most varying ones
          /\ Var(Pts, S1, d + 1) > 0
          /\ Cardinality({e \in 1..ev.dim : Var(Pts, S1, e) > Var(Pts, S1, d + 1)}) < MinOf({5, Len(ev.trees)})
          /\ IF ev.method = "median"
             THEN Cardinality(L) = (c + 1) \div 2 /\ nd.thr = 1000 * MaxOf({Val(i, d) : i \in L})
             ELSE Abs(nd.thr * c - 1000 * sum) <= c /\ \A i \in U : 1000 * Val(i, d) > nd.thr
RECURSIVE DepthOf(_, _)
DepthOf(t, n) == LET nd == t.nodes[n + 1] IN IF IsLeaf(nd) THEN 0 ELSE 1 + MaxOf({DepthOf(t, nd.lo), DepthOf(t, nd.up)})
RECURSIVE Reach(_, _)
Reach(t, n) == LET nd == t.nodes[n + 1] IN IF IsLeaf(nd) THEN {n} ELSE {n} \cup Reach(t, nd.lo) \cup Reach(t, nd.up)
(* children always come after their parent, so the recursions terminate       *)
Shape(t) == /\ t.num = Len(t.nodes) /\ t.num <= 2 * Len(Pts) - 1
            /\ \A n \in 0..(t.num - 1) : LET nd == t.nodes[n + 1] IN
                 \/ nd.lo < 0 /\ nd.up < nd.lo /\ -nd.up - 1 <= Len(Pts)
                 \/ nd.lo \in (n+1)..(t.num-1) /\ nd.up \in (n+1)..(t.num-1) /\ nd.lo # nd.up
            /\ Reach(t, 0) = 0..(t.num - 1)
            /\ {t.index[j] : j \in DOMAIN t.index} = 0..(Len(Pts) - 1) /\ Len(t.index) = Len(Pts)
            /\ Slice(t, 0) = <<0, Len(Pts)>>
BuildOk == /\ ev.same                         \* the same seed gave the same forest
           /\ \A x \in DOMAIN ev.trees : LET t == ev.trees[x] IN
                Shape(t) /\ t.depth = DepthOf(t, 0) /\ \A n \in 0..(t.num - 1) : NodeOk(t, n)

(* ---- the searchers of a forest: creation, deletion, the default one ---- *)
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
SearcherOk ==
  /\ live' = CASE ev.op = "forest" -> <<>>
               [] ev.op = "new"    -> Append(live, ev.id)
               [] ev.op = "delete" -> Without(live, ev.id)
               [] ev.op = "query"  -> IF live = <<>> THEN <<ev.id>> ELSE live
  /\ ev.list = live' /\ ev.same
  /\ ev.op \in {"new"} => \A k \in DOMAIN live : live[k] # ev.id

Init == l = 1 /\ prev = <<>> /\ live = <<>>
T == /\ l <= Len(Trace) /\ l' = l + 1
     /\ IF ev.e \in {"SNew", "SOp"} THEN SearcherOk ELSE live' = live
     /\ CASE ev.e \in {"SNew", "SOp"} -> prev' = <<>>
          [] ev.e = "Build"   -> BuildOk /\ prev' = <<>>
          [] ev.e = "Query"   -> QueryOk /\ prev' = <<>>
          [] ev.e = "Limited" -> LimitedOk /\ prev' = <<>>
          [] ev.e = "Ladder"  -> LimitedOk /\ (IF ev.begin THEN TRUE ELSE LadderOk) /\ prev' = Res
          [] ev.e = "Again"   -> ev.same /\ prev' = <<>>
          [] OTHER -> FALSE
TSpec == Init /\ [][T]_<<l, prev, live>>
=============================================================================
