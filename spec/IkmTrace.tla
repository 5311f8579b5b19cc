------------------------------ MODULE IkmTrace ------------------------------
EXTENDS TraceKit, IntKmeans
VARIABLE l
ev == Trace[l]
ErrOk(r) == r = 0
TrainOk ==
  LET data == TLCEval(Vecs(ev.data, ev.M))  q == TLCEval(Vecs(ev.q, ev.M))
      c0 == TLCEval(Vecs(ev.c0, ev.M))  c == TLCEval(Vecs(ev.c, ev.M))
      distinct == Cardinality({data[j] : j \in 1..Len(data)})
      \* the pruning variant updates the centres before it tests the limit
      run == TLCEval(Lloyd(data, c0, ev.niters + (IF ev.elkan THEN 1 ELSE 0), <<>>, FALSE))
  IN /\ Len(c) = ev.K /\ ErrOk(ev.ret)
     /\ IF ev.rand THEN /\ \A k \in 1..ev.K : \E j \in 1..Len(data) : c0[k] = data[j]
                        /\ Cardinality({c0[k] : k \in 1..ev.K}) = IF distinct < ev.K THEN distinct ELSE ev.K
        ELSE ev.c0 = ev.given
     /\ \A j \in 1..Len(q) : ev.a0[j] \in NearestAll(q[j], c0) /\ ev.a[j] \in NearestAll(q[j], c) /\ ev.one[j] \in NearestAll(q[j], c)
     /\ (ev.elkan /\ run[2]) \/ c = run[1]
(* ---- the tree: a node holds centres and, above the last level, one child per
   centre; the points a node trains on are those its ancestors route to it ---- *)
RECURSIVE PathOk(_, _, _, _)
\* path (a sequence of centre numbers, -1 past an untrained node) of point x from this node
PathOk(n, x, path, M) ==
  IF path = <<>> THEN TRUE
  ELSE IF n.k = 0 THEN \A i \in 1..Len(path) : path[i] = -1
  ELSE /\ path[1] \in NearestAll(x, Vecs(n.c, M))
       /\ (Len(path) > 1 => PathOk(n.ch[path[1] + 1], x, Tail(path), M))
RECURSIVE NodeOk(_, _, _, _, _)
\* pts: the training points here with their paths, as <<point, rest of path>>
NodeOk(n, pts, lev, K, M) ==
  LET cs == TLCEval(Vecs(n.c, M))
      data == [j \in 1..Len(pts) |-> pts[j][1]]
      a == [j \in 1..Len(pts) |-> pts[j][2][1]]
  IN /\ n.k = (IF Len(pts) < K THEN Len(pts) ELSE K)
     /\ Len(cs) = n.k
     /\ (n.k > 0 /\ ev.niters >= 200 /\ ~(ev.elkan /\ Tied(data, cs))) =>
            /\ \A k \in 1..n.k : (\E j \in 1..Len(pts) : a[j] = k - 1) => Moved(data, a, cs)[k] = cs[k]
     /\ IF lev = ev.depth THEN n.ch = <<>>
        ELSE /\ Len(n.ch) = n.k
             /\ \A k \in 1..n.k : LET sub == SelectSeq(pts, LAMBDA p : p[2][1] = k - 1)
                                  IN NodeOk(n.ch[k], [j \in 1..Len(sub) |-> <<sub[j][1], Tail(sub[j][2])>>], lev + 1, K, M)
TreeOk ==
  LET data == TLCEval(Vecs(ev.data, ev.M))  q == TLCEval(Vecs(ev.q, ev.M))
      path(flat, j) == SubSeq(flat, (j - 1) * ev.depth + 1, j * ev.depth)
  IN /\ \A j \in 1..Len(q) : PathOk(ev.root, q[j], path(ev.aq, j), ev.M)
     /\ \A j \in 1..Len(data) : PathOk(ev.root, data[j], path(ev.ad, j), ev.M) /\ \A i \in 1..ev.depth : path(ev.ad, j)[i] >= 0
     /\ NodeOk(ev.root, [j \in 1..Len(data) |-> <<data[j], path(ev.ad, j)>>], 1, ev.K, ev.M)
Ok == CASE ev.e = "Train" -> TrainOk [] ev.e = "Tree" -> TreeOk [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
