----------------------------- MODULE HeapTrace -----------------------------
(* Does the real heap behave as the abstract queue?  Every event carries the
   array contents after the operation (identities for handle heaps, values
   for plain arrays).                                                        *)
EXTENDS PQ, TraceKit
VARIABLE l
ev == Trace[l]
Step == l <= Len(Trace) /\ l' = l + 1

Range(s) == {s[k] : k \in DOMAIN s}
\* the array holds exactly the queued elements, and its first element is minimal
HandleView ==
  /\ Len(ev.arr) = Cardinality(DOMAIN q')
  /\ Range(ev.arr) = DOMAIN q'
  /\ ev.n = Cardinality(DOMAIN q')
  /\ ev.posok
  /\ ev.n > 0 => Minimal(q', ev.arr[1])
Count(s, v) == Cardinality({k \in DOMAIN s : s[k] = v})
ValueView ==
  /\ ev.n = Cardinality(DOMAIN q')
  /\ Len(ev.arr) = ev.n
  /\ \A v \in Range(ev.arr) \cup {q'[i] : i \in DOMAIN q'} :
        Count(ev.arr, v) = Cardinality({i \in DOMAIN q' : q'[i] = v})
  /\ ev.n > 0 => \A i \in DOMAIN q' : ev.arr[1] <= q'[i]
View == IF ev.kind = "handle" THEN HandleView ELSE ValueView

TInit == PQInit /\ l = 1
TNew    == Step /\ ev.e = "New"    /\ q' = Empty
TPush   == Step /\ ev.e = "Push"   /\ Push(ev.id, ev.p) /\ View
TUpdate == Step /\ ev.e = "Update" /\ Update(ev.id, ev.p) /\ View
TPop    == Step /\ ev.e = "Pop"
           /\ IF ev.kind = "handle" THEN Pop(ev.id)
              ELSE \E i \in DOMAIN q : q[i] = ev.v /\ (\A j \in DOMAIN q : q[j] = ev.v => i <= j) /\ Pop(i)
           /\ View
TNext == TNew \/ TPush \/ TUpdate \/ TPop
TSpec == TInit /\ [][TNext]_<<q, l>>
=============================================================================
