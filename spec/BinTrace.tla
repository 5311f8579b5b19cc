------------------------------ MODULE BinTrace ------------------------------
EXTENDS TraceKit, Arrays
VARIABLE l
ev == Trace[l]
BinsumOk ==
  IF ev.dim = 0
  THEN IF SumAllLegal(ev.h, ev.x, ev.b)
       THEN ~ev.refused /\ ev.cls = ev.rc /\ ev.rd = ev.hd /\ Same(ev.r, SumAll(ev.cls, ev.h, ev.x, ev.b))
       ELSE ev.refused
  ELSE IF SumDimLegal(ev.hd, ev.x, ev.xd, ev.b, ev.bd, ev.dim)
       THEN ~ev.refused /\ ev.cls = ev.rc /\ ev.rd = ev.hd /\ Same(ev.r, SumDim(ev.cls, ev.h, ev.hd, ev.x, ev.b, ev.bd, ev.dim))
       ELSE ev.refused
SearchOk == ev.rd = ev.xd /\ Same(ev.r, [i \in 1..Len(ev.x) |-> Bin(ev.b, ev.x[i])])
CummaxOk == IF ev.dim > Len(ev.xd) THEN ev.refused
            ELSE ~ev.refused /\ ev.rd = ev.xd /\ ev.rc = ev.cls /\ Same(ev.r, CumMax(ev.x, ev.xd, ev.dim))
LocalOk ==
  LET vec == ev.p = -1 /\ Len(ev.xd) = 2 /\ (ev.xd[1] = 1 \/ ev.xd[2] = 1)
      d == IF vec THEN <<Len(ev.x)>> ELSE ev.xd
      p == IF ev.p = -1 THEN Len(d) ELSE ev.p
      S == TLCEval(LocalMax(ev.x, d, p, ev.t))
  IN IF p > Len(ev.xd) THEN ev.refused
     ELSE ~ev.refused /\ Len(ev.r) = Cardinality(S) /\ {ev.r[i] : i \in 1..Len(ev.r)} = S /\ \A i \in 1..(Len(ev.r) - 1) : ev.r[i] < ev.r[i + 1]
WhistcOk ==
  LET k == IF ev.dim > 0 THEN ev.dim ELSE IF \A n \in 1..Len(ev.xd) : ev.xd[n] = 1 THEN 2 ELSE Along(ev.xd, 0)
  IN /\ \A n \in 1..MaxLen(ev.rd, ev.xd) : Dim(ev.rd, n) = (IF n = k THEN Len(ev.edges) ELSE Dim(ev.xd, n))
     /\ Same(ev.r, Whistc(ev.x, ev.xd, ev.w, ev.edges, k))
Ok == CASE ev.e = "Binsum" -> BinsumOk [] ev.e = "Search" -> SearchOk [] ev.e = "Cummax" -> CummaxOk
        [] ev.e = "Local" -> LocalOk [] ev.e = "Whistc" -> WhistcOk [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
