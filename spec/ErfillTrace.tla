----------------------------- MODULE ErfillTrace -----------------------------
EXTENDS TraceKit, Erfill
VARIABLE l
ev == Trace[l]
FillOk ==
  LET s == IF ev.er < 0 THEN -ev.er ELSE ev.er
  IN IF s < 1 \/ s > Len(ev.x) THEN ev.refused
     ELSE /\ ~ev.refused /\ ev.rc = "uint32"
          /\ LET R == TLCEval(Region(ev.x, ev.d, s, ev.er < 0))
             IN Len(ev.r) = Cardinality(R) /\ {ev.r[i] : i \in 1..Len(ev.r)} = R
Ok == CASE ev.e = "Fill" -> FillOk [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
