----------------------------- MODULE SameTrace -----------------------------
EXTENDS TraceKit, Same
VARIABLE l
ev == Trace[l]
T == l <= Len(Trace) /\ l' = l + 1 /\ ev.e = "Run" /\ Run(ev.k, ev.simd, ev.all, ev.ints)
TSpec == l = 1 /\ SInit /\ [][T]_<<l, svars>>
=============================================================================
