------------------------------ MODULE CliTrace ------------------------------
EXTENDS TraceKit, Cli
VARIABLE l
Ok == LET ev == Trace[l] IN CASE ev.e = "Run" -> RunOk(ev) [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
