------------------------------ MODULE VecTrace ------------------------------
EXTENDS TraceKit, Vec
VARIABLE l
ev == Trace[l]
Rel == IF ev.type = 1 THEN "4e-15" ELSE "1.5e-6"
Close(r, t, x, y, z) == LET d == Cmp(t, x, y, z) IN RWithin(r, d, RMul(RMul(Rel, RDiv(Len(x) + 4, 8)), Scale(t, x, y, z)))
CmpOk == Close(ev.r, ev.t, ev.x, ev.y, ev.z)
\* result (xi, yi) is stored at xi + numDataX * yi
PairsOk == /\ Len(ev.r) = Len(ev.xs) * Len(ev.ys)
           /\ \A i \in 1..Len(ev.xs), j \in 1..Len(ev.ys) : Close(ev.r[i + Len(ev.xs) * (j - 1)], ev.t, ev.xs[i], ev.ys[j], <<>>)
Ok == CASE ev.e = "Cmp" -> CmpOk [] ev.e = "Pairs" -> PairsOk [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
