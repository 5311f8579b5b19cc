----------------------------- MODULE RotTrace -----------------------------
(* vl_rodrigues and vl_irodrigues (and their MEX files, vl_hat and vl_ihat).
   Matrices come by columns; derivatives as the documented 9x3 and 3x9 ones.  *)
EXTENDS TraceKit, Rotation
VARIABLE l
ev == Trace[l]
Rows(s, o) == Mat(LAMBDA i, j : s[o + i + 3 * (j - 1)])
V(s, o) == <<s[o + 1], s[o + 2], s[o + 3]>>
(* below 1e-6 the rotation may be taken for the identity *)
ExpTol(t) == IF RLt(t, "1.01e-6") THEN "1.1e-6" ELSE RAdd("1e-14", RDiv("1e-15", t))
ExpOk(w, m, hasD, dm) ==
  LET tol == ExpTol(Norm(w)) IN
  /\ CloseMat(m, Exp(w), tol)
  /\ hasD => \A k \in I3 : CloseMat(Rows(dm, 9 * (k - 1)), DExp(w, k), RMul(4, tol))
(* how exact the logarithm is: the angle comes from the trace, and close to a
   half turn only the axis is found                                           *)
LogTol(m) == LET s == SinOf(m) IN
  IF RLt(0, CosOf(m)) THEN "1e-11" ELSE IF RLt(s, "5e-7") THEN "3e-6" ELSE IF RLt(s, "2e-6") THEN "1e-2"
  ELSE RAdd("1e-12", RDiv("1e-14", RMul(s, s)))
LogOk(m, w, hasD, dw) ==
  LET s == SinOf(m) IN
  /\ IsRotation(m, "1e-11")                 \* what is asked
  /\ \A i \in I3 : RFinite(w[i])
  /\ IsLog(w, m, LogTol(m))
  \* composed with the derivative of the exponential: the identity (half turns have none)
  /\ (hasD /\ (RLt(0, CosOf(m)) \/ RLt("1e-3", s))) =>
       LET J == TLCEval([k \in 1..3 |-> LET d == DExp(w, k) IN [q \in 1..9 |-> d[1 + ((q - 1) % 3)][1 + ((q - 1) \div 3)]]])
       IN \A i, k \in I3 : RWithin(RDot([q \in 1..9 |-> dw[i + 3 * (q - 1)]], J[k]), Id(i, k),
                                   IF RLt(0, CosOf(m)) THEN "2e-6" ELSE RAdd("1e-9", RDiv("1e-14", RMul(RMul(s, s), RMul(s, s)))))
Ok == CASE ev.e = "Exp" -> ExpOk(ev.w, Rows(ev.m, 0), ev.d, ev.dm)
        [] ev.e = "Log" -> LogOk(Rows(ev.m, 0), ev.w, ev.d, ev.dw)
        [] ev.e = "MexExp" -> /\ Len(ev.m) = 9 * ev.n /\ Len(ev.w) = 3 * ev.n /\ (ev.d => Len(ev.dm) = 27 * ev.n)
                              /\ ev.size = (IF ev.n = 1 THEN <<3, 3>> ELSE <<3, 3, ev.n>>)
                              /\ \A q \in 0..(ev.n - 1) : ExpOk(V(ev.w, 3 * q), Rows(ev.m, 9 * q), ev.d, IF ev.d THEN SubSeq(ev.dm, 27 * q + 1, 27 * q + 27) ELSE <<>>)
        [] ev.e = "MexLog" -> /\ Len(ev.w) = 3 * ev.n /\ Len(ev.m) = 9 * ev.n /\ (ev.d => Len(ev.dw) = 27 * ev.n)
                              /\ \A q \in 0..(ev.n - 1) : LogOk(Rows(ev.m, 9 * q), V(ev.w, 3 * q), ev.d, IF ev.d THEN SubSeq(ev.dw, 27 * q + 1, 27 * q + 27) ELSE <<>>)
        [] ev.e = "Hat" -> CloseMat(Rows(ev.m, 0), Hat(ev.w), 0) /\ \A i \in I3 : REq(ev.back[i], ev.w[i])
        [] ev.e = "Refuse" -> ev.refused
        [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
