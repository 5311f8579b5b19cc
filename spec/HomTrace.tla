----------------------------- MODULE HomTrace -----------------------------
EXTENDS TraceKit, HomKer
VARIABLE l
ev == Trace[l]
Dim(n) == 2 * n + 1
\* features one after the other, of the given numbers
Close(a, b, big, tol) == IF RNan(b) THEN RNan(a) ELSE RWithin(a, b, RMul(tol, RAdd("1e-6", big)))
Big(s, period, g, x) == IF RNan(x) \/ RLe(Two(MaxExp), RAbs(x)) THEN 0 ELSE RSqrt(RMul(RPow(RAbs(x), g), RDiv(8, period)))
FeaturesOk(s, period, g, n, xs, fs, tol) ==
  /\ Len(fs) = Dim(n) * Len(xs)
  /\ \A q \in 1..Len(xs) : LET f == Feature(s, period, g, n, xs[q])  b == Big(s, period, g, xs[q])
                           IN \A c \in 1..Dim(n) : Close(fs[Dim(n) * (q - 1) + c], f[c], b, tol)
Period == IF RLe(ev.period, 0) THEN DefaultPeriod(ev.kernel, ev.window, ev.order) ELSE ev.period
MapOk ==
  \E s \in TLCEval(Samples(ev.kernel, ev.window, Period, ev.order)) :
     /\ FeaturesOk(s, Period, ev.gamma, ev.order, ev.xs, ev.fs, IF ev.single THEN "1e-6" ELSE "1e-7")
\* the point of it: inner products are the kernel, as well as the order allows
Error(n) == IF ev.kernel = "inters" THEN RDiv("0.18", RSqrt(n)) ELSE RAdd("0.005", RDiv("0.04", n))
Fs(q) == SubSeq(ev.fs, Dim(ev.order) * (q - 1) + 1, Dim(ev.order) * q)
Sign(x) == IF RLt(x, 0) THEN -1 ELSE 1
ApproxOk == (ev.order >= 1 /\ RLe(ev.period, 0)) =>
  \A p, q \in 1..Len(ev.xs) : LET x == ev.xs[p]  y == ev.xs[q]  a == RAbs(x)  b == RAbs(y) IN
     (RLe("1e-5", a) /\ RLt(a, 256) /\ RLe("1e-5", b) /\ RLt(b, 256) /\ RLe(RAbs(RLog(RDiv(a, b))), 1))
       => RWithin(RDot(Fs(p), Fs(q)), RMul(Sign(x) * Sign(y), Kernel(ev.kernel, ev.gamma, a, b)),
                  RMul(Error(ev.order), RPow(RMul(a, b), RDiv(ev.gamma, 2))))
Ok == CASE ev.e = "Map" -> /\ ev.gotOrder = ev.order /\ ev.gotDim = Dim(ev.order) /\ ev.gotKernel = ev.kernel /\ ev.gotWindow = ev.window
                           /\ ev.clean
                           /\ MapOk /\ ApproxOk
        [] ev.e = "Mex" -> /\ ev.outclass = (IF ev.single THEN "single" ELSE "double")
                           /\ ev.outsize = [ev.size EXCEPT ![1] = @ * Dim(ev.order)]
                           /\ MapOk /\ ApproxOk
        [] ev.e = "Refuse" -> ev.refused
        [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
