----------------------------- MODULE LiopTrace -----------------------------
EXTENDS TraceKit, Liop
VARIABLE l
ev == Trace[l]
Num(s) == TLCEval([i \in DOMAIN s |-> RAdd(s[i], 0)])
Sum(S, f(_)) == LET RECURSIVE go(_)
                    go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + go(T \ {x})
                IN go(S)
ProcessOk ==
  LET im == Num(ev.im)  disc == TLCEval(Disc(ev.L, ev.radius))  N == Len(disc)
      v == TLCEval([i \in 1..N |-> im[disc[i]]])
      \* how many pixels are darker: the place in the order, if no other is as bright
      place == TLCEval([i \in 1..N |-> Cardinality({j \in 1..N : RLt(v[j], v[i])})])
      distinct == Cardinality({place[i] : i \in 1..N}) = N
      area == N \div ev.m
      bin(i) == IF area = 0 THEN 0 ELSE LET b == place[i] \div area IN IF b < ev.m THEN b ELSE ev.m - 1
      lo == v[CHOOSE i \in 1..N : \A j \in 1..N : RLe(v[i], v[j])]
      hi == v[CHOOSE i \in 1..N : \A j \in 1..N : RLe(v[j], v[i])]
      range == RSub(hi, lo)
      theta == TLCEval(IF RLt(ev.theta, 0) THEN RMul(RNeg(ev.theta), range) ELSE ev.theta)
      eps == RMul("1e-6", ev.top)
      votes == TLCEval([i \in 1..N |-> TLCEval(Vote(Samples(im, ev.L, disc[i], ev.n, ev.radius), theta, eps))])
      F == Fact(ev.n)
      key == TLCEval([i \in 1..N |-> bin(i) * F + votes[i].q + 1])
      H == TLCEval([k \in 1..(ev.m * F) |-> LET w(i) == votes[i].w IN Sum({i \in 1..N : key[i] = k /\ votes[i].w > 0}, w)])
      norm == RSqrt(RDot(H, H))
  IN /\ ev.dim = ev.m * F /\ Len(ev.d) = ev.dim
     /\ \A k \in DOMAIN ev.d : RLe(0, ev.d[k])
     /\ RWithin(RDot(ev.d, ev.d), 1, "1e-4") \/ \A k \in DOMAIN ev.d : REq(ev.d[k], 0)
     /\ \/ N < ev.m \/ ~distinct \/ \E i \in 1..N : votes[i].vague
        \/ IF REq(norm, 0) THEN \A k \in DOMAIN H : REq(ev.d[k], 0) ELSE \A k \in DOMAIN H : RWithin(ev.d[k], RDiv(H[k], norm), "1e-5")
\* brighter and darker images by a power of two, with the threshold, are the same
ScaleOk == ev.a = ev.b /\ ev.a = ev.c
SettingsOk == ev.n = ev.got[1] /\ ev.m = ev.got[2] /\ ev.got[3] = ev.m * Fact(ev.n) /\ REq(ev.radius, ev.gotr) /\ REq(ev.theta, ev.gott) /\ RWithin(ev.theta0, RDiv(-5, 255), "1e-7")
BasicOk == ev.n = 4 /\ ev.m = 6 /\ ev.dim = 144 /\ REq(ev.radius, 6)
Ok == CASE ev.e = "Process" -> ProcessOk [] ev.e = "Scale" -> ScaleOk [] ev.e = "Settings" -> SettingsOk [] ev.e = "Basic" -> BasicOk
        [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
