----------------------------- MODULE DsiftTrace -----------------------------
EXTENDS TraceKit, Dsift
VARIABLE l
ev == Trace[l]
Num(s) == TLCEval([i \in DOMAIN s |-> RAdd(s[i], 0)])
Xs(e) == Starts(e.bounds[1], e.bounds[3], e.steps[1], e.geom[2], e.geom[4])
Ys(e) == Starts(e.bounds[2], e.bounds[4], e.steps[2], e.geom[3], e.geom[5])
Plan(e) == LET xs == TLCEval(Xs(e))  ys == TLCEval(Ys(e)) IN
           [i \in 1..(Len(xs) * Len(ys)) |-> <<xs[((i - 1) % Len(xs)) + 1], ys[(i - 1) \div Len(xs) + 1]>>]
\* the angle of a gradient is known to about 0.005
Delta(T) == RMul("0.0064", RDiv(T, TwoPi))
Descriptor(raw, T, d) ==
  LET n == TLCEval(RAdd(RSqrt(RDot(raw, raw)), "1.1920929e-7"))
      mass(i) == LET b == (i - 1) \div T IN RSum([t \in 1..T |-> raw[b * T + t]])
      e == TLCEval([i \in DOMAIN raw |-> TLCEval(RDiv(RMul(Delta(T), mass(i)), n))])
      en == RSqrt(RDot(e, e))
      u == TLCEval([i \in DOMAIN raw |-> TLCEval(RDiv(raw[i], n))])
      c == TLCEval([i \in DOMAIN u |-> TLCEval(RMin(u[i], "0.2"))])
      e1(i) == RAdd(e[i], RMul(u[i], en))
      n2 == TLCEval(RSqrt(RDot(c, c)))
      f(i) == RDiv(c[i], n2)
      tol(i) == RAdd("1e-4", RDiv(RAdd(e1(i), RMul(f(i), RMul(2, en))), n2))
  IN IF \A i \in DOMAIN raw : REq(raw[i], 0) THEN \A i \in DOMAIN d : REq(d[i], 0)
     ELSE RLt(n, "1e-2") \/ \A i \in DOMAIN d : RLe(0, d[i]) /\ RWithin(d[i], f(i), tol(i))
Layout(e) == LET p == Plan(e) IN e.num = Len(p) /\ e.size = e.geom[1] * e.geom[2] * e.geom[3]
ProcessOk ==
  LET p == TLCEval(Plan(ev))  T == ev.geom[1]  nx == ev.geom[2]  ny == ev.geom[3]  sx == ev.geom[4]  sy == ev.geom[5]
      O == Oriented(GradIm(Num(ev.im), ev.w, ev.h), T)
      Ker == Kernels(nx, ny, sx, sy, ev.win, ev.flat)
      area == (sx * (nx - 1) + 1) * (sy * (ny - 1) + 1)
  IN /\ Layout(ev) /\ Len(ev.frames) = Len(p) /\ Len(ev.d) = Len(p)
     /\ \A i \in DOMAIN p : LET raw == RawBins(O, ev.w, ev.h, p[i][1], p[i][2], T, nx, ny, sx, sy, Ker)  f == ev.frames[i] IN
          /\ RNear(f[1], RAdd(p[i][1], RMul("0.5", sx * (nx - 1))), "1e-6") /\ RNear(f[2], RAdd(p[i][2], RMul("0.5", sy * (ny - 1))), "1e-6")
          /\ RWithin(f[3], RDiv(RSum(raw), area), RMul("1e-4", RAdd(1, RDiv(RSum(raw), area))))
          /\ Len(ev.d[i]) = ev.size /\ Descriptor(raw, T, Num(ev.d[i]))
\* only the layout: big images, after any change of a setting
GridOk == Layout(ev)
TransOk == LET T == ev.geom[1]  nx == ev.geom[2]  ny == ev.geom[3] IN
  /\ Len(ev.to) = T * nx * ny /\ \A i \in DOMAIN ev.to : ev.to[Transposed(i, T, nx, ny)] = ev.from[i]
\* the transposed image has the transposed descriptors
MirrorOk == LET T == ev.geom[1]  nx == ev.geom[2]  ny == ev.geom[3] IN
  \A k \in DOMAIN ev.a : \A i \in DOMAIN ev.a[k] : RWithin(ev.a[k][i], ev.b[k][Transposed(i, T, nx, ny)], "0.05")
AgainOk == ev.fresh = ev.again
Ok == CASE ev.e = "Process" -> ProcessOk [] ev.e = "Grid" -> GridOk [] ev.e = "Trans" -> TransOk [] ev.e = "Mirror" -> MirrorOk
        [] ev.e = "Again" -> AgainOk [] OTHER -> FALSE
Go == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][Go]_l
=============================================================================
