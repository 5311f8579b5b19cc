----------------------------- MODULE ImageTrace -----------------------------
(* Results of the real image operators against the definitions of Image.      *)
EXTENDS TraceKit, Image, RealOps
VARIABLE l
ev == Trace[l]
I == ev.img
OW == 0..(W(I) - 1)
Shape(o, dh) == Len(o) = dh /\ \A y \in 1..dh : Len(o[y]) = W(I)
ConvOk == LET dh == DHeight(H(I), ev.step) IN
          /\ Shape(ev.out, dh) /\ ev.out_guard
          /\ \A j \in 0..(dh-1), x \in OW : At(ev.out, x, j) = Conv(I, ev.f, ev.fb, ev.fe, ev.pad, x, ev.step * j)
\* out is 1000 n^2 times the result, rounded
TriOk == LET dh == DHeight(H(I), ev.step) IN
          /\ Shape(ev.out, dh) /\ ev.out_guard
          /\ \A j \in 0..(dh-1), x \in OW : LET t == 1000 * Tri(I, ev.n, ev.pad, x, ev.step * j) IN
               Abs(At(ev.out, x, j) - t) <= 20 + Abs(t) \div 5000
IntegralOk == /\ Shape(ev.out, H(I)) /\ ev.out_guard
              /\ \A y \in 0..(H(I)-1), x \in OW : At(ev.out, x, y) = Integral(I, x, y)
GradOk == /\ Shape(ev.a, H(I)) /\ Shape(ev.b, H(I)) /\ ev.a_guard /\ ev.b_guard
          /\ \A y \in 0..(H(I)-1), x \in OW : At(ev.a, x, y) = GradX2(I, x, y) /\ At(ev.b, x, y) = GradY2(I, x, y)
TwoPi == RMul(2, RPi)
\* an angle error modulo a full turn
AngleClose(a, b, t) == LET d == RAbs(RSub(a, b)) IN RLe(d, t) \/ RLe(RAbs(RSub(d, TwoPi)), t)
PolarOk == /\ Shape(ev.a, H(I)) /\ Shape(ev.b, H(I)) /\ ev.a_guard /\ ev.b_guard
           /\ \A y \in 0..(H(I)-1), x \in OW :
                LET gx == RDiv(GradX2(I, x, y), 2) gy == RDiv(GradY2(I, x, y), 2)
                    m == RSqrt(RAdd(RMul(gx, gx), RMul(gy, gy)))
                    a == RDiv(At(ev.b, x, y), 10000) IN
                /\ RNear(RDiv(At(ev.a, x, y), 10000), m, "3e-4")
                /\ RLe(0, a) /\ RLe(a, RAdd(TwoPi, "1e-4"))
                /\ (RLt(0, m) => AngleClose(a, RAtan2(gy, gx), "0.0063"))
\* separable Gaussian with continuity padding, cut at three sigmas
Gauss(s, k) == LET t == RDiv(k, s) IN RExp(RMul("-0.5", RMul(t, t)))
SmoothOk ==
  LET half(s) == -RInt(RNeg(RMul(s, 3)))          \* ceiling
      hx == half(ev.sx) hy == half(ev.sy)
      wt(s, n) == LET g == [k \in 1..(2*n+1) |-> Gauss(s, k - n - 1)] m == RSum(g) IN TLCEval([k \in 1..(2*n+1) |-> RDiv(g[k], m)])
      gx == wt(ev.sx, hx)  gy == wt(ev.sy, hy)
      col == TLCEval([y \in 0..(H(I)-1) |-> [x \in OW |-> RDot(gy, [k \in 1..(2*hy+1) |-> At(I, x, Clamp(y + k - hy - 1, 0, H(I)-1))])]])
  IN /\ Shape(ev.out, H(I)) /\ ev.out_guard
     /\ \A y \in 0..(H(I)-1), x \in OW :
          RNear(RDiv(At(ev.out, x, y), 10000), RDot(gx, [k \in 1..(2*hx+1) |-> col[y][Clamp(x + k - hx - 1, 0, W(I)-1)]]), "2e-4")

(* ---- distance transform ---- *)
N == Len(I[1])  M == Len(I)
Parab(c, o, d) == LET t == RSub(d, o) IN RMul(c, RMul(t, t))
\* the cost of source u for sample x
Cost(y, u, x) == RAdd(I[y][u], Parab(ev.c, ev.o, x - u))
RECURSIVE MinR(_, _)
MinR(f(_), n) == IF n = 1 THEN f(1) ELSE RMin(f(n), MinR(f, n - 1))
Best(y, x) == LET g(u) == Cost(y, u, x) IN MinR(g, N)
Id(y, u) == 10 * ((y - 1) * ev.rs + (u - 1) * ev.cs) + 3
Tol == IF ev.type = 1 THEN "1e-9" ELSE "5e-5"
DT1Ok == /\ Len(ev.out) = M
         /\ \A y \in 1..M, x \in 1..N : LET b == Best(y, x) IN
              /\ RNear(ev.out[y][x], b, Tol)
              /\ IF ev.useidx THEN \E u \in 1..N : ev.idx[y][x] = Id(y, u) /\ RNear(Cost(y, u, x), b, Tol)
                 ELSE ev.idx[y][x] = Id(y, x)
DT2Ok == LET R == TLCEval([y \in 1..M |-> [x \in 1..N |-> Best(y, x)]]) IN
         \A y \in 1..M, x \in 1..N :
           LET g(v) == RAdd(R[v][x], Parab(ev.c2, ev.o2, y - v))  b == MinR(g, M) IN
             /\ RNear(ev.out[y][x], b, Tol)
             /\ IF ev.useidx THEN \E v \in 1..M, u \in 1..N : ev.idx[y][x] = Id(v, u)
                                     /\ RNear(RAdd(Cost(v, u, x), Parab(ev.c2, ev.o2, y - v)), b, Tol)
                ELSE ev.idx[y][x] = Id(y, x)
Ok == CASE ev.e = "Conv" -> ConvOk [] ev.e = "Tri" -> TriOk [] ev.e = "Integral" -> IntegralOk
        [] ev.e = "Grad" -> GradOk [] ev.e = "Polar" -> PolarOk [] ev.e = "Smooth" -> SmoothOk
        [] ev.e = "DT1" -> DT1Ok [] ev.e = "DT2" -> DT2Ok [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
