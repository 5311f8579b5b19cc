----------------------------- MODULE WarpTrace -----------------------------
(* Image warping: bilinear interpolation on a grid with its derivatives, affine
   maps and thin-plate splines.                                               *)
EXTENDS TraceKit, RealOps, Integers, Sequences, FiniteSets, TLC
VARIABLE l
ev == Trace[l]
Tol == "1e-11"
(* bilinear interpolation: img is a sequence of columns, xr and yr increasing   *)
Inside(g, x) == Len(g) > 0 /\ RLe(g[1], x) /\ RLe(x, g[Len(g)])
\* the cells that hold x: two at an inner sample
Cells(g, x) == {k \in 1..(Len(g) - 1) : RLe(g[k], x) /\ RLe(x, g[k + 1])}
Frac(g, k, x) == RDiv(RSub(x, g[k]), RSub(g[k + 1], g[k]))
Mix(a, b, t) == IF REq(t, 0) THEN a ELSE RAdd(RMul(RSub(1, t), a), RMul(t, b))
\* along one dimension: the values at both sides (the same for a single sample)
Cell(g, x) == CHOOSE k \in Cells(g, x) : TRUE
Ends(g, x) == IF Len(g) = 1 THEN [a |-> 1, b |-> 1, t |-> 0] ELSE LET k == Cell(g, x) IN [a |-> k, b |-> k + 1, t |-> Frac(g, k, x)]
Value(xr, yr, img, x, y) ==
  LET p == Ends(xr, x)  q == Ends(yr, y)
      z(j) == Mix(img[j][q.a], img[j][q.b], q.t)
  IN Mix(z(p.a), z(p.b), p.t)
\* slopes: any of those of the cells of the point
SlopesX(xr, yr, img, x, y) ==
  LET q == Ends(yr, y)  z(j) == Mix(img[j][q.a], img[j][q.b], q.t)
  IN {RDiv(RSub(z(k + 1), z(k)), RSub(xr[k + 1], xr[k])) : k \in Cells(xr, x)}
SlopesY(xr, yr, img, x, y) ==
  LET p == Ends(xr, x)  z(i) == Mix(img[p.a][i], img[p.b][i], p.t)
  IN {RDiv(RSub(z(k + 1), z(k)), RSub(yr[k + 1], yr[k])) : k \in Cells(yr, y)}
OneOf(v, S) == RFinite(v) /\ \E s \in S : RWithin(v, s, Tol)
WarpOk ==
  LET n == Len(ev.x)  layer == Len(ev.img) IN
  /\ Len(ev.j) = n * layer /\ (ev.d => Len(ev.jx) = n * layer /\ Len(ev.jy) = n * layer)
  /\ \A c \in 1..layer, i \in 1..n :
       LET k == i + n * (c - 1)  x == ev.x[i]  y == ev.y[i] IN
       IF Inside(ev.xr, x) /\ Inside(ev.yr, y)
       THEN /\ RFinite(ev.j[k]) /\ RWithin(ev.j[k], Value(ev.xr, ev.yr, ev.img[c], x, y), Tol)
            /\ ev.d /\ Len(ev.xr) > 1 => OneOf(ev.jx[k], SlopesX(ev.xr, ev.yr, ev.img[c], x, y))
            /\ ev.d /\ Len(ev.yr) > 1 => OneOf(ev.jy[k], SlopesY(ev.xr, ev.yr, ev.img[c], x, y))
       ELSE RNan(ev.j[k]) /\ (ev.d => RNan(ev.jx[k]) /\ RNan(ev.jy[k]))
(* affine maps: a by rows                                                     *)
AffineOk == LET n == Len(ev.t) IN
  \A q \in 1..Len(ev.pts), i \in 1..n : RNear(ev.out[q][i], RAdd(ev.t[i], RDot(ev.a[i], ev.pts[q])), Tol)
\* the derivative of A x + T by the columns of A and then T
DaffineOk == \A q \in 1..Len(ev.x) :
  /\ \A k \in 1..6 : REq(ev.dx[q][k], <<ev.x[q], 0, ev.y[q], 0, 1, 0>>[k])
  /\ \A k \in 1..6 : REq(ev.dy[q][k], <<0, ev.x[q], 0, ev.y[q], 0, 1>>[k])
(* thin-plate splines: U(r) = r^2 log r^2                                     *)
Sq(p, q) == LET a == RSub(p[1], q[1])  b == RSub(p[2], q[2]) IN RAdd(RMul(a, a), RMul(b, b))
U(p, q) == LET r == Sq(p, q) IN IF REq(r, 0) THEN 0 ELSE RMul(r, RLog(r))
\* d U(p, q) / d q along coordinate c
DU(p, q, c) == LET r == Sq(p, q) IN IF REq(r, 0) THEN 0 ELSE RMul(RMul(2, RSub(q[c], p[c])), RAdd(RLog(r), 1))
UOk == LET M == Len(ev.x)  N == Len(ev.y) IN
  /\ Len(ev.u) = M * N
  /\ \A i \in 1..M, j \in 1..N : RNear(ev.u[i + M * (j - 1)], U(ev.x[i], ev.y[j]), Tol)
  /\ ev.d => /\ ev.dims = <<M, 2, N>>
             /\ \A i \in 1..M, c \in 1..2, j \in 1..N : RNear(ev.du[i + M * (c - 1) + 2 * M * (j - 1)], DU(ev.x[i], ev.y[j], c), Tol)
\* the linear conditions of the basis phi of the control points y at point x
Homog(p) == <<1, p[1], p[2]>>
Row(y, k) == [i \in 1..Len(y) |-> U(y[k], y[i])]
BasisOk(y, x, phi) ==
  LET K == Len(y) IN
  /\ Len(phi) = K + 3
  /\ \A c \in 1..3 : RWithin(RDot([i \in 1..K |-> Homog(y[i])[c]], SubSeq(phi, 1, K)), Homog(x)[c], ev.tol)
  /\ \A k \in 1..K : RWithin(RAdd(RDot(Row(y, k), SubSeq(phi, 1, K)), RDot(Homog(y[k]), SubSeq(phi, K + 1, K + 3))), U(y[k], x), ev.tol)
\* the stiffness maps values at the control points to the bending coefficients:
\* y' s = 0 and  U s + [1 y] c = 1 for some c
Det(a, b, c) == RSub(RMul(RSub(b[1], a[1]), RSub(c[2], a[2])), RMul(RSub(c[1], a[1]), RSub(b[2], a[2])))
StiffOk(y, S) ==
  LET K == Len(y)
      col(j) == [i \in 1..K |-> S[j][i]]
      t == CHOOSE t \in (1..K) \X (1..K) \X (1..K) : ~RWithin(Det(y[t[1]], y[t[2]], y[t[3]]), 0, "1e-3")
      rest == TLCEval([j \in 1..K |-> [k \in 1..K |-> RSub(IF j = k THEN 1 ELSE 0, RDot(Row(y, k), col(j)))]])
      \* a function of the control points that is affine: interpolate it from three of them
      plane(v, p) == LET d == Det(y[t[1]], y[t[2]], y[t[3]]) IN
         RDiv(RAdd(RMul(v[t[1]], Det(p, y[t[2]], y[t[3]])), RAdd(RMul(v[t[2]], Det(y[t[1]], p, y[t[3]])), RMul(v[t[3]], Det(y[t[1]], y[t[2]], p)))), d)
  IN /\ \A j \in 1..K, c \in 1..3 : RWithin(RDot([i \in 1..K |-> Homog(y[i])[c]], col(j)), 0, ev.tol)
     /\ \A j, k \in 1..K : RWithin(rest[j][k], plane(rest[j], y[k]), ev.tol)
TpsOk == LET K == Len(ev.y) IN
  /\ ev.dims = <<K + 3, ev.m, ev.n>>
  /\ \A q \in 1..Len(ev.x) : BasisOk(ev.y, ev.x[q], ev.phi[q])
  /\ ev.hasS => StiffOk(ev.y, ev.s)
(* warping by a basis: the control points go to yp                             *)
WtpsOk == \A q \in 1..Len(ev.phi) : \A c \in 1..2 :
   RNear(ev.out[q][c], RDot([k \in 1..Len(ev.yp) |-> ev.yp[k][c]], SubSeq(ev.phi[q], 1, Len(ev.yp))), "1e-9")
InterpOk == \A k \in 1..Len(ev.y), c \in 1..2 : RWithin(ev.out[k][c], ev.yp[k][c], ev.tol)
(* the inverse: coef are the coefficients of the spline (a certificate, checked),
   out the points it must take to xp                                          *)
Coef(c) == [k \in 1..Len(ev.coef) |-> ev.coef[k][c]]
Spline(c, p) == LET K == Len(ev.y) IN RAdd(RDot([k \in 1..K |-> U(p, ev.y[k])], SubSeq(Coef(c), 1, K)), RDot(Homog(p), SubSeq(Coef(c), K + 1, K + 3)))
InverseOk ==
  LET K == Len(ev.y) IN
  /\ \A c \in 1..2, k \in 1..K : RWithin(Spline(c, ev.y[k]), ev.yp[k][c], ev.tol)
  /\ \A c \in 1..2, h \in 1..3 : RWithin(RDot([k \in 1..K |-> Homog(ev.y[k])[h]], SubSeq(Coef(c), 1, K)), 0, ev.tol)
  /\ \A q \in 1..Len(ev.xp), c \in 1..2 : RWithin(Spline(c, ev.out[q]), ev.xp[q][c], "1e-5")
Ok == CASE ev.e = "Warp" -> WarpOk
        [] ev.e = "Affine" -> AffineOk
        [] ev.e = "Daffine" -> DaffineOk
        [] ev.e = "Radial" -> UOk
        [] ev.e = "Tps" -> TpsOk
        [] ev.e = "Wtps" -> WtpsOk
        [] ev.e = "Interp" -> InterpOk
        [] ev.e = "Inverse" -> InverseOk
        [] ev.e = "Refuse" -> ev.refused
        [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
