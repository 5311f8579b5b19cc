------------------------------ MODULE NumTrace ------------------------------
(* Scalar numeric kernels against what they are documented to compute.        *)
EXTENDS TraceKit, RealOps, BigOps, Integers, Sequences
VARIABLE l
ev == Trace[l]
Single == ev.type = 0
Eps == IF Single THEN "1.2e-7" ELSE "2.3e-16"
\* |r - e| <= k eps |e|
UlpClose(r, e, k) == RWithin(r, e, RMul(RMul(k, Eps), RAbs(e)))
Half(v) == RFloor(RAdd(v, "0.5"))
TwoPi == RMul(2, RPi)
\* the difference of two angles in turns, and its distance from a whole number
Turns(a, b) == RDiv(RSub(a, b), TwoPi)
SameAngle(a, b, t) == LET d == Turns(a, b) IN RWithin(d, RFloor(RAdd(d, "0.5")), RDiv(t, TwoPi))
FnOk(x, r) ==
  CASE ev.f = "floor" -> REq(r, RFloor(x))
    [] ev.f = "ceil"  -> REq(r, RNeg(RFloor(RNeg(x))))
    [] ev.f = "round" -> REq(r, IF RLt(x, 0) THEN RNeg(Half(RNeg(x))) ELSE Half(x))
    [] ev.f = "abs"   -> REq(r, RAbs(x))
    [] ev.f = "log2"  -> LET e == RDiv(RLog(x), RLog(2)) IN RWithin(r, e, RMul(RMul(4, Eps), RMax(1, RAbs(e))))
    [] ev.f = "sqrt"  -> UlpClose(r, RSqrt(x), 2)
    [] ev.f = "resqrt" -> RWithin(RMul(r, RSqrt(x)), 1, "6e-6")
    \* zero below 1e-8
    [] ev.f = "fsqrt" -> IF RLt(x, "1e-8") THEN REq(r, 0) ELSE RWithin(r, RSqrt(x), RMul("6e-6", RSqrt(x)))
    [] ev.f = "mod2pi" -> /\ RLe(0, r) /\ RLe(r, RAdd(TwoPi, IF Single THEN "5e-7" ELSE 0))
                          /\ SameAngle(r, x, RMul(RMul(Eps, 20), RAdd(7, RMul(RAbs(x), RAdd(1, RDiv(RAbs(x), 6))))))
    [] ev.f = "isnan" -> REq(r, IF RNan(x) THEN 1 ELSE 0)
    [] ev.f = "isinf" -> REq(r, IF ~RNan(x) /\ ~RFinite(x) THEN 1 ELSE 0)
AtanOk == \A k \in 1..Len(ev.x) : SameAngle(ev.r[k], RAtan2(ev.y[k], ev.x[k]), "0.00615")
SqrtOk == \A k \in 1..Len(ev.x) : LET x == ev.x[k] y == ev.r[k] IN y * y <= x /\ x < (y + 1) * (y + 1)
SqrtBigOk == \A k \in 1..Len(ev.x) : LET x == ev.x[k] y == ev.r[k] s == BMul(y, y) IN BLe(s, x) /\ BLe(x, BAdd(s, BAdd(y, y)))
(* ---- linear systems; a is the matrix by columns ---- *)
RECURSIVE Det(_, _, _, _)
\* determinant of the rows rs and columns c.. of a, by expansion along column c
Det(a, n, rs, c) == IF rs = <<>> THEN 1
  ELSE LET term[k \in 0..Len(rs)] == IF k = 0 THEN 0
             ELSE term[k-1] + (IF k % 2 = 1 THEN 1 ELSE -1) * a[rs[k] + n * (c - 1)]
                              * Det(a, n, SubSeq(rs, 1, k - 1) \o SubSeq(rs, k + 1, Len(rs)), c + 1)
       IN term[Len(rs)]
Largest(d) == d[CHOOSE k \in DOMAIN d : \A h \in DOMAIN d : RLe(d[h], d[k])]
SolveOk == LET n == ev.n  d == Det(ev.a, n, [k \in 1..n |-> k], 1) IN
  IF ev.real THEN
    \* entries next to the integers of a: solved up to rounding, however small some of them are
    /\ \A i, j \in 1..n : RWithin(ev.A[i][j], ev.a[i + n * (j - 1)], "1.1e-5")
    /\ d # 0 =>
       /\ ev.err = 0
       /\ \A c \in 1..Len(ev.b[1]) :
            LET xs == TLCEval([k \in 1..n |-> ev.x[k][c]])
                mag == RAdd(RMul(4 * n, Largest([k \in 1..n |-> RAbs(xs[k])])), Largest([k \in 1..n |-> RAbs(ev.b[k][c])]))
            IN \A i \in 1..n : RWithin(RDot(ev.A[i], xs), ev.b[i][c], RMul("1e-12", mag))
  ELSE IF d = 0 THEN ev.err # 0 /\ ev.err # -77
  ELSE /\ ev.err = 0
       /\ \A i \in 1..n, c \in 1..Len(ev.b[1]) :
            RNear(RDot([k \in 1..n |-> ev.a[i + n * (k - 1)]], [k \in 1..n |-> ev.x[k][c]]), ev.b[i][c], "1e-9")
\* column-major 2x2
At(m, i, j) == m[i + 2 * (j - 1)]
Orth(m) == \A i \in 1..2, j \in 1..2 : RWithin(RDot(<<At(m, 1, i), At(m, 2, i)>>, <<At(m, 1, j), At(m, 2, j)>>), IF i = j THEN 1 ELSE 0, "1e-12")
SvdOk == LET big == RMax(RMax(RAbs(ev.m[1]), RAbs(ev.m[2])), RMax(RAbs(ev.m[3]), RAbs(ev.m[4]))) IN
  /\ Orth(ev.u) /\ Orth(ev.v)
  /\ REq(ev.s[2], 0) /\ REq(ev.s[3], 0) /\ RLe(RAbs(ev.s[4]), RMul(RAbs(ev.s[1]), "1.000000000001"))
  /\ \A i \in 1..2, j \in 1..2 :
       RWithin(RAdd(RMul(RMul(At(ev.u, i, 1), ev.s[1]), At(ev.v, j, 1)), RMul(RMul(At(ev.u, i, 2), ev.s[4]), At(ev.v, j, 2))),
               At(ev.m, i, j), RMul(big, "1e-12"))
Ok == CASE ev.e = "Fn" -> (\A k \in 1..Len(ev.x) : FnOk(ev.x[k], ev.r[k])) [] ev.e = "Atan2" -> AtanOk
        [] ev.e = "Sqrt" -> SqrtOk [] ev.e = "SqrtBig" -> SqrtBigOk [] ev.e = "Solve" -> SolveOk [] ev.e = "Svd" -> SvdOk
        [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
