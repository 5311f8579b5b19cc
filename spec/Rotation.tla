----------------------------- MODULE Rotation -----------------------------
(* Rotations of space and their logarithms.  Vectors are sequences of three
   numbers, matrices sequences of three rows.  The exponential of hat(w) is the
   rotation by |w| radians about w (Rodrigues' formula); its logarithm is the
   shortest such w, up to its sign when the angle is a half turn.             *)
EXTENDS RealOps, Integers, Sequences, TLC
I3 == {1, 2, 3}
Mat(f(_, _)) == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> f(i, j)]])
Id(i, j) == IF i = j THEN 1 ELSE 0
Hat(w) == <<<<0, RNeg(w[3]), w[2]>>, <<w[3], 0, RNeg(w[1])>>, <<RNeg(w[2]), w[1], 0>>>>
Col(m, j) == <<m[1][j], m[2][j], m[3][j]>>
Mul(a, b) == Mat(LAMBDA i, j : RDot(a[i], Col(b, j)))
Flip(a) == Mat(LAMBDA i, j : a[j][i])
Apply(a, v) == <<RDot(a[1], v), RDot(a[2], v), RDot(a[3], v)>>
Det3(m) == RDot(m[1], <<RSub(RMul(m[2][2], m[3][3]), RMul(m[2][3], m[3][2])),
                        RSub(RMul(m[2][3], m[3][1]), RMul(m[2][1], m[3][3])),
                        RSub(RMul(m[2][1], m[3][2]), RMul(m[2][2], m[3][1]))>>)
CloseMat(a, b, tol) == \A i, j \in I3 : RWithin(a[i][j], b[i][j], tol)
IsRotation(m, tol) == CloseMat(Mul(m, Flip(m)), Mat(Id), tol) /\ RWithin(Det3(m), 1, tol)
Norm(w) == RSqrt(RDot(w, w))
\* sin t / t, (1 - cos t) / t^2 and (t - sin t) / t^3
SinOver(t) == IF RLt(t, "1e-3") THEN RSub(1, RDiv(RMul(t, t), 6)) ELSE RDiv(RSin(t), t)
CosOver(t) == LET h == SinOver(RDiv(t, 2)) IN RDiv(RMul(h, h), 2)
RestOver(t) == IF RLt(t, "1e-1") THEN LET q == RMul(t, t) IN RSub(RDiv(1, 6), RMul(q, RSub(RDiv(1, 120), RDiv(q, 5040))))
               ELSE RDiv(RSub(1, SinOver(t)), RMul(t, t))
Exp(w) == LET t == Norm(w)  h == Hat(w)  hh == Mul(h, h)  s == SinOver(t)  c == CosOver(t)
          IN Mat(LAMBDA i, j : RAdd(Id(i, j), RAdd(RMul(s, h[i][j]), RMul(c, hh[i][j]))))
(* the derivative with respect to the k-th component: a small change v of w
   turns further by J(w) v                                                    *)
DExp(w, k) ==
  LET t == Norm(w)  h == Hat(w)  hh == Mul(h, h)  c == CosOver(t)  r == RestOver(t)
      e == [i \in 1..3 |-> RAdd(Id(i, k), RAdd(RMul(c, h[i][k]), RMul(r, hh[i][k])))]
  IN Mul(Hat(e), Exp(w))
\* the sine and cosine of the angle of a rotation
Axial(m) == <<RDiv(RSub(m[3][2], m[2][3]), 2), RDiv(RSub(m[1][3], m[3][1]), 2), RDiv(RSub(m[2][1], m[1][2]), 2)>>
SinOf(m) == Norm(Axial(m))
CosOf(m) == RDiv(RSub(RAdd(m[1][1], RAdd(m[2][2], m[3][3])), 1), 2)
IsLog(w, m, tol) == RLe(Norm(w), RAdd(RPi, RMax("1e-7", tol))) /\ CloseMat(Exp(w), m, tol)
(* a logarithm: along the axial vector, except about a half turn, where the
   axis is read from the symmetric part                                       *)
Small == "1e-6"
Root(x) == RSqrt(RMax(0, x))
Log(m) ==
  LET s == SinOf(m)  c == CosOf(m)  t == RAtan2(s, c)  a == Axial(m)
      sym == Mat(LAMBDA i, j : RAdd(RDiv(RAdd(m[i][j], m[j][i]), 2), Id(i, j)))   \* 2 n n' at a half turn
      d == [i \in 1..3 |-> Root(RDiv(sym[i][i], 2))]
      b == CHOOSE i \in I3 : \A j \in I3 : RLe(d[j], d[i])
      n == [i \in 1..3 |-> IF i = b \/ RLe(0, sym[b][i]) THEN d[i] ELSE RNeg(d[i])]
  IN IF RLt(s, Small) /\ RLt(c, 0) THEN [i \in 1..3 |-> RMul(t, n[i])]
     ELSE LET q == IF RLt(s, Small) THEN 1 ELSE RDiv(t, s) IN [i \in 1..3 |-> RMul(q, a[i])]
=============================================================================
