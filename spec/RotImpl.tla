----------------------------- MODULE RotImpl -----------------------------
(* The rotations that map the axes onto themselves, reached by quarter turns:
   integer matrices.  On each, the two formulas of vl/rodrigues.c are inverses:
   the logarithm (with its branch for half turns, also about diagonals) has the
   rotation as exponential, and quarter turns are the exponentials of pi/2 times
   an axis.  Quarter(a) is applied on the left.                                *)
EXTENDS Rotation, FiniteSets
VARIABLES m, n
Quarter(a) == CASE a = 1 -> <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>
                [] a = 2 -> <<<<0, 0, 1>>, <<0, 1, 0>>, <<-1, 0, 0>>>>
                [] a = 3 -> <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
IMul(a, b) == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j]]])
Init == m = [i \in 1..3 |-> [j \in 1..3 |-> Id(i, j)]] /\ n = 0
Turn(a) == n < 6 /\ m' = IMul(Quarter(a), m) /\ n' = n + 1
Next == \E a \in I3 : Turn(a)
Spec == Init /\ [][Next]_<<m, n>>
Rotates == IsRotation(m, 0)
Inverse == IsLog(Log(m), m, "1e-12")
OnlyHalf == (REq(CosOf(m), -1) <=> RLt(RSub(RPi, "1e-9"), Norm(Log(m))))
Quarters == \A a \in I3 : CloseMat(Exp([i \in 1..3 |-> IF i = a THEN RDiv(RPi, 2) ELSE 0]), Quarter(a), "1e-14")
\* the derivative is that of a function: symmetric differences agree with it
Slope == LET w == Log(m)  e == "1e-4" IN
  \A k \in I3 : LET p == Exp([w EXCEPT ![k] = RAdd(@, e)])  q == Exp([w EXCEPT ![k] = RSub(@, e)])
                IN CloseMat(Mat(LAMBDA i, j : RDiv(RSub(p[i][j], q[i][j]), RMul(2, e))), DExp(w, k), "1e-7")
=============================================================================
