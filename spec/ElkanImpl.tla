----------------------------- MODULE ElkanImpl -----------------------------
(* The triangle-inequality pruning of vl/ikmeans_elkan.tc on one-dimensional
   data: squared lower bounds l (per point and centre), squared upper bounds u
   (per point), both loosened when the centres move and tightened on demand.
   Checked: the bounds are bounds, and after every reassignment pass each point
   is at a nearest centre, so the centres are those of the plain algorithm
   wherever no ties occur.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, K, VALS, LIMIT
VARIABLES data, cen, asgn, lo, up, stale, pass, pc, done
vars == <<data, cen, asgn, lo, up, stale, pass, pc, done>>
X == 1..N
C == 0..(K - 1)
Sq(a) == a * a
d2(x, c) == Sq(data[x] - cen[c])
RECURSIVE ISqrt(_, _)
ISqrt(n, r) == IF Sq(r + 1) > n THEN r ELSE ISqrt(n, r + 1)
Rt(n) == ISqrt(n, 0)
Inter(a, b, cs) == Sq(cs[a] - cs[b]) \div 4
\* the first assignment: <<centre, distance, lower bounds>>
RECURSIVE First(_, _, _, _, _)
First(x, c, cx, best, lw) ==
  IF c = K THEN <<cx, best, lw>>
  ELSE IF Inter(cx, c, cen) < best
       THEN LET d == d2(x, c) lw2 == [lw EXCEPT ![c] = d] IN IF d < best THEN First(x, c + 1, c, d, lw2) ELSE First(x, c + 1, cx, best, lw2)
       ELSE First(x, c + 1, cx, best, lw)
Init == /\ data \in [X -> VALS] /\ (\A x \in 1..(N - 1) : data[x] <= data[x + 1]) /\ cen \in [C -> VALS] \* the order of the data is immaterial
        /\ \E F \in {[x \in X |-> First(x, 1, 0, d2(x, 0), [c \in C |-> IF c = 0 THEN d2(x, 0) ELSE 0])]} :
             asgn = [x \in X |-> F[x][1]] /\ up = [x \in X |-> F[x][2]] /\ lo = [x \in X |-> F[x][3]]
        /\ stale = [x \in X |-> FALSE] /\ pass = 0 /\ pc = "move" /\ done = FALSE
RECURSIVE SumD(_, _)
SumD(S, dummy) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN data[x] + SumD(S \ {x}, dummy)
MoveCentres ==
  /\ pc = "move"
  /\ LET mem(c) == {x \in X : asgn[x] = c}
         new == [c \in C |-> IF mem(c) = {} THEN cen[c] ELSE SumD(mem(c), 0) \div Cardinality(mem(c))]
         sh == [c \in C |-> Sq(new[c] - cen[c])]
     IN /\ cen' = new
        /\ lo' = [x \in X |-> [c \in C |-> IF sh[c] < lo[x][c] THEN lo[x][c] + sh[c] - 2 * (Rt(lo[x][c]) + 1) * (Rt(sh[c]) + 1) ELSE 0]]
        /\ up' = [x \in X |-> up[x] + sh[asgn[x]] + 2 * (Rt(up[x]) + 1) * (Rt(sh[asgn[x]]) + 1)]
        /\ stale' = [x \in X |-> TRUE]
  /\ pc' = "assign" /\ UNCHANGED <<data, asgn, pass, done>>
\* one point against the remaining centres; st = <<cx, ux, stale, lw, changed>>
RECURSIVE Scan(_, _, _)
Scan(x, c, st) ==
  IF c = K THEN st
  ELSE LET cx == st[1] ux == st[2] lw == st[4]
           Skip(u) == c = cx \/ u <= lw[c] \/ u <= Inter(c, cx, cen)
       IN IF Skip(ux) THEN Scan(x, c + 1, st)
          ELSE LET u2 == IF st[3] THEN d2(x, cx) ELSE ux IN
               IF Skip(u2) THEN Scan(x, c + 1, <<cx, u2, FALSE, lw, st[5]>>)
               ELSE LET d == d2(x, c) lw2 == [lw EXCEPT ![c] = d] IN
                    IF d < u2 THEN Scan(x, c + 1, <<c, d, FALSE, lw2, TRUE>>) ELSE Scan(x, c + 1, <<cx, u2, FALSE, lw2, st[5]>>)
Half(c) == LET S == {Inter(c, b, cen) : b \in C \ {c}} IN IF S = {} THEN 100000 ELSE (CHOOSE m \in S : \A n \in S : m <= n) \div 4
Reassign ==
  /\ pc = "assign"
  /\ LET R == [x \in X |-> IF up[x] <= Half(asgn[x]) THEN <<asgn[x], up[x], stale[x], lo[x], FALSE>> ELSE Scan(x, 0, <<asgn[x], up[x], stale[x], lo[x], FALSE>>)]
         ch == \E x \in X : R[x][5]
     IN /\ asgn' = [x \in X |-> R[x][1]] /\ up' = [x \in X |-> R[x][2]] /\ stale' = [x \in X |-> R[x][3]] /\ lo' = [x \in X |-> R[x][4]]
        /\ done' = ~ch
        /\ pc' = (IF ~ch \/ pass = LIMIT THEN "end" ELSE "move") /\ pass' = pass + 1
  /\ UNCHANGED <<data, cen>>
Next == MoveCentres \/ Reassign \/ (pc = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Bounds == \A x \in X : up[x] >= d2(x, asgn[x]) /\ \A c \in C : lo[x][c] <= d2(x, c)
NearestNow == pc \in {"move", "end"} => \A x \in X : \A c \in C : d2(x, asgn[x]) <= d2(x, c)
FixedPoint == (pc = "end" /\ done) => \A c \in C : LET M == {x \in X : asgn[x] = c} IN M # {} => cen[c] = SumD(M, 0) \div Cardinality(M)
=============================================================================
