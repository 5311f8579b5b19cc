---------------------------- MODULE IntHistImpl ----------------------------
(* The integral image is accumulated in place in one scan; the histogram of a
   box takes four of its elements.  Every small mass map is tried.             *)
EXTENDS Integers, Sequences
CONSTANTS W, H, Top
VARIABLES src, a, n              \* a starts as a copy of src; n pixels done, W is the fast dimension
P == (0..W-1) \X (0..H-1)
Init == src \in [P -> 0..Top] /\ a = src /\ n = 0
Scan == LET x == n % W  y == n \div W
            v == IF y = 0 THEN (IF x = 0 THEN a[<<0, 0>>] ELSE a[<<x - 1, 0>>] + a[<<x, 0>>])
                 ELSE IF x = 0 THEN a[<<0, y - 1>>] + a[<<0, y>>]
                 ELSE (a[<<x, y - 1>>] - a[<<x - 1, y - 1>>]) + a[<<x - 1, y>>] + a[<<x, y>>]
        IN /\ n < W * H /\ a' = [a EXCEPT ![<<x, y>>] = v] /\ n' = n + 1 /\ UNCHANGED src
Next == Scan
Spec == Init /\ [][Next]_<<src, a, n>>
RECURSIVE Add(_)
Add(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN src[p] + Add(S \ {p})
Box(x1, y1, x2, y2) ==
  ((a[<<x2, y2>>] - (IF x1 > 0 THEN a[<<x1 - 1, y2>>] ELSE 0)) + (IF x1 > 0 /\ y1 > 0 THEN a[<<x1 - 1, y1 - 1>>] ELSE 0))
  - (IF y1 > 0 THEN a[<<x2, y1 - 1>>] ELSE 0)
Right == n = W * H =>
  \A p \in P, q \in P : (p[1] <= q[1] /\ p[2] <= q[2]) =>
     Box(p[1], p[2], q[1], q[2]) = Add({r \in P : r[1] >= p[1] /\ r[1] <= q[1] /\ r[2] >= p[2] /\ r[2] <= q[2]})
=============================================================================
