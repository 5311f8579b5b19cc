------------------------------ MODULE LiopRank ------------------------------
(* The index of an order pattern is built digit by digit, taking one out of the
   larger digits that follow: it is the position in lexicographic order, hence
   every pattern has a bin of its own.                                        *)
EXTENDS Liop
CONSTANT N
VARIABLES p, q, i, index
vars == <<p, q, i, index>>
Perms(n) == {s \in [1..n -> 0..(n - 1)] : Cardinality({s[k] : k \in 1..n}) = n}
Init == \E n \in 1..N : p \in Perms(n) /\ q = p /\ i = 1 /\ index = 0
Digit == /\ i <= Len(q) /\ i' = i + 1 /\ index' = index * (Len(q) - i + 1) + q[i]
         /\ q' = [j \in DOMAIN q |-> IF j > i /\ q[j] > q[i] THEN q[j] - 1 ELSE q[j]] /\ UNCHANGED p
Next == Digit
Spec == Init /\ [][Next]_vars
Less(a, b) == \E k \in DOMAIN a : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
Done == i > Len(p)
Lexicographic == Done => index = Rank(p) /\ index = Cardinality({s \in Perms(Len(p)) : Less(s, p)})
=============================================================================
