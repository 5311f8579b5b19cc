--------------------------------- MODULE Kd ---------------------------------
(* Points are tuples of integers; distances are the exact integer values.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Diff(dist, a, b) == IF dist = "l1" THEN Abs(a - b) ELSE (a - b) * (a - b)
Dist(dist, p, q) == SumSeq([d \in DOMAIN p |-> Diff(dist, p[d], q[d])])
Range(s) == {s[i] : i \in DOMAIN s}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

(* res: sequence of [i, d], pos in 1..n.  Soundness of any answer ...         *)
Sound(D, res) == /\ \A a \in DOMAIN res : res[a].i \in DOMAIN D /\ res[a].d = D[res[a].i]
                 /\ \A a, b \in DOMAIN res : a < b => res[a].i # res[b].i /\ res[a].d <= res[b].d
(* ... and exactness: k smallest, nothing nearer is left out                  *)
Exact(D, res, k) == /\ Sound(D, res)
                    /\ Len(res) = (IF k < Len(D) THEN k ELSE Len(D))
                    /\ res # <<>> => \A i \in DOMAIN D : D[i] < res[Len(res)].d => \E a \in DOMAIN res : res[a].i = i

(* ---- splitting ---- *)
Sum(S, f(_)) == LET RECURSIVE g(_)
                    g(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + g(T \ {x})
                IN g(S)
(* |S|^2 times the variance of the points S of P along d *)
Var(P, S, d) == Cardinality(S) * Sum(S, LAMBDA i : P[i][d] * P[i][d]) - Sum(S, LAMBDA i : P[i][d]) * Sum(S, LAMBDA i : P[i][d])
AllEqual(P, S) == \A i, j \in S : P[i] = P[j]
=============================================================================
