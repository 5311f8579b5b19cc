---------------------------- MODULE MomentsImpl ----------------------------
(* The one-pass update of a mode of a mixture: threads take points in any
   order, accumulate masses, sums and squared deviations from the old mean,
   and merge them in any order; the variance about the new mean is obtained by
   a correction.  Integers: masses m, values x, old mean o; all is compared
   after multiplying by the mass.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, THREADS, VALS, MASSES
VARIABLES x, m, old, left, acc, merged, total
vars == <<x, m, old, left, acc, merged, total>>
Zero == [w |-> 0, s |-> 0, q |-> 0]
Plus(a, b) == [w |-> a.w + b.w, s |-> a.s + b.s, q |-> a.q + b.q]
Part(n) == [w |-> m[n], s |-> m[n] * x[n], q |-> m[n] * ((x[n] - old) * (x[n] - old))]
Init == /\ x \in [1..N -> VALS] /\ m \in [1..N -> MASSES] /\ old \in VALS
        /\ left = 1..N /\ acc = [t \in THREADS |-> Zero] /\ merged = {} /\ total = Zero
Take(t) == /\ t \notin merged /\ \E n \in left : left' = left \ {n} /\ acc' = [acc EXCEPT ![t] = Plus(@, Part(n))]
           /\ UNCHANGED <<x, m, old, merged, total>>
Merge(t) == /\ left = {} /\ t \notin merged /\ merged' = merged \cup {t} /\ total' = Plus(total, acc[t])
            /\ UNCHANGED <<x, m, old, left, acc>>
Next == \E t \in THREADS : Take(t) \/ Merge(t)
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN f[n] + Sum(f, S \ {n})
W == Sum(m, 1..N)
S1 == Sum([n \in 1..N |-> m[n] * x[n]], 1..N)
\* W^3 times the variance about the new mean S1 / W
True3 == Sum([n \in 1..N |-> m[n] * ((W * x[n] - S1) * (W * x[n] - S1))], 1..N)
Done == merged = THREADS
Correct == Done => /\ total.w = W /\ total.s = S1
                   \* (q / W - (S1 / W - old)^2) times W^3
                   /\ (W * W) * total.q - W * ((S1 - W * old) * (S1 - W * old)) = True3
                   /\ True3 >= 0
=============================================================================
