------------------------------ MODULE VecImpl ------------------------------
(* The vectorised accumulation: whole groups of `lanes' components are added
   lane by lane, the lanes are summed, the remaining components are added one
   at a time.  Both loop bounds in use (with or without the last full group)
   give the sum over all components.  Also checked here: the definitions of
   Vec satisfy d(x,y) = k(x,x) + k(y,y) - 2 k(x,y), symmetry, d(x,x) = 0.      *)
EXTENDS Integers, Sequences, Vec
CONSTANTS MaxN, Vals
VARIABLES x, y, lanes, last, i, acc, s, pc
vars == <<x, y, lanes, last, i, acc, s, pc>>
Term2(k) == (x[k] - y[k]) * (x[k] - y[k])
Init == /\ x \in UNION {[1..n -> Vals] : n \in 0..MaxN} /\ y \in {[k \in DOMAIN x |-> x[Len(x) + 1 - k]]} \cup {[k \in DOMAIN x |-> (x[k] + k) % 3]}
        /\ lanes \in {2, 4} /\ last \in BOOLEAN
        /\ i = 0 /\ acc = [k \in 1..lanes |-> 0] /\ s = 0 /\ pc = "group"
More == IF last THEN i < Len(x) - lanes + 1 ELSE i < Len(x) - lanes
Group == pc = "group" /\ (IF More THEN /\ acc' = [k \in 1..lanes |-> acc[k] + Term2(i + k)] /\ i' = i + lanes /\ UNCHANGED <<s, pc>>
                          ELSE /\ pc' = "tail" /\ s' = (acc[1] + acc[2] + (IF lanes = 4 THEN acc[3] + acc[4] ELSE 0)) /\ UNCHANGED <<acc, i>>)
         /\ UNCHANGED <<x, y, lanes, last>>
OneByOne == pc = "tail" /\ i < Len(x) /\ s' = s + Term2(i + 1) /\ i' = i + 1 /\ UNCHANGED <<x, y, lanes, last, acc, pc>>
Next == Group \/ OneByOne
Spec == Init /\ [][Next]_vars
InBounds == i <= Len(x)
Done == pc = "tail" /\ i = Len(x)
Right == Done => RWithin(s, Cmp("l2", x, y, <<>>), 0)
Z == <<>>
Identities == (pc = "group" /\ i = 0) => \A t \in Dist : LET k == KernelOf(t) IN
   /\ RWithin(Cmp(t, x, y, Z), RSub(RAdd(Cmp(k, x, x, Z), Cmp(k, y, y, Z)), RMul(2, Cmp(k, x, y, Z))), "1e-9")
   /\ REq(Cmp(t, x, y, Z), Cmp(t, y, x, Z)) /\ RWithin(Cmp(t, x, x, Z), 0, "1e-9")
=============================================================================
