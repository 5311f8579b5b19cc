------------------------------ MODULE PairImpl ------------------------------
(* Sparse columns are walked together: the rows present in either are visited
   once, in order, and rows in neither contribute nothing.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Rows, Top
VARIABLES x, y, i, j, acc, pc
vars == <<x, y, i, j, acc, pc>>
V == (0 - Top)..Top
\* the rows stored by a column, which may include explicit zeros
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A k \in S : m <= k IN <<m>> \o Ordered(S \ {m})
Cols == [1..Rows -> {[v |-> k] : k \in V} \cup {[v |-> 99]}]
None == 99
Has(c) == {r \in 1..Rows : c[r].v # None}
At(c, r) == IF c[r].v = None THEN 0 ELSE c[r].v
Sx == Ordered(Has(x))
Sy == Ordered(Has(y))
Term(a, b) == (a - b) * (a - b) + 7 * (IF a < b THEN a ELSE b)
Init == x \in Cols /\ y \in Cols /\ i = 1 /\ j = 1 /\ acc = 0 /\ pc = "walk"
Row(s, k) == IF k <= Len(s) THEN s[k] ELSE Rows + 1
First == /\ pc = "walk" /\ i <= Len(Sx) /\ Row(Sx, i) < Row(Sy, j)
         /\ acc' = acc + Term(At(x, Sx[i]), 0) /\ i' = i + 1 /\ UNCHANGED <<x, y, j, pc>>
Second == /\ pc = "walk" /\ j <= Len(Sy) /\ Row(Sy, j) < Row(Sx, i)
          /\ acc' = acc + Term(0, At(y, Sy[j])) /\ j' = j + 1 /\ UNCHANGED <<x, y, i, pc>>
Both == /\ pc = "walk" /\ i <= Len(Sx) /\ j <= Len(Sy) /\ Sx[i] = Sy[j]
        /\ acc' = acc + Term(At(x, Sx[i]), At(y, Sy[j])) /\ i' = i + 1 /\ j' = j + 1 /\ UNCHANGED <<x, y, pc>>
Done == pc = "walk" /\ i > Len(Sx) /\ j > Len(Sy) /\ pc' = "done" /\ UNCHANGED <<x, y, i, j, acc>>
Next == First \/ Second \/ Both \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Total(_)
Total(r) == IF r = 0 THEN 0 ELSE Term(At(x, r), At(y, r)) + Total(r - 1)
Right == pc = "done" => acc = Total(Rows)
Ends == <>(pc = "done")
=============================================================================
