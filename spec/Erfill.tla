------------------------------- MODULE Erfill -------------------------------
(* Extremal regions: the pixels connected to a seed through pixels whose value
   is not above the seed's (not below it, for the dual region).  Images have
   any number of dimensions, all the 3^n - 1 surrounding pixels are neighbours. *)
EXTENDS Arrays
Adjacent(d, i, j) == i # j /\ \A n \in 1..Len(d) : Sub(d, i, n) - Sub(d, j, n) \in {-1, 0, 1}
Ball(d, i) == LET R == {i + Off(d, v, Len(d)) : v \in Steps(Len(d))} IN {j \in R : j >= 1 /\ j <= Size(d) /\ Adjacent(d, i, j)}
RECURSIVE Grow(_, _, _, _)
Grow(d, In, seen, front) ==
  IF front = {} THEN seen
  ELSE LET new == {j \in UNION {Ball(d, i) : i \in front} : j \in In} \ seen IN Grow(d, In, TLCEval(seen \cup new), TLCEval(new))
Region(x, d, s, dual) == LET In == TLCEval({i \in 1..Len(x) : IF dual THEN x[i] >= x[s] ELSE x[i] <= x[s]}) IN Grow(d, In, {s}, {s})
=============================================================================
