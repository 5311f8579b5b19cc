------------------------------ MODULE WarpImpl ------------------------------
(* Looking up the cell of a grid that holds a coordinate: bisection between the
   first and the last sample.  Coordinates are counted in quarters.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Size, Steps
VARIABLES grid, x, i, j, pc
vars == <<grid, x, i, j, pc>>
RECURSIVE From(_, _)
From(start, steps) == IF steps = <<>> THEN <<start>> ELSE <<start>> \o From(start + steps[1], SubSeq(steps, 2, Len(steps)))
Grids == UNION {{From(0, s) : s \in [1..n -> 1..Steps]} : n \in 0..(Size - 1)}
Last == grid[Len(grid)]
Init == grid \in Grids /\ x \in -1..(Steps * Size + 1) /\ i = 1 /\ j = Len(grid) /\ pc = "ends"
Before == pc = "ends" /\ x < grid[1] /\ i' = 0 /\ pc' = "done" /\ UNCHANGED <<grid, x, j>>
After == pc = "ends" /\ x >= Last /\ i' = Len(grid) /\ pc' = "done" /\ UNCHANGED <<grid, x, j>>
Enter == pc = "ends" /\ x >= grid[1] /\ x < Last /\ pc' = "bisect" /\ UNCHANGED <<grid, x, i, j>>
Halve == /\ pc = "bisect" /\ i < j - 1
         /\ LET p == (i + j) \div 2 IN IF x < grid[p] THEN j' = p /\ i' = i ELSE i' = p /\ j' = j
         /\ UNCHANGED <<grid, x, pc>>
Found == pc = "bisect" /\ i >= j - 1 /\ pc' = "done" /\ UNCHANGED <<grid, x, i, j>>
Next == Before \/ After \/ Enter \/ Halve \/ Found
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Inside == pc = "bisect" => grid[i] <= x /\ x < grid[j]
Right == pc = "done" => i = Cardinality({k \in 1..Len(grid) : grid[k] <= x})
Ends == <>(pc = "done")
=============================================================================
