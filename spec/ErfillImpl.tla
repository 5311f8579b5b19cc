----------------------------- MODULE ErfillImpl -----------------------------
(* The fill: a list of members with a mark of the expanded ones; the list has
   room for as many members as the image has pixels.                           *)
EXTENDS Erfill
CONSTANTS Shape, Top
VARIABLES x, s, mem, done, mark
vars == <<x, s, mem, done, mark>>
D == IF Shape = 1 THEN <<3, 3>> ELSE IF Shape = 2 THEN <<2, 2, 2>> ELSE <<5, 2>>
Init == /\ x \in [1..Size(D) -> 0..Top] /\ s \in 1..Size(D) /\ mem = <<s>> /\ done = 0 /\ mark = {s}
Expand == /\ done < Len(mem)
          /\ LET i == mem[done + 1]
                 good == [j \in 1..Size(D) |-> IF Adjacent(D, i, j) /\ x[j] <= x[s] /\ j \notin mark THEN <<j>> ELSE <<>>]
                 RECURSIVE Cat(_)
                 Cat(j) == IF j = 0 THEN <<>> ELSE Cat(j - 1) \o good[j]
             IN mem' = mem \o Cat(Size(D)) /\ mark' = mark \cup {Cat(Size(D))[k] : k \in 1..Len(Cat(Size(D)))}
          /\ done' = done + 1 /\ UNCHANGED <<x, s>>
Spec == Init /\ [][Expand]_vars
Fits == Len(mem) <= Size(D)
Once == Cardinality({mem[i] : i \in 1..Len(mem)}) = Len(mem)
Full == done = Len(mem) => {mem[i] : i \in 1..Len(mem)} = Region(x, D, s, FALSE)
=============================================================================
