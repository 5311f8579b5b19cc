------------------------------ MODULE MserImpl ------------------------------
(* Building the forest: pixels enter by increasing value, each becomes a root
   and is joined with the trees of its neighbours already present.  When both
   roots have the value of the new pixel either may become the parent (the
   implementation decides by height), otherwise the newer one.  At the end the
   pixels whose parent is brighter, and the root, are exactly one seed per
   extremal region, with the right area, whatever choices were made.          *)
EXTENDS Mser, TLC
CONSTANTS Shapes, Levels
VARIABLES img, dims, order, i, todo, parent, area
vars == <<img, dims, order, i, todo, parent, area>>
None == -1
TheShapes == {<<5>>, <<2, 2>>}
Size(d) == IF Len(d) = 1 THEN d[1] ELSE d[1] * d[2]
\* stable order by value
Before(im, a, b) == Val(im, a) < Val(im, b) \/ (Val(im, a) = Val(im, b) /\ a < b)
Order(im) == [k \in 1..Len(im) |-> CHOOSE p \in Pixels(im) : Cardinality({q \in Pixels(im) : Before(im, q, p)}) = k - 1]
Init == /\ dims \in Shapes /\ img \in [1..Size(dims) -> Levels] /\ order = Order(img) /\ i = 0 /\ todo = {}
        /\ parent = [p \in Pixels(img) |-> None] /\ area = [p \in Pixels(img) |-> 0]
RECURSIVE Root(_, _)
Root(f, p) == IF f[p] = p THEN p ELSE Root(f, f[p])
Cur == order[i]
Enter == /\ todo = {} /\ i < Len(img) /\ i' = i + 1
         /\ LET p == order[i + 1] IN
            /\ parent' = [parent EXCEPT ![p] = p] /\ area' = [area EXCEPT ![p] = 1]
            /\ todo' = {q \in Pixels(img) : Adjacent(p, q, dims) /\ parent[q] # None}
         /\ UNCHANGED <<img, dims, order>>
Join == /\ todo # {}
        /\ LET q == CHOOSE q \in todo : \A z \in todo : q <= z
               r == Root(parent, Cur) n == Root(parent, q) IN
           /\ todo' = todo \ {q}
           /\ IF r = n THEN UNCHANGED <<parent, area>>
              ELSE \E low \in (IF Val(img, n) = Val(img, Cur) THEN {r, n} ELSE {n}) :
                     LET high == IF low = r THEN n ELSE r IN
                     parent' = [parent EXCEPT ![low] = high] /\ area' = [area EXCEPT ![high] = @ + area[low]]
        /\ UNCHANGED <<img, dims, order, i>>
Next == Enter \/ Join
Spec == Init /\ [][Next]_vars
Done == i = Len(img) /\ todo = {}
Extremal == {p \in Pixels(img) : parent[p] = p \/ Val(img, parent[p]) > Val(img, p)}
Right == Done => LET S == Seeded(img, dims) IN
   /\ {S[p] : p \in Extremal} = {S[p] : p \in Pixels(img)}
   /\ \A p, q \in Extremal : S[p] = S[q] => p = q
   /\ \A p \in Extremal : area[p] = Cardinality(S[p])
Monotone == \A p \in Pixels(img) : parent[p] # None => Val(img, parent[p]) >= Val(img, p)
=============================================================================
