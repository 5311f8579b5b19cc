------------------------------ MODULE LbpImpl ------------------------------
(* The construction of the mapping table (runs of j ones at position i,
   reversed when transposing) as a process over i, j; and the facts about the
   quantisation that users rely on, over all 256 patterns.                    *)
EXTENDS Lbp, TLC
VARIABLES tr, map, i, j
vars == <<tr, map, i, j>>
Pats == SUBSET Bits
Init == tr \in BOOLEAN /\ map = [p \in Pats |-> IF p = {} \/ p = Bits THEN 56 ELSE 57] /\ i = 0 /\ j = 1
Fill == i < 8 /\ LET ip == IF tr THEN (2 - i - (j - 1) + 16) % 8 ELSE i
                     str == {(ip + k) % 8 : k \in 0..(j-1)} IN
        /\ map' = [map EXCEPT ![str] = i * 7 + j - 1]
        /\ IF j < 7 THEN j' = j + 1 /\ i' = i ELSE j' = 1 /\ i' = i + 1
        /\ UNCHANGED tr
Next == Fill
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Built == i = 8 => \A p \in Pats : map[p] = Quant(p, tr)
Fresh == i < 8 => LET ip == IF tr THEN (2 - i - (j - 1) + 16) % 8 ELSE i IN map[{(ip + k) % 8 : k \in 0..(j-1)}] = 57
Facts == i = 8 => /\ {Bin(p) : p \in Pats} = 0..57
                  /\ \A p \in Pats : Bin(Mirror(p)) = FlipBin(Bin(p))
                  /\ \A q \in 0..55 : Cardinality({p \in Pats : Bin(p) = q}) = 1
                  /\ \A q \in 0..57 : FlipBin(FlipBin(q)) = q
Ends == <>(i = 8)
=============================================================================
