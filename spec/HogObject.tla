----------------------------- MODULE HogObject -----------------------------
(* The life of a HOG object: an image or a polar field is put into it, replacing
   what was there, and features are extracted, any number of times.  The object
   keeps the votes and the norms of its cells in buffers that are reused when the
   next image has as many cells.  Each buffer is abstracted by the multiset of
   images whose votes (norms) are in it.                                      *)
EXTENDS Integers, Sequences, FiniteSets, Bags, TLC
CONSTANTS IMAGES, SHAPE, CLEARVOTES, CLEARNORMS
Shape == [i \in IMAGES |-> IF i \in SHAPE THEN 1 ELSE 2]
VARIABLES cur, shape, votes, norms, got, steps
vars == <<cur, shape, votes, norms, got, steps>>
Init == cur = 0 /\ shape = 0 /\ votes = EmptyBag /\ norms = EmptyBag /\ got = <<>> /\ steps = 0
One(i) == SetToBag({i})
Tick == steps < 5 /\ steps' = steps + 1
Put == \E i \in IMAGES : /\ Tick /\ cur' = i /\ shape' = Shape[i] /\ got' = <<>>
         /\ votes' = (IF shape # Shape[i] \/ CLEARVOTES THEN One(i) ELSE votes (+) One(i))
         /\ norms' = (IF shape # Shape[i] THEN EmptyBag ELSE EmptyBag)
Extract == /\ cur # 0 /\ Tick /\ norms' = (IF CLEARNORMS THEN votes ELSE norms (+) votes)
           /\ got' = <<votes, norms'>> /\ UNCHANGED <<cur, shape, votes>>
Next == Put \/ Extract
Spec == Init /\ [][Next]_vars
\* whatever is extracted is a function of the current image alone
Current == got # <<>> => got = <<One(cur), One(cur)>>
=============================================================================
