------------------------------- MODULE CliImpl -------------------------------
(* How the programs go through their images: each image is read, its outputs
   are opened one at a time, written and closed; a failure abandons the image
   but not the ones after it.  Whatever fails where, the exit status tells
   whether every output of every image is complete, and nothing stays open.  *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, Kinds
Inputs == {"good", "unreadable"}
Devices == {"fine", "absent", "full"}            \* what a name leads to
VARIABLES input, dev, on, i, pc, open, exit, done, partial
vars == <<input, dev, on, i, pc, open, exit, done, partial>>
Images == 1..N
Bad(j) == input[j] = "unreadable" \/ \E k \in on : dev[j][k] # "fine"
Init == /\ input \in [Images -> Inputs] /\ dev \in [Images -> [Kinds -> Devices]]
        /\ on \in (SUBSET Kinds) \ {{}}
        /\ i = 1 /\ pc = "next" /\ open = {} /\ exit = 0 /\ done = {} /\ partial = {}
Keep == UNCHANGED <<input, dev, on>>
Start == pc = "next" /\ i <= N /\ input[i] = "good" /\ pc' = "open" /\ Keep /\ UNCHANGED <<i, open, exit, done, partial>>
Open == /\ pc = "open"
        /\ \E k \in on \ open : dev[i][k] # "absent" /\ open' = open \union {k} /\ partial' = partial \union {<<i, k>>}
        /\ pc' = (IF open' = on THEN "write" ELSE "open")
        /\ Keep /\ UNCHANGED <<i, exit, done>>
Fail == /\ \/ pc = "next" /\ i <= N /\ input[i] # "good"
           \/ pc = "open" /\ \E k \in on \ open : dev[i][k] = "absent"
        /\ exit' = 1 /\ open' = {} /\ i' = i + 1 /\ pc' = "next" /\ Keep /\ UNCHANGED <<done, partial>>
Write == pc = "write" /\ pc' = "close" /\ Keep /\ UNCHANGED <<i, open, exit, done, partial>>
(* closing is where a full device shows *)
Finish == /\ pc = "close"
          /\ done' = done \union {<<i, k>> : k \in {x \in open : dev[i][x] = "fine"}}
          /\ exit' = (IF \E k \in open : dev[i][k] = "full" THEN 1 ELSE exit)
          /\ open' = {} /\ i' = i + 1 /\ pc' = "next" /\ Keep /\ UNCHANGED partial
Next == Start \/ Open \/ Fail \/ Write \/ Finish
Spec == Init /\ [][Next]_vars
Over == pc = "next" /\ i = N + 1
ExitTells == Over => (exit = 1 <=> \E j \in Images : Bad(j))
GoodComplete == Over => \A j \in Images : ~ Bad(j) => \A k \in on : <<j, k>> \in done
SuccessMeansAll == Over /\ exit = 0 => done = Images \X on
NothingOpen == pc = "next" => open = {}
NoSurprise == \A x \in partial : x[2] \in on /\ input[x[1]] = "good"
GoesOn == i \in 1..(N + 1)
=============================================================================
