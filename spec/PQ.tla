--------------------------------- MODULE PQ ---------------------------------
(* Abstract priority queue.  q maps the identity of every queued element to
   its priority.  This is what a user of the generic heap relies on.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLE q

Empty == <<>>                       \* the function with empty domain
Minimal(f, i) == \A j \in DOMAIN f : f[i] <= f[j]
Drop(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
With(f, i, p) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN p ELSE f[j]]

PQInit == q = Empty
Push(i, p)   == i \notin DOMAIN q /\ q' = With(q, i, p)
Pop(i)       == i \in DOMAIN q /\ Minimal(q, i) /\ q' = Drop(q, i)
Update(i, p) == i \in DOMAIN q /\ q' = [q EXCEPT ![i] = p]
=============================================================================
