------------------------------ MODULE HeapImpl ------------------------------
(* The implementation-shaped design: an array-embedded binary heap, whose
   steps (sift towards the root / towards the leaves) are those of the code.
   Checked: the heap order is an invariant, and every step refines PQ.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Ids, Prios

VARIABLES arr,     \* sequence of identities, arr[1] is the root
          pri,     \* priority of each queued identity
          last     \* identity returned by the last pop (0 = none)

vars == <<arr, pri, last>>

Parent(k) == k \div 2
Swap(a, j, k) == [a EXCEPT ![j] = a[k], ![k] = a[j]]

RECURSIVE SiftUp(_, _, _)
SiftUp(a, p, k) ==            \* the code's "down"
  IF k = 1 THEN a
  ELSE IF p[a[k]] < p[a[Parent(k)]] THEN SiftUp(Swap(a, k, Parent(k)), p, Parent(k)) ELSE a

RECURSIVE SiftDown(_, _, _, _)
SiftDown(a, p, n, k) ==       \* the code's "up"
  LET lc == 2*k  rc == 2*k + 1 IN
  IF lc > n THEN a
  ELSE IF rc > n THEN IF p[a[k]] > p[a[lc]] THEN Swap(a, k, lc) ELSE a
  ELSE LET c == IF p[a[lc]] < p[a[rc]] THEN lc ELSE rc IN
       IF p[a[k]] > p[a[c]] THEN SiftDown(Swap(a, k, c), p, n, c) ELSE a

Queued == {arr[k] : k \in 1..Len(arr)}

Init == arr = <<>> /\ pri = [i \in Ids |-> 0] /\ last = 0

DoPush(i, p) ==
  /\ i \notin Queued
  /\ pri' = [pri EXCEPT ![i] = p]
  /\ arr' = SiftUp(Append(arr, i), pri', Len(arr) + 1)
  /\ last' = 0

DoPop ==
  /\ Len(arr) > 0
  /\ LET n == Len(arr) - 1
         a == SubSeq(Swap(arr, 1, n + 1), 1, n)
     IN arr' = IF n > 1 THEN SiftDown(a, pri, n, 1) ELSE a
  /\ last' = arr[1]
  /\ pri' = [pri EXCEPT ![arr[1]] = 0]

DoUpdate(k, p) ==
  /\ k \in 1..Len(arr)
  /\ pri' = [pri EXCEPT ![arr[k]] = p]
  /\ LET a == SiftDown(arr, pri', Len(arr), k) IN arr' = SiftUp(a, pri', k)
  /\ last' = 0

Next == \/ \E i \in Ids, p \in Prios : DoPush(i, p)
        \/ DoPop
        \/ \E k \in 1..Cardinality(Ids), p \in Prios : DoUpdate(k, p)

Spec == Init /\ [][Next]_vars

HeapOrder == \A k \in 2..Len(arr) : pri[arr[Parent(k)]] <= pri[arr[k]]
NoDup == Cardinality(Queued) = Len(arr)

\* refinement: the queue the user sees
Q == INSTANCE PQ WITH q <- [i \in Queued |-> pri[i]]
Refines == [][ (\E i \in Ids, p \in Prios : Q!Push(i, p)) \/ (\E i \in Ids : Q!Pop(i) /\ last' = i)
               \/ (\E i \in Ids, p \in Prios : Q!Update(i, p)) ]_vars
=============================================================================
