------------------------------ MODULE HashImpl ------------------------------
(* The sparse histogram: a table of K buckets probed with a second hash, then
   an overflow area chained from the bucket where the probing ended.  Every
   hash function over the labels and every order of insertion is tried; E
   empty buckets may follow the first K.                                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS K, E, Labels, Limit
VARIABLES hash, cnt, id, nxt, mult     \* mult: how often each label was added (the abstract histogram)
vars == <<hash, cnt, id, nxt, mult>>
Odd(x) == IF x % 2 = 0 THEN x + 1 ELSE x
Null == 0
Init == /\ hash \in [Labels -> 0..K-1] /\ mult = [x \in Labels |-> 0]
        /\ cnt = [i \in 1..K + E |-> 0] /\ id = [i \in 1..K + E |-> Null] /\ nxt = [i \in 1..K + E |-> 0]
Open(x, p) == id[p] = Null \/ id[p] = x
RECURSIVE Probe(_, _)
Probe(x, j) == LET p == ((hash[x] + j * Odd(hash[x])) % K) + 1 IN IF j = K \/ Open(x, p) THEN p ELSE Probe(x, j + 1)
RECURSIVE Chain(_, _)
Chain(x, p) == IF Open(x, p) \/ nxt[p] = 0 THEN p ELSE Chain(x, nxt[p])
Add == \E x \in Labels :
  LET p == Chain(x, Probe(x, 0))
      new == Len(id) + 1
  IN IF Open(x, p) THEN /\ cnt' = [cnt EXCEPT ![p] = @ + 1] /\ id' = [id EXCEPT ![p] = x] /\ UNCHANGED nxt
                        /\ mult' = [mult EXCEPT ![x] = @ + 1] /\ UNCHANGED hash
     ELSE /\ nxt' = Append([nxt EXCEPT ![p] = new], 0) /\ cnt' = Append(cnt, 1) /\ id' = Append(id, x)
          /\ mult' = [mult EXCEPT ![x] = @ + 1] /\ UNCHANGED hash
Next == Add
Spec == Init /\ [][Next]_vars
Bound == \A x \in Labels : mult[x] <= Limit
Find(x) == LET p == Chain(x, Probe(x, 0)) IN IF id[p] = x THEN p ELSE 0
Exact == /\ \A x \in Labels : IF mult[x] = 0 THEN Find(x) = 0 ELSE Find(x) > 0 /\ cnt[Find(x)] = mult[x]
         /\ \A i \in 1..Len(id) : id[i] # Null => Find(id[i]) = i        \* one bucket per label
         /\ \A i \in 1..Len(id) : id[i] = Null => cnt[i] = 0
=============================================================================
