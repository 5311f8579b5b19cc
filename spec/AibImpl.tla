------------------------------- MODULE AibImpl -------------------------------
(* vl/aib.c's nearest-neighbour bookkeeping, over an arbitrary loss table: every
   entry remembers its closest entry and the loss of merging with it; a merge
   puts the union in the lower slot, moves the last entry into the freed slot,
   and refreshes only the entries whose closest one disappeared.  The loss of
   merging with the new cluster is unconstrained, so the refinement holds for
   any information measure.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NV, VALS, INF
VARIABLES n, D, null, beta, bidx, which, pc, last
vars == <<n, D, null, beta, bidx, which, pc, last>>
E == 0..(n - 1)
Pair(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
All == {p \in (0..(NV-1)) \X (0..(NV-1)) : p[1] < p[2]}
Init == /\ n = NV /\ D \in [All -> VALS]
        /\ null \in SUBSET (0..(NV-1))
        /\ beta = [i \in 0..(NV-1) |-> INF] /\ bidx \in [0..(NV-1) -> {0, NV - 1}]
        /\ which = [k \in 1..NV |-> k - 1] /\ pc = "update" /\ last = <<>>
\* one scan of update_beta: entry a against entry b
RECURSIVE Upd(_, _, _, _)
Upd(w, b, be, bi) ==
  IF w = <<>> THEN <<be, bi>>
  ELSE LET a == w[1] IN
    IF b = n THEN Upd(SubSeq(w, 2, Len(w)), 0, be, bi)
    ELSE IF a = b \/ a \in null \/ b \in null THEN Upd(w, b + 1, be, bi)
    ELSE LET d == D[Pair(a, b)]
             be1 == IF d < be[a] THEN [be EXCEPT ![a] = d] ELSE be
             bi1 == IF d < be[a] THEN [bi EXCEPT ![a] = b] ELSE bi
             be2 == IF d < be1[b] THEN [be1 EXCEPT ![b] = d] ELSE be1
             bi2 == IF d < be1[b] THEN [bi1 EXCEPT ![b] = a] ELSE bi1
         IN Upd(w, b + 1, be2, bi2)
Update == /\ pc = "update"
          /\ LET r == Upd(which, 0, beta, bidx) IN beta' = r[1] /\ bidx' = r[2]
          /\ pc' = "pick" /\ UNCHANGED <<n, D, null, which, last>>
Best == CHOOSE i \in E : (\A j \in E : beta[i] <= beta[j]) /\ \A j \in E : beta[j] = beta[i] => i <= j
Pick == /\ pc = "pick" /\ beta[Best] # INF /\ n > 1
        /\ LET p == Pair(Best, bidx[Best])  i == p[1]  j == p[2]  z == n - 1
               mv(f) == [f EXCEPT ![j] = f[z]]
               old(k) == IF k = j THEN z ELSE k                       \* which entry sits in slot k now
               bi0 == mv(bidx)  be0 == mv([beta EXCEPT ![i] = INF])
               E2 == 0..(n - 2)
               stale == {k \in E2 : bi0[k] = i \/ bi0[k] = j}
           IN /\ n' = n - 1
              /\ last' = <<D[p]>>
              /\ \E new \in [E2 \ {i} -> VALS] :
                   D' = [q \in All |-> IF q[1] \in E2 /\ q[2] \in E2
                           THEN IF q[1] = i THEN new[q[2]] ELSE IF q[2] = i THEN new[q[1]] ELSE D[Pair(old(q[1]), old(q[2]))]
                           ELSE D[q]]
              /\ null' = {k \in E2 : old(k) \in null}
              /\ bidx' = [k \in 0..(NV-1) |-> IF k \in stale THEN 0 ELSE IF k \in E2 /\ bi0[k] = z THEN j ELSE bi0[k]]
              /\ beta' = [k \in 0..(NV-1) |-> IF k \in stale THEN INF ELSE be0[k]]
              /\ which' = LET RECURSIVE Lst(_) Lst(k) == IF k = n - 1 THEN <<>> ELSE (IF k \in stale THEN <<k>> ELSE <<>>) \o Lst(k + 1) IN Lst(0)
              /\ pc' = "update"
Done == /\ pc = "pick" /\ (beta[Best] = INF \/ n = 1) /\ pc' = "done" /\ UNCHANGED <<n, D, null, beta, bidx, which, last>>
Next == Update \/ Pick \/ Done \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Live == E \ null
Books == pc = "pick" => \A i \in Live : IF Live = {i} THEN beta[i] = INF
            ELSE /\ bidx[i] \in Live \ {i} /\ beta[i] = D[Pair(i, bidx[i])]
                 /\ \A k \in Live \ {i} : beta[i] <= D[Pair(i, k)]
NullsAside == pc = "pick" => \A i \in null : beta[i] = INF
AllMerged == pc = "done" => Cardinality(Live) <= 1
WhichFits == Len(which) <= n
=============================================================================
