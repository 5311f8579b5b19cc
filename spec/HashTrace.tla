----------------------------- MODULE HashTrace -----------------------------
(* The table as a map from labels to counts: adding columns adds their numbers
   of occurrences, looking a label up gives its bucket.                        *)
EXTENDS TraceKit
VARIABLES l, m                   \* m: the abstract histogram, a function from labels to counts
ev == Trace[l]
Zero(x) == \A i \in 1..Len(x) : x[i] = 0
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Range(s) == {s[i] : i \in 1..Len(s)}
Is(t, f) ==                      \* the table t represents the histogram f
  /\ Len(t.h) = Len(t.id) /\ Len(t.next) = Len(t.h)
  /\ {t.id[i] : i \in {i \in 1..Len(t.id) : ~Zero(t.id[i])}} = DOMAIN f
  /\ Cardinality({i \in 1..Len(t.id) : ~Zero(t.id[i])}) = Cardinality(DOMAIN f)
  /\ \A i \in 1..Len(t.id) : t.h[i] = IF Zero(t.id[i]) THEN 0 ELSE f[t.id[i]]
New == ev.e = "New" /\ m' = <<>>
SumEv ==
  /\ ev.e = "Sum"
  /\ IF \E x \in Range(ev.x) : Zero(x) THEN ev.refused /\ m' = m
     ELSE LET D == DOMAIN m \cup Range(ev.x)
              f == [x \in D |-> Times(ev.x, x) + IF x \in DOMAIN m THEN m[x] ELSE 0]
          IN ~ev.refused /\ Is(ev.t, f) /\ Len(ev.t.h) >= ev.k /\ m' = f
Find == /\ ev.e = "Find" /\ Len(ev.sel) = Len(ev.x) /\ m' = m
        /\ \A i \in 1..Len(ev.x) : IF ev.x[i] \in DOMAIN m THEN ev.sel[i] \in 1..Len(ev.id) /\ ev.id[ev.sel[i]] = ev.x[i] ELSE ev.sel[i] = 0
Doc == ev.e = "Doc" /\ ev.h = <<1, 0, 1, 2, 0>> /\ ev.id = <<<<1, 2>>, <<0, 0>>, <<2, 1>>, <<1, 1>>, <<0, 0>>>> /\ ev.next = <<0, 0, 0, 0, 0>> /\ m' = m
T == l <= Len(Trace) /\ l' = l + 1 /\ (New \/ SumEv \/ Find \/ Doc)
TSpec == l = 1 /\ m = <<>> /\ [][T]_<<l, m>>
=============================================================================
