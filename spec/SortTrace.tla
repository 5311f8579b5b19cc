----------------------------- MODULE SortTrace -----------------------------
(* Trace acceptance for the generic sort and the generic shuffle.
   "Begin"/"Swap"/"End" replay every exchange the sort makes through the
   user's swap function; "Sort" and "Shuffle" are whole-call observations.    *)
EXTENDS TraceKit
VARIABLES cur, keys, l
ev == Trace[l]
Step == l <= Len(Trace) /\ l' = l + 1
Range(s) == {s[k] : k \in DOMAIN s}
Count(s, v) == Cardinality({k \in DOMAIN s : s[k] = v})
IsPermOf(s, t) == Len(s) = Len(t) /\ \A v \in Range(s) \cup Range(t) : Count(s, v) = Count(t, v)
Sorted(s) == \A k \in 1..(Len(s)-1) : s[k] <= s[k+1]

Init == cur = <<>> /\ keys = <<>> /\ l = 1
TBegin == Step /\ ev.e = "Begin" /\ cur' = [k \in 1..Len(ev.keys) |-> k] /\ keys' = ev.keys
TSwap  == /\ Step /\ ev.e = "Swap"
          /\ ev.i \in 0..(Len(cur)-1) /\ ev.j \in 0..(Len(cur)-1)
          /\ cur' = [cur EXCEPT ![ev.i+1] = cur[ev.j+1], ![ev.j+1] = cur[ev.i+1]]
          /\ UNCHANGED keys
TEnd   == /\ Step /\ ev.e = "End"
          /\ ev.ids = cur                      \* every move went through the swap function
          /\ Sorted([k \in 1..Len(cur) |-> keys[cur[k]]])
          /\ UNCHANGED <<cur, keys>>
TSort  == /\ Step /\ ev.e = "Sort"
          /\ IsPermOf(ev.in, ev.out) /\ Sorted(ev.out) /\ ev.guard
          /\ UNCHANGED <<cur, keys>>
TNext == TBegin \/ TSwap \/ TEnd \/ TSort
TSpec == Init /\ [][TNext]_<<cur, keys, l>>
=============================================================================
