----------------------------- MODULE QSortImpl -----------------------------
(* The generic sort as a state machine: a work list of portions, one
   partition step at a time.  Checked for every array up to length MaxLen
   over Vals: it only ever permutes the array, every portion on the work list
   is separated from its neighbours, and it ends with the array in order.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals, MaxLen
VARIABLES a0, a, work      \* input, array, stack of portions <<begin, end>>
vars == <<a0, a, work>>

Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Count(s, v) == Cardinality({k \in DOMAIN s : s[k] = v})
IsPermOf(s, t) == Len(s) = Len(t) /\ \A v \in Vals : Count(s, v) = Count(t, v)
Sorted(s) == \A k \in 1..(Len(s)-1) : s[k] <= s[k+1]

Init == /\ a0 \in UNION {[1..n -> Vals] : n \in 1..MaxLen}
        /\ a = a0 /\ work = << <<1, Len(a0)>> >>

RECURSIVE Scan(_, _, _, _)
Scan(s, lo, i, e) ==        \* move the elements not above the pivot s[e] to the low part
  IF i = e THEN [s |-> Swap(s, lo, e), lo |-> lo]
  ELSE IF s[i] <= s[e] THEN Scan(Swap(s, lo, i), lo + 1, i + 1, e) ELSE Scan(s, lo, i + 1, e)

Partition ==
  /\ work # <<>>
  /\ LET b == work[1][1]  e == work[1][2]
         r == Scan(Swap(a, (b + e) \div 2, e), b, b, e)
         left  == IF r.lo > b THEN << <<b, r.lo - 1>> >> ELSE <<>>
         right == IF r.lo < e THEN << <<r.lo + 1, e>> >> ELSE <<>>
     IN a' = r.s /\ work' = left \o right \o Tail(work)
  /\ UNCHANGED a0
Next == Partition
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

PermInv == IsPermOf(a, a0)
Separated == \A w \in 1..Len(work) : LET b == work[w][1] e == work[w][2] IN
               /\ \A i \in 1..(b-1), j \in b..e : a[i] <= a[j]
               /\ \A j \in b..e, k \in (e+1)..Len(a) : a[j] <= a[k]
DoneSorted == work = <<>> => Sorted(a)
Terminates == <>(work = <<>>)
=============================================================================
