------------------------------ MODULE HomImpl ------------------------------
(* How a number is looked up in the table of the kernel map: its exponent finds
   the octave, and steps through the octave find the pair of entries between
   which it lies.  Numbers are multiples of 1/Unit.                           *)
EXTENDS Integers, TLC
CONSTANTS MinE, MaxE, Subs, Unit
VARIABLES x, e, m, row, pc
vars == <<x, e, m, row, pc>>
\* powers of two as multiples of 1/Unit (MinE is negated: cfg files have no negatives)
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN Unit ELSE IF k > 0 THEN 2 * Pow(k - 1) ELSE Pow(k + 1) \div 2
Lo == 0 - MinE
ExpOf(n) == CHOOSE k \in (Lo - 4)..(MaxE + 2) : Pow(k) <= n /\ n < Pow(k + 1)
Rows == Subs * (MaxE - Lo + 1)
\* the number that a row stands for
Node(r) == LET k == Lo + r \div Subs IN Pow(k) + (Pow(k) \div Subs) * (r % Subs)
Init == x \in 1..(Pow(MaxE + 1)) /\ e = 0 /\ m = 0 /\ row = 0 /\ pc = "start"
Start == /\ pc = "start" /\ ExpOf(x) \in Int
         /\ e' = ExpOf(x)
         /\ IF e' < Lo \/ e' >= MaxE THEN pc' = "zero" /\ UNCHANGED <<m, row>>
            ELSE pc' = "scan" /\ row' = (e' - Lo) * Subs /\ m' = (x - Pow(e'))
         /\ UNCHANGED x
Step == pc = "scan" /\ m >= Pow(e) \div Subs /\ m' = m - Pow(e) \div Subs /\ row' = row + 1 /\ UNCHANGED <<x, e, pc>>
Stop == pc = "scan" /\ m < Pow(e) \div Subs /\ pc' = "done" /\ UNCHANGED <<x, e, m, row>>
Next == Start \/ Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InTable == pc \in {"scan", "done"} => row >= 0 /\ row + 1 < Rows
Brackets == pc = "done" => Node(row) <= x /\ x < Node(row + 1) /\ m * Subs < Pow(e) /\ Node(row) + m = x
OutOfRange == pc = "zero" <=> (pc # "start" /\ (x < Pow(Lo) \/ x >= Pow(MaxE)))
Ends == <>(pc \in {"zero", "done"})
=============================================================================
