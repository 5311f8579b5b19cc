------------------------------ MODULE TriImpl ------------------------------
(* vl_imconvcoltri on one column: backward integral, difference, forward
   integral, difference.  Checked against the triangular kernel for every
   small signal, filter size, padding and step.                               *)
EXTENDS Image, TLC
CONSTANTS MaxH, MaxF, Vals
VARIABLES sig, n, pad, step, buf, phase, out
vars == <<sig, n, pad, step, buf, phase, out>>
h == Len(sig)
Sig == UNION {[1..m -> Vals] : m \in 1..MaxH}
Init == /\ sig \in Sig /\ n \in 1..MaxF /\ pad \in {"zero", "cont"} /\ step \in 1..2
        /\ buf = << >> /\ phase = "back" /\ out = << >>
\* buffers are functions over -n..h-1
RECURSIVE Tail_(_)
Tail_(i) == IF i > h THEN 0 ELSE sig[i] + Tail_(i + 1)
Back == /\ phase = "back" /\ phase' = "diff"
        /\ buf' = [y \in (-n)..(h-1) |-> IF y >= 0 THEN Tail_(y + 1)
                     ELSE IF pad = "zero" THEN Tail_(1) ELSE Tail_(1) + (-y) * sig[1]]
        /\ UNCHANGED <<sig, n, pad, step, out>>
Diff == /\ phase = "diff" /\ phase' = "sum"
        /\ buf' = [y \in (-n)..(h-1) |-> IF y + n <= h - 1 THEN buf[y] - buf[y + n]
                     ELSE IF pad = "zero" THEN buf[y] ELSE buf[y] - buf[h - 1] * (h - n - y)]
        /\ UNCHANGED <<sig, n, pad, step, out>>
RECURSIVE Pre(_)
Pre(y) == IF y < -n THEN 0 ELSE buf[y] + Pre(y - 1)
Forw == /\ phase = "sum" /\ phase' = "out" /\ buf' = [y \in (-n)..(h-1) |-> Pre(y)]
        /\ UNCHANGED <<sig, n, pad, step, out>>
Emit == /\ phase = "out" /\ phase' = "done"
        /\ out' = [j \in 1..DHeight(h, step) |-> LET y == step * (j - 1) IN buf[y] - buf[y - n]]
        /\ UNCHANGED <<sig, n, pad, step, buf>>
Next == Back \/ Diff \/ Forw \/ Emit
Spec == Init /\ [][Next]_vars
Img == [y \in 1..h |-> <<sig[y]>>]
Inv == phase = "done" => \A j \in DOMAIN out : out[j] = Tri(Img, n, pad, 0, step * (j - 1))
=============================================================================
