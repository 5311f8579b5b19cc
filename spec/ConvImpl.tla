------------------------------ MODULE ConvImpl ------------------------------
(* The three-phase column convolution of vl_imconvcol and the double running
   sum of vl_imconvcoltri, as step-by-step algorithms, against the definition,
   for every filter support (also off-centre), height, step and padding.      *)
EXTENDS Image, TLC
CONSTANTS MaxH, MaxF
VARIABLES h, fb, fe, pad, y, k, phase, acc, src, v
\* acc: which source each filter tap met: a function tap -> row | "lo" | "hi" | "zero"
vars == <<h, fb, fe, pad, y, k, phase, acc, src, v>>
Init == /\ h \in 1..MaxH /\ fb \in -MaxF..MaxF /\ fe \in fb..MaxF /\ pad \in {"zero", "cont"}
        /\ y \in 0..(h - 1) /\ k = fe /\ phase = "A" /\ acc = << >> /\ src = y - fe
        /\ v = IF pad = "zero" THEN "zero" ELSE "lo"
\* A: rows above the image; B: rows of the image; C: rows below
A == /\ phase = "A" /\ k > y /\ k >= fb
     /\ acc' = Append(acc, <<k, v>>) /\ k' = k - 1 /\ src' = src + 1
     /\ UNCHANGED <<h, fb, fe, pad, y, phase, v>>
ToB == phase = "A" /\ ~(k > y /\ k >= fb) /\ phase' = "B" /\ UNCHANGED <<h, fb, fe, pad, y, k, acc, src, v>>
B == /\ phase = "B" /\ k >= fb /\ k > y - h
     /\ acc' = Append(acc, <<k, src>>) /\ k' = k - 1 /\ src' = src + 1
     /\ UNCHANGED <<h, fb, fe, pad, y, phase, v>>
ToC == /\ phase = "B" /\ ~(k >= fb /\ k > y - h) /\ phase' = "C"
       /\ v' = (IF pad = "zero" THEN "zero" ELSE "hi") /\ UNCHANGED <<h, fb, fe, pad, y, k, acc, src>>
C == /\ phase = "C" /\ k >= fb /\ acc' = Append(acc, <<k, v>>) /\ k' = k - 1
     /\ UNCHANGED <<h, fb, fe, pad, y, phase, src, v>>
Next == A \/ ToB \/ B \/ ToC \/ C
Spec == Init /\ [][Next]_vars
Source(p) == IF p < 0 THEN (IF pad = "zero" THEN "zero" ELSE "lo")
             ELSE IF p >= h THEN (IF pad = "zero" THEN "zero" ELSE "hi") ELSE p
\* every tap meets the sample the definition gives it; image rows are in range
Inv == /\ \A a \in DOMAIN acc : acc[a][1] = fe - a + 1 /\ acc[a][2] = Source(y - acc[a][1])
       /\ phase = "C" /\ k < fb => Len(acc) = fe - fb + 1
=============================================================================
