------------------------------- MODULE CovImpl -------------------------------
(* The detector object: two scale spaces kept from one image to the next, a
   buffer of features, and the suppression of the weaker of two overlapping
   features by a single pass.

   Images, geometries and thresholds are tokens.  What the detector holds is
   described by what it was computed from, so the property is that nothing the
   object remembers can show: the features depend on the last image, the options
   it was put under, and the options of the detection.                        *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Images, Options, N, Strengths
VARIABLES opt, gss, css, feats, cap, last,       \* the object; last = what a fresh object would hold
          phase, F, over, i, dead                \* the suppression pass
vars == <<opt, gss, css, feats, cap, last, phase, F, over, i, dead>>
None == [im |-> "none", o |-> 0]
Off == phase = "object"
Init == /\ opt \in Options /\ gss = None /\ css = None /\ feats = 0 /\ cap = 0 /\ last = None
        /\ phase \in {"object", "pass"}
        /\ IF phase = "object" THEN F = <<>> /\ over = {} ELSE F \in [1..N -> Strengths] /\ over \in SUBSET {p \in (1..N) \X (1..N) : p[1] # p[2]}
        /\ i = 1 /\ dead = {}
Same == UNCHANGED <<phase, F, over, i, dead>>
(* a change of the geometry forgets everything *)
SetOption == Off /\ \E o \in Options : opt' = o /\ gss' = None /\ css' = None /\ feats' = 0 /\ cap' = 0 /\ last' = None /\ Same
(* the scale space is kept when its geometry is the same, and filled again *)
PutImage == Off /\ \E im \in Images : /\ gss' = [im |-> im, o |-> IF gss # None /\ gss.o = opt THEN gss.o ELSE opt]
                                      /\ last' = [im |-> im, o |-> opt] /\ UNCHANGED <<opt, css, feats, cap>> /\ Same
(* the detection empties the features, not the buffer *)
Detect == /\ Off /\ gss # None
          /\ css' = [im |-> gss.im, o |-> IF css # None /\ css.o = gss.o THEN css.o ELSE gss.o]
          /\ \E n \in 0..3 : feats' = n /\ cap' = IF n > cap THEN n + 1 ELSE cap
          /\ UNCHANGED <<opt, gss, last>> /\ Same
Add == Off /\ feats < 5 /\ feats' = feats + 1 /\ cap' = (IF feats + 1 > cap THEN feats + 2 ELSE cap) /\ UNCHANGED <<opt, gss, css, last>> /\ Same
Reset == Off /\ gss' = None /\ css' = None /\ feats' = 0 /\ cap' = 0 /\ last' = None /\ UNCHANGED opt /\ Same
(* feature i, if it is still there, removes the weaker ones it overlaps *)
Pass == /\ phase = "pass" /\ i <= N /\ i' = i + 1
        /\ dead' = IF i \in dead THEN dead ELSE dead \cup {j \in 1..N : <<i, j>> \in over /\ F[j] < F[i]}
        /\ UNCHANGED <<opt, gss, css, feats, cap, last, phase, F, over>>
Next == SetOption \/ PutImage \/ Detect \/ Add \/ Reset \/ Pass
Spec == Init /\ [][Next]_vars
Fits == feats <= cap
Current == gss = last /\ (css # None => gss # None /\ css.o = gss.o)
Emptied == gss = None => feats <= cap /\ css = None
End == phase = "pass" /\ i > N
NoWeakerNeighbour == End => \A a \in 1..N \ dead : \A b \in 1..N \ dead : <<a, b>> \in over => F[b] >= F[a]
OnlyOverlapped == \A b \in dead : \E a \in 1..N : <<a, b>> \in over /\ F[a] > F[b]
(* the strongest stay, and no group loses all its members *)
StrongestStays == \A a \in 1..N : (\A b \in 1..N : <<b, a>> \in over => F[b] <= F[a]) => a \notin dead
(* a second pass over what is left removes nothing *)
Settled == End => \A a \in 1..N \ dead : {j \in (1..N) \ dead : <<a, j>> \in over /\ F[j] < F[a]} = {}
=============================================================================
