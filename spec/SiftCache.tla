----------------------------- MODULE SiftCache -----------------------------
(* A SIFT filter walks over the octaves of one image after another and keeps
   the gradient of the octave it computed last, remembering only the octave's
   number.  Whatever is computed from the gradient must come from the octave
   and the image that are current; the keypoints are those of the current
   octave or none; the octaves of an image come in order.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS IMAGES, O, FORGET      \* FORGET: starting an image invalidates the gradient
VARIABLES img, oct, gradOf, gradKey, keysOf, used, steps
vars == <<img, oct, gradOf, gradKey, keysOf, used, steps>>
None == <<0, -1>>
Init == img = 0 /\ oct = -1 /\ gradOf = None /\ gradKey = -1 /\ keysOf = None /\ used = None /\ steps = 0
Tick == steps < 8 /\ steps' = steps + 1
First == \E i \in IMAGES : /\ img' = i /\ oct' = 0 /\ keysOf' = None /\ gradKey' = (IF FORGET THEN -1 ELSE gradKey) /\ used' = None /\ UNCHANGED gradOf /\ Tick
Next1 == /\ img > 0 /\ oct < O - 1 /\ oct' = oct + 1 /\ keysOf' = None /\ used' = None /\ UNCHANGED <<img, gradOf, gradKey>> /\ Tick
Detect == /\ img > 0 /\ keysOf' = <<img, oct>> /\ used' = None /\ UNCHANGED <<img, oct, gradOf, gradKey>> /\ Tick
Use == /\ img > 0
       /\ IF gradKey = oct THEN UNCHANGED <<gradOf, gradKey>> ELSE gradOf' = <<img, oct>> /\ gradKey' = oct
       /\ used' = gradOf' /\ UNCHANGED <<img, oct, keysOf>> /\ Tick
Next == First \/ Next1 \/ Detect \/ Use
Spec == Init /\ [][Next]_vars
Current == used # None => used = <<img, oct>>
KeysCurrent == keysOf # None => keysOf = <<img, oct>>
InOrder == [][oct' = oct \/ oct' = 0 \/ oct' = oct + 1]_vars
=============================================================================
