------------------------------ MODULE SameImpl ------------------------------
(* Why results do not show the past: an object owns a work area that it keeps
   between uses and enlarges when a use needs more; a use reads only cells it
   has written itself, or that the kind of cell guarantees (allocated cleared).
   Two copies of the object run side by side on different memory and different
   pasts; used on the same task they must answer the same.
   (vl_mser_process, vl_sift_process_first_octave, vl_hog_prepare_buffers,
   vl_kdforest_query's searcher, vl_ikm_train)

   The work area has Cells cells.  Task t uses cells 1 .. Need[t]: it resets
   them, adds its own input to each, and answers with their sum.  Stamps
   (searchers) are cells that are not reset but compared with a use counter
   that grows; they start cleared. *)
EXTENDS Integers, Sequences
CONSTANTS Tasks, Garbage, Uses
Need == <<1, 2>>
Cells == 1 .. 2
VARIABLES area, stamp, count, size, answer, past, task
vars == <<area, stamp, count, size, answer, past, task>>
Two == {1, 2}
Init == /\ area \in [Two -> [Cells -> Garbage]] /\ stamp = [w \in Two |-> [c \in Cells |-> 0]]
        /\ count = [w \in Two |-> 0] /\ size = [w \in Two |-> 0] /\ answer = [w \in Two |-> 0] /\ past = [w \in Two |-> 0] /\ task = 0
\* the work area is obtained again when it is too small: arbitrary contents, stamps cleared with it
Use(w, t) ==
  LET n == Need[t] IN
  \E fresh \in [Cells -> Garbage] :
  LET grow == n > size[w]
      a0 == IF grow THEN fresh ELSE area[w]
      s0 == IF grow THEN [c \in Cells |-> 0] ELSE stamp[w]
      k == count[w] + 1
      a1 == [c \in Cells |-> IF c <= n THEN 0 ELSE a0[c]]
      a2 == [c \in Cells |-> IF c <= n /\ s0[c] # k THEN a1[c] + t ELSE a1[c]]
  IN /\ area' = [area EXCEPT ![w] = a2] /\ stamp' = [stamp EXCEPT ![w] = [c \in Cells |-> IF c <= n THEN k ELSE s0[c]]]
     /\ count' = [count EXCEPT ![w] = k] /\ size' = [size EXCEPT ![w] = IF grow THEN n ELSE @]
     /\ answer' = [answer EXCEPT ![w] = IF n = 1 THEN a2[1] ELSE a2[1] + a2[2]]
Earlier(w, t) == task = 0 /\ past[w] < Uses /\ Use(w, t) /\ past' = [past EXCEPT ![w] = @ + 1] /\ UNCHANGED task
Agree(t) == task = 0 /\ past[1] > 0 /\ Use(1, t) /\ task' = t /\ UNCHANGED past
Follow == task > 0 /\ Use(2, task) /\ task' = -task /\ UNCHANGED past
Next == (\E w \in Two, t \in Tasks : Earlier(w, t)) \/ (\E t \in Tasks : Agree(t)) \/ Follow
Spec == Init /\ [][Next]_vars
SameAnswer == task < 0 => answer[1] = answer[2]
=============================================================================
