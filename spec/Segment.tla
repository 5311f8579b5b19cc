------------------------------ MODULE Segment ------------------------------
(* Superpixels: a label per pixel of a w x h grid (pixel k is (k % w, k \div w)),
   connected segments, and the elimination of small ones.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Four(p, w, h) == {q \in {p - 1, p + 1} : q >= 0 /\ q < w * h /\ q \div w = p \div w} \cup {q \in {p - w, p + w} : q >= 0 /\ q < w * h}
RECURSIVE Grow(_, _, _, _, _)
Grow(R, F, lab, w, h) == LET N == TLCEval({q \in UNION {Four(p, w, h) : p \in F} : q \notin R /\ lab[q] = lab[CHOOSE p \in R : TRUE]}) IN IF N = {} THEN R ELSE Grow(TLCEval(R \cup N), N, lab, w, h)
SegmentOf(p, lab, w, h) == Grow({p}, {p}, lab, w, h)
\* Scan the pixels in order; a segment met for the first time at p keeps its
\* label when it is large enough, and otherwise takes the label that one of
\* p's already visited neighbours has by then (the very first keeps its own).
\* got is the labelling to be explained: it says which neighbour was chosen.
RECURSIVE CleanFrom(_, _, _, _, _, _, _)
CleanFrom(p, vis, lab, got, w, h, min) ==
  IF p = w * h THEN TRUE
  ELSE IF p \in vis THEN CleanFrom(p + 1, vis, lab, got, w, h, min)
  ELSE LET S == TLCEval(SegmentOf(p, lab, w, h))
           nb == Four(p, w, h) \cap vis
       IN /\ IF Cardinality(S) >= min \/ nb = {} THEN \A q \in S : got[q] = lab[p]
             ELSE (\E q \in nb : got[p] = got[q]) /\ \A q \in S : got[q] = got[p]
          /\ CleanFrom(p + 1, TLCEval(vis \cup S), lab, got, w, h, min)
Cleaned(lab, got, w, h, min) == CleanFrom(0, {}, lab, got, w, h, min)
\* what the clean-up is for
NoFragments(got, w, h, min) == \A p \in 0..(w * h - 1) : LET S == SegmentOf(p, got, w, h) IN 0 \in S \/ Cardinality(S) >= min
=============================================================================
