------------------------------ MODULE SlicImpl ------------------------------
(* The clean-up scan of vl/slic.c, one pixel visit per step: 'cleaned' holds
   label+1 for visited pixels; the flood fill expands one pixel at a time.    *)
EXTENDS Segment
CONSTANTS W, H, LABELS, MAXMIN
VARIABLES lab, min, cleaned, pix, seg, open, target, pc
vars == <<lab, min, cleaned, pix, seg, open, target, pc>>
Pix == 0..(W * H - 1)
Init == /\ lab \in [Pix -> LABELS] /\ min \in 0..MAXMIN /\ cleaned = [p \in Pix |-> 0]
        /\ pix = 0 /\ seg = <<>> /\ open = 0 /\ target = 0 /\ pc = "scan"
Scan == /\ pc = "scan" /\ pix < W * H
        /\ IF cleaned[pix] # 0 THEN /\ pix' = pix + 1 /\ UNCHANGED <<lab, min, cleaned, seg, open, target, pc>>
           ELSE /\ seg' = <<pix>> /\ open' = 1 /\ pc' = "expand"
                /\ cleaned' = [cleaned EXCEPT ![pix] = lab[pix] + 1]
                \* +x, -x, +y, -y: the last visited neighbour wins
                /\ target' = LET up == pix - W  dn == pix + W  lf == pix - 1  rt == pix + 1
                                 F == Four(pix, W, H) IN
                     IF up \in F /\ cleaned[up] # 0 THEN cleaned[up] ELSE IF dn \in F /\ cleaned[dn] # 0 THEN cleaned[dn]
                     ELSE IF lf \in F /\ cleaned[lf] # 0 THEN cleaned[lf] ELSE IF rt \in F /\ cleaned[rt] # 0 THEN cleaned[rt] ELSE lab[pix] + 1
                /\ UNCHANGED <<lab, min, pix>>
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A q \in S : m <= q IN <<m>> \o AsSeq(S \ {m})
Expand == /\ pc = "expand"
          /\ IF open <= Len(seg)
             THEN LET new == {q \in Four(seg[open], W, H) : cleaned[q] = 0 /\ lab[q] = lab[seg[1]]} IN
                  /\ seg' = seg \o AsSeq(new) /\ open' = open + 1
                  /\ cleaned' = [q \in Pix |-> IF q \in new THEN lab[q] + 1 ELSE cleaned[q]]
                  /\ UNCHANGED <<pix, target, pc>>
             ELSE /\ cleaned' = [q \in Pix |-> IF Len(seg) < min /\ q \in Range(seg) THEN target ELSE cleaned[q]]
                  /\ pc' = "scan" /\ pix' = pix + 1 /\ UNCHANGED <<seg, open, target>>
          /\ UNCHANGED <<lab, min>>
Finish == /\ pc = "scan" /\ pix = W * H /\ pc' = "done" /\ UNCHANGED <<lab, min, cleaned, pix, seg, open, target>>
Next == Scan \/ Expand \/ Finish \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
got == [p \in Pix |-> cleaned[p] - 1]
Complete == pc = "done" => \A p \in Pix : got[p] \in LABELS
Explained == pc = "done" => Cleaned(lab, got, W, H, min)
Fragments == pc = "done" => NoFragments(got, W, H, min)
=============================================================================
