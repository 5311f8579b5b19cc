----------------------------- MODULE CurveImpl -----------------------------
(* All small rankings: the samples are walked by decreasing score, and the
   staircases are what they are said to be.                                   *)
EXTENDS Curves
CONSTANTS N, Scores
VARIABLES labels, scores, s, tp, fp, area
vars == <<labels, scores, s, tp, fp, area>>
Cv == Curve(labels, scores, FALSE, -1, -1)
Init == /\ \E n \in 0..N : labels \in [1..n -> -1..1] /\ scores \in [1..n -> (1..Scores) \cup {Never}]
        /\ s = 0 /\ tp = 0 /\ fp = 0 /\ area = 0
Take == /\ s < Cv.m
        /\ s' = s + 1
        /\ LET x == labels[Cv.rank[s']] IN
           /\ tp' = tp + (IF x > 0 THEN 1 ELSE 0)
           /\ fp' = fp + (IF x < 0 THEN 1 ELSE 0)
           /\ area' = area + (IF x < 0 THEN tp ELSE 0)
        /\ UNCHANGED <<labels, scores>>
Spec == Init /\ [][Take]_vars
IsRanking == /\ \A i, j \in 1..Len(scores) : i # j => Rank(scores, i) # Rank(scores, j)
             /\ \A r \in 1..(Len(scores) - 1) : scores[Cv.rank[r]] >= scores[Cv.rank[r + 1]]
             /\ \A r \in 1..Len(scores) : (r <= Cv.m) <=> scores[Cv.rank[r]] # Never
Counts == tp = Cv.tp[s] /\ fp = Cv.fp[s] /\ tp <= Cv.p /\ fp <= Cv.n
\* without ties the area is the fraction of the pairs ranked correctly
Pairs == {<<i, j>> \in (1..Len(labels)) \X (1..Len(labels)) : labels[i] > 0 /\ labels[j] < 0 /\ scores[j] # Never /\ Before(scores, i, j)}
Area == s = Cv.m => /\ area = Cardinality(Pairs)
                    /\ (Cv.p > 0 /\ Cv.n > 0) => RWithin(Auc(Cv), RDiv(area, Cv.p * Cv.n), "1e-12")
\* the equal error rate lies between the errors before and after the crossing
Equal == (s = Cv.m /\ Cv.p > 0 /\ Cv.n > 0 /\ HasEer(Cv)) =>
   LET q == Cross(Cv)  e == Eer(Cv)  T(t) == RSub(1, Tpr(Cv, t)) IN
   /\ RLe(Fpr(Cv, q), e) /\ RLe(e, Fpr(Cv, q + 1)) /\ RLe(RSub(T(q + 1), "1e-12"), e) /\ RLe(e, RAdd(T(q), "1e-12"))
\* reweighting with the prior the samples have changes nothing
SamePrior == (s = Cv.m /\ Cv.p > 0) => \A t \in 0..Cv.m : RWithin(Prior(Cv, RDiv(Cv.p, Cv.p + Cv.n), t), Precision(Cv, t), "1e-12")
=============================================================================
