------------------------------ MODULE Curves ------------------------------
(* Evaluation of a ranking: true positives and false positives of the prefixes
   of the ranked samples, and what ROC and precision-recall curves make of them.
   labels and scores are sequences of integers; the score Never stands for
   minus infinity, a sample that is not retrieved.                            *)
EXTENDS RealOps, Integers, Sequences, FiniteSets, TLC
Never == -100000
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Count(s, P(_)) == Cardinality({i \in 1..Len(s) : P(s[i])})
\* by decreasing score, samples of the same score in the order given
Before(scores, i, j) == scores[i] > scores[j] \/ (scores[i] = scores[j] /\ i < j)
Rank(scores, i) == 1 + Cardinality({j \in 1..Len(scores) : Before(scores, j, i)})
Ranking(scores) == [r \in 1..Len(scores) |-> CHOOSE i \in 1..Len(scores) : Rank(scores, i) = r]
Retrieved(scores, all) == IF all THEN Len(scores) ELSE Count(scores, LAMBDA s : s # Never)
\* hits(s): how many of the first s ranked samples have a label of the given sign
Hits(labels, rank, sign, s) == Cardinality({r \in 1..s : Sgn(labels[rank[r]]) = sign})
(* a curve: the ranking, how much of it is retrieved, and the totals          *)
Curve(labels, scores, all, numPos, numNeg) ==
  LET rank == TLCEval(Ranking(scores))  m == Retrieved(scores, all)
  IN [rank |-> rank, m |-> m,
      tp |-> TLCEval([s \in 0..m |-> Hits(labels, rank, 1, s)]), fp |-> TLCEval([s \in 0..m |-> Hits(labels, rank, -1, s)]),
      p |-> IF numPos < 0 THEN Count(labels, LAMBDA x : x > 0) ELSE numPos,
      n |-> IF numNeg < 0 THEN Count(labels, LAMBDA x : x < 0) ELSE numNeg]
Rate(k, n) == IF k = 0 THEN 0 ELSE RDiv(k, n)
Tpr(c, s) == Rate(c.tp[s], c.p)
Fpr(c, s) == Rate(c.fp[s], c.n)
\* the area under the staircase (FPR, TPR), as far as it goes
Auc(c) == RSum([s \in 1..c.m |-> RMul(Tpr(c, s), RSub(Fpr(c, s), Fpr(c, s - 1)))])
\* TNR(s) > TPR(s), exactly
Above(c, s) == LET p == IF c.p = 0 THEN 1 ELSE c.p  n == IF c.n = 0 THEN 1 ELSE c.n IN (n - c.fp[s]) * p > c.tp[s] * n
Cross(c) == CHOOSE s \in 0..c.m : Above(c, s) /\ \A t \in (s + 1)..c.m : ~Above(c, t)
HasEer(c) == Cross(c) < c.m
\* where the staircase crosses the line TPR = TNR, between s and s + 1
Eer(c) == LET s == Cross(c) IN IF c.tp[s] = c.tp[s + 1] THEN RSub(1, Tpr(c, s)) ELSE Fpr(c, s)
EerSample(c) == c.rank[Cross(c) + 1]
Recall(c, s) == Tpr(c, s)
\* with nothing retrieved the precision is one
Precision(c, s) == IF c.tp[s] + c.fp[s] = 0 THEN 1 ELSE RDiv(c.tp[s], c.tp[s] + c.fp[s])
\* as if the fraction of positive samples was a
Prior(c, a, s) == IF c.tp[s] + c.fp[s] = 0 THEN 1 ELSE
                  LET t == RMul(a, Tpr(c, s))  f == RMul(RSub(1, a), Fpr(c, s)) IN IF c.fp[s] = 0 THEN 1 ELSE RDiv(t, RAdd(t, f))
RECURSIVE MaxFrom(_, _, _)
MaxFrom(f, s, m) == IF s = m THEN f[s] ELSE RMax(f[s], MaxFrom(f, s + 1, m))
\* the precisions of a curve, interpolated or not
Interp(c, f) == TLCEval([s \in 0..c.m |-> MaxFrom(f, s, c.m)])
Trapezoid(c, f) == RSum([s \in 1..c.m |-> RMul(RDiv(RAdd(f[s - 1], f[s]), 2), RSub(Recall(c, s), Recall(c, s - 1)))])
\* averages of the precision: at every positive sample, and at eleven recalls
AveragePrecision(c, f) == RDiv(RSum([s \in 1..c.m |-> IF c.tp[s] > c.tp[s - 1] THEN f[s] ELSE 0]), c.p)
Reaches(c, s, q) == IF c.p = 0 THEN q = 0 ELSE 10 * c.tp[s] >= q * c.p
Eleven(c, f) == RDiv(RSum([q1 \in 1..11 |-> LET ok == {s \in 0..c.m : Reaches(c, s, q1 - 1)} IN
                      IF ok = {} THEN 0 ELSE f[CHOOSE s \in ok : \A t \in ok : RLe(f[t], f[s])]]), 11)
=============================================================================
