---------------------------- MODULE CurveTrace ----------------------------
(* vl_roc, vl_pr and vl_det                                                   *)
EXTENDS TraceKit, Curves
VARIABLE l
ev == Trace[l]
Tol == "1e-8"
C == TLCEval(Curve(ev.labels, ev.scores, ev.all, ev.numPos, ev.numNeg))
\* a curve is given as the values at 0..m, or ("stable") as the value at each sample's rank
Given(c, got, f(_)) ==
  IF ev.stable
  THEN /\ Len(got) = Len(ev.labels)
       /\ \A r \in 1..Len(ev.labels) : IF r <= c.m THEN RWithin(got[c.rank[r]], f(r), Tol) ELSE RNan(got[c.rank[r]])
  ELSE Len(got) = c.m + 1 /\ \A s \in 0..c.m : RWithin(got[s + 1], f(s), Tol)
RocOk(c) ==
  /\ Given(c, ev.tpr, LAMBDA s : Tpr(c, s)) /\ Given(c, ev.tnr, LAMBDA s : RSub(1, Fpr(c, s)))
  /\ ev.info => /\ RWithin(ev.auc, Auc(c), Tol)
                /\ IF HasEer(c) THEN RWithin(ev.eer, Eer(c), Tol) /\ REq(ev.threshold, IF ev.scores[EerSample(c)] = Never THEN "-inf" ELSE ev.scores[EerSample(c)])
                   ELSE RNan(ev.eer)
Plain(c) == TLCEval([s \in 0..c.m |-> IF RLt(ev.prior, 0) THEN Precision(c, s) ELSE Prior(c, ev.prior, s)])
PrOk(c) ==
  LET f == IF ev.interpolate THEN Interp(c, Plain(c)) ELSE Plain(c) IN
  /\ Given(c, ev.recall, LAMBDA s : Recall(c, s)) /\ Given(c, ev.precision, LAMBDA s : f[s])
  /\ (ev.info /\ c.p > 0) => /\ RWithin(ev.ap, AveragePrecision(c, f), Tol)
                             /\ RWithin(ev.auc, IF ev.interpolate THEN AveragePrecision(c, f) ELSE Trapezoid(c, f), Tol)
                             /\ RWithin(ev.eleven, Eleven(c, f), Tol) /\ REq(ev.legacy, ev.eleven)
DetOk(c) == Given(c, ev.miss, LAMBDA s : RSub(1, Tpr(c, s))) /\ Given(c, ev.alarm, LAMBDA s : Fpr(c, s))
Ok == CASE ev.e = "Roc" -> RocOk(C)
        [] ev.e = "Pr"  -> PrOk(C)
        [] ev.e = "Det" -> DetOk(C)
        [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
