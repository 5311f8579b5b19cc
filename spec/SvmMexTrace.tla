---------------------------- MODULE SvmMexTrace ----------------------------
(* vl_svmtrain as called from a script: the options reach the solver, the
   returned model, scores and information describe each other, and the
   diagnostic function is called as documented.                              *)
EXTENDS TraceKit, Svm
CONSTANTS Protocol, Numbers
VARIABLES l
ev == Trace[l]
Tol == "1e-8"
Loose(a, b) == RNear(a, b, IF ev.how = "hom" THEN "1e-6" ELSE Tol)   \* an expanded sample passes through single precision
Init == l = 1
P == [x |-> ev.x, y |-> ev.y, p |-> ev.p, lambda |-> ev.lambda, B |-> ev.B, loss |-> ev.loss, rho |-> ev.rho, t0 |-> ev.t0]
M(w, b) == [w |-> w, b |-> RDiv(b, ev.B)]
N == Len(ev.y)
InfoOk(i) == /\ i.timed /\ REq(i.lambda, ev.lambda) /\ REq(i.B, ev.B) /\ i.solver = ev.solver
             /\ RNear(i.obj, RAdd(i.reg, i.loss), Tol)
             /\ ev.solver = "sdca" => /\ RNear(i.dobj, RSub(i.dloss, i.reg), Tol) /\ RNear(i.gap, RSub(i.obj, i.dobj), Tol)
                                      /\ RLe(RMul(-1, RMul(Tol, RMax(1, RAbs(i.obj)))), i.gap)
NumbersOk == LET m == TLCEval(M(ev.w, ev.b)) IN
  /\ ev.shape
  /\ \A i \in 1..N : Loose(ev.scores[i], Score(P, m, i))
  /\ Loose(ev.info.reg, Regularizer(P, m)) /\ Loose(ev.info.loss, MeanLoss(P, m)) /\ RNear(ev.info.bias, ev.b, Tol)
  /\ InfoOk(ev.info) /\ \A i \in DOMAIN ev.reports : InfoOk(ev.reports[i])
  (* evaluation leaves the model alone *)
  /\ ev.solver = "none" => (RNear(ev.b, ev.b0, Tol) /\ \A i \in DOMAIN ev.w : REq(ev.w[i], ev.w0[i]))
  (* one step of gradient descent from the given model takes some sample *)
  /\ (ev.solver = "sgd" /\ ev.max = 1) =>
       LET s == M(ev.w0, ev.b0) IN \E i \in 1..N :
         LET z == Score(P, s, i)
             to(g) == LET r == GradMove(P, s, i, RMul(P.p[i], g), 0)
                      IN Loose(ev.b, Bias(P, r)) /\ \A k \in DOMAIN ev.w : Loose(ev.w[k], r.w[k])
             y == P.y[i]
             kink == RNear(RMul(y, z), 1, Tol)
             cands == CASE ev.loss = "hinge"    -> (IF kink \/ RLt(RMul(y, z), 1) THEN {RNeg(y)} ELSE {}) \cup (IF kink \/ RLe(1, RMul(y, z)) THEN {"0"} ELSE {})
                        [] ev.loss = "hinge2"   -> IF RLt(RMul(y, z), 1) THEN {RMul(2, RSub(z, y))} ELSE {"0"}
                        [] ev.loss = "l1"       -> IF RNear(z, y, Tol) THEN {"-1", "0", "1"} ELSE IF RLt(z, y) THEN {"-1"} ELSE {"1"}
                        [] ev.loss = "l2"       -> {RMul(2, RSub(z, y))}
                        [] ev.loss = "logistic" -> {RDiv(RNeg(y), RAdd(1, RExp(RMul(y, z))))}
         IN \E g \in cands : to(g)
RECURSIVE Marks(_, _)
Marks(done, upto) == IF done >= upto THEN <<>> ELSE LET q == NextReport(done, ev.freq, ev.max) IN <<q>> \o Marks(q, upto)
ProtocolOk == /\ Len(ev.reports) > 0
              /\ ev.info = [ev.reports[Len(ev.reports)] EXCEPT !.timed = ev.info.timed]
              /\ IF ev.solver = "none" THEN Len(ev.reports) = 1
                 ELSE /\ Marks(0, ev.info.t + 1) = [i \in DOMAIN ev.reports |-> ev.reports[i].t + 1]
                      /\ \A i \in DOMAIN ev.reports : ev.reports[i].epoch = ev.reports[i].t \div N
                      /\ ev.solver = "sdca" =>
                           \A i \in DOMAIN ev.reports : (i = Len(ev.reports)) = (RLt(ev.reports[i].gap, ev.eps) \/ ev.reports[i].t + 1 = ev.max)
                      /\ (ev.solver = "sgd" /\ RLe(ev.eps, 0)) => ev.info.t + 1 = ev.max
Train == /\ ev.e = "Train" /\ (Protocol => ProtocolOk) /\ (Numbers => NumbersOk)
Refuse == /\ ev.e = "Refuse" /\ \A i \in DOMAIN ev.bad : ev.bad[i] 
          /\ \A i \in DOMAIN ev.good : ev.good[i]
T == l <= Len(Trace) /\ l' = l + 1 /\ (Train \/ Refuse)
TSpec == Init /\ [][T]_l
=============================================================================
