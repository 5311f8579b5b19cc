----------------------------- MODULE SvmTrace -----------------------------
(* Training runs recorded from vl/svm.c.  pb is the problem of the run under
   way, k the number of visits reported so far, a the number of visits seen,
   seen those of the epoch, alpha and m the dual variables and the model, sc
   the last two scores of each sample (SGD), on whether training is going on,
   last the last report.                                                     *)
EXTENDS TraceKit, Svm
CONSTANTS Protocol, Numbers   \* which of the two properties is judged
VARIABLES l, pb, run, k, a, seen, alpha, m, sc, on, last
vars == <<l, pb, run, k, a, seen, alpha, m, sc, on, last>>
ev == Trace[l]
Tol == "1e-8"
Zeros(n) == [i \in 1..n |-> 0]
CloseSeq(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : RNear(s[i], t[i], Tol)
Idle == pb = <<>> \/ ~on
None == [none |-> TRUE]
Init == /\ l = 1 /\ pb = <<>> /\ run = None /\ k = 0 /\ a = 0 /\ seen = {} /\ alpha = <<>> /\ m = None /\ sc = <<>> /\ on = FALSE /\ last = None
(* a new object has the documented defaults *)
New == /\ ev.e = "New" /\ Idle
       /\ Protocol => ev.freq = ev.n
       /\ REq(ev.B, 1) /\ ev.t0 = 0 /\ ev.solver /\ REq(ev.bias, 0) /\ Len(ev.w) = ev.d /\ \A i \in 1..ev.d : REq(ev.w[i], 0)
       /\ Protocol => LET c == RDiv(10, ev.lambda) IN
            \E r \in {RNeg(RFloor(RNeg(RMul(c, f)))) : f \in {"1", "1.0000001", "0.9999999"}} : REq(ev.max, RMax(ev.n, r))
       /\ UNCHANGED <<pb, run, k, a, seen, alpha, m, sc, on, last>>
(* the stored bias when get_bias returned b *)
Stored(b, B) == IF REq(B, 0) THEN 0 ELSE RDiv(b, B)
Start == /\ ev.e = "Start" /\ Idle /\ ev.same
         /\ (Numbers /\ ev.set # <<>> /\ ~REq(ev.B, 0)) => RNear(ev.bias, ev.set[1], Tol)
         /\ pb' = [x |-> ev.x, y |-> ev.y, p |-> ev.p, lambda |-> ev.lambda, B |-> ev.B, loss |-> ev.loss, rho |-> ev.rho, t0 |-> ev.t0]
         /\ run' = [solver |-> ev.solver, eps |-> ev.eps, max |-> ev.max, freq |-> ev.freq, calls |-> ev.calls, spied |-> ev.limit = 1, fresh |-> ev.fresh]
         /\ m' = [w |-> ev.w, b |-> Stored(ev.bias, ev.B)]
         /\ alpha' = TLCEval(IF ev.fresh THEN Zeros(Len(ev.y)) ELSE alpha)
         /\ (Numbers /\ ~ev.fresh) => CloseSeq(m.w, ev.w) \/ ev.solver # "sdca"      \* training again goes on from the model
         /\ k' = 0 /\ a' = 0 /\ seen' = {} /\ sc' = TLCEval([i \in 1..Len(ev.y) |-> <<"-inf", 0>>]) /\ on' = TRUE /\ last' = None
(* a visit: samples come in rounds, each living sample once a round *)
Living == IF run.solver = "sgd" THEN 1..Num(pb) ELSE Alive(pb)
Round == IF seen = Living THEN {} ELSE seen
VisitOf(i) == /\ i \in Living /\ (Protocol => i \notin Round) /\ seen' = Round \cup {i} /\ a' = a + 1
              /\ Numbers => RNear(ev.z, Score(pb, m, i), Tol) /\ REq(ev.y, pb.y[i])
Visit == /\ ev.e = "Visit" /\ on /\ run.spied /\ (Protocol /\ last # None => last.status = 1)
         /\ LET i == ev.i IN
            /\ VisitOf(i)
            /\ CASE ~Numbers -> UNCHANGED <<alpha, m, sc>>
                 [] Numbers /\ run.solver = "sdca" ->
                      /\ Numbers => RNear(ev.a, RDiv(alpha[i], pb.p[i]), Tol) /\ RNear(ev.A, RMul(pb.p[i], Norm2(pb, i)), Tol)
                      /\ Numbers => IsDualStep(pb.loss, ev.out, ev.a, ev.z, ev.A, ev.y, Tol)
                      /\ LET dd == RMul(pb.p[i], ev.out) IN alpha' = TLCEval([alpha EXCEPT ![i] = RAdd(@, dd)]) /\ m' = TLCEval(DualMove(pb, m, i, dd))
                      /\ UNCHANGED sc
                 [] Numbers /\ run.solver = "sgd" ->
                      /\ Numbers => IsSubgradient(pb.loss, ev.out, ev.z, ev.y, Tol)
                      /\ m' = TLCEval(GradMove(pb, m, i, RMul(Pos(pb.p[i]), ev.out), a))
                      /\ sc' = TLCEval([sc EXCEPT ![i] = <<@[2], ev.z>>])
                      /\ UNCHANGED alpha
         /\ UNCHANGED <<pb, run, k, on, last>>
Variation == IF \E i \in DOMAIN sc : REq(sc[i][1], "-inf") THEN Inf
             ELSE RDiv(RSqrt(RSum([i \in DOMAIN sc |-> Sqr(RSub(sc[i][2], sc[i][1]))])), Num(pb))
(* the statistics describe the model that is in the object *)
Shown == [w |-> ev.w, b |-> Stored(ev.bias, pb.B)]
StatsOk == Numbers => LET M == TLCEval(Shown) IN
  /\ ev.timed
  /\ \A i \in 1..Num(pb) : RNear(ev.scores[i], Score(pb, M, i), Tol)
  /\ RNear(ev.reg, Regularizer(pb, M), Tol) /\ RNear(ev.loss, MeanLoss(pb, M), Tol) /\ RNear(ev.obj, RAdd(ev.reg, ev.loss), Tol)
  /\ (run.spied /\ run.solver = "sgd") => RNear(ev.var, Variation, Tol)
  /\ run.solver = "sdca" =>
       /\ RNear(ev.dobj, RSub(ev.dloss, ev.reg), Tol) /\ RNear(ev.gap, RSub(ev.obj, ev.dobj), Tol)
       /\ RLe(RMul(-1, RMul(Tol, RMax(1, RAbs(ev.obj)))), ev.gap)      \* the dual never exceeds the primal
       /\ RFinite(ev.gap)
       /\ run.spied => RNear(ev.dloss, DualLoss(pb, alpha), Tol)
ModelOk == (Numbers /\ run.spied) =>
                        /\ CloseSeq(ev.w, m.w) /\ RNear(ev.bias, Bias(pb, m), Tol)
                        /\ run.solver = "sdca" => (LET M == TLCEval(ModelOf(pb, alpha)) IN CloseSeq(ev.w, M.w) /\ RNear(ev.bias, Bias(pb, M), Tol))
Small == IF run.solver = "sdca" THEN RLt(ev.gap, run.eps) ELSE RLt(ev.var, run.eps)
ProtocolOk(done) == Protocol =>
  IF run.solver = "none" THEN ev.t = 0 /\ ev.epoch = 0 /\ ev.status = 2
  ELSE /\ ev.epoch = ev.t \div Num(pb)
       /\ ev.status = Status(Small, done, run.max)
       /\ IsReport(done, run.freq, run.max) /\ done <= run.max
       /\ run.spied => a \in AliveVisits(Num(pb), Cardinality(Living), done)
Report == /\ ev.e = "Report" /\ on /\ run.calls /\ (Protocol /\ last # None => last.status = 1 /\ run.solver # "none")
          /\ (Protocol /\ run.solver # "none") => ev.t + 1 = NextReport(k, run.freq, run.max)
          /\ ProtocolOk(ev.t + 1) /\ StatsOk /\ ModelOk
          /\ k' = ev.t + 1 /\ m' = TLCEval(Shown) /\ last' = ev
          /\ UNCHANGED <<pb, run, a, seen, alpha, sc, on>>
(* training ends with what was last reported *)
SameNumbers == \A f \in {"obj", "reg", "loss", "dobj", "dloss", "gap", "var", "bias"} : REq(ev[f], last[f])
End == /\ ev.e = "End" /\ on /\ on' = FALSE
       /\ IF run.calls THEN /\ last # None /\ (Protocol => last.status # 1) /\ ev.status = last.status /\ ev.t = last.t /\ ev.epoch = last.epoch /\ SameNumbers
                            /\ \A i \in DOMAIN ev.w : REq(ev.w[i], last.w[i])
                            /\ \A i \in DOMAIN ev.scores : REq(ev.scores[i], last.scores[i])
          ELSE ProtocolOk(ev.t + 1) /\ (Protocol => ev.status # 1)
       /\ StatsOk /\ ModelOk
       /\ m' = TLCEval(Shown) /\ last' = ev /\ UNCHANGED <<pb, run, k, a, seen, alpha, sc>>
(* dual ascent reaches the optimum: with the smooth losses linearly fast *)
Solved == /\ ev.e = "Solved" /\ ~on /\ (Numbers => ((ev.smooth => last.status = 2) /\ RLe(last.gap, "0.02")))
          /\ UNCHANGED <<pb, run, k, a, seen, alpha, m, sc, on, last>>
(* every epoch is a permutation; orders change from epoch to epoch and are reproducible *)
EpochOf(q) == SubSeq(ev.seq, (q - 1) * ev.n + 1, q * ev.n)
Order == /\ ev.e = "Order" /\ Idle
         /\ (Protocol => Len(ev.seq) = ev.n * ev.epochs)
         /\ Protocol => \A q \in 1..ev.epochs : {EpochOf(q)[i] : i \in 1..ev.n} = 1..ev.n
         /\ Protocol => Cardinality({EpochOf(q) : q \in 1..ev.epochs}) > ev.epochs \div 2
         /\ ~ev.first => last.seq = ev.seq /\ \A i \in DOMAIN ev.w : REq(last.w[i], ev.w[i])
         /\ last' = ev /\ UNCHANGED <<pb, run, k, a, seen, alpha, m, sc, on>>
(* the loss functions, their subgradients, conjugates (Fenchel-Young) and exact dual steps *)
Gain(d) == RAdd(RAdd(RMul(RMul("0.5", ev.A), Sqr(d)), RMul(ev.z, d)), Conjugate(ev.loss, RNeg(RAdd(ev.a, d)), ev.y, "1e-12"))
LossOk == /\ RNear(ev.l, Loss(ev.loss, ev.z, ev.y), "1e-12") /\ IsSubgradient(ev.loss, ev.g, ev.z, ev.y, "1e-12")
          /\ \A i \in DOMAIN ev.u : /\ RNear(ev.c[i], Conjugate(ev.loss, ev.u[i], ev.y, 0), "1e-12")
                                    /\ RLe(RSub(RMul(ev.u[i], ev.z), RAdd(ev.l, ev.c[i])), "1e-9")
          /\ RNear(RAdd(ev.l, ev.c[1]), RMul(ev.u[1], ev.z), "1e-8")
          /\ IsDualStep(ev.loss, ev.out, ev.a, ev.z, ev.A, ev.y, Tol)
          /\ LET best == Gain(ev.out)  slack == RMul("1e-9", RMax(1, RAbs(best))) IN
               \A q \in -8..8 : \A s \in {"1e-3", "0.1"} :
                  RLe(best, RAdd(slack, Gain(RSub(RAdd(RAdd(ev.a, ev.out), RMul(q, s)), ev.a))))
LossEv == /\ ev.e = "Loss" /\ Idle /\ (Numbers => LossOk)
          /\ UNCHANGED <<pb, run, k, a, seen, alpha, m, sc, on, last>>
T == l <= Len(Trace) /\ l' = l + 1 /\ (New \/ Start \/ Visit \/ Report \/ End \/ Solved \/ Order \/ LossEv)
TSpec == Init /\ [][T]_vars
=============================================================================
