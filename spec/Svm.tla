-------------------------------- MODULE Svm --------------------------------
(* Linear SVM training as documented in vl/svm.c: the objective
     E(w) = lambda/2 |w|^2 + 1/n SUM_i p_i l(<w, x_i>, y_i)
   where every sample carries the constant feature B (the bias multiplier),
   its dual, and the two solvers.  A problem P is a record with fields
     x (sequence of samples), y, p (weights), lambda, B, loss, rho (the rate
     of the bias), t0 (the first iteration of SGD)
   and a model is a record w, b where b multiplies B.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, RealOps
Inf == "inf"
Losses == {"hinge", "hinge2", "l1", "l2", "logistic", "custom"}
Quarter == "0.25"   \* the custom loss is (z - y)^2 / 4
Pos(v) == RMax(0, v)
Sqr(v) == RMul(v, v)
XLogX(v) == IF RLe(v, "1e-10") THEN 0 ELSE RMul(v, RLog(v))
Softplus(v) == IF RLe(v, 0) THEN RLog(RAdd(1, RExp(v))) ELSE RAdd(v, RLog(RAdd(1, RExp(RNeg(v)))))
Loss(loss, z, y) ==
  CASE loss = "hinge"    -> Pos(RSub(1, RMul(y, z)))
    [] loss = "hinge2"   -> Sqr(Pos(RSub(1, RMul(y, z))))
    [] loss = "l1"       -> RAbs(RSub(y, z))
    [] loss = "l2"       -> Sqr(RSub(y, z))
    [] loss = "logistic" -> Softplus(RNeg(RMul(y, z)))
    [] loss = "custom"   -> RMul(Quarter, Sqr(RSub(z, y)))
(* g is a subgradient of the loss at z *)
IsSubgradient(loss, g, z, y, tol) ==
  LET m == RMul(y, z)  near(v) == RNear(g, v, tol)  IN
  CASE loss = "hinge"    -> IF RLt(m, 1) THEN near(RNeg(y)) ELSE near(0)
    [] loss = "hinge2"   -> IF RLt(m, 1) THEN near(RMul(2, RSub(z, y))) ELSE near(0)
    [] loss = "l1"       -> IF RLt(z, y) THEN near(-1) ELSE IF RLt(y, z) THEN near(1) ELSE RLe(RAbs(g), 1)
    [] loss = "l2"       -> near(RMul(2, RSub(z, y)))
    [] loss = "logistic" -> near(RDiv(RNeg(y), RAdd(1, RExp(m))))
    [] loss = "custom"   -> near(RMul("0.5", RSub(z, y)))
(* the conjugate l*(u) = sup_z (z u - l(z)); slack is how far u may be outside
   the domain and still be taken for a boundary point                        *)
Conjugate(loss, u, y, slack) ==
  LET m == RMul(y, u)  unit == RLe(RSub(-1, slack), m) /\ RLe(m, slack)  c == RMin(0, RMax(-1, m))  IN
  CASE loss = "hinge"    -> IF unit THEN m ELSE Inf
    [] loss = "hinge2"   -> IF RLe(m, slack) THEN RMul(RAdd(y, RDiv(u, 4)), u) ELSE Inf
    [] loss = "l1"       -> IF RLe(RAbs(u), RAdd(1, slack)) THEN m ELSE Inf
    [] loss = "l2"       -> RMul(RAdd(y, RDiv(u, 4)), u)
    [] loss = "logistic" -> IF unit THEN RAdd(XLogX(RNeg(c)), XLogX(RAdd(1, c))) ELSE Inf
    [] loss = "custom"   -> RMul(RAdd(y, u), u)
(* the exact maximiser of the dual along one coordinate: d minimises
     A/2 d^2 + z d + l*(-(a + d))
   where a is the dual variable, z the score and A the squared norm over
   lambda n                                                                  *)
Clamp(lo, hi, v) == RMin(hi, RMax(lo, v))
IsDualStep(loss, d, a, z, A, y, tol) ==
  LET free == RAdd(RDiv(RSub(y, z), A), a)          \* where the linear losses would go
      soft == RAdd(RDiv(RSub(RSub(y, z), RMul("0.5", a)), RAdd(A, "0.5")), a)
      near(v) == RNear(RAdd(a, d), v, tol)
      beta == RMul(y, RAdd(a, d))
      slope(b) == RAdd(RMul(A, b), RAdd(RMul(y, RSub(z, RMul(A, a))), RSub(RLog(b), RLog(RSub(1, b)))))
      eta == RMul(tol, RMin(beta, RSub(1, beta)))
  IN CASE loss = "hinge"    -> near(RMul(y, Clamp(0, 1, RMul(y, free))))
       [] loss = "hinge2"   -> near(RMul(y, Pos(RMul(y, soft))))
       [] loss = "l1"       -> near(Clamp(-1, 1, free))
       [] loss = "l2"       -> near(soft)
       [] loss = "custom"   -> near(RAdd(a, RDiv(RSub(RSub(y, z), RMul(2, a)), RAdd(A, 2))))
       [] loss = "logistic" ->
            /\ RLe(0, beta) /\ RLe(beta, 1)
            /\ RLt("1e-9", beta) => RLe(slope(RSub(beta, RAdd(eta, "1e-10"))), "1e-9")
            /\ RLt(beta, RSub(1, "1e-9")) => RLe("-1e-9", slope(RAdd(beta, RAdd(eta, "1e-10"))))
(* the model *)
Num(P) == Len(P.x)
Dim(P) == Len(P.x[1])
Alive(P) == {i \in 1..Num(P) : RLt(0, P.p[i])}
Score(P, m, i) == RAdd(RDot(m.w, P.x[i]), RMul(m.b, P.B))
Bias(P, m) == RMul(m.b, P.B)
Norm2(P, i) == RDiv(RAdd(RDot(P.x[i], P.x[i]), Sqr(P.B)), RMul(P.lambda, Num(P)))
Move(m, x, B, s, r) == [w |-> [k \in DOMAIN x |-> RAdd(m.w[k], RMul(s, x[k]))], b |-> RAdd(m.b, RMul(r, B))]
Regularizer(P, m) == RMul(RMul("0.5", P.lambda), RAdd(RDot(m.w, m.w), Sqr(m.b)))
MeanLoss(P, m) == RDiv(RSum([i \in 1..Num(P) |-> IF i \in Alive(P) THEN RMul(P.p[i], Loss(P.loss, Score(P, m, i), P.y[i])) ELSE 0]), Num(P))
DualLoss(P, a) == RNeg(RDiv(RSum([i \in 1..Num(P) |-> IF i \in Alive(P) THEN RMul(P.p[i], Conjugate(P.loss, RNeg(RDiv(a[i], P.p[i])), P.y[i], "1e-9")) ELSE 0]), Num(P)))
Primal(P, m) == RAdd(Regularizer(P, m), MeanLoss(P, m))
Dual(P, m, a) == RSub(DualLoss(P, a), Regularizer(P, m))
(* the model a vector of dual variables stands for *)
ModelOf(P, a) == LET c(k) == RDot(a, [i \in 1..Num(P) |-> P.x[i][k]])
                     s == RDiv(1, RMul(P.lambda, Num(P)))
                 IN [w |-> [k \in 1..Dim(P) |-> RMul(s, c(k))], b |-> RMul(s, RMul(P.B, RSum(a)))]
(* one visit: dual ascent moves the model along its sample *)
DualMove(P, m, i, step) == LET s == RDiv(step, RMul(P.lambda, Num(P))) IN Move(m, P.x[i], P.B, s, s)
(* one visit: gradient descent shrinks the model and follows minus the gradient g (weight included); t counts from 0 *)
FirstRate(lambda) == IF RLe(RDiv(1, lambda), 2) THEN 2 ELSE RNeg(RFloor(RNeg(RDiv(1, lambda))))
Rate(P, t) == RDiv(1, RMul(P.lambda, RAdd(RAdd(P.t0, t), FirstRate(P.lambda))))
GradMove(P, m, i, g, t) ==
  LET eta == Rate(P, t)  etab == RMul(eta, P.rho)
      shrunk == [w |-> [k \in 1..Dim(P) |-> RMul(RSub(1, RMul(P.lambda, eta)), m.w[k])], b |-> RMul(RSub(1, RMul(P.lambda, etab)), m.b)]
  IN Move(shrunk, P.x[i], P.B, RNeg(RMul(eta, g)), RNeg(RMul(etab, g)))
(* the reporting protocol, in numbers of visits made *)
NextReport(done, freq, max) == LET m == ((done \div freq) + 1) * freq IN IF done < max /\ max < m THEN max ELSE m
IsReport(k, freq, max) == k % freq = 0 \/ k = max
Status(small, k, max) == IF small THEN 2 ELSE IF k = max THEN 3 ELSE 1
(* how many living samples may have been visited after k visits *)
AliveVisits(n, alive, k) == LET full == k \div n  r == k % n  dead == n - alive IN
  {a \in (full * alive)..((full + 1) * alive) : a - full * alive <= r /\ a - full * alive >= r - dead}
=============================================================================
