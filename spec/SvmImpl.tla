------------------------------ MODULE SvmImpl ------------------------------
(* The solvers of vl/svm.c on small problems, for every labelling, loss, order
   of visits and moment of reporting.
   - Dual ascent keeps alpha and the model incrementally: the model is always
     the one alpha stands for, alpha stays feasible, the dual never decreases
     and never exceeds the primal.
   - Gradient descent stores the model as factor * u (and the bias as its own
     factor * v), skips the addition when the gradient is zero, and multiplies
     the factors in when it reports: it equals the plain recursion.          *)
EXTENDS Svm
CONSTANTS XS, LAMBDAS, WEIGHTS, LOSSES, BS, MAXT
VARIABLES P, solver, t, seen, alpha, m, u, f, fb, dual
vars == <<P, solver, t, seen, alpha, m, u, f, fb, dual>>
X == CASE XS = 1 -> << <<1, 2>>, <<-2, 1>>, <<"0.5", -1>> >>
       [] XS = 2 -> << <<1, 2>>, <<1, 2>>, <<0, 0>> >>
N == 3
Weights(k) == IF k = 1 THEN <<"1", "1", "1">> ELSE <<"0.5", "2", "0">>
Zero == [w |-> <<0, 0>>, b |-> 0]
Init == /\ solver \in {"sdca", "sgd"}
        /\ \E y \in [1..N -> {-1, 1}], loss \in LOSSES, lam \in LAMBDAS, p \in {Weights(k) : k \in WEIGHTS}, B \in BS :
              P = [x |-> X, y |-> y, p |-> p, lambda |-> lam, B |-> B, loss |-> loss, rho |-> "0.5", t0 |-> 0]
        /\ t = 0 /\ seen = {} /\ alpha = [i \in 1..N |-> 0] /\ m = Zero /\ u = Zero /\ f = 1 /\ fb = 1 /\ dual = "-inf"
Epoch(i) == IF Cardinality(seen) = N THEN {i} ELSE seen \cup {i}
Fresh(i) == i \notin seen \/ Cardinality(seen) = N
(* what the documented step is, as a number *)
Step(loss, a, z, A, y) ==
  LET free == RAdd(RDiv(RSub(y, z), A), a)  soft == RAdd(RDiv(RSub(RSub(y, z), RMul("0.5", a)), RAdd(A, "0.5")), a) IN
  CASE loss = "hinge"  -> RSub(RMul(y, Clamp(0, 1, RMul(y, free))), a)
    [] loss = "hinge2" -> RSub(RMul(y, Pos(RMul(y, soft))), a)
    [] loss = "l1"     -> RSub(Clamp(-1, 1, free), a)
    [] loss = "l2"     -> RSub(soft, a)
DualVisit == \E i \in 1..N :
  /\ solver = "sdca" /\ t < MAXT /\ Fresh(i) /\ t' = t + 1 /\ seen' = Epoch(i)
  /\ dual' = Dual(P, m, alpha)
  /\ LET p == P.p[i]
         d == IF RLt(0, p) THEN RMul(p, Step(P.loss, RDiv(alpha[i], p), Score(P, m, i), RMul(p, Norm2(P, i)), P.y[i])) ELSE 0
     IN alpha' = [alpha EXCEPT ![i] = RAdd(@, d)] /\ m' = DualMove(P, m, i, d)
  /\ UNCHANGED <<P, solver, u, f, fb>>
Gradient(z, y) == IF P.loss = "hinge" THEN (IF RLt(RMul(y, z), 1) THEN RNeg(y) ELSE 0) ELSE IF P.loss = "l2" THEN RMul(2, RSub(z, y)) ELSE IF RLt(z, y) THEN -1 ELSE 1
Scale(mm, a, b) == [w |-> [k \in DOMAIN mm.w |-> RMul(a, mm.w[k])], b |-> RMul(b, mm.b)]
GradVisit == \E i \in 1..N :
  /\ solver = "sgd" /\ t < MAXT /\ Fresh(i) /\ t' = t + 1 /\ seen' = Epoch(i)
  /\ LET z == RAdd(RMul(f, RDot(u.w, P.x[i])), RMul(fb, RMul(P.B, u.b)))
         g == RMul(P.p[i], Gradient(z, P.y[i]))
         eta == Rate(P, t)
         etab == RMul(eta, P.rho)
         f2 == RMul(f, RSub(1, RMul(P.lambda, eta)))
         fb2 == RMul(fb, RSub(1, RMul(P.lambda, etab)))
     IN /\ f' = f2 /\ fb' = fb2
        /\ u' = IF REq(g, 0) THEN u ELSE Move(u, P.x[i], P.B, RNeg(RDiv(RMul(g, eta), f2)), RNeg(RDiv(RMul(g, etab), fb2)))
        /\ m' = GradMove(P, m, i, g, t)   \* the same subgradient: at a kink either is one
  /\ UNCHANGED <<P, solver, alpha, dual>>
Report == /\ solver = "sgd" /\ ~(REq(f, 1) /\ REq(fb, 1)) /\ u' = Scale(u, f, fb) /\ f' = 1 /\ fb' = 1
          /\ UNCHANGED <<P, solver, t, seen, alpha, m, dual>>
Next == DualVisit \/ GradVisit \/ Report
Spec == Init /\ [][Next]_vars
Close(a, b) == /\ RNear(a.b, b.b, "1e-9") /\ \A k \in DOMAIN a.w : RNear(a.w[k], b.w[k], "1e-9")
Ascent == solver = "sdca" => LET D == Dual(P, m, alpha) IN
            /\ RLe(D, RAdd(Primal(P, m), "1e-9"))           \* weak duality
            /\ RLe(dual, RAdd(D, "1e-9"))                   \* each step improves
            /\ RFinite(D)                                   \* alpha stays feasible
            /\ Close(m, ModelOf(P, alpha))
Factored == solver = "sgd" => Close(m, Scale(u, f, fb))
Epochs == Cardinality(seen) = (IF t = 0 THEN 0 ELSE ((t - 1) % N) + 1)
Bookkeeping == /\ \A k \in 0..MAXT : IsReport(NextReport(k, 2, MAXT), 2, MAXT) /\ NextReport(k, 2, MAXT) > k
               /\ \A a \in 0..N : \A k \in 0..MAXT : AliveVisits(N, a, k) # {}
=============================================================================
