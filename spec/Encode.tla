------------------------------- MODULE Encode -------------------------------
(* Encodings of a set of vectors with respect to a vocabulary: VLAD, and the
   Fisher vector of a diagonal Gaussian mixture; and the mixture itself: its
   posteriors, the update of its parameters, the restart of its empty modes.
   Vectors and matrices are functions over 1..n; data, means are sequences of
   vectors, weights are indexed [point][mode].                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, RealOps
Rows(flat, D) == [j \in 1..(Len(flat) \div D) |-> SubSeq(flat, (j - 1) * D + 1, j * D)]
Norm(v) == RSqrt(RDot(v, v))
Scaled(v) == LET n == TLCEval(RMax(Norm(v), "1e-12")) IN [i \in DOMAIN v |-> RDiv(v[i], n)]
SignedRoot(a) == IF RLt(a, 0) THEN RNeg(RSqrt(RNeg(a))) ELSE RSqrt(a)
Rooted(v) == [i \in DOMAIN v |-> SignedRoot(v[i])]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
RMaxOf(d) == d[CHOOSE k \in DOMAIN d : \A h \in DOMAIN d : RLe(d[h], d[k])]
(* ------------------------------------------------------------------ VLAD -- *)
\* opts: the set of "components", "root", "unnormalized", "mass"; weights that are not positive do not count
Mass(q, k) == RSum([j \in DOMAIN q |-> RMax(q[j][k], 0)])
VladBlock(opts, data, mean, q, k) ==
  LET m == TLCEval(Mass(q, k))
      part(i) == RSum([j \in DOMAIN data |-> RMul(RMax(q[j][k], 0), data[j][i])])
      raw == [i \in DOMAIN mean |-> IF ~RLt(0, m) THEN 0
                                    ELSE IF "mass" \in opts THEN RSub(RDiv(part(i), m), mean[i])
                                    ELSE RSub(part(i), RMul(m, mean[i]))]
      b1 == IF "root" \in opts THEN Rooted(TLCEval(raw)) ELSE raw
  IN IF "components" \in opts THEN Scaled(TLCEval(b1)) ELSE b1
Vlad(opts, data, means, q) ==
  LET v == TLCEval(Flat([k \in DOMAIN means |-> VladBlock(opts, data, means[k], q, k)]))
  IN IF "unnormalized" \in opts THEN v ELSE Scaled(v)
(* --------------------------------------------------------------- mixture -- *)
MinPrior == "1e-6"
LogDensity(x, mean, var) ==
  RSub(0, RAdd(RMul(RDiv(Len(x), 2), RLog(RMul(2, RPi))),
               RMul("0.5", RAdd(RSum([i \in DOMAIN x |-> RLog(var[i])]),
                                RSum([i \in DOMAIN x |-> LET d == RSub(x[i], mean[i]) IN RDiv(RMul(d, d), var[i])])))))
LogJoint(x, th) == [k \in DOMAIN th.w |-> IF RLt(th.w[k], MinPrior) THEN "-inf" ELSE RAdd(RLog(th.w[k]), LogDensity(x, th.mu[k], th.var[k]))]
\* posteriors and log-likelihood of one point, from the log joint densities
Posterior(lj) == LET m == TLCEval(RMaxOf(lj))  e == TLCEval([k \in DOMAIN lj |-> RExp(RSub(lj[k], m))])  s == TLCEval(RSum(e))
                 IN [p |-> [k \in DOMAIN lj |-> RDiv(e[k], s)], ll |-> RAdd(m, RLog(s))]
\* the update: memberships below 1/100 K are not counted; variances are bounded below
Counted(p, K) == IF RLt(p, RDiv("1e-2", K)) THEN 0 ELSE p
ModeMass(P, K, k) == RSum([j \in DOMAIN P |-> Counted(P[j][k], K)])
Update(data, P, K, low) ==
  LET D == Len(low)
      ms == TLCEval([k \in 1..K |-> ModeMass(P, K, k)])
      tot == TLCEval(RMax(RSum(ms), "1e-12"))
      mean(k) == [i \in 1..D |-> RDiv(RSum([j \in DOMAIN data |-> RMul(Counted(P[j][k], K), data[j][i])]), ms[k])]
      mu == TLCEval([k \in 1..K |-> IF RLt(0, ms[k]) THEN mean(k) ELSE [i \in 1..D |-> 0]])
      var(k) == [i \in 1..D |-> RDiv(RSum([j \in DOMAIN data |-> LET d == RSub(data[j][i], mu[k][i]) IN RMul(Counted(P[j][k], K), RMul(d, d))]), ms[k])]
  IN [mass |-> ms, w |-> [k \in 1..K |-> RDiv(ms[k], tot)], mu |-> mu,
      var |-> [k \in 1..K |-> IF RLt(0, ms[k]) THEN LET v == TLCEval(var(k)) IN [i \in 1..D |-> RMax(v[i], low[i])] ELSE low]]
\* a mode is nearly empty if its mass is below 1/100 of its share of the points (at least one)
Need(N, K) == RMul("1e-2", RMax(1, RDiv(N, K)))
EntropyShare(th, k) == LET D == Len(th.mu[k])
                       IN RMul(th.w[k], RSub(RAdd(RMul(RDiv(D, 2), RAdd(1, RLog(RMul(2, RPi)))), RMul("0.5", RSum([i \in 1..D |-> RLog(th.var[k][i])]))), RLog(th.w[k])))
(* ---------------------------------------------------------------- Fisher -- *)
\* the components sum the first and second order deviations; P is the membership to use
FisherU(data, th, P, k) ==
  LET D == Len(th.mu[k])  N == Len(data)  sd == TLCEval([i \in 1..D |-> RSqrt(th.var[k][i])])
      p(j) == IF RLt(P[j][k], "1e-6") THEN 0 ELSE P[j][k]
      z(j, i) == RDiv(RSub(data[j][i], th.mu[k][i]), sd[i])
      cu == RDiv(1, RMul(N, RSqrt(th.w[k])))  cv == RDiv(1, RMul(N, RSqrt(RMul(2, th.w[k]))))
  IN IF RLt(th.w[k], MinPrior) \/ N = 0 THEN [u |-> [i \in 1..D |-> 0], v |-> [i \in 1..D |-> 0]]
     ELSE [u |-> [i \in 1..D |-> RMul(cu, RSum([j \in 1..N |-> RMul(p(j), z(j, i))]))],
           v |-> [i \in 1..D |-> RMul(cv, RSum([j \in 1..N |-> LET t == z(j, i) IN RMul(p(j), RSub(RMul(t, t), 1))]))]]
Fisher(data, th, P) ==
  LET uv == TLCEval([k \in DOMAIN th.w |-> FisherU(data, th, P, k)])
  IN Flat([k \in DOMAIN th.w |-> uv[k].u]) \o Flat([k \in DOMAIN th.w |-> uv[k].v])
Best(p) == CHOOSE k \in DOMAIN p : \A h \in DOMAIN p : RLt(p[h], p[k]) \/ (REq(p[h], p[k]) /\ k <= h)
OneHot(p) == LET b == Best(p) IN [k \in DOMAIN p |-> IF k = b THEN 1 ELSE 0]
=============================================================================
