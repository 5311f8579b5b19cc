---------------------------- MODULE EncodeTrace ----------------------------
EXTENDS TraceKit, Encode
VARIABLE l
ev == Trace[l]
Single == ev.single
Bit(n, b) == (n \div b) % 2 = 1
Dt == TLCEval(Rows(ev.data, ev.D))
Bigger(s) == RMaxOf(<<1>> \o [i \in DOMAIN s |-> RAbs(s[i])])
Close(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RNear(a[i], b[i], tol)
(* VLAD *)
PowerOf2(m) == \E e \in -6..8 : REq(m, RPow(2, e))
VladOk ==
  LET opts == (IF Bit(ev.flags, 1) THEN {"components"} ELSE {}) \cup (IF Bit(ev.flags, 2) THEN {"root"} ELSE {})
              \cup (IF Bit(ev.flags, 4) THEN {"unnormalized"} ELSE {}) \cup (IF Bit(ev.flags, 8) THEN {"mass"} ELSE {})
      data == Dt  means == TLCEval(Rows(ev.means, ev.D))  q == TLCEval(Rows(ev.q, Len(means)))
      raw == TLCEval([k \in DOMAIN means |-> VladBlock(opts \cap {"mass"}, data, means[k], q, k)])
      \* with rounding a residual that should vanish may not, and then roots and normalisations blow it up
      hazard == Single /\ "mass" \in opts /\ \E k \in DOMAIN means : /\ ~PowerOf2(Mass(q, k)) /\ RLt(0, Mass(q, k))
                                                                        /\ \E i \in 1..ev.D : RWithin(raw[k][i], 0, "1e-4")
  IN ev.kept /\ (~hazard => Close(ev.enc, Vlad(opts, data, means, q), IF Single THEN "2e-5" ELSE "1e-12"))
(* the mixture: posteriors and likelihood *)
Theta(w, mu, var) == [w |-> w, mu |-> Rows(mu, ev.D), var |-> Rows(var, ev.D)]
Eps == IF Single THEN "5e-7" ELSE "1e-14"
LLUnit == IF Single THEN "5e-7" ELSE "1e-14"
\* posteriors P[j][k] and log-likelihood ll are those of th
IsEstep(data, th, P, ll) ==
  LET J == TLCEval([j \in DOMAIN data |-> LogJoint(data[j], th)])
      R == TLCEval([j \in DOMAIN data |-> Posterior(J[j])])
      fin(j) == Bigger(SelectSeq(J[j], LAMBDA v : RFinite(v)))
      S == TLCEval([j \in DOMAIN data |-> RMul(Eps, RMul(ev.D + 4, fin(j)))])
  IN /\ \A j \in DOMAIN data : \A k \in DOMAIN th.w :
           /\ RWithin(P[j][k], R[j].p[k], RMul(S[j], 2))
           /\ RLt(th.w[k], MinPrior) => REq(P[j][k], 0)
     /\ RWithin(ll, RSum([j \in DOMAIN data |-> R[j].ll]), RAdd(RMul(2, RSum(S)), "1e-12"))
DensityOk ==
  LET th == TLCEval(Theta(ev.w, ev.mu, ev.var))  IN IsEstep(Dt, th, TLCEval(Rows(ev.post, Len(th.w))), ev.ll)
\* th is the update of the memberships P, starting from the means old
CovTol(data, old, new) == RMul(IF Single THEN "4e-6" ELSE "1e-13", LET m == RAdd(Bigger(Flat(data)), RAdd(Bigger(Flat(old)), Bigger(Flat(new)))) IN RMul(m, m))
IsUpdate(data, P, K, low, old, th) ==
  LET up == TLCEval(Update(data, P, K, low))
      mt == RMul(IF Single THEN "4e-6" ELSE "1e-13", Bigger(Flat(data)))
      ct == TLCEval(CovTol(data, old, up.mu))
  IN \A k \in 1..K :
       /\ RNear(th.w[k], up.w[k], IF Single THEN "4e-6" ELSE "1e-13")
       /\ RLt(0, up.mass[k]) => \A i \in 1..Len(low) : RWithin(th.mu[k][i], up.mu[k][i], mt) /\ RWithin(th.var[k][i], up.var[k][i], ct)
       /\ \A i \in 1..Len(low) : RLe(RSingle(low[i]), th.var[k][i]) \/ RLe(low[i], th.var[k][i])
SameTh(a, b) == \A k \in DOMAIN a.w : REq(a.w[k], b.w[k]) /\ \A i \in DOMAIN a.mu[k] : REq(a.mu[k][i], b.mu[k][i]) /\ REq(a.var[k][i], b.var[k][i])
Bounded(th, low) == [th EXCEPT !.var = [k \in DOMAIN th.var |-> [i \in DOMAIN low |-> IF RLt(th.var[k][i], low[i]) THEN (IF Single THEN RSingle(low[i]) ELSE low[i]) ELSE th.var[k][i]]]]
(* the restart of the nearly empty modes; the answer is a record with the new
   memberships, or with unknown = TRUE if rounding might decide             *)
RECURSIVE Restart(_, _, _, _, _, _, _)
Restart(data, low, P, th, mass, k, done) ==
  LET K == Len(mass)  N == Len(data)
      share == TLCEval([h \in 1..K |-> IF RLt(th.w[h], MinPrior) THEN "-inf" ELSE EntropyShare(th, h)])
      top == RMaxOf(share)
      cand == {h \in 1..K : RNear(share[h], top, "1e-4")}
      j == CHOOSE h \in cand : TRUE
      vmax == RMaxOf(th.var[j])
      ds == {i \in DOMAIN low : RNear(th.var[j][i], vmax, "1e-3")}
      dm == IF done = 0 THEN CHOOSE i \in DOMAIN low : REq(th.var[j][i], vmax) /\ \A h \in 1..(i - 1) : ~REq(th.var[j][h], vmax) ELSE CHOOSE i \in ds : TRUE
      mu == th.mu[j][dm]
      below(n) == RLt(data[n][dm], mu)
      P2 == TLCEval([n \in 1..N |-> LET s == RAdd(P[n][j], P[n][k]) IN
               [h \in 1..K |-> IF h = k THEN (IF below(n) THEN s ELSE 0) ELSE IF h = j THEN (IF below(n) THEN 0 ELSE s) ELSE P[n][h]]])
      th2 == Update(data, P2, K, low)
  IN IF k > K THEN [unknown |-> FALSE, P |-> P, n |-> done]
     ELSE IF RWithin(mass[k], Need(N, K), "1e-6") THEN [unknown |-> TRUE]
     ELSE IF ~RLt(mass[k], Need(N, K)) THEN Restart(data, low, P, th, mass, k + 1, done)
     ELSE IF cand = {k} THEN Restart(data, low, P, th, mass, k + 1, done)
     ELSE IF Cardinality(cand) > 1 THEN [unknown |-> TRUE]
     ELSE IF done > 0 /\ (Cardinality(ds) > 1 \/ \E n \in 1..N : RNear(data[n][dm], mu, "1e-4")) THEN [unknown |-> TRUE]
     ELSE Restart(data, low, P2, TLCEval([w |-> th2.w, mu |-> th2.mu, var |-> th2.var]), mass, k + 1, done + 1)
Restarted(data, low, P, th) == LET K == Len(th.w) IN
   IF K <= 1 THEN [unknown |-> FALSE, P |-> P, n |-> 0]
   ELSE Restart(data, low, P, th, TLCEval([k \in 1..K |-> RSum([n \in DOMAIN P |-> P[n][k]])]), 1, 0)
Variation(a, b) == RAbs(RDiv(RSub(b, a), b))
Stops(lls, i) == i > 1 /\ RLt(Variation(lls[i - 1], lls[i]), "1e-5")
(* the same start, with at most 0, 1, 2, ... updates *)
LadderOk ==
  LET data == Dt  K == ev.K  low == ev.low
      start == TLCEval(Theta(ev.w0, ev.mu0, ev.var0))
      n == Len(ev.ll)
      th == TLCEval([i \in 1..n |-> Theta(ev.w[i], ev.mu[i], ev.var[i])])
      P == TLCEval([i \in 1..n |-> Rows(ev.post[i], K)])
      frozen(i) == \E h \in 1..i : Stops(ev.ll, h)
      SameP(a, b) == \A j \in DOMAIN a : \A k \in DOMAIN a[j] : REq(a[j][k], b[j][k])
      \* the update number i is based on the memberships found before it, after restarting empty modes from the third on
      Moves(i) == IF i <= 2 THEN IsUpdate(data, P[i], K, low, th[i].mu, th[i + 1])
                  ELSE LET r == TLCEval(Restarted(data, low, P[i], th[i])) IN
                       r.unknown \/ IsUpdate(data, r.P, K, low, th[i].mu, th[i + 1])
  IN /\ SameTh(th[1], Bounded(start, low))
     /\ \A i \in 1..n : IsEstep(data, th[i], P[i], ev.ll[i]) /\ REq(ev.got[i], ev.ll[i])
     /\ \A i \in 1..(n - 1) : IF frozen(i) THEN SameTh(th[i], th[i + 1]) /\ SameP(P[i], P[i + 1]) /\ REq(ev.ll[i], ev.ll[i + 1]) ELSE Moves(i)
\* one update, with any number of threads
StepOk ==
  LET data == Dt  K == ev.K  low == ev.low  th0 == TLCEval(Bounded(Theta(ev.w0, ev.mu0, ev.var0), low))  th == TLCEval(Theta(ev.w, ev.mu, ev.var))
      R == TLCEval([j \in DOMAIN data |-> Posterior(TLCEval(LogJoint(data[j], th0))).p])
      sure == \A j \in DOMAIN R : \A k \in 1..K : ~RWithin(R[j][k], RDiv("1e-2", K), "1e-4")
      up == TLCEval(Update(data, R, K, low))
      t == TLCEval(RMul(20, CovTol(data, th0.mu, up.mu)))
  IN /\ sure => \A k \in 1..K : /\ RWithin(th.w[k], up.w[k], IF Single THEN "1e-4" ELSE "1e-10")
                                /\ RLt("1e-2", up.mass[k]) => \A i \in 1..ev.D : RWithin(th.mu[k][i], up.mu[k][i], t) /\ RWithin(th.var[k][i], up.var[k][i], RMul(4, t))
     /\ IsEstep(data, th, TLCEval(Rows(ev.post, K)), ev.ll)
(* initialisation *)
IsDatum(data, v) == \E j \in DOMAIN data : \A i \in DOMAIN v : REq(data[j][i], v[i])
DiffSet(vs) == Cardinality({j \in DOMAIN vs : \A h \in 1..(j - 1) : \E i \in DOMAIN vs[j] : ~REq(vs[h][i], vs[j][i])})
MinN(a, b) == IF a < b THEN a ELSE b
Variance(data, i) == LET N == Len(data)  m == RDiv(RSum([j \in 1..N |-> data[j][i]]), N) IN IF N <= 1 THEN 0 ELSE RDiv(RSum([j \in 1..N |-> LET d == RSub(data[j][i], m) IN RMul(d, d)]), N - 1)
SqDis(x, c) == LET d == [i \in DOMAIN x |-> RSub(x[i], c[i])] IN RDot(d, d)
StartOk ==
  LET data == Dt  K == ev.K  th == TLCEval(Theta(ev.w, ev.mu, ev.var)) IN
  IF ev.how = "rand"
  THEN /\ \A k \in 1..K : REq(th.w[k], IF Single THEN RSingle(RDiv(1, K)) ELSE RDiv(1, K)) /\ IsDatum(data, th.mu[k])
       /\ \A k \in 1..K : \A i \in 1..ev.D : RNear(th.var[k][i], Variance(data, i), RMul(IF Single THEN "4e-6" ELSE "1e-13", Bigger(Flat(data))))
       /\ DiffSet(th.mu) = MinN(K, DiffSet(data))
  ELSE LET cs == TLCEval(Rows(ev.centres, ev.D))
           d == TLCEval([j \in DOMAIN data |-> [k \in 1..K |-> SqDis(data[j], cs[k])]])
           near(j) == CHOOSE k \in 1..K : \A h \in 1..K : RLe(d[j][k], d[j][h])
           clear == \A j \in DOMAIN data : \A h \in 1..K : h = near(j) \/ ~RNear(d[j][h], d[j][near(j)], "1e-4")
       IN clear => IsUpdate(data, TLCEval([j \in DOMAIN data |-> LET n == near(j) IN [k \in 1..K |-> IF k = n THEN 1 ELSE 0]]), K, ev.low, cs, th)
(* several starts: the best of them is kept, with its posteriors and likelihood *)
SameReals(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : REq(a[i], b[i])
ClusterOk ==
  LET best == RMaxOf(ev.lls)  th == TLCEval(Theta(ev.w, ev.mu, ev.var)) IN
  /\ REq(ev.ll, best) /\ REq(ev.got, best)
  /\ \E r \in DOMAIN ev.lls : REq(ev.lls[r], best) /\ SameReals(ev.runs[r], ev.w \o ev.mu \o ev.var)
  /\ IsEstep(Dt, th, TLCEval(Rows(ev.post, ev.K)), ev.ll)
CopyOk == SameReals(ev.a, ev.b)
(* Fisher vectors *)
FisherOk ==
  LET data == Dt  th == TLCEval(Theta(ev.w, ev.mu, ev.var))  K == Len(th.w)
      fast == Bit(ev.flags, 4)  root == Bit(ev.flags, 1)  unit == Bit(ev.flags, 2)
      R == TLCEval([j \in DOMAIN data |-> Posterior(TLCEval(LogJoint(data[j], th))).p])
      \* the winner must be clear where only the winner counts
      vague == fast /\ \E j \in DOMAIN R : \E h \in 1..K : h # Best(R[j]) /\ RWithin(R[j][h], R[j][Best(R[j])], "1e-4")
      P == IF fast THEN TLCEval([j \in DOMAIN R |-> OneHot(R[j])]) ELSE R
      F == TLCEval(Fisher(data, th, P))
      zmax == RMaxOf(<<1>> \o [j \in DOMAIN data |-> RMaxOf([k \in 1..K |-> RMaxOf(<<0>> \o [i \in 1..ev.D |-> LET d == RSub(data[j][i], th.mu[k][i]) IN IF RLt("1e-9", P[j][k]) /\ RLe(MinPrior, th.w[k]) THEN RDiv(RMul(d, d), RMul(th.var[k][i], RSqrt(th.w[k]))) ELSE 0])])])
      unitT == RMul(IF Single THEN "1e-5" ELSE "1e-11", RMul(8, RMul(zmax, RMax(1, zmax))))
      \* undo the root: signed squares of what was returned, up to the norm
      sq(v) == [i \in DOMAIN v |-> RMul(v[i], RAbs(v[i]))]
      want == IF root /\ unit THEN TLCEval(RSum([i \in DOMAIN F |-> RAbs(F[i])])) ELSE IF unit THEN TLCEval(Norm(F)) ELSE 1
      got == IF root THEN TLCEval(sq(ev.enc)) ELSE ev.enc
      terms == Cardinality({<<j, k>> \in (DOMAIN data) \X (1..K) : RLe(MinPrior, th.w[k]) /\ RLe("1e-6", P[j][k])})
      slack == Cardinality({<<j, k>> \in (DOMAIN data) \X (1..K) : ~fast /\ RLt("1e-7", P[j][k]) /\ RLt(P[j][k], "1e-5")})
  IN vague \/ /\ Len(ev.enc) = Len(F)
              /\ RLt("1e-3", want) => \A i \in DOMAIN F : RWithin(RMul(got[i], want), F[i], unitT)
              /\ ev.terms - terms \in (-slack)..slack
Ok == CASE ev.e = "Vlad" -> VladOk [] ev.e = "Density" -> DensityOk [] ev.e = "Ladder" -> LadderOk [] ev.e = "Step" -> StepOk
        [] ev.e = "Start" -> StartOk [] ev.e = "Cluster" -> ClusterOk [] ev.e = "Copy" -> CopyOk [] ev.e = "Fisher" -> FisherOk [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
