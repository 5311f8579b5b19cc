----------------------------- MODULE PairTrace -----------------------------
(* vl_alldist, vl_alldist2 and vl_ubcmatch: distances of all pairs of columns,
   full or sparse, in the arithmetic of their class, and matches.
   Columns are sequences of numbers; results come column by column.           *)
EXTENDS TraceKit, RealOps, Integers, Sequences, FiniteSets, TLC
VARIABLE l
ev == Trace[l]
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x < y THEN y ELSE x
Quot(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE 0 - q      \* as in C
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == Root(n, 0, 46340)
\* one dimension, integers
IntTerm(metric, x, y) ==
  CASE metric \in {"l0"} -> IF x = y THEN 0 ELSE 1
    [] metric \in {"l1", "linf"} -> Abs(x - y)
    [] metric = "l2" -> (x - y) * (x - y)
    [] metric = "chi2" -> IF x + y = 0 THEN 0 ELSE Quot((x - y) * (x - y), x + y)
    [] metric = "hell" -> x + y - 2 * ISqrt(x * y)
    [] metric = "kl2" -> x * y
    [] metric \in {"kl1", "min"} -> Min2(x, y)
    [] metric = "kchi2" -> LET m == Quot(x + y, 2) IN IF m = 0 THEN 0 ELSE Quot(x * y, m)
    [] metric = "khell" -> ISqrt(x * y)
\* one dimension, reals
Half(a, b) == IF REq(a, 0) THEN 0 ELSE RMul(RDiv(a, 2), RDiv(RLog(RDiv(RAdd(a, b), a)), RLog(2)))
RealTerm(metric, x, y) ==
  LET d == RSub(x, y)  s == RAdd(x, y) IN
  CASE metric \in {"l0"} -> IF REq(x, y) THEN 0 ELSE 1
    [] metric \in {"l1", "linf"} -> RAbs(d)
    [] metric = "l2" -> RMul(d, d)
    [] metric = "chi2" -> IF REq(s, 0) THEN 0 ELSE RDiv(RMul(d, d), s)
    [] metric = "hell" -> RSub(s, RMul(2, RSqrt(RMul(x, y))))
    [] metric = "js" -> RSub(s, RMul(2, RAdd(Half(x, y), Half(y, x))))
    [] metric = "kl2" -> RMul(x, y)
    [] metric \in {"kl1", "min"} -> RMin(x, y)
    [] metric = "kchi2" -> IF REq(s, 0) THEN 0 ELSE RDiv(RMul(2, RMul(x, y)), s)
    [] metric = "khell" -> RSqrt(RMul(x, y))
    [] metric = "kjs" -> RAdd(Half(x, y), Half(y, x))
RECURSIVE Fold(_, _, _, _)
Fold(metric, x, y, n) == IF n = 0 THEN 0 ELSE LET t == IntTerm(metric, x[n], y[n])  r == Fold(metric, x, y, n - 1) IN IF metric = "linf" THEN Max2(r, t) ELSE r + t
RECURSIVE Fold2(_, _, _, _)
Fold2(metric, x, y, n) == IF n = 0 THEN 0 ELSE LET t == RealTerm(metric, x[n], y[n])  r == Fold2(metric, x, y, n - 1) IN IF metric = "linf" THEN RMax(r, t) ELSE RAdd(r, t)
Real == ev.class \in {"single", "double"}
Promoted(c) == CASE c \in {"uint8", "uint16", "uint32"} -> "uint32" [] c \in {"int8", "int16", "int32"} -> "int32" [] OTHER -> c
Tol == IF ev.class = "single" THEN "2e-5" ELSE "1e-12"
PairOk(x, y, d) == IF Real THEN RNear(d, Fold2(ev.metric, x, y, Len(x)), Tol) ELSE REq(d, Fold(ev.metric, x, y, Len(x)))
DistOk ==
  LET n1 == Len(ev.x)  n2 == Len(ev.y) IN
  /\ ev.outclass = Promoted(ev.class) /\ ev.size = <<n1, n2>> /\ Len(ev.d) = n1 * n2
  /\ \A i \in 1..n1, j \in 1..n2 : PairOk(ev.x[i], ev.y[j], ev.d[i + n1 * (j - 1)])
\* matches: <<k1, k2>> with k2 the nearest of k1, by far enough
Sq(a, b) == RSum([q \in 1..Len(a) |-> LET d == RSub(a[q], b[q]) IN RMul(d, d)])
MatchOk ==
  LET n1 == Len(ev.x)  n2 == Len(ev.y)  m == Len(ev.m) \div 2
      D == TLCEval([i \in 1..n1 |-> [j \in 1..n2 |-> Sq(ev.x[i], ev.y[j])]])
      best(i) == CHOOSE j \in 1..n2 : \A k \in 1..n2 : RLt(D[i][j], D[i][k]) \/ (REq(D[i][j], D[i][k]) /\ j <= k)
      second(i) == LET o == (1..n2) \ {best(i)} IN IF o = {} THEN "inf" ELSE LET k == CHOOSE k \in o : \A h \in o : RLe(D[i][k], D[i][h]) IN D[i][k]
      matched == {q \in 1..n1 : \E r \in 1..m : REq(ev.m[2 * r - 1], q)}
  IN /\ Len(ev.m) = 2 * m /\ Len(ev.scores) = m
     /\ \A r \in 1..m : (r > 1 => RLt(ev.m[2 * r - 3], ev.m[2 * r - 1])) /\ \E q \in 1..n1 : REq(ev.m[2 * r - 1], q)
     /\ \A r \in 1..m, q \in 1..n1 : REq(ev.m[2 * r - 1], q) => REq(ev.m[2 * r], best(q)) /\ RNear(ev.scores[r], D[q][best(q)], "1e-5")
     /\ n2 > 0 => \A q \in 1..n1 : LET a == RMul(ev.thresh, D[q][best(q)])  b == second(q) IN
           /\ RLt(a, RMul(b, "0.999999")) => q \in matched
           /\ RLt(RMul(b, "1.000001"), a) => q \notin matched
     /\ n2 = 0 => m = 0
Ok == CASE ev.e = "Dist" -> DistOk
        [] ev.e = "Match" -> MatchOk
        [] ev.e = "Refuse" -> ev.refused
        [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
