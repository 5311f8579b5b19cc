----------------------------- MODULE HelpTrace -----------------------------
(* The helpers the MATLAB functions are made of: parsing of option lists,
   overriding of structures, choice of columns, marginals of histograms,
   alphanumeric order, special functions and numerical derivatives.
   A value is a leaf [k = "n", v = number] or a structure [k = "s", f = names,
   l = names in lower case, v = values].                                      *)
EXTENDS TraceKit, RealOps, Integers, Sequences, FiniteSets, TLC
VARIABLE l
ev == Trace[l]
(* ---- structures ---- *)
IsS(n) == n.k = "s"
Find(n, f) == {i \in 1..Len(n.f) : n.f[i] = f}
FindI(n, f) == {i \in 1..Len(n.l) : n.l[i] = f}
The(S) == CHOOSE x \in S : TRUE
None == [k |-> "s", f |-> <<>>, l |-> <<>>, v |-> <<>>]
Set(n, f, low, v) == IF Find(n, f) # {} THEN [n EXCEPT !.v[The(Find(n, f))] = v]
                     ELSE [n EXCEPT !.f = Append(@, f), !.l = Append(@, low), !.v = Append(@, v)]
RECURSIVE Same(_, _)
Same(a, b) == /\ a.k = b.k
              /\ IF IsS(a) THEN /\ {a.f[i] : i \in 1..Len(a.f)} = {b.f[i] : i \in 1..Len(b.f)} /\ Len(a.f) = Len(b.f)
                                /\ \A i \in 1..Len(a.f) : Same(a.v[i], b.v[The(Find(b, a.f[i]))])
                 ELSE a.v = b.v
(* ---- option lists ----
   items are pairs <<name, name in lower case, value>>; o the options as given,
   c their current values, r the items left over                              *)
State(c, r, e) == [c |-> c, r |-> r, e |-> e]
Items(n) == [i \in 1..Len(n.f) |-> <<n.f[i], n.l[i], n.v[i]>>]
RECURSIVE Parse(_, _, _, _, _), Step(_, _, _, _, _)
Step(o, s, it, m, i) ==
  IF i > Len(it) \/ s.e THEN s ELSE
  LET name == it[i][1]  low == it[i][2]  v == it[i][3]
      p == FindI(o, low)
      known == Cardinality(p) = 1
      f == IF known THEN o.f[The(p)] ELSE name
      lf == low
      cur == Find(s.c, f)
      nested == known /\ IsS(o.v[The(p)]) /\ Len(o.v[The(p)].f) > 0
      plain == State(Set(s.c, f, lf, v), s.r, FALSE)
      next == IF ~known /\ ~m.merge THEN (IF m.two THEN State(s.c, Append(s.r, it[i]), FALSE) ELSE State(s.c, s.r, TRUE))
              ELSE IF ~m.rec THEN plain
              ELSE IF nested THEN
                (IF ~IsS(v) THEN State(s.c, s.r, TRUE)
                 ELSE LET q == Parse(s.c.v[The(cur)], Items(v), m, <<>>, FALSE) IN
                      State(Set(s.c, f, lf, q.c),
                            IF q.r = <<>> THEN s.r
                            ELSE Append(s.r, <<name, low, [k |-> "s", f |-> [j \in 1..Len(q.r) |-> q.r[j][1]], l |-> [j \in 1..Len(q.r) |-> q.r[j][2]], v |-> [j \in 1..Len(q.r) |-> q.r[j][3]]]>>), q.e))
              \* values of structures without fields accumulate
              ELSE IF IsS(v) /\ cur # {} /\ IsS(s.c.v[The(cur)]) THEN
                LET q == Parse(s.c.v[The(cur)], Items(v), [m EXCEPT !.merge = TRUE], <<>>, FALSE) IN State(Set(s.c, f, lf, q.c), s.r, q.e)
              ELSE plain
  IN Step(o, next, it, m, i + 1)
Parse(o, it, m, r, e) == Step(o, State(o, r, e), it, m, 1)
\* the leaves of the items and the ways to them
RECURSIVE Leaves(_, _)
Leaves(it, way) == IF it = <<>> THEN <<>> ELSE
  LET x == Head(it)  w == Append(way, x[2]) IN
  (IF IsS(x[3]) /\ Len(x[3].f) > 0 THEN Leaves(Items(x[3]), w) ELSE << <<w, IF IsS(x[3]) THEN <<>> ELSE <<x[3].v>> >> >>) \o Leaves(Tail(it), way)
RECURSIVE Expand(_)
Expand(args) == IF args = <<>> THEN <<>> ELSE
  (IF Head(args).k = "s" THEN Items(Head(args)) ELSE << <<Head(args).name, Head(args).low, Head(args).value>> >>) \o Expand(Tail(args))
ParseOk ==
  LET m == [rec |-> ev.rec, merge |-> ev.merge, two |-> ev.two]
      wrong == ~ev.rec /\ \E i \in 1..Len(ev.args) : ev.args[i].k = "s"
      s == TLCEval(Parse(ev.opts, Expand(ev.args), m, <<>>, FALSE)) IN
  /\ ev.error = (wrong \/ s.e)
  /\ ~ev.error => /\ Same(ev.out, s.c)
                  /\ ev.two => /\ Leaves(Expand(ev.rest), <<>>) = Leaves(s.r, <<>>)
                               /\ ev.merge => ev.rest = <<>>
(* ---- overriding ---- *)
\* the result, and whether something deserves a warning
RECURSIVE Over(_, _), Fields(_, _, _, _)
Over(c, u) == IF ~IsS(c) THEN [c |-> u, w |-> FALSE] ELSE IF ~IsS(u) THEN [c |-> u, w |-> TRUE]
              ELSE Fields(c, u, 1, FALSE)
Fields(c, u, i, w) == IF i > Len(u.f) THEN [c |-> c, w |-> w] ELSE
  LET p == IF ev.casei THEN FindI(c, u.l[i]) ELSE Find(c, u.f[i]) IN
  IF p = {} THEN Fields(IF ev.skip THEN c ELSE Set(c, u.f[i], u.l[i], u.v[i]), u, i + 1, TRUE)
  ELSE LET q == Over(c.v[The(p)], u.v[i]) IN Fields([c EXCEPT !.v[The(p)] = q.c], u, i + 1, w \/ q.w)
OverOk == LET q == TLCEval(Over(ev.config, ev.update)) IN Same(ev.out, q.c) /\ ev.warned = (ev.warn /\ q.w)
\* of arrays of structures: element by element if there are as many
OversOk == IF Len(ev.config) # Len(ev.update) THEN ev.out = ev.update
           ELSE Len(ev.out) = Len(ev.config) /\ \A i \in 1..Len(ev.out) : Same(ev.out[i], Over(ev.config[i], ev.update[i]).c)
(* ---- columns ---- *)
Less(a, b) == \E i \in 1..Len(a) : RLt(a[i], b[i]) /\ \A j \in 1..(i - 1) : REq(a[j], b[j])
ColumnsOk ==
  LET m == Len(ev.x)
      n == ev.many
      k == IF n = "inf" THEN m ELSE LET c == IF REq(n, RFloor(n)) THEN RInt(n) ELSE RInt(RFloor(RAdd(RMul(m, n), "0.5"))) IN IF c < m THEN c ELSE m
      s == ev.sel IN
  /\ Len(s) = k /\ Len(ev.y) = k /\ ev.rows
  /\ \A i \in 1..k : s[i] \in 1..m /\ ev.y[i] = ev.x[s[i]] /\ (i > 1 => s[i - 1] < s[i])
  /\ LET out == (1..m) \ {s[i] : i \in 1..k} IN
     CASE ev.mode = "beginning" -> s = [i \in 1..k |-> i]
       [] ev.mode = "ending" -> s = [i \in 1..k |-> m - k + i]
       [] ev.mode = "uniform" -> k > 1 => s[1] = 1 /\ s[k] = m /\ \A i, j \in 2..k : (s[i] - s[i - 1]) - (s[j] - s[j - 1]) \in {-1, 0, 1}
       [] ev.mode = "largest" -> \A i \in 1..k : \A j \in out : ~Less(ev.x[s[i]], ev.x[j])
       [] ev.mode = "smallest" -> \A i \in 1..k : \A j \in out : ~Less(ev.x[j], ev.x[s[i]])
       [] ev.mode = "random" -> TRUE
(* ---- marginals: the histogram as the list of its elements, first index fastest ---- *)
RECURSIVE Prod(_, _)
Prod(z, n) == IF n = 0 THEN 1 ELSE z[n] * Prod(z, n - 1)
Sub(z, p) == [d \in 1..Len(z) |-> ((p - 1) \div Prod(z, d - 1)) % z[d]]
RECURSIVE Total(_, _)
Total(S, h) == IF S = {} THEN 0 ELSE LET p == The(S) IN h[p] + Total(S \ {p}, h)
MargOk ==
  LET z == ev.size  d == ev.dims  y == [i \in 1..Len(d) |-> z[d[i]]] IN
  /\ ev.outsize = y \o [i \in 1..(IF Len(y) < 2 THEN 2 - Len(y) ELSE 0) |-> 1]
  /\ Len(ev.out) = Prod(y, Len(y))
  /\ \A q \in 1..Len(ev.out) : ev.out[q] = Total({p \in 1..Len(ev.h) : \A i \in 1..Len(d) : Sub(z, p)[d[i]] = Sub(y, q)[i]}, ev.h)
(* ---- alphanumeric order of strings of character codes ---- *)
Digit(c) == c \in 48..57
RECURSIVE Tokens(_), Number(_, _, _)
Number(s, i, n) == IF i <= Len(s) /\ Digit(s[i]) THEN Number(s, i + 1, RAdd(RMul(10, n), s[i] - 48)) ELSE <<n, i>>
Tokens(s) == IF s = <<>> THEN <<>> ELSE IF Digit(s[1]) THEN LET p == Number(s, 1, 0) IN << <<48, p[1]>> >> \o Tokens(SubSeq(s, p[2], Len(s)))
             ELSE << <<s[1], 0>> >> \o Tokens(Tail(s))
Under(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ RLt(a[2], b[2]))
Level(a, b) == a[1] = b[1] /\ REq(a[2], b[2])
NotAfter(a, b) ==
  LET x == Tokens(a)  y == Tokens(b)  n == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y) IN
  \/ \E i \in 1..n : Under(x[i], y[i]) /\ \A j \in 1..(i - 1) : Level(x[j], y[j])
  \/ Len(x) <= Len(y) /\ \A i \in 1..n : Level(x[i], y[i])
SortOk ==
  LET n == Len(ev.in) IN
  /\ Len(ev.out) = n /\ Len(ev.perm) = n /\ {ev.perm[i] : i \in 1..n} = 1..n
  /\ \A i \in 1..n : ev.out[i] = ev.in[ev.perm[i]] /\ (i > 1 => NotAfter(ev.out[i - 1], ev.out[i]))
(* ---- special functions ---- *)
Pi == "3.14159265358979323846"
Bell(x) == RDiv(RExp(RMul("-0.5", RMul(x, x))), RSqrt(RMul(2, Pi)))
Logistic(x) == RDiv(1, RAdd(1, RExp(RNeg(x))))
Raised(r, x) == LET a == RAbs(x) IN
  IF RLt(1, a) THEN 0 ELSE IF RLe(r, 0) \/ RLe(a, RSub(1, r)) THEN 1
  ELSE RMul("0.5", RAdd(1, RCos(RMul(Pi, RDiv(RSub(RSub(1, r), a), r)))))
Special(x) == CASE ev.name = "gaussian" -> Bell(x) [] ev.name = "dgaussian" -> RMul(RNeg(x), Bell(x))
  [] ev.name = "ddgaussian" -> RMul(RSub(RMul(x, x), 1), Bell(x)) [] ev.name = "sigmoid" -> Logistic(x)
  [] ev.name = "dsigmoid" -> RMul(Logistic(x), RSub(1, Logistic(x))) [] ev.name = "rcos" -> Raised(ev.par, x)
SpecialOk == Len(ev.y) = Len(ev.x) /\ ev.shape /\ \A i \in 1..Len(ev.x) : RNear(ev.y[i], Special(ev.x[i]), "1e-9")
(* ---- numerical derivatives of quadratic maps f[k](x) = c[k] + b[k] . x + x . a[k] x, a given symmetric ---- *)
DerOk == LET n == Len(ev.x) IN
  IF ev.order = 1 THEN /\ Len(ev.d) = n
    /\ \A j \in 1..n : Len(ev.d[j]) = Len(ev.b) /\ \A k \in 1..Len(ev.b) :
         RWithin(ev.d[j][k], RAdd(ev.b[k][j], RMul(2, RDot(ev.a[k][j], ev.x))), "1e-5")
  ELSE /\ Len(ev.d) = n * n
    /\ \A i, j \in 1..n : LET p == ev.d[(j - 1) * n + i] IN Len(p) = Len(ev.b) /\ \A k \in 1..Len(ev.b) :
         RWithin(p[k], RMul(2, ev.a[k][i][j]), "2e-3")
RefuseOk == ev.refused
Ok == CASE ev.e = "Parse" -> ParseOk [] ev.e = "Over" -> OverOk [] ev.e = "Overs" -> OversOk [] ev.e = "Columns" -> ColumnsOk [] ev.e = "Marg" -> MargOk
        [] ev.e = "Sort" -> SortOk [] ev.e = "Special" -> SpecialOk [] ev.e = "Der" -> DerOk [] ev.e = "Refuse" -> RefuseOk [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
