----------------------------- MODULE KmeansImpl -----------------------------
(* Clustering of one-dimensional integer data with the city-block distance
   (medians are then integers): Lloyd's alternation, restarting empty clusters
   at some datum, and Elkan's acceleration with its lower and upper bounds.
   Checked: the energy never increases, bounds are bounds, Elkan leaves every
   point at a nearest centre after each pass, and both stop at a fixed point.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, K, VALS, ALG
VARIABLES data, cen, asgn, lo, up, strict, pc, energy, n
vars == <<data, cen, asgn, lo, up, strict, pc, energy, n>>
X == 1..N
C == 1..K
Abs(a) == IF a < 0 THEN -a ELSE a
D(x, c) == Abs(data[x] - cen[c])
Gap(a, b) == Abs(cen[a] - cen[b])
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
NearestIn(x, cs) == LET d(c) == Abs(data[x] - cs[c]) IN CHOOSE c \in C : \A b \in C : d(c) < d(b) \/ (d(c) = d(b) /\ c <= b)
Nearest(x) == NearestIn(x, cen)
\* lower median: the value with fewer than half of the points below and at least half up to it
Med(S) == CHOOSE m \in {data[x] : x \in S} : 2 * Cardinality({x \in S : data[x] < m}) < Cardinality(S) /\ 2 * Cardinality({x \in S : data[x] <= m}) >= Cardinality(S)
News(a) == {f \in [C -> VALS] : \A c \in C : LET S == {x \in X : a[x] = c} IN IF S = {} THEN \E x \in X : f[c] = data[x] ELSE f[c] = Med(S)}
Zero == [x \in X |-> [c \in C |-> 0]]
Init == /\ data \in [X -> VALS] /\ (\A x \in 1..(N - 1) : data[x] <= data[x + 1]) /\ cen \in [C -> VALS]
        /\ asgn = [x \in X |-> Nearest(x)] /\ n = 0 /\ pc = "move"
        /\ up = [x \in X |-> D(x, Nearest(x))] /\ lo = [x \in X |-> [c \in C |-> IF 2 * D(x, Nearest(x)) <= Gap(c, Nearest(x)) THEN 0 ELSE D(x, c)]]
        /\ strict = [x \in X |-> TRUE] /\ energy = Sum([x \in X |-> D(x, Nearest(x))], X)
Lloyd == /\ ALG = "lloyd" /\ pc = "move"
         /\ cen' \in News(asgn)
         /\ asgn' = [x \in X |-> NearestIn(x, cen')]
         /\ energy' = Sum([x \in X |-> Abs(data[x] - cen'[asgn'[x]])], X)
         /\ pc' = (IF energy' = energy THEN "done" ELSE "move") /\ n' = n + 1
         /\ UNCHANGED <<data, lo, up, strict>>
MoveBounds == /\ ALG = "elkan" /\ pc = "move"
              /\ cen' \in News(asgn)
              /\ LET sh == [c \in C |-> Abs(cen'[c] - cen[c])] IN
                   /\ up' = [x \in X |-> up[x] + sh[asgn[x]]]
                   /\ lo' = [x \in X |-> [c \in C |-> IF lo[x][c] < sh[c] THEN 0 ELSE lo[x][c] - sh[c]]]
              /\ strict' = [x \in X |-> FALSE] /\ pc' = "assign" /\ n' = n + 1
              /\ UNCHANGED <<data, asgn, energy>>
RECURSIVE Scan(_, _, _)
\* st = <<assigned, upper bound, strict, lower bounds, changed>>
Scan(x, c, st) ==
  IF c > K THEN st
  ELSE LET Skip(s) == c = s[1] \/ 2 * s[2] <= Gap(c, s[1]) \/ s[2] <= s[4][c]
           t == IF st[3] THEN st ELSE <<st[1], D(x, st[1]), TRUE, [st[4] EXCEPT ![st[1]] = D(x, st[1])], st[5]>>
       IN IF Skip(st) THEN Scan(x, c + 1, st)
          ELSE IF Skip(t) THEN Scan(x, c + 1, t)
          ELSE LET d == D(x, c)  l2 == [t[4] EXCEPT ![c] = d]
               IN Scan(x, c + 1, IF d < t[2] THEN <<c, d, TRUE, l2, TRUE>> ELSE <<t[1], t[2], TRUE, l2, t[5]>>)
Next2(c) == LET S == {Gap(c, b) : b \in C \ {c}} IN IF S = {} THEN 1000000 ELSE CHOOSE m \in S : \A k \in S : m <= k
Reassign == /\ pc = "assign"
            /\ LET R == [x \in X |-> LET s == <<asgn[x], up[x], strict[x], lo[x], FALSE>> IN IF 2 * up[x] <= Next2(asgn[x]) THEN s ELSE Scan(x, 1, s)]
               IN /\ asgn' = [x \in X |-> R[x][1]] /\ up' = [x \in X |-> R[x][2]] /\ strict' = [x \in X |-> R[x][3]] /\ lo' = [x \in X |-> R[x][4]]
                  /\ pc' = (IF \E x \in X : R[x][5] THEN "move" ELSE "done")
            /\ energy' = Sum([x \in X |-> D(x, asgn'[x])], X)
            /\ UNCHANGED <<data, cen, n>>
Next == Lloyd \/ MoveBounds \/ Reassign
Spec == Init /\ [][Next]_vars
Bounds == ALG = "elkan" => \A x \in X : up[x] >= D(x, asgn[x]) /\ (strict[x] => up[x] = D(x, asgn[x])) /\ \A c \in C : lo[x][c] <= D(x, c)
AtNearest == pc # "assign" => \A x \in X : \A c \in C : D(x, asgn[x]) <= D(x, c)
Fixed == pc = "done" => \A c \in C : LET S == {x \in X : asgn[x] = c} IN S = {} \/ Sum([x \in X |-> IF x \in S THEN D(x, c) ELSE 0], X) = Sum([x \in X |-> IF x \in S THEN Abs(data[x] - Med(S)) ELSE 0], X)
Descent == [][energy' <= energy]_vars
Terminates == n <= N * K + 3
=============================================================================
