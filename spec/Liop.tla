-------------------------------- MODULE Liop --------------------------------
(* LIOP: the pixels of a disc are ordered by intensity and cut into bins of
   equal size (the last takes the rest); each pixel votes in its bin for the
   order in which the samples on a circle around it increase, with as many votes
   as pairs of its samples differ by more than a threshold.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, RealOps
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
\* position of a permutation (a sequence of distinct numbers) in lexicographic order, from 0
RECURSIVE Rank(_)
Rank(p) == IF Len(p) <= 1 THEN 0 ELSE Cardinality({i \in 2..Len(p) : p[i] < p[1]}) * Fact(Len(p) - 1) + Rank(SubSeq(p, 2, Len(p)))
Px(im, L, x, y) == IF x < 0 \/ y < 0 \/ x >= L \/ y >= L THEN 0 ELSE im[y * L + x + 1]
Bilinear(im, L, x, y) ==
  LET ix == RInt(x)  iy == RInt(y)  wx == RSub(x, ix)  wy == RSub(y, iy)
      a == Px(im, L, ix, iy)  b == Px(im, L, ix + 1, iy)  c == Px(im, L, ix, iy + 1)  d == Px(im, L, ix + 1, iy + 1)
  IN RAdd(RMul(RSub(1, wy), RAdd(RMul(RSub(1, wx), a), RMul(wx, b))), RMul(wy, RAdd(RMul(RSub(1, wx), c), RMul(wx, d))))
\* the disc: a margin of the radius of the samples, less 0.6 of a pixel, is left
Disc(L, radius) == LET c == (L - 1) \div 2  t == RAdd(RSub(c, radius), "0.6")  t2 == RMul(t, t)
                       in(i) == LET dx == ((i - 1) % L) - c  dy == ((i - 1) \div L) - c IN RLe(dx * dx + dy * dy, t2)
                       all == [i \in 1..(L * L) |-> i]
                   IN SelectSeq(all, in)
\* the samples around a pixel, starting away from the centre and turning by equal angles
Samples(im, L, pixel, n, radius) ==
  LET c == (L - 1) \div 2  x == ((pixel - 1) % L) - c  y == ((pixel - 1) \div L) - c
      a0 == IF x = 0 /\ y = 0 THEN 0 ELSE RAtan2(y, x)
      s(k) == LET a == RAdd(a0, RMul(RDiv(RMul(2, RPi), n), k - 1))
              IN Bilinear(im, L, RAdd(RAdd(x, RMul(radius, RCos(a))), c), RAdd(RAdd(y, RMul(radius, RSin(a))), c))
  IN TLCEval([k \in 1..n |-> TLCEval(s(k))])
RECURSIVE Order(_, _)       \* the indices S by increasing value of v
Order(v, S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : \A j \in S : RLe(v[k], v[j]) IN <<k>> \o Order(v, S \ {k})
\* what a pixel contributes, or vague
Vote(s, theta, eps) ==
  LET n == Len(s)
      pairs == {p \in (1..n) \X (1..n) : p[1] < p[2]}
      gap(p) == RAbs(RSub(s[p[1]], s[p[2]]))
      sure == {p \in pairs : RLt(RAdd(theta, eps), gap(p))}
      maybe == {p \in pairs : ~RLt(RAdd(theta, eps), gap(p)) /\ ~RLt(gap(p), RSub(theta, eps))}
      tied == \E p \in pairs : RLt(gap(p), eps)
  IN IF sure = {} /\ maybe = {} THEN [vague |-> FALSE, q |-> 0, w |-> 0]
     ELSE IF maybe # {} \/ tied THEN [vague |-> TRUE, q |-> 0, w |-> 0]
     ELSE [vague |-> FALSE, q |-> Rank(Order(s, 1..n)), w |-> Cardinality(sure)]
=============================================================================
