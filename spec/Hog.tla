-------------------------------- MODULE Hog --------------------------------
(* HOG: the gradients of an image (or a given polar field) vote for the cells
   around them and for one or two orientations; the cells are normalised by the
   blocks of two by two cells that contain them.  Pixels and cells count from 0,
   orientation o points in direction o * pi / n; 0..n-1 and n..2n-1 are opposite.
   Arrays are flat, x fastest.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, RealOps
Num(s) == TLCEval([i \in DOMAIN s |-> RAdd(s[i], 0)])
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
Pi == TLCEval(RPi)
Cells(size, cell) == (size + cell \div 2) \div cell
Dimension(variant, n) == IF variant = "uoctti" THEN 3 * n + 4 ELSE 4 * n
(* -------------------------------------------------------------- the votes --
   A vote is <<orientation, amount>>; a pixel has a sequence of them.  "vague"
   marks a pixel equally close to two orientations                           *)
Dir(n, o, tr) == LET a == RDiv(RMul(o, Pi), n) IN IF tr THEN <<RSin(a), RCos(a)>> ELSE <<RCos(a), RSin(a)>>
RECURSIVE Strongest(_, _, _, _, _, _)     \* of the gradients of the channels, the first with the largest norm
Strongest(im, w, h, C, p, best) ==
  IF C = 0 THEN best
  ELSE LET b == Strongest(im, w, h, C - 1, p, best)
           q == (C - 1) * w * h + p
           g == TLCEval(<<RSingle(RSub(im[q + 1], im[q - 1])), RSingle(RSub(im[q + w], im[q - w]))>>)
       IN IF RLt(RAdd(RMul(b[1], b[1]), RMul(b[2], b[2])), RAdd(RMul(g[1], g[1]), RMul(g[2], g[2]))) THEN g ELSE b
VotesOfGradient(g, n, dirs, bilinear) ==
  LET m == TLCEval(RSqrt(RAdd(RMul(g[1], g[1]), RMul(g[2], g[2]))))
      s == TLCEval([o \in 0..(n - 1) |-> RAdd(RMul(g[1], dirs[o][1]), RMul(g[2], dirs[o][2]))])
      ab == TLCEval([o \in 0..(n - 1) |-> RAbs(s[o])])
      bin(o) == IF RLt(s[o], 0) THEN o + n ELSE o
      one == TLCEval(CHOOSE o \in 0..(n - 1) : \A q \in 0..(n - 1) : RLe(ab[q], ab[o]))
      rest == (0..(n - 1)) \ {one}
      two == TLCEval(CHOOSE o \in rest : \A q \in rest : RLe(ab[q], ab[o]))
      away == RDiv(RAtan2(RSqrt(RMax(0, RSub(RMul(m, m), RMul(ab[one], ab[one])))), ab[one]), RDiv(Pi, n))
  IN IF REq(m, 0) THEN <<>>
     ELSE IF n = 1 THEN IF RLt(ab[0], RMul("1e-5", m)) THEN <<<<-1, m>>>> ELSE <<<<bin(0), m>>>>
     ELSE IF bilinear THEN <<<<bin(one), RMul(m, RSub(1, away))>>, <<bin(two), RMul(m, away)>>>>
     ELSE IF RLt(RSub(ab[one], ab[two]), RMul("1e-5", m)) \/ RLt(ab[one], RMul("1e-5", m)) THEN <<<<-1, m>>>>
     ELSE <<<<bin(one), m>>>>
\* only pixels with four neighbours have a gradient
ImageVotes(im, w, h, C, n, tr, bilinear) ==
  LET dirs == TLCEval([o \in 0..(n - 1) |-> Dir(n, o, tr)])
  IN TLCEval([p \in 1..(w * h) |-> LET x == (p - 1) % w  y == (p - 1) \div w
                                   IN IF x = 0 \/ y = 0 \/ x = w - 1 \/ y = h - 1 THEN <<>>
                                      ELSE TLCEval(VotesOfGradient(Strongest(im, w, h, C, p, <<0, 0>>), n, dirs, bilinear))])
PolarVotes(mod, ang, n, directed, bilinear) ==
  LET period == IF directed THEN 2 * n ELSE n
      V(m, a) == LET t == TLCEval(RDiv(a, RDiv(Pi, n)))  b == RInt(t)  f == TLCEval(RSub(t, b))
                 IN IF RLe(m, 0) THEN <<>>
                    ELSE IF bilinear THEN <<<<b % period, RMul(m, RSub(1, f))>>, <<(b + 1) % period, RMul(m, f)>>>>
                    ELSE IF RWithin(f, "0.5", "1e-4") THEN <<<<-1, m>>>>
                    ELSE IF RLt(f, "0.5") THEN <<<<b % period, m>>>> ELSE <<<<(b + 1) % period, m>>>>
  IN TLCEval([p \in DOMAIN mod |-> V(mod[p], ang[p])])
Vague(V) == \E p \in DOMAIN V : \E i \in DOMAIN V[p] : V[p][i][1] = -1
(* ---------------------------------------------- the cells of the histogram --
   pixel x is at (x + 1/2) / cell - 1/2 in units of cells, and a vote is shared
   by the two nearest cell centres of each axis                               *)
Share(x, cell, b) == RMax(0, RSub(1, RAbs(RSub(RSub(RDiv(RAdd(x, "0.5"), cell), "0.5"), b))))
\* H[o][c], c = bx + hw * by + 1
Hist(V, w, h, cell, n) ==
  LET hw == Cells(w, cell)  hh == Cells(h, cell)
      sx == TLCEval([b \in 0..(hw - 1) |-> TLCEval([x \in 0..(w - 1) |-> Share(x, cell, b)])])
      sy == TLCEval([b \in 0..(hh - 1) |-> TLCEval([y \in 0..(h - 1) |-> Share(y, cell, b)])])
      near == TLCEval([c \in 1..(hw * hh) |-> LET bx == (c - 1) % hw  by == (c - 1) \div hw IN TLCEval([p \in 1..(w * h) |-> LET x == (p - 1) % w  y == (p - 1) \div w IN RMul(sx[bx][x], sy[by][y])])])
      amount(vs, o) == IF Len(vs) >= 1 /\ vs[1][1] = o THEN (IF Len(vs) = 2 /\ vs[2][1] = o THEN RAdd(vs[1][2], vs[2][2]) ELSE vs[1][2])
                       ELSE IF Len(vs) = 2 /\ vs[2][1] = o THEN vs[2][2] ELSE 0
      row == TLCEval([o \in 0..(2 * n - 1) |-> TLCEval([p \in 1..(w * h) |-> amount(V[p], o)])])
  IN TLCEval([o \in 0..(2 * n - 1) |-> TLCEval([c \in 1..(hw * hh) |-> RDot(row[o], near[c])])])
(* ------------------------------------------------------------ the features --
   F[k][c], k = 0 .. dimension - 1                                            *)
Features(H, hw, hh, n, variant, tr) ==
  LET fold == TLCEval([o \in 0..(n - 1) |-> TLCEval([c \in 1..(hw * hh) |-> RAdd(H[o][c], H[o + n][c])])])
      norm == TLCEval([c \in 1..(hw * hh) |-> LET v == [o \in 1..n |-> fold[o - 1][c]] IN RDot(v, v)])
      at(x, y) == norm[MinI(MaxI(x, 0), hw - 1) + hw * MinI(MaxI(y, 0), hh - 1) + 1]
      block(x, y) == RDiv(1, RSqrt(RSum(<<at(x, y), at(x + 1, y), at(x, y + 1), at(x + 1, y + 1), "1e-4">>)))
      factors(c) == LET x == (c - 1) % hw  y == (c - 1) \div hw
                        a == block(x - 1, y - 1)  b == block(x, y - 1)  d == block(x - 1, y)  e == block(x, y)
                    IN TLCEval(IF tr THEN <<a, d, b, e>> ELSE <<a, b, d, e>>)
      fac == TLCEval([c \in 1..(hw * hh) |-> factors(c)])
      clip(v, c, i) == RMin("0.2", RMul(v, fac[c][i]))
      all(v, c) == RMul("0.5", RSum([i \in 1..4 |-> clip(v, c, i)]))
      tex(c, i) == RDiv(RSum([o \in 1..n |-> clip(fold[o - 1][c], c, i)]), RSqrt(18))
      val(k, c) == IF variant = "uoctti"
                   THEN IF k < 2 * n THEN all(H[k][c], c) ELSE IF k < 3 * n THEN all(fold[k - 2 * n][c], c) ELSE tex(c, k - 3 * n + 1)
                   ELSE clip(fold[k % n][c], c, k \div n + 1)
  IN TLCEval([k \in 0..(Dimension(variant, n) - 1) |-> TLCEval([c \in 1..(hw * hh) |-> val(k, c)])])
(* --------------------------------------------- flipping from left to right -- *)
Flipped(variant, n) ==
  LET swap(q) == IF q % 2 = 0 THEN q + 1 ELSE q - 1
      un(o) == (n - o) % n  di(o) == (3 * n - o) % (2 * n)
  IN IF variant = "uoctti" THEN [k \in 0..(3 * n + 3) |-> IF k < 2 * n THEN di(k) ELSE IF k < 3 * n THEN 2 * n + un(k - 2 * n) ELSE 3 * n + swap(k - 3 * n)]
     ELSE [k \in 0..(4 * n - 1) |-> swap(k \div n) * n + un(k % n)]
(* ---------------------------------------------------------------- rendering --
   glyph o of 21 x 21 pixels is a bar through the centre, orthogonal to o      *)
GS == 21
Glyph(n, o, tr, px, py) ==
  LET raw == RAdd(RDiv(RMul(o, Pi), n), RDiv(Pi, 2))
      a == TLCEval(IF RLe(RSub(Pi, "1e-9"), raw) THEN RSub(raw, Pi) ELSE raw)
      c == RCos(a)  s == RSin(a)  flat == RLe(s, RAbs(c))
      x == IF tr THEN py ELSE px  y == IF tr THEN px ELSE py
      i == IF flat THEN x ELSE y  j == IF flat THEN y ELSE x
      slope == IF flat THEN RDiv(s, c) ELSE RDiv(c, s)
      skip == RInt(RAdd(RMul(GS, RMul("0.5", RSub(1, IF flat THEN RAbs(c) ELSE s))), "1e-9"))
  IN i >= skip /\ i < GS - skip /\ RWithin(RAdd(10, RMul(slope, i - 10)), j, "0.5000001")
Rendered(d, hw, hh, n, variant, tr, G) ==     \* flat image of hw*21 columns
  LET cells == hw * hh
      weight == TLCEval([o \in 0..(n - 1) |-> TLCEval([c \in 1..cells |-> RSum([i \in 1..(IF variant = "uoctti" THEN 3 ELSE 4) |-> d[(o + (i - 1) * n) * cells + c]])])])
      lo == TLCEval([c \in 1..cells |-> RMin(0, weight[CHOOSE o \in 0..(n - 1) : \A q \in 0..(n - 1) : RLe(weight[o][c], weight[q][c])][c])])
      hi == TLCEval([c \in 1..cells |-> RMax(0, weight[CHOOSE o \in 0..(n - 1) : \A q \in 0..(n - 1) : RLe(weight[q][c], weight[o][c])][c])])
      P(p) == LET X == (p - 1) % (hw * GS)  Y == (p - 1) \div (hw * GS)  c == X \div GS + hw * (Y \div GS) + 1  g == (X % GS) + GS * (Y % GS)
              IN RMax(lo[c], RMin(hi[c], RSum([o \in 1..n |-> IF g \in G[o - 1] THEN weight[o - 1][c] ELSE 0])))
  IN [p \in 1..(cells * GS * GS) |-> P(p)]
Glyphs(n, tr) == TLCEval([o \in 0..(n - 1) |-> {g \in 0..(GS * GS - 1) : Glyph(n, o, tr, g % GS, g \div GS)}])
=============================================================================
