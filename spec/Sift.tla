-------------------------------- MODULE Sift --------------------------------
(* SIFT: the octaves of the Gaussian scale space, the extrema of the
   difference of Gaussians and their refinement, the orientations and the
   descriptor of a keypoint.  Images are flat sequences, row by row; the pixel
   (x, y), counted from 0, of an image of width w is im[y * w + x + 1].
   Levels s = -1 .. S+1 of an octave have scale 1.6 * 2^((s+1)/S), in pixels of
   the octave.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, RealOps
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
Px(im, w, x, y) == im[y * w + x + 1]
Pow2(n) == IF n >= 0 THEN 2 ^ n ELSE 1
Shl(n, o) == IF o >= 0 THEN n * 2 ^ o ELSE n \div (2 ^ (0 - o))
Mat(w, h, F(_, _)) == [i \in 1..(w * h) |-> F((i - 1) % w, (i - 1) \div w)]
(* ------------------------------------------------------------- smoothing -- *)
GaussW(sigma) == MaxI(RInt(RNeg(RFloor(RNeg(RMul(4, sigma))))), 1)
Gauss(sigma) == LET W == GaussW(sigma)
                    g == TLCEval([j \in 1..(2 * W + 1) |-> LET d == RDiv(j - 1 - W, sigma) IN RExp(RMul("-0.5", RMul(d, d)))])
                    t == TLCEval(RSum(g))
                IN [j \in DOMAIN g |-> RDiv(g[j], t)]
\* convolution of a row, continued by its end values
ConvRow(row, g) == LET W == Len(g) \div 2  n == Len(row)
                       p == TLCEval([i \in 1..(n + 2 * W) |-> row[IF i <= W THEN 1 ELSE IF i > W + n THEN n ELSE i - W]])
                   IN [i \in 1..n |-> RDot(g, SubSeq(p, i, i + 2 * W))]
Smooth(im, w, h, sigma) ==
  LET g == TLCEval(Gauss(sigma))
      rows == TLCEval([y \in 1..h |-> ConvRow(SubSeq(im, (y - 1) * w + 1, y * w), g)])
      cols == TLCEval([x \in 1..w |-> ConvRow([y \in 1..h |-> rows[y][x]], g)])
      F(x, y) == cols[x + 1][y + 1]
  IN TLCEval(Mat(w, h, F))
(* -------------------------------------------------------------- the octaves *)
DoubleX(im, w, h) == LET F(x, y) == LET a == Px(im, w, x \div 2, y) IN
                           IF x % 2 = 0 THEN a ELSE RMul("0.5", RAdd(a, Px(im, w, MinI(x \div 2 + 1, w - 1), y)))
                     IN TLCEval(Mat(2 * w, h, F))
DoubleY(im, w, h) == LET F(x, y) == LET a == Px(im, w, x, y \div 2) IN
                           IF y % 2 = 0 THEN a ELSE RMul("0.5", RAdd(a, Px(im, w, x, MinI(y \div 2 + 1, h - 1))))
                     IN TLCEval(Mat(w, 2 * h, F))
RECURSIVE Doubled(_, _, _, _)
Doubled(im, w, h, n) == IF n = 0 THEN im ELSE Doubled(DoubleY(DoubleX(im, w, h), 2 * w, h), 2 * w, 2 * h, n - 1)
Subsampled(im, w, w2, h2, d) == LET F(x, y) == Px(im, w, x * d, y * d) IN TLCEval(Mat(w2, h2, F))
K(S) == RPow(2, RDiv(1, S))
Sigma0(S) == RMul("1.6", K(S))
StepSigma(S, s) == RMul(RMul(Sigma0(S), RSqrt(RSub(1, RDiv(1, RMul(K(S), K(S)))))), RPow(K(S), s))
\* the image is taken to be smoothed by half a pixel already
BaseLevel(im, w, h, S, o) ==
  LET w2 == Shl(w, 0 - o)  h2 == Shl(h, 0 - o)
      raw == IF o < 0 THEN Doubled(im, w, h, 0 - o) ELSE Subsampled(im, w, w2, h2, 2 ^ o)
      have == RMul("0.5", RPow(2, 0 - o))  want == "1.6"
  IN IF RLt(have, want) THEN Smooth(raw, w2, h2, RSqrt(RSub(RMul(want, want), RMul(have, have)))) ELSE raw
DefaultOctaves(w, h, omin) == LET n == MinI(w, h)  lg == CHOOSE k \in 0..30 : 2 ^ k <= n /\ n < 2 ^ (k + 1) IN MaxI(lg - omin - 3, 1)
(* -------------------------------------------------------------- detection - *)
\* D[s+2] is the difference between the levels s+1 and s, s = -1 .. S
Dog(L) == [i \in 1..(Len(L) - 1) |-> TLCEval([p \in DOMAIN L[1] |-> RSingle(RSub(L[i + 1][p], L[i][p]))])]
IsExtremum(D, w, x, y, s, tp) ==
  LET v == Px(D[s + 2], w, x, y)
      Nb == {<<dx, dy, ds>> \in {-1, 0, 1} \X {-1, 0, 1} \X {-1, 0, 1} : ~(dx = 0 /\ dy = 0 /\ ds = 0)}
      at(d) == Px(D[s + 2 + d[3]], w, x + d[1], y + d[2])
      bar == RMul("0.8", tp)
  IN \/ RLe(bar, v) /\ \A d \in Nb : RLt(at(d), v)
     \/ RLe(v, RNeg(bar)) /\ \A d \in Nb : RLt(v, at(d))
Det3(a, b, c) == RAdd(RMul(a[1], RSub(RMul(b[2], c[3]), RMul(b[3], c[2]))),
                 RAdd(RMul(a[2], RSub(RMul(b[3], c[1]), RMul(b[1], c[3]))), RMul(a[3], RSub(RMul(b[1], c[2]), RMul(b[2], c[1])))))
(* One Newton step at a pixel: the offset at which the quadratic through the
   neighbours is stationary, its value there, and the edge score             *)
Fit(D, w, x, y, s) ==
  LET at(dx, dy, ds) == Px(D[s + 2 + ds], w, x + dx, y + dy)
      half(a, b) == RMul("0.5", RSub(a, b))
      second(a, b) == RSub(RAdd(a, b), RMul(2, at(0, 0, 0)))
      mixed(a, b, c, d) == RMul("0.25", RSub(RAdd(a, b), RAdd(c, d)))
      gx == half(at(1, 0, 0), at(-1, 0, 0))  gy == half(at(0, 1, 0), at(0, -1, 0))  gs == half(at(0, 0, 1), at(0, 0, -1))
      xx == second(at(1, 0, 0), at(-1, 0, 0))  yy == second(at(0, 1, 0), at(0, -1, 0))  ss == second(at(0, 0, 1), at(0, 0, -1))
      xy == mixed(at(1, 1, 0), at(-1, -1, 0), at(-1, 1, 0), at(1, -1, 0))
      xs == mixed(at(1, 0, 1), at(-1, 0, -1), at(-1, 0, 1), at(1, 0, -1))
      ys == mixed(at(0, 1, 1), at(0, -1, -1), at(0, -1, 1), at(0, 1, -1))
      c1 == <<xx, xy, xs>>  c2 == <<xy, yy, ys>>  c3 == <<xs, ys, ss>>  r == <<RNeg(gx), RNeg(gy), RNeg(gs)>>
      det == TLCEval(Det3(c1, c2, c3))
      size == RAdd(RAbs(xx), RAdd(RAbs(yy), RAdd(RAbs(ss), RAdd(RAbs(xy), RAdd(RAbs(xs), RAbs(ys))))))
      b == TLCEval(<<RDiv(Det3(r, c2, c3), det), RDiv(Det3(c1, r, c3), det), RDiv(Det3(c1, c2, r), det)>>)
      hd == RSub(RMul(xx, yy), RMul(xy, xy))  tr == RAdd(xx, yy)
  IN [b |-> b, det |-> det, loose |-> ~RFinite(det) \/ RLt(RAbs(det), RMul("1e-6", RMul(size, RMul(size, size)))) \/ RLt(size, "1e-6"),
      val |-> RAdd(at(0, 0, 0), RMul("0.5", RAdd(RMul(gx, b[1]), RAdd(RMul(gy, b[2]), RMul(gs, b[3]))))),
      hd |-> hd, tr2 |-> RMul(tr, tr), hdloose |-> RLt(RAbs(hd), RMul("1e-5", RMul(size, size)))]
Near6(v) == RWithin(RAbs(v), "0.6", "1e-5")
Move(v, p, n) == IF RLt("0.6", v) /\ p < n - 2 THEN 1 ELSE IF RLt(v, "-0.6") /\ p > 1 THEN -1 ELSE 0
(* the pixel moves while the offset exceeds 0.6, at most four times          *)
RECURSIVE Refine(_, _, _, _, _, _, _)
Refine(D, w, h, x, y, s, it) ==
  LET f == TLCEval(Fit(D, w, x, y, s))  dx == Move(f.b[1], x, w)  dy == Move(f.b[2], y, h)
  IN IF f.loose \/ Near6(f.b[1]) \/ Near6(f.b[2]) THEN [vague |-> TRUE]
     ELSE IF (dx = 0 /\ dy = 0) \/ it = 5 THEN [vague |-> FALSE, x |-> x, y |-> y, f |-> f]
     ELSE Refine(D, w, h, x + dx, y + dy, s, it + 1)
(* what becomes of an extremum: "yes", "no", or "vague" with the frame       *)
Verdict(conds) == IF \E c \in conds : c = "no" THEN "no" ELSE IF \E c \in conds : c = "vague" THEN "vague" ELSE "yes"
Below(a, b, tol) == IF RNear(a, b, tol) THEN "vague" ELSE IF RLt(a, b) THEN "yes" ELSE "no"
Keep(D, w, h, S, s, r, tp, te) ==
  LET f == r.f  T == "1e-5"
      xn == RAdd(r.x, f.b[1])  yn == RAdd(r.y, f.b[2])  sn == RAdd(s, f.b[3])
      edge == RDiv(RMul(RAdd(te, 1), RAdd(te, 1)), te)
  IN Verdict({Below(tp, RAbs(f.val), T), IF f.hdloose THEN "vague" ELSE IF RLt(f.hd, 0) THEN "no" ELSE Below(RDiv(f.tr2, f.hd), edge, T),
              Below(RAbs(f.b[1]), "1.5", T), Below(RAbs(f.b[2]), "1.5", T), Below(RAbs(f.b[3]), "1.5", T),
              Below(0, xn, T), Below(xn, w - 1, T), Below(0, yn, T), Below(yn, h - 1, T), Below(-1, sn, T), Below(sn, S + 1, T)})
(* ---------------------------------------------------- gradient and frames -- *)
Diff(a, b, n) == IF n = 2 THEN RMul("0.5", RSub(a, b)) ELSE RSub(a, b)
Grad(im, w, h, x, y) ==
  LET x1 == MinI(x + 1, w - 1)  x0 == MaxI(x - 1, 0)  y1 == MinI(y + 1, h - 1)  y0 == MaxI(y - 1, 0)
      gx == Diff(Px(im, w, x1, y), Px(im, w, x0, y), x1 - x0)  gy == Diff(Px(im, w, x, y1), Px(im, w, x, y0), y1 - y0)
  IN [m |-> RSqrt(RAdd(RMul(gx, gx), RMul(gy, gy))), a |-> RAtan2(gy, gx)]
GradIm(im, w, h) == LET F(x, y) == Grad(im, w, h, x, y) IN TLCEval(Mat(w, h, F))
TwoPi == RMul(2, RPi)
\* a number modulo n, in [0, n)
RModN(a, n) == RSub(a, RMul(n, RFloor(RDiv(a, n))))
\* triangular kernel, and the same on a circle of n bins
Tri(d) == RMax(0, RSub(1, RAbs(d)))
TriC(d, n) == LET m == RModN(d, n) IN RAdd(Tri(m), Tri(RSub(m, n)))
(* the 36 bins of orientations in a window of 1.5 sigma, smoothed six times by a running mean of three *)
OriHist(G, w, h, x, y, sigma) ==
  LET sw == RMul("1.5", sigma)  W == MaxI(RInt(RMul(3, sw)), 1)
      xi == RInt(RAdd(x, "0.5"))  yi == RInt(RAdd(y, "0.5"))
      r2(px, py) == LET dx == RSub(px, x)  dy == RSub(py, y) IN RAdd(RMul(dx, dx), RMul(dy, dy))
      P == {p \in (MaxI(0, xi - W)..MinI(w - 1, xi + W)) \X (MaxI(0, yi - W)..MinI(h - 1, yi + W)) : RLt(r2(p[1], p[2]), RAdd(W * W, "0.6"))}
      RECURSIVE AsSeq(_)
      AsSeq(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN Append(AsSeq(S \ {p}), p)
      q == TLCEval(AsSeq(P))
      c == TLCEval([i \in DOMAIN q |-> LET g == Px(G, w, q[i][1], q[i][2]) IN
              [v |-> RMul(g.m, RExp(RNeg(RDiv(r2(q[i][1], q[i][2]), RMul(2, RMul(sw, sw)))))), t |-> RSub(RMul(36, RDiv(RModN(g.a, TwoPi), TwoPi)), "0.5")]])
  IN [b \in 0..35 |-> RSum([i \in DOMAIN c |-> RMul(c[i].v, TriC(RSub(c[i].t, b), 36))])]
RECURSIVE Blur(_, _)
Blur(H, n) == IF n = 0 THEN H ELSE Blur(TLCEval([b \in 0..35 |-> RDiv(RAdd(H[(b + 35) % 36], RAdd(H[b], H[(b + 1) % 36])), 3)]), n - 1)
(* the descriptor: a grid of 4 x 4 cells of 8 orientations, magnif * sigma wide, each pixel spread over the nearest ones *)
RawDescr(G, w, h, x, y, sigma, th, magnif, win, border) ==
  LET sb == RMul(magnif, sigma)  ct == RCos(th)  st == RSin(th)
      R == RInt(RAdd(RMul(RMul(RSqrt(2), sb), "2.5"), "0.5"))
      xi == RInt(RAdd(x, "0.5"))  yi == RInt(RAdd(y, "0.5"))
      P == (MaxI(border, xi - R)..MinI(w - 1 - border, xi + R)) \X (MaxI(border, yi - R)..MinI(h - 1 - border, yi + R))
      one(p) == LET dx == RSub(p[1], x)  dy == RSub(p[2], y)  g == Px(G, w, p[1], p[2])
                    nx == RDiv(RAdd(RMul(ct, dx), RMul(st, dy)), sb)  ny == RDiv(RSub(RMul(ct, dy), RMul(st, dx)), sb)
                IN [nx |-> nx, ny |-> ny, t |-> RMul(8, RDiv(RModN(RSub(g.a, th), TwoPi), TwoPi)),
                    v |-> RMul(g.m, RExp(RNeg(RDiv(RAdd(RMul(nx, nx), RMul(ny, ny)), RMul(2, RMul(win, win))))))]
      Q == TLCEval([p \in P |-> one(p)])
      RECURSIVE AsSeq(_)
      AsSeq(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN Append(AsSeq(S \ {p}), p)
      In == {p \in P : RLt(RAbs(Q[p].nx), "2.5") /\ RLt(RAbs(Q[p].ny), "2.5")}
      q == TLCEval(LET s == AsSeq(In) IN [i \in DOMAIN s |-> Q[s[i]]])
      cx == TLCEval([b \in 0..3 |-> [i \in DOMAIN q |-> Tri(RSub(q[i].nx, RSub(b, "1.5")))]])
      cy == TLCEval([b \in 0..3 |-> [i \in DOMAIN q |-> RMul(q[i].v, Tri(RSub(q[i].ny, RSub(b, "1.5"))))]])
      ctt == TLCEval([b \in 0..7 |-> [i \in DOMAIN q |-> TriC(RSub(q[i].t, b), 8)]])
      cxy == TLCEval([bx \in 0..3 |-> [by \in 0..3 |-> [i \in DOMAIN q |-> RMul(cx[bx][i], cy[by][i])]]])
  IN [d |-> [i \in 1..128 |-> LET t == (i - 1) % 8  bx == ((i - 1) \div 8) % 4  by == (i - 1) \div 32 IN RDot(cxy[bx][by], ctt[t])], n |-> Cardinality(P)]
Unit(v) == LET n == TLCEval(RAdd(RSqrt(RDot(v, v)), "1.1920929e-7")) IN [i \in DOMAIN v |-> RDiv(v[i], n)]
Finish(v) == Unit(TLCEval([i \in DOMAIN v |-> LET u == v[i] IN IF RLt("0.2", u) THEN "0.2" ELSE u]))
=============================================================================
