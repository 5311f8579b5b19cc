-------------------------------- MODULE Cov --------------------------------
(* The covariant feature detector of vl/covdet.c: the local extrema of 2-D and
   3-D arrays and their refinement, the cornerness measures, the suppression of
   weaker features, the patch of a frame, its orientations, Laplacian scales and
   affine shape.  A frame is [x, y, a11, a12, a21, a22]: the patch point p lies
   at (x, y) + A p in the image.                                             *)
EXTENDS ScaleSpace
(* --------------------------------------------------------------- extrema --
   A map of dimensions D = <<width, height, depth>>; depth 0 is a 2-D map.    *)
Depth(D) == IF D[3] = 0 THEN 1 ELSE D[3]
AtP(m, D, x, y, z) == m[(z * D[2] + y) * D[1] + x + 1]
Shifts(D) == {<<dx, dy, dz>> \in {-1, 0, 1} \X {-1, 0, 1} \X (IF D[3] = 0 THEN {0} ELSE {-1, 0, 1}) : ~(dx = 0 /\ dy = 0 /\ dz = 0)}
Interior(D) == (1..(D[1] - 2)) \X (1..(D[2] - 2)) \X (IF D[3] = 0 THEN {0} ELSE 1..(D[3] - 2))
(* strictly above (below) all the neighbours and at least t (at most -t) *)
Extremum(m, D, p, t) ==
  LET v == AtP(m, D, p[1], p[2], p[3])
      nb(d) == AtP(m, D, p[1] + d[1], p[2] + d[2], p[3] + d[3])
  IN \/ RLe(t, v) /\ \A d \in Shifts(D) : RLt(nb(d), v)
     \/ RLe(v, RNeg(t)) /\ \A d \in Shifts(D) : RLt(v, nb(d))
Extrema(m, D, t) == {p \in Interior(D) : Extremum(m, D, p, t)}
(* the same for maps of integers and a threshold of t4/4 *)
ExtremumI(m, D, p, t4) ==
  LET v == AtP(m, D, p[1], p[2], p[3])
      nb(d) == AtP(m, D, p[1] + d[1], p[2] + d[2], p[3] + d[3])
  IN \/ 4 * v >= t4 /\ \A d \in Shifts(D) : nb(d) < v
     \/ 4 * v <= 0 - t4 /\ \A d \in Shifts(D) : nb(d) > v
ExtremaI(m, D, t4) == {p \in Interior(D) : ExtremumI(m, D, p, t4)}
(* ------------------------------------------------------------- refinement -- *)
Det3(a, b, c) == RAdd(RMul(a[1], RSub(RMul(b[2], c[3]), RMul(b[3], c[2]))),
                 RAdd(RMul(a[2], RSub(RMul(b[3], c[1]), RMul(b[1], c[3]))), RMul(a[3], RSub(RMul(b[1], c[2]), RMul(b[2], c[1])))))
(* the stationary point b of the quadratic through the neighbours of a sample *)
Fit(m, D, x, y, z) ==
  LET at(dx, dy, dz) == AtP(m, D, x + dx, y + dy, z + dz)
      v == at(0, 0, 0)
      half(a, b) == RMul("0.5", RSub(a, b))
      second(a, b) == RSub(RAdd(a, b), RMul(2, v))
      mixed(a, b, c, d) == RMul("0.25", RSub(RAdd(a, b), RAdd(c, d)))
      two == D[3] = 0
      gx == half(at(1, 0, 0), at(-1, 0, 0))  gy == half(at(0, 1, 0), at(0, -1, 0))  gz == IF two THEN 0 ELSE half(at(0, 0, 1), at(0, 0, -1))
      xx == second(at(1, 0, 0), at(-1, 0, 0))  yy == second(at(0, 1, 0), at(0, -1, 0))  zz == IF two THEN 1 ELSE second(at(0, 0, 1), at(0, 0, -1))
      xy == mixed(at(1, 1, 0), at(-1, -1, 0), at(-1, 1, 0), at(1, -1, 0))
      xz == IF two THEN 0 ELSE mixed(at(1, 0, 1), at(-1, 0, -1), at(-1, 0, 1), at(1, 0, -1))
      yz == IF two THEN 0 ELSE mixed(at(0, 1, 1), at(0, -1, -1), at(0, -1, 1), at(0, 1, -1))
      c1 == <<xx, xy, xz>>  c2 == <<xy, yy, yz>>  c3 == <<xz, yz, zz>>  r == <<RNeg(gx), RNeg(gy), RNeg(gz)>>
      det == TLCEval(Det3(c1, c2, c3))
      sz == RAdd(RAdd(RAbs(xx), RAbs(yy)), RAdd(RAdd(RAbs(xy), RAbs(xz)), RAbs(yz)))
      size == IF two THEN sz ELSE RAdd(sz, RAbs(zz))
      vol == IF two THEN RMul(size, size) ELSE RMul(size, RMul(size, size))
      b == TLCEval(<<RDiv(Det3(r, c2, c3), det), RDiv(Det3(c1, r, c3), det), IF two THEN 0 ELSE RDiv(Det3(c1, c2, r), det)>>)
      hd == RSub(RMul(xx, yy), RMul(xy, xy))  tr == RAdd(xx, yy)
  IN [b |-> b, v |-> v, singular |-> REq(det, 0), loose |-> ~RFinite(det) \/ RLt(RAbs(det), RMul("1e-5", vol)) \/ RLt(size, "1e-14"),
      val |-> RAdd(v, RMul("0.5", RAdd(RMul(gx, b[1]), RAdd(RMul(gy, b[2]), RMul(gz, b[3]))))),
      hd |-> hd, tr2 |-> RMul(tr, tr), hdloose |-> ~REq(hd, 0) /\ RLt(RAbs(hd), RMul("1e-5", RMul(size, size)))]
Near6(v) == RWithin(RAbs(v), "0.6", "1e-5")
Move(v, p, n) == IF RLt("0.6", v) /\ p < n - 2 THEN 1 ELSE IF RLt(v, "-0.6") /\ p > 1 THEN -1 ELSE 0
(* the sample moves in the plane while the offset exceeds 0.6, four times at most *)
RECURSIVE Refine(_, _, _, _, _, _)
Refine(m, D, x, y, z, it) ==
  LET f == TLCEval(Fit(m, D, x, y, z))
      dx == Move(f.b[1], x, D[1])  dy == Move(f.b[2], y, D[2])
  IN IF f.singular THEN [vague |-> FALSE, x |-> x, y |-> y, f |-> f, b |-> <<0, 0, 0>>, val |-> f.v]
     ELSE IF f.loose \/ Near6(f.b[1]) \/ Near6(f.b[2]) THEN [vague |-> TRUE]
     ELSE IF (dx = 0 /\ dy = 0) \/ it = 5 THEN [vague |-> FALSE, x |-> x, y |-> y, f |-> f, b |-> f.b, val |-> f.val]
     ELSE Refine(m, D, x + dx, y + dy, z, it + 1)
(* the ratio r of the principal curvatures, (r + 1)^2 / r = tr^2 / det *)
EdgeScore(f) == IF REq(f.hd, 0) THEN (IF REq(f.tr2, 0) THEN "nan" ELSE "inf") ELSE IF RLt(f.hd, 0) THEN "inf"
                ELSE LET a == RDiv(f.tr2, f.hd) IN RAdd(RSub(RMul("0.5", a), 1), RSqrt(RMul(RMax(RSub(RMul("0.25", a), 1), 0), a)))
Verdict(conds) == IF \E c \in conds : c = "no" THEN "no" ELSE IF \E c \in conds : c = "vague" THEN "vague" ELSE "yes"
Below(a, b, tol) == IF RNear(a, b, tol) THEN "vague" ELSE IF RLt(a, b) THEN "yes" ELSE "no"
Rel(a, b, t) == RWithin(a, b, RMul(t, RMax(RAbs(a), RAbs(b))))
BelowR(a, b, t) == IF Rel(a, b, t) THEN "vague" ELSE IF RLt(a, b) THEN "yes" ELSE "no"
Stable(D, r, z) == IF r.f.singular THEN "no" ELSE
  Verdict({Below(RAbs(r.b[1]), "1.5", "1e-5"), Below(RAbs(r.b[2]), "1.5", "1e-5"), Below(RAbs(r.b[3]), "1.5", "1e-5"),
           Below(0, RAdd(r.x, r.b[1]), "1e-5"), Below(RAdd(r.x, r.b[1]), D[1] - 1, "1e-5"), Below(0, RAdd(r.y, r.b[2]), "1e-5"), Below(RAdd(r.y, r.b[2]), D[2] - 1, "1e-5")}
          \cup (IF D[3] = 0 THEN {} ELSE {Below(0, RAdd(z, r.b[3]), "1e-5"), Below(RAdd(z, r.b[3]), D[3] - 1, "1e-5")}))
Keep(D, r, z, tp, te) == Verdict({Stable(D, r, z), BelowR(tp, RAbs(r.val), "1e-4"),
                                  IF r.f.hdloose THEN "vague" ELSE IF RNan(EdgeScore(r.f)) THEN "no" ELSE BelowR(EdgeScore(r.f), te, "1e-4")})
(* ----------------------------------------------------- the scale spaces --
   M is the method, 0 DoG, 1 Hessian, 2 Hessian-Laplace, 3 Harris-Laplace,
   4 and 5 their multi-scale variants                                       *)
RECURSIVE MaxOct(_, _)
MaxOct(n, o) == IF (IF o >= 0 THEN 15 * 2 ^ o <= n ELSE 15 <= n * 2 ^ (0 - o)) THEN o ELSE MaxOct(n, o - 1)
LastOctave(w, h, o0, num) == LET n == MinI(w, h) - 1  a == IF n = 0 THEN o0 ELSE MaxOct(n, 12)  b == IF num > 0 THEN MinI(a, o0 + num - 1) ELSE a IN MaxI(b, o0)
GssGeom(M, w, h, o0, num, res, base) ==
  [w |-> w, h |-> h, o0 |-> o0, o1 |-> LastOctave(w, h, o0, num), res |-> res,
   s0 |-> IF M <= 1 THEN -1 ELSE 0, s1 |-> IF M = 0 THEN res + 1 ELSE IF M = 1 THEN res ELSE res - 1,
   base |-> RMul(base, RPow(2, RDiv(1, res))), nominal |-> "0.5"]
CssGeom(M, G) == IF M = 0 THEN [G EXCEPT !.s1 = G.s1 - 1] ELSE G
Pow4(a) == RMul(RMul(a, a), RMul(a, a))
\* the determinant of the Hessian inside, continued to the border
HessianResponse(im, w, h, sigma) ==
  IF w < 3 \/ h < 3 THEN [i \in DOMAIN im |-> 0] ELSE
  LET f == TLCEval(Pow4(sigma))
      one(x, y) == LET p(dx, dy) == Px(im, w, x + dx, y + dy)  c == RMul(2, p(0, 0))
                       xx == RSub(c, RAdd(p(-1, 0), p(1, 0)))  yy == RSub(c, RAdd(p(0, -1), p(0, 1)))
                       xy == RMul("0.25", RSub(RAdd(p(-1, -1), p(1, 1)), RAdd(p(-1, 1), p(1, -1))))
                   IN RMul(f, RSub(RMul(xx, yy), RMul(xy, xy)))
      F(x, y) == one(MinI(MaxI(x, 1), w - 2), MinI(MaxI(y, 1), h - 2))
  IN Mat(w, h, F)
Diff(a, b, n) == IF n = 2 THEN RMul("0.5", RSub(a, b)) ELSE RSub(a, b)
GradX(im, w, h) == LET F(x, y) == LET a == MaxI(x - 1, 0)  b == MinI(x + 1, w - 1) IN Diff(Px(im, w, b, y), Px(im, w, a, y), b - a) IN Mat(w, h, F)
GradY(im, w, h) == LET F(x, y) == LET a == MaxI(y - 1, 0)  b == MinI(y + 1, h - 1) IN Diff(Px(im, w, x, b), Px(im, w, x, a), b - a) IN Mat(w, h, F)
Times(a, b) == TLCEval([i \in DOMAIN a |-> RMul(a[i], b[i])])
HarrisResponse(im, w, h, sigma, f) ==
  IF w < 2 \/ h < 2 THEN [i \in DOMAIN im |-> 0] ELSE
  LET gx == GradX(im, w, h)  gy == GradY(im, w, h)  si == RMul(f, RMul("1.4", sigma))
      a == Smooth(Times(gx, gx), w, h, si)  b == Smooth(Times(gy, gy), w, h, si)  c == Smooth(Times(gx, gy), w, h, si)
      k == TLCEval(Pow4(sigma))
  IN TLCEval([i \in DOMAIN im |-> LET t == RAdd(a[i], b[i]) IN RMul(k, RSub(RSub(RMul(a[i], b[i]), RMul(c[i], c[i])), RMul("0.05", RMul(t, t))))])
(* ------------------------------------------------------------- candidates --
   of an octave whose cornerness levels C follow each other in a single map   *)
FrameAt(G, o, x, y, s) == LET st == RPow(2, o) IN
  [x |-> RMul(st, x), y |-> RMul(st, y), s |-> RMul(G.base, RPow(2, RAdd(o, RDiv(s, G.res))))]
Judge(C, D, G, o, p, zoff, tp, te) ==
  LET r == TLCEval(Refine(C, D, p[1], p[2], p[3], 1)) IN
  IF r.vague THEN [k |-> "lost"] ELSE
  LET q == Keep(D, r, p[3], tp, te) IN
  IF q = "no" THEN [k |-> "no"] ELSE
  [k |-> q, f |-> FrameAt(G, o, RAdd(r.x, r.b[1]), RAdd(r.y, r.b[2]), RAdd(zoff, RAdd(p[3], r.b[3]))), peak |-> r.val, edge |-> EdgeScore(r.f)]
(* ------------------------------------------------------------ suppression -- *)
Overlap(tol, a, b) == /\ RLt(a.a11, RMul(RAdd(1, tol), b.a11)) /\ RLt(b.a11, RMul(RAdd(1, tol), a.a11))
                      /\ RLt(RAbs(RSub(b.x, a.x)), RMul(tol, a.a11)) /\ RLt(RAbs(RSub(b.y, a.y)), RMul(tol, a.a11))
(* in the order of the features, each one still there removes those it overlaps that are weaker *)
RECURSIVE Suppress(_, _, _, _)
Suppress(tol, F, Dead, i) == IF i > Len(F) THEN Dead
  ELSE IF i \in Dead THEN Suppress(tol, F, Dead, i + 1)
  ELSE Suppress(tol, F, TLCEval(Dead \cup {j \in DOMAIN F : Overlap(tol, F[i], F[j]) /\ RLt(RAbs(F[j].peak), RAbs(F[i].peak))}), i + 1)
(* ----------------------------------------------------------------- patches -- *)
Log2R(a) == RDiv(RLog(a), RLog(2))
Clamp(s, G) == MinI(MaxI(s, G.s0), G.s1)
(* the levels from which a patch may be taken: of the coarsest octave whose first
   level is not smoother than requested; L is log2 of the scale over the base one *)
LevelsFor(G, L) ==
  LET good(o) == o > G.o0 /\ RLe(RAdd(o, RDiv(IF G.s0 < 0 THEN G.s0 ELSE 0, G.res)), L)
      O == {o \in (G.o0 + 1)..G.o1 : good(o)}
      o == IF O = {} THEN G.o0 ELSE CHOOSE a \in O : \A b \in O : b <= a
      d == RSub(L, o)
  IN {<<o, Clamp(RInt(RFloor(RMax(-99, RMin(99, d)))), G)>>, <<o, Clamp(RInt(RFloor(RMax(-99, RMin(99, RMul(G.res, d))))), G)>>}
Levels(G, sigma, dmin) == LET L == Log2R(RDiv(RMul(sigma, dmin), G.base)) IN UNION {LevelsFor(G, RAdd(L, RMul(e, "1e-6"))) : e \in {-1, 0, 1}}
(* bilinear sample of a level continued by its border *)
Sample(im, w, h, x, y) ==
  LET xi == RInt(RFloor(x))  yi == RInt(RFloor(y))  wx == RSub(x, xi)  wy == RSub(y, yi)
      at(i, j) == Px(im, w, MinI(MaxI(i, 0), w - 1), MinI(MaxI(j, 0), h - 1))
      mix(a, b, t) == RAdd(RMul(RSub(1, t), a), RMul(t, b))
  IN mix(mix(at(xi, yi), at(xi + 1, yi), wx), mix(at(xi, yi + 1), at(xi + 1, yi + 1), wx), wy)
\* the patch of 2n+1 points of extent e of the frame F; step is that of the level
PatchOf(im, w, h, step, F, n, e) ==
  LET a11 == RDiv(F.a11, step)  a12 == RDiv(F.a12, step)  a21 == RDiv(F.a21, step)  a22 == RDiv(F.a22, step)  tx == RDiv(F.x, step)  ty == RDiv(F.y, step)
      c == TLCEval([i \in 0..(2 * n) |-> RMul(e, RDiv(i - n, n))])
      S(x, y) == Sample(im, w, h, RAdd(tx, RAdd(RMul(a11, c[x]), RMul(a12, c[y]))), RAdd(ty, RAdd(RMul(a21, c[x]), RMul(a22, c[y]))))
  IN Mat(2 * n + 1, 2 * n + 1, S)
\* a frame in its principal axes: A = U diag(d) V'
IsSvd(F, U, d, V) ==
  LET near(a, b) == RWithin(a, b, RMul("1e-6", RAdd(RAbs(d[1]), RAbs(d[2]))))
      e(i, j) == RAdd(RMul(U[i][1], RMul(d[1], V[j][1])), RMul(U[i][2], RMul(d[2], V[j][2])))
      orth(Q) == RNear(RAdd(RMul(Q[1][1], Q[1][1]), RMul(Q[2][1], Q[2][1])), 1, "1e-6") /\ RNear(RAdd(RMul(Q[1][2], Q[1][2]), RMul(Q[2][2], Q[2][2])), 1, "1e-6")
                 /\ RWithin(RAdd(RMul(Q[1][1], Q[1][2]), RMul(Q[2][1], Q[2][2])), 0, "1e-6")
  IN orth(U) /\ orth(V) /\ near(e(1, 1), F.a11) /\ near(e(1, 2), F.a12) /\ near(e(2, 1), F.a21) /\ near(e(2, 2), F.a22)
Axes(F, U, d) == [F EXCEPT !.a11 = RMul(U[1][1], d[1]), !.a21 = RMul(U[2][1], d[1]), !.a12 = RMul(U[1][2], d[2]), !.a22 = RMul(U[2][2], d[2])]
(* ------------------------------------------------------------ orientations -- *)
Smooth2(im, w, h, sx, sy) ==
  LET gx == TLCEval(Gauss(sx))  gy == TLCEval(Gauss(sy))
      rows == TLCEval([y \in 1..h |-> ConvRow(SubSeq(im, (y - 1) * w + 1, y * w), gx)])
      cols == TLCEval([x \in 1..w |-> ConvRow([y \in 1..h |-> rows[y][x]], gy)])
      F(x, y) == cols[x + 1][y + 1]
  IN Mat(w, h, F)
AaRes == 20
AaSide == 41
AaMask == LET st == RDiv(RDiv(18, 41), 3)  F(x, y) == LET dx == RMul(x - AaRes, st)  dy == RMul(y - AaRes, st) IN RExp(RMul("-0.5", RAdd(RMul(dx, dx), RMul(dy, dy)))) IN Mat(AaSide, AaSide, F)
Missing(s, d, f) == RMul(f, RDiv(RSqrt(RMax(0, RSub(1, RMul(RDiv(s, d), RDiv(s, d))))), "0.45"))
TwoPi == RMul(2, RPi)
ModPi(a) == RSub(a, RMul(TwoPi, RFloor(RDiv(a, TwoPi))))
\* the window of the patch of a frame, given its level (of smoothing sg)
OriPatch(im, w, h, step, sg, F, U, d, f) ==
  LET p == PatchOf(im, w, h, step, Axes(F, U, d), AaRes, 9) IN Smooth2(p, AaSide, AaSide, Missing(sg, d[1], f), Missing(sg, d[2], f))
OriHist(p) ==
  LET gx == GradX(p, AaSide, AaSide)  gy == GradY(p, AaSide, AaSide)  mask == TLCEval(AaMask)
      q == TLCEval([i \in DOMAIN p |-> LET t == RDiv(RMul(36, ModPi(RAtan2(gy[i], gx[i]))), TwoPi)  b == RInt(RFloor(t))  w2 == RSub(t, b)
                                           m == RMul(mask[i], RSqrt(RAdd(RMul(gx[i], gx[i]), RMul(gy[i], gy[i])))) IN [b |-> b % 36, a |-> RMul(RSub(1, w2), m), c |-> RMul(w2, m)]])
      part(b) == LET r == SelectSeq(q, LAMBDA e : e.b = b) IN <<RSum([i \in DOMAIN r |-> r[i].a]), RSum([i \in DOMAIN r |-> r[i].c])>>
      parts == TLCEval([b \in 0..35 |-> part(b)])
  IN TLCEval([b \in 0..35 |-> RAdd(parts[b][1], parts[(b + 35) % 36][2])])
RECURSIVE Blur(_, _)
Blur(H, n) == IF n = 0 THEN H ELSE Blur(TLCEval([b \in 0..35 |-> RDiv(RAdd(H[(b + 35) % 36], RAdd(H[b], H[(b + 1) % 36])), 3)]), n - 1)
\* the library takes the square root of less than 1e-8 to be zero: what that may
\* change in a bin after the smoothing
Slack(p) ==
  LET gx == GradX(p, AaSide, AaSide)  gy == GradY(p, AaSide, AaSide)  mask == TLCEval(AaMask)
      q == TLCEval([i \in DOMAIN p |-> LET t == RAdd(RMul(gx[i], gx[i]), RMul(gy[i], gy[i])) IN IF RLt(t, "1.01e-8") THEN RMul(mask[i], RSqrt(t)) ELSE 0])
  IN RMul("0.2", RSum(q))
\* [angle, score] of a peak
PeakOf(H, b, th0) == LET hm == H[(b + 35) % 36]  hp == H[(b + 1) % 36]  di == RDiv(RMul("-0.5", RSub(hp, hm)), RSub(RAdd(hp, hm), RMul(2, H[b])))
                     IN [angle |-> RAdd(th0, RMul(RDiv(TwoPi, 36), RAdd(b, di))), score |-> H[b]]
(* -------------------------------------------------------- Laplacian scales -- *)
LapRes == 16
LapSide == 33
LapSigma(k) == RPow(2, RSub(RDiv(k, 9), "0.5"))        \* k = 0..9
HalfRoot == RDiv(1, RSqrt(2))
Impulse == LET F(x, y) == LET a == x - LapRes  b == y - LapRes IN IF a = 0 /\ b = 0 THEN -4 ELSE IF (a = 0 /\ b \in {-1, 1}) \/ (b = 0 /\ a \in {-1, 1}) THEN 1 ELSE 0 IN Mat(LapSide, LapSide, F)
LapFilter(k, f) == IF k = 0 THEN Impulse ELSE Smooth(Impulse, LapSide, LapSide, RMul(f, RDiv(RSqrt(RSub(RMul(LapSigma(k), LapSigma(k)), "0.5")), RMul("0.5", HalfRoot))))
\* total smoothing of the filter of (possibly fractional) index k applied to a patch of smoothing sg
LapTotal(k, sg) == RSqrt(RAdd(RSub(RMul(LapSigma(k), LapSigma(k)), "0.5"), RMul(sg, sg)))
LapScore(p, filter, k, sg) == LET t == LapTotal(k, sg) IN RMul(RMul(t, t), RDot(p, filter))
LapPeak(S, k, sg) == LET a == S[k - 1]  b == S[k]  c == S[k + 1]  dk == RDiv(RMul("-0.5", RSub(c, a)), RSub(RAdd(c, a), RMul(2, b)))
                     IN [scale |-> LapTotal(RAdd(k, dk), sg), score |-> RAdd(b, RMul("0.5", RMul(RSub(c, a), dk)))]
(* ------------------------------------------------------------ affine shape -- *)
\* the second moment matrix <<xx, xy, yy>> of the gradient of a patch
Moments(p) == LET gx == GradX(p, AaSide, AaSide)  gy == GradY(p, AaSide, AaSide)  m == TLCEval(AaMask)
                  mx == Times(m, gx)
              IN <<RDot(mx, gx), RDot(mx, gy), RDot(Times(m, gy), gy)>>
(* -------------------------------------------------------------- containment -- *)
Corners(F, e) == [i \in 1..4 |-> LET sx == IF i \in {1, 2} THEN e ELSE RNeg(e)  sy == IF i \in {2, 3} THEN e ELSE RNeg(e) IN
                    <<RAdd(F.x, RAdd(RMul(F.a11, sx), RMul(F.a12, sy))), RAdd(F.y, RAdd(RMul(F.a21, sx), RMul(F.a22, sy)))>>]
=============================================================================
