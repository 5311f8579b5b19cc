----------------------------- MODULE ScaleSpace -----------------------------
(* The Gaussian scale space of vl/scalespace.c: octaves o of step 2^o, each
   holding the subdivisions s of scale baseScale 2^(o + s/resolution), of the
   floor(size/step) samples at multiples of the step.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, RealOps
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
Shl(n, o) == IF o >= 0 THEN n * 2 ^ o ELSE n \div (2 ^ (0 - o))
Width(G, o) == Shl(G.w, 0 - o)
Height(G, o) == Shl(G.h, 0 - o)
Subs(G) == G.s0..G.s1
Octaves(G) == G.o0..G.o1
Sigma(G, o, s) == RMul(G.base, RPow(2, RAdd(o, RDiv(s, G.res))))
Valid(G) == G.o0 <= G.o1 /\ G.s0 <= G.s1 /\ G.res >= 1 /\ G.w >= 1 /\ G.h >= 1 /\ Width(G, G.o1) >= 1 /\ Height(G, G.o1) >= 1
RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)
Default(w, h) == [w |-> w, h |-> h, o0 |-> 0, o1 |-> MaxI(Log2(MinI(w, h)) - 3, 0), res |-> 3, s0 |-> 0, s1 |-> 2]
(* which level of the octave before starts an octave *)
Seed(G) == MinI(G.s0 + G.res, G.s1)
Px(im, w, x, y) == im[y * w + x + 1]
Mat(w, h, F(_, _)) == TLCEval([i \in 1..(w * h) |-> F((i - 1) % w, (i - 1) \div w)])
Subsampled(im, w, w2, h2, d) == LET F(x, y) == Px(im, w, x * d, y * d) IN Mat(w2, h2, F)
\* bilinear doubling; the last row and column are continued
Doubled(im, w, h) == LET F(x, y) == LET a == x \div 2  b == y \div 2  c == MinI(a + (x % 2), w - 1)  d == MinI(b + (y % 2), h - 1) IN
                           RMul("0.25", RAdd(RAdd(Px(im, w, a, b), Px(im, w, c, b)), RAdd(Px(im, w, a, d), Px(im, w, c, d))))
                     IN Mat(2 * w, 2 * h, F)
RECURSIVE DoubledN(_, _, _, _)
DoubledN(im, w, h, n) == IF n = 0 THEN im ELSE DoubledN(Doubled(im, w, h), 2 * w, 2 * h, n - 1)
Resized(G, im, o) == IF o < 0 THEN DoubledN(im, G.w, G.h, 0 - o) ELSE Subsampled(im, G.w, Width(G, o), Height(G, o), 2 ^ o)
(* a normalised Gaussian window of three deviations, the image being continued *)
Gauss(sigma) == LET W == RInt(RNeg(RFloor(RNeg(RMul(3, sigma)))))
                    g == TLCEval([j \in 1..(2 * W + 1) |-> IF j = W + 1 THEN 1 ELSE LET d == RDiv(j - 1 - W, sigma) IN RExp(RMul("-0.5", RMul(d, d)))])
                    t == TLCEval(RSum(g))
                IN [j \in DOMAIN g |-> RDiv(g[j], t)]
ConvRow(row, g) == LET W == Len(g) \div 2  n == Len(row)
                       p == TLCEval([i \in 1..(n + 2 * W) |-> row[IF i <= W THEN 1 ELSE IF i > W + n THEN n ELSE i - W]])
                   IN [i \in 1..n |-> RDot(g, SubSeq(p, i, i + 2 * W))]
Smooth(im, w, h, sigma) ==
  LET g == TLCEval(Gauss(sigma))
      rows == TLCEval([y \in 1..h |-> ConvRow(SubSeq(im, (y - 1) * w + 1, y * w), g)])
      cols == TLCEval([x \in 1..w |-> ConvRow([y \in 1..h |-> rows[y][x]], g)])
      F(x, y) == cols[x + 1][y + 1]
  IN Mat(w, h, F)
(* raise the smoothing of a level of octave o from scale a to scale b; f is a
   factor near 1 for the rounding of the deviation, on which the size of the
   window depends                                                            *)
Raise(G, im, o, a, b, f) == IF RLt(a, b) THEN Smooth(im, Width(G, o), Height(G, o), RMul(f, RDiv(RSqrt(RSub(RMul(b, b), RMul(a, a))), RPow(2, o)))) ELSE im
First(G, im, f) == Raise(G, Resized(G, im, G.o0), G.o0, G.nominal, Sigma(G, G.o0, G.s0), f)
Next_(G, prev, o, f) == Raise(G, Subsampled(prev, Width(G, o - 1), Width(G, o), Height(G, o), 2), o, Sigma(G, o - 1, Seed(G)), Sigma(G, o, G.s0), f)
Up(G, prev, o, s, f) == Raise(G, prev, o, Sigma(G, o, s - 1), Sigma(G, o, s), f)
(* the convolution by the documented window is only a good approximation of the
   Gaussian if no scale lies below the nominal one                           *)
Computable(G) == RLe(G.nominal, Sigma(G, G.o0, G.s0))
=============================================================================
