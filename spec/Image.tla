------------------------------- MODULE Image -------------------------------
(* Definitions of the elementary image operations.  An image is a sequence of
   rows of numbers; coordinates are 0-based as in the library.               *)
EXTENDS Integers, Sequences, FiniteSets
At(I, x, y) == I[y + 1][x + 1]
H(I) == Len(I)
W(I) == IF Len(I) = 0 THEN 0 ELSE Len(I[1])
Clamp(v, a, b) == IF v < a THEN a ELSE IF v > b THEN b ELSE v
RECURSIVE SumTo(_, _, _)
SumTo(f(_), a, b) == IF a > b THEN 0 ELSE f(a) + SumTo(f, a + 1, b)
(* ---- convolution along a column ---- *)
Padded(I, x, p, pad) == IF p \in 0..(H(I) - 1) THEN At(I, x, p)
                        ELSE IF pad = "zero" THEN 0 ELSE At(I, x, Clamp(p, 0, H(I) - 1))
Conv(I, f, fb, fe, pad, x, y) == LET g(k) == f[k - fb + 1] * Padded(I, x, y - k, pad) IN SumTo(g, fb, fe)
(* the triangular kernel of half width n, scaled by n^2 to stay integer       *)
Abs(v) == IF v < 0 THEN -v ELSE v
Tri(I, n, pad, x, y) == LET g(k) == (n - Abs(k)) * Padded(I, x, y - k, pad) IN SumTo(g, 1 - n, n - 1)
DHeight(h, step) == (h - 1) \div step + 1
(* ---- integral image ---- *)
Integral(I, x, y) == LET row(v) == LET g(u) == At(I, u, v) IN SumTo(g, 0, x) IN SumTo(row, 0, y)
(* ---- twice the gradient: centred differences, one-sided at the border ---- *)
Diff2(f(_), i, n) == IF i = 0 THEN 2 * (f(1) - f(0)) ELSE IF i = n - 1 THEN 2 * (f(n - 1) - f(n - 2)) ELSE f(i + 1) - f(i - 1)
GradX2(I, x, y) == LET f(u) == At(I, u, y) IN Diff2(f, x, W(I))
GradY2(I, x, y) == LET f(v) == At(I, x, v) IN Diff2(f, y, H(I))
=============================================================================
