------------------------------- MODULE Dsift -------------------------------
(* Dense SIFT: the same descriptor on a regular grid of frames.  A frame starts
   at (fx, fy); its bin (bx, by) is centred at (fx + bx * sx, fy + by * sy) and
   collects the gradients around with a triangular kernel of half width sx, sy,
   under a Gaussian window of win bins centred on the frame -- or, when the
   window is flat, scaled by the mean of the Gaussian over the bin.           *)
EXTENDS Sift
\* the first coordinates of the frames along an axis
Starts(lo, hi, step, nb, size) == LET last == hi - (nb - 1) * size  n == IF last < lo THEN 0 ELSE (last - lo) \div step + 1
                                  IN [i \in 1..n |-> lo + (i - 1) * step]
\* G[t][pixel]: how much of the gradient of a pixel is in orientation t
Oriented(G, T) == LET pos == TLCEval([p \in DOMAIN G |-> TLCEval(RMul(T, RDiv(RModN(G[p].a, TwoPi), TwoPi)))])
                      part(p, t) == IF T = 1 THEN 1 ELSE TriC(RSub(pos[p], t), T)
                  IN TLCEval([t \in 0..(T - 1) |-> TLCEval([p \in DOMAIN G |-> RMul(G[p].m, part(p, t))])])
GaussAt(u, bin, nb, size, win) == LET z == RDiv(RAdd(u, RMul(size, RSub(bin, RMul("0.5", nb - 1)))), RMul(size, win)) IN RExp(RMul("-0.5", RMul(z, z)))
\* the weights of a bin at offsets -(size-1) .. size-1
Kernel(bin, nb, size, win, flat) ==
  LET n == 2 * size - 1  u(i) == i - size
      tri(i) == RSub(1, RDiv(RAbs(u(i)), size))
      g == TLCEval([i \in 1..n |-> GaussAt(u(i), bin, nb, size, win)])
      mean == RDiv(RSum(g), n)
  IN TLCEval([i \in 1..n |-> TLCEval(RMul(tri(i), IF flat THEN mean ELSE g[i]))])
\* outside of the image its border continues
Window(A, w, h, cx, cy, sx, sy) == LET n == 2 * sx - 1  m == 2 * sy - 1
  IN [i \in 1..(n * m) |-> LET x == cx + ((i - 1) % n) + 1 - sx  y == cy + ((i - 1) \div n) + 1 - sy
                           IN A[MaxI(0, MinI(h - 1, y)) * w + MaxI(0, MinI(w - 1, x)) + 1]]
(* one descriptor before normalisation: t fastest, then x, then y *)
RawBins(O, w, h, fx, fy, T, nx, ny, sx, sy, Ker) ==
  TLCEval([i \in 1..(T * nx * ny) |->
    LET t == (i - 1) % T  bx == ((i - 1) \div T) % nx  by == (i - 1) \div (T * nx)
    IN TLCEval(RDot(Window(O[t], w, h, fx + bx * sx, fy + by * sy, sx, sy), Ker[bx][by]))])
Kernels(nx, ny, sx, sy, win, flat) ==
  LET kx == TLCEval([b \in 0..(nx - 1) |-> Kernel(b, nx, sx, win, flat)])
      ky == TLCEval([b \in 0..(ny - 1) |-> Kernel(b, ny, sy, win, flat)])
      n == 2 * sx - 1
  IN TLCEval([bx \in 0..(nx - 1) |-> TLCEval([by \in 0..(ny - 1) |->
        TLCEval([i \in 1..(n * (2 * sy - 1)) |-> RMul(kx[bx][((i - 1) % n) + 1], ky[by][(i - 1) \div n + 1])])])])
\* where bin i of a descriptor goes when x and y are exchanged
Transposed(i, T, nx, ny) == LET t == (i - 1) % T  bx == ((i - 1) \div T) % nx  by == (i - 1) \div (T * nx)
                            IN 1 + ((T + T \div 4 - t) % T) + T * (by + bx * ny)
=============================================================================
