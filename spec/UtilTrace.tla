----------------------------- MODULE UtilTrace -----------------------------
(* The MATLAB image utilities against their definitions: smoothing, integral
   images, distance transforms, finite differences, up- and downsampling by
   two, conversions between colour spaces and mosaics.
   An image is a sequence of columns of numbers; pixels count from one.        *)
EXTENDS TraceKit, RealOps, Integers, Sequences, FiniteSets, TLC
VARIABLE l
ev == Trace[l]
Rows(I) == IF Len(I) = 0 THEN 0 ELSE Len(I[1])
At(I, r, c) == I[c][r]
Shape(J, m, n) == Len(J) = n /\ \A c \in 1..n : Len(J[c]) = m
Clamp(v, a, b) == IF v < a THEN a ELSE IF v > b THEN b ELSE v
Ceil(x) == -RInt(RNeg(x))
Tol == IF ev.cls = "single" THEN "2e-5" ELSE "1e-9"
(* ---- smoothing: a symmetric kernel of unit mass along rows and columns ---- *)
Gauss(s) == LET W == Ceil(RMul(4, s))
                g == TLCEval([k \in 1..(2 * W + 1) |-> LET z == RDiv(k - W - 1, RAdd(s, "1.1920929e-7")) IN RExp(RMul("-0.5", RMul(z, z)))])
                m == RSum(g) IN [k \in 1..(2 * W + 1) |-> RDiv(g[k], m)]
Triangle(s) == LET n == IF RLt(s, 1) THEN 1 ELSE RInt(s) IN [k \in 1..(2 * n - 1) |-> RDiv(n - (IF k < n THEN n - k ELSE k - n), n * n)]
Pick(v, p) == IF p \in 1..Len(v) THEN v[p] ELSE IF ev.pad = "zero" THEN 0 ELSE v[Clamp(p, 1, Len(v))]
Pass(v, w) == LET W == Len(w) \div 2 IN
  [j \in 1..((Len(v) - 1) \div ev.step + 1) |-> RDot(w, [k \in 1..Len(w) |-> Pick(v, ev.step * (j - 1) + 1 + k - W - 1)])]
Flip(I) == [r \in 1..Rows(I) |-> [c \in 1..Len(I) |-> I[c][r]]]
Smooth(I, w) == LET A == TLCEval([c \in 1..Len(I) |-> Pass(I[c], w)])  B == TLCEval(Flip(A)) IN
                Flip(TLCEval([r \in 1..Len(B) |-> Pass(B[r], w)]))
\* the largest magnitude, which the rounding errors are relative to
RECURSIVE Top(_, _)
Top(v, n) == IF n = 0 THEN 1 ELSE RMax(RAbs(v[n]), Top(v, n - 1))
SmoothOk ==
  LET w == TLCEval(IF ev.kernel = "gaussian" THEN Gauss(ev.s) ELSE Triangle(ev.s)) IN
  /\ ev.outclass = ev.cls /\ Len(ev.out) = Len(ev.img)
  /\ \A k \in 1..Len(ev.img) :
       LET I == ev.img[k]  R == TLCEval(Smooth(I, w)) IN
       /\ Shape(ev.out[k], (Rows(I) - 1) \div ev.step + 1, (Len(I) - 1) \div ev.step + 1)
       /\ \A c \in 1..Len(R) : \A r \in 1..Len(R[c]) : RNear(ev.out[k][c][r], R[c][r], Tol)
(* ---- integral images ---- *)
Wrap(s) == IF ev.cls = "uint32" THEN RSub(s, RMul("4294967296", RFloor(RDiv(s, "4294967296")))) ELSE s
IntegralOk ==
  /\ ev.outclass = ev.cls /\ Len(ev.out) = Len(ev.img)
  /\ \A k \in 1..Len(ev.img) :
       LET I == ev.img[k] IN
       /\ Shape(ev.out[k], Rows(I), Len(I))
       /\ \A c \in 1..Len(I) : \A r \in 1..Rows(I) :
            LET s == Wrap(RSum([u \in 1..c |-> RSum(SubSeq(I[u], 1, r))])) IN
            IF ev.cls \in {"uint32", "int32"} THEN REq(ev.out[k][c][r], s) ELSE RNear(ev.out[k][c][r], s, Tol)
(* ---- distance transforms ---- *)
Sq(c, o, d) == LET t == RSub(d, o) IN RMul(c, RMul(t, t))
DistOk ==
  LET I == ev.img  M == Rows(I)  N == Len(I)  p == ev.param
      cost(q, r, c) == RAdd(RAdd(At(I, ((q - 1) % M) + 1, ((q - 1) \div M) + 1), Sq(p[1], p[2], c - (((q - 1) \div M) + 1))), Sq(p[3], p[4], r - (((q - 1) % M) + 1))) IN
  /\ ev.outclass = ev.cls /\ Shape(ev.out, M, N) /\ (ev.indexed => Shape(ev.idx, M, N))
  /\ \A c \in 1..N, r \in 1..M :
       LET d == ev.out[c][r] IN
       /\ \A q \in 1..(M * N) : RLe(d, RAdd(cost(q, r, c), Tol)) \/ RNear(d, cost(q, r, c), Tol)
       /\ IF ev.indexed THEN ev.idx[c][r] \in 1..(M * N) /\ RNear(d, cost(ev.idx[c][r], r, c), Tol)
          ELSE \E q \in 1..(M * N) : RNear(d, cost(q, r, c), Tol)
(* ---- finite differences ---- *)
Diff(f(_), i, n) ==
  LET fwd == RSub(f(i + 1), f(i))  bwd == RSub(f(i), f(i - 1)) IN
  IF i = 1 THEN fwd ELSE IF i = n THEN bwd
  ELSE CASE ev.type = "central" -> RDiv(RAdd(fwd, bwd), 2) [] ev.type = "forward" -> fwd [] ev.type = "backward" -> bwd
GradOk ==
  LET I == ev.img  M == Rows(I)  N == Len(I) IN
  /\ Shape(ev.x, M, N) /\ Shape(ev.y, M, N)
  /\ \A c \in 1..N, r \in 1..M :
       /\ LET f(u) == At(I, r, u) IN RNear(ev.x[c][r], Diff(f, c, N), "1e-9")
       /\ LET f(v) == At(I, v, c) IN RNear(ev.y[c][r], Diff(f, r, M), "1e-9")
(* ---- twice and half the resolution ---- *)
UpOk ==
  LET I == ev.img  M == Rows(I)  N == Len(I)
      lo(p) == (p + 1) \div 2
      hi(p, n) == Clamp(p \div 2 + 1, 1, n) IN
  /\ Shape(ev.out, 2 * M, 2 * N)
  /\ \A c \in 1..(2 * N), r \in 1..(2 * M) :
       RNear(ev.out[c][r], RDiv(RSum(<<At(I, lo(r), lo(c)), At(I, hi(r, M), lo(c)), At(I, lo(r), hi(c, N)), At(I, hi(r, M), hi(c, N))>>), 4), "1e-9")
DownOk ==
  LET I == ev.img  M == Rows(I) \div 2  N == Len(I) \div 2 IN
  /\ ev.outclass = ev.cls /\ Shape(ev.out, M, N)
  /\ \A c \in 1..N, r \in 1..M :
       LET a == At(I, 2 * r - 1, 2 * c - 1)
           m == RDiv(RSum(<<a, At(I, 2 * r, 2 * c - 1), At(I, 2 * r - 1, 2 * c), At(I, 2 * r, 2 * c)>>), 4) IN
       IF ev.method = "sample" THEN REq(ev.out[c][r], a)
       ELSE IF ev.cls = "uint8" THEN REq(ev.out[c][r], RFloor(RAdd(m, "0.5"))) ELSE RNear(ev.out[c][r], m, Tol)
(* ---- colours ---- *)
ToXyz(ws) == IF ws = "CIE" THEN << <<"0.488718", "0.310680", "0.200602">>, <<"0.176204", "0.812985", "0.0108109">>, <<"0", "0.0102048", "0.989795">> >>
             ELSE << <<"0.576700", "0.185556", "0.188212">>, <<"0.297361", "0.627355", "0.0752847">>, <<"0.0270328", "0.0706879", "0.99124">> >>
\* chromaticities of the illuminants
White(il) == CASE il = "a" -> <<"0.4476", "0.4074">> [] il = "b" -> <<"0.34842", "0.35161">> [] il = "c" -> <<"0.3101", "0.3162">>
  [] il = "e" -> <<RDiv(1, 3), RDiv(1, 3)>> [] il = "d50" -> <<"0.3457", "0.3585">> [] il = "d55" -> <<"0.3324", "0.3474">>
  [] il = "d65" -> <<"0.312713", "0.329016">> [] il = "d75" -> <<"0.299", "0.3149">> [] il = "d93" -> <<"0.2848", "0.2932">>
\* its X, Y, Z with unit Y
WhiteXyz(il) == LET w == White(il) IN <<RDiv(w[1], w[2]), 1, RDiv(RSub(RSub(1, w[1]), w[2]), w[2])>>
Lin(p) == [k \in 1..3 |-> RDot(ToXyz(ev.par)[k], p)]
Xyz(p) == Lin([k \in 1..3 |-> RPow(p[k], "2.2")])
Root(t) == IF RLt("0.008856", t) THEN RPow(t, RDiv(1, 3)) ELSE RDiv(RAdd(RMul("903.3", t), 16), 116)
Light(y) == RSub(RMul(116, Root(y)), 16)
Lab(p) == LET w == WhiteXyz(ev.par)  f == [k \in 1..3 |-> Root(RDiv(p[k], w[k]))] IN
  <<RSub(RMul(116, f[2]), 16), RMul(500, RSub(f[1], f[2])), RMul(200, RSub(f[2], f[3]))>>
Uv(p) == LET s == RSum(<<p[1], RMul(15, p[2]), RMul(3, p[3])>>) IN <<RDiv(RMul(4, p[1]), s), RDiv(RMul(9, p[2]), s)>>
Luv(p) == IF REq(p[2], 0) THEN <<0, 0, 0>> ELSE
  LET L == Light(p[2])  a == Uv(p)  b == Uv(WhiteXyz(ev.par)) IN <<L, RMul(RMul(13, L), RSub(a[1], b[1])), RMul(RMul(13, L), RSub(a[2], b[2]))>>
Near3(a, b, t) == Len(a) = 3 /\ \A k \in 1..3 : RNear(a[k], b[k], t)
ColourOk ==
  /\ ev.real /\ Len(ev.out) = Len(ev.pix)
  /\ \A k \in 1..Len(ev.pix) :
       LET p == ev.pix[k]  q == ev.out[k] IN
       CASE ev.to = "xyz" -> Near3(q, Xyz(p), "1e-9")
         \* the inverse, with what lies outside the gamut clipped
         [] ev.to = "rgb" -> /\ Len(q) = 3 /\ \A j \in 1..3 : RLe(0, q[j])
                             /\ (ev.gamut => \A j \in 1..3 : RWithin(RPow(q[j], "2.2"), RPow(ev.src[k][j], "2.2"), "1e-9"))
         [] ev.to = "lab" -> Near3(q, Lab(p), "1e-3")
         [] ev.to = "luv" -> Near3(q, Luv(p), "1e-3")
(* ---- mosaics: images k = 1, 2, ... from left to right, top to bottom ---- *)
RECURSIVE UpTo(_, _)
UpTo(n, k) == IF k * k >= n THEN k ELSE UpTo(n, k + 1)
MosaicOk ==
  LET K == Len(ev.imgs)  h == ev.h  w == ev.w  s == ev.spacing
      N == IF ev.layout = <<>> THEN UpTo(K, 1) ELSE ev.layout[2]
      M == IF ev.layout = <<>> THEN (K + N - 1) \div N ELSE ev.layout[1]
      H == h * M + s * (M - 1)  W == w * N + s * (N - 1) IN
  /\ ev.outclass = ev.cls /\ ev.size = <<H, W, ev.channels>> /\ Len(ev.out) = ev.channels
  /\ \A ch \in 1..ev.channels :
       /\ Shape(ev.out[ch], H, W)
       /\ \A c \in 1..W, r \in 1..H :
            LET ti == (r - 1) \div (h + s)  tj == (c - 1) \div (w + s)
                rr == (r - 1) % (h + s)  cc == (c - 1) % (w + s)
                k == (IF ev.reverse THEN M - 1 - ti ELSE ti) * N + tj + 1 IN
            ev.out[ch][c][r] = IF rr >= h \/ cc >= w \/ k > K THEN ev.fill[ch] ELSE ev.imgs[k][ch][cc + 1][rr + 1]
RefuseOk == ev.refused
\* nothing comes of nothing
EmptyOk == /\ \A k \in 1..2 : ev.smooth[k] = IF ev.size[k] = 0 THEN 0 ELSE (ev.size[k] - 1) \div ev.step + 1
           /\ ev.integral = ev.size /\ ev.dist = ev.size
Ok == CASE ev.e = "Smooth" -> SmoothOk [] ev.e = "Integral" -> IntegralOk [] ev.e = "Dist" -> DistOk [] ev.e = "Grad" -> GradOk
        [] ev.e = "Up" -> UpOk [] ev.e = "Down" -> DownOk [] ev.e = "Colour" -> ColourOk [] ev.e = "Mosaic" -> MosaicOk
        [] ev.e = "Empty" -> EmptyOk [] ev.e = "Refuse" -> RefuseOk [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
