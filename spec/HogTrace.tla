------------------------------ MODULE HogTrace ------------------------------
EXTENDS TraceKit, Hog
VARIABLE l
ev == Trace[l]
hw == Cells(ev.w, ev.cell)
hh == Cells(ev.h, ev.cell)
Shape == ev.hw = hw /\ ev.hh = hh /\ ev.dim = Dimension(ev.variant, ev.n) /\ Len(ev.f) = hw * hh * ev.dim
Tol == IF ev.bilinear THEN "2e-3" ELSE "3e-5"
Same(F, f, tol) == \A k \in DOMAIN F : \A c \in DOMAIN F[k] : RNear(f[k * hw * hh + c], F[k][c], tol)
Judge(V) == Vague(V) \/ Same(Features(Hist(V, ev.w, ev.h, ev.cell, ev.n), hw, hh, ev.n, ev.variant, ev.tr), ev.f, Tol)
ImageOk == Shape /\ Judge(ImageVotes(Num(ev.im), ev.w, ev.h, ev.C, ev.n, ev.tr, ev.bilinear))
PolarOk == Shape /\ Judge(PolarVotes(Num(ev.mod), Num(ev.ang), ev.n, ev.directed, ev.bilinear))
PermOk == LET F == Flipped(ev.variant, ev.n) IN Len(ev.perm) = ev.dim /\ ev.dim = Dimension(ev.variant, ev.n) /\ \A k \in DOMAIN F : ev.perm[k + 1] = F[k]
\* g describes the mirrored image; cells fill the mirrored axis
FlipOk == LET cells == hw * hh  P == Flipped(ev.variant, ev.n)
              M(c) == LET x == (c - 1) % hw  y == (c - 1) \div hw IN IF ev.tr THEN x + hw * (hh - 1 - y) + 1 ELSE hw - 1 - x + hw * y + 1
          IN /\ Len(ev.f) = cells * Dimension(ev.variant, ev.n) /\ Len(ev.g) = Len(ev.f)
             /\ \A k \in DOMAIN P : \A c \in 1..cells : RNear(ev.g[k * cells + c], ev.f[P[k] * cells + M(c)], Tol)
\* g is what an object in transposed mode says about the transposed image
TransOk == LET cells == hw * hh  M(c) == LET x == (c - 1) % hw  y == (c - 1) \div hw IN y + hh * x + 1
           IN /\ Len(ev.f) = cells * Dimension(ev.variant, ev.n) /\ Len(ev.g) = Len(ev.f)
              /\ \A k \in 0..(Dimension(ev.variant, ev.n) - 1) : \A c \in 1..cells : RNear(ev.f[k * cells + c], ev.g[k * cells + M(c)], Tol)
RenderOk == ev.gs = GS /\ LET R == Rendered(Num(ev.d), ev.hw, ev.hh, ev.n, ev.variant, ev.tr, Glyphs(ev.n, ev.tr))
                          IN Len(ev.im) = Len(R) /\ \A p \in DOMAIN R : RNear(R[p], ev.im[p], "1e-5")
TwiceOk == \A i \in DOMAIN ev.digests : ev.digests[i] = ev.digests[1]
Ok == CASE ev.e = "Image" -> ImageOk [] ev.e = "Polar" -> PolarOk [] ev.e = "Perm" -> PermOk [] ev.e = "Flip" -> FlipOk
        [] ev.e = "Trans" -> TransOk [] ev.e = "Render" -> RenderOk [] ev.e = "Twice" -> TwiceOk
        [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
