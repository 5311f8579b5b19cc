------------------------------ MODULE LbpTrace ------------------------------
EXTENDS TraceKit, Lbp, RealOps
VARIABLE l
ev == Trace[l]
Px(x, y) == ev.img[x + ev.w * y + 1]
Pattern(x, y) == {b \in Bits : Px(x + DX[b+1], y + DY[b+1]) > Px(x, y)}
RECURSIVE Sum(_, _)
Sum(f(_), S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f(e) + Sum(f, S \ {e})
LbpOk ==
  LET s == ev.s  cw == ev.w \div s  ch == ev.h \div s
      Q == TLCEval([x \in 1..(ev.w-2), y \in 1..(ev.h-2) |-> Quant(Pattern(x, y), ev.tr)])
      \* pixels that reach a cell
      Near(n, c) == {x \in 1..(n-2) : Wgt(x, c, s) > 0}
      cellOk(cx, cy) ==
        LET P == Near(ev.w, cx) \X Near(ev.h, cy)
            wt(p) == Wgt(p[1], cx, s) * Wgt(p[2], cy, s)
            total == Sum(wt, P)
            bins == {Q[p] : p \in P}
            vote(q) == Sum(wt, {p \in P : Q[p] = q})
            cell == cx + cw * cy
            F == {k \in 1..Len(ev.f) : ev.f[k][2] = cell}
        IN /\ {ev.f[k][1] : k \in F} = bins
           /\ \A k \in F : /\ RLt(0, ev.f[k][3])
                           /\ RWithin(RMul(ev.f[k][3], ev.f[k][3]), RDiv(vote(ev.f[k][1]), total), "4e-6")
  IN /\ ev.dim = 58
     /\ \A k \in 1..Len(ev.f) : ev.f[k][2] < cw * ch
     /\ \A cx \in 0..(cw-1), cy \in 0..(ch-1) : cellOk(cx, cy)
\* vl_lbpfliplr applied to an array whose entries name their position
FlipOk == /\ ev.size = <<ev.rows, ev.cols, 58>>
          /\ \A k \in 1..Len(ev.from) :
               LET o == k - 1  r == o % ev.rows  c == (o \div ev.rows) % ev.cols  q == o \div (ev.rows * ev.cols) IN
               ev.from[k] = r + ev.rows * (ev.cols - 1 - c) + ev.rows * ev.cols * FlipBin(q)
Ok == CASE ev.e = "Lbp" -> LbpOk [] ev.e = "Flip" -> FlipOk [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
