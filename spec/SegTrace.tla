------------------------------ MODULE SegTrace ------------------------------
EXTENDS TraceKit, Segment, RealOps
VARIABLE l
ev == Trace[l]
W == ev.w
H == ev.h
NC == ev.nc
Pix == 0..(W * H - 1)
(* ------------------------------------------------------------------ SLIC -- *)
I(x, y, k) == ev.im[x + y * W + k * W * H + 1]
RX == (W + ev.rs - 1) \div ev.rs
RY == (H + ev.rs - 1) \div ev.rs
Clamp(a, lo, hi) == IF a < lo THEN lo ELSE IF a > hi THEN hi ELSE a
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
\* the tiles a pixel may belong to: those whose centre is nearest on either side
Tiles(p) == LET u == (2 * (p % W) - ev.rs) \div (2 * ev.rs)  v == (2 * (p \div W) - ev.rs) \div (2 * ev.rs)
            IN {a + b * RX : a \in MaxI(0, u)..MinI(RX - 1, u + 1), b \in MaxI(0, v)..MinI(RY - 1, v + 1)}
Sq(a) == RMul(a, a)
Edge(x, y) == IF x = 0 \/ y = 0 \/ x = W - 1 \/ y = H - 1 THEN 0
              ELSE RSum([k \in 1..NC |-> RAdd(Sq(RSub(I(x+1, y, k-1), I(x-1, y, k-1))), Sq(RSub(I(x, y+1, k-1), I(x, y-1, k-1))))])
\* a tile's first centre: the pixel of weakest edge around its middle (the first such in scan order)
Middle(n, m) == Clamp((ev.rs * (2 * n + 1) + 1) \div 2, 0, m - 1)
Start(r) == LET x == Middle(r % RX, W)  y == Middle(r \div RX, H)
                C == {a + b * W : a \in MaxI(0, x - 1)..MinI(W - 1, x + 1), b \in MaxI(0, y - 1)..MinI(H - 1, y + 1)}
                e == TLCEval([c \in C |-> Edge(c % W, c \div W)])
            IN CHOOSE c \in C : \A d \in C : RLt(e[c], e[d]) \/ (REq(e[c], e[d]) /\ c <= d)
Feat(p) == <<p % W, p \div W>> \o [k \in 1..NC |-> I(p % W, p \div W, k - 1)]
Factor == RDiv(ev.reg, ev.rs * ev.rs)
Dist(p, c) == RAdd(RSum([k \in 1..NC |-> Sq(RSub(I(p % W, p \div W, k - 1), c[k + 2]))]),
                   RMul(Factor, RAdd(Sq(RSub(p % W, c[1])), Sq(RSub(p \div W, c[2])))))
\* nearest centre of a pixel: <<label, distance, clear>>; clear = no other centre comes close
Nearest(p, cs) == LET T == Tiles(p)  d == TLCEval([r \in T |-> Dist(p, cs[r])])
                      r == CHOOSE r \in T : \A q \in T : RLe(d[r], d[q])
                  IN <<r, d[r], \A q \in T \ {r} : ~RNear(d[q], d[r], "2e-5") >>
Mean(S) == [i \in 1..(NC + 2) |-> RDiv(RSum([k \in 1..Len(S) |-> Feat(S[k])[i]]), Len(S))]
RECURSIVE Members(_, _, _)
Members(r, lab, p) == IF p = W * H THEN <<>> ELSE (IF lab[p] = r THEN <<p>> ELSE <<>>) \o Members(r, lab, p + 1)
(* k-means until the energy stops decreasing; no answer when a tie, an empty tile or
   a stopping test too close to call leaves the outcome to rounding           *)
RECURSIVE Run(_, _, _, _, _)
Run(it, cs, prev, first, lab0) ==
  LET n == TLCEval([p \in Pix |-> Nearest(p, cs)])
      lab == TLCEval([p \in Pix |-> n[p][1]])
      en == TLCEval(RSum([i \in 1..(W * H) |-> n[i - 1][2]]))
      lhs == RSub(prev, en)  rhs == RMul("1e-5", RSub(first, en))
      close == RWithin(lhs, rhs, RMul("4e-6", en))
      mem == TLCEval([r \in 0..(RX * RY - 1) |-> Members(r, lab, 0)])
  IN IF \E p \in Pix : ~n[p][3] THEN {}
     ELSE IF it > 0 /\ lab = lab0 THEN {lab}
     ELSE IF it > 0 /\ close THEN {}
     ELSE IF it = 100 \/ (it > 0 /\ RLt(lhs, rhs)) THEN {lab}
     ELSE IF \E r \in DOMAIN mem : mem[r] = <<>> THEN {}
     ELSE Run(it + 1, TLCEval([r \in DOMAIN mem |-> Mean(mem[r])]), en, IF it = 0 THEN en ELSE first, lab)
SlicOk ==
  LET pre == TLCEval([p \in Pix |-> ev.pre[p + 1]])  post == TLCEval([p \in Pix |-> ev.post[p + 1]])
      want == TLCEval(Run(0, TLCEval([r \in 0..(RX * RY - 1) |-> Feat(Start(r))]), 0, 0, <<>>))
  IN /\ Len(ev.pre) = W * H /\ Len(ev.post) = W * H /\ ev.again = ev.post
     /\ \A p \in Pix : pre[p] \in Tiles(p)
     /\ want \subseteq {pre}
     /\ \A p \in Pix : \E q \in Pix : post[p] = pre[q]
     /\ Cleaned(pre, post, W, H, ev.min)
     /\ NoFragments(post, W, H, ev.min)
(* ------------------------------------------------------------ quick shift -- *)
\* pixel k is row k % h, column k \div h
Val(p, k) == ev.im[p + W * H * k + 1]
D2(p, q) == RAdd(((p % H) - (q % H)) * ((p % H) - (q % H)) + ((p \div H) - (q \div H)) * ((p \div H) - (q \div H)),
                 RSum([k \in 1..NC |-> Sq(RSub(Val(p, k - 1), Val(q, k - 1)))]))
Cheb(p, q, r) == LET a == (p % H) - (q % H)  b == (p \div H) - (q \div H) IN (a <= r /\ -a <= r) /\ (b <= r /\ -b <= r)
Ceil(a) == LET i == RInt(a) IN IF RLt(i, a) THEN i + 1 ELSE i
RECURSIVE SumOver(_, _, _)
SumOver(f(_), p, S) == IF p = W * H THEN 0 ELSE RAdd(IF p \in S THEN f(p) ELSE 0, SumOver(f, p + 1, S))
ShiftOk ==
  LET R == Ceil(RMul(3, ev.sigma))
      Win == TLCEval([p \in Pix |-> {q \in Pix : Cheb(p, q, R)}])
      K(p, q) == RExp(RDiv(RNeg(D2(p, q)), RMul(2, Sq(ev.sigma))))
      E(p) == ev.E[p + 1]
      Par(p) == ev.parents[p + 1]
      dens(p) == LET f(q) == K(p, q) IN SumOver(f, 0, Win[p])
      tau2 == RMul(ev.tau, ev.tau)
      Up(p) == {q \in Pix : RLt(E(p), E(q)) /\ Cheb(p, q, Ceil(ev.tau)) /\ RLe(D2(p, q), tau2)}
      \* medoid mode: the pixel of the window of least kernel-weighted squared distance to the window
      co(p, c) == IF c = 1 THEN p % H ELSE IF c = 2 THEN p \div H ELSE Val(p, c - 3)
      Inner(p, q) == RSum([c \in 1..(NC + 2) |-> RMul(co(p, c), co(q, c))])
      Q(i, j, ks) == LET f(q) == RMul(ks[q], RSub(RMul(2, Inner(j, q)), Inner(j, j))) IN SumOver(f, 0, Win[i])
  IN /\ Len(ev.parents) = W * H /\ Len(ev.dists) = W * H /\ Len(ev.E) = W * H
     /\ \A p \in Pix : RNear(E(p), dens(p), "1e-9") /\ Par(p) \in Pix
     /\ IF ~ev.medoid
        THEN \A p \in Pix : LET U == TLCEval(Up(p)) IN
               IF U = {} THEN Par(p) = p /\ ev.dists[p + 1] = "inf"
               ELSE Par(p) \in U /\ (\A q \in U : RLe(D2(p, Par(p)), D2(p, q))) /\ RNear(ev.dists[p + 1], RSqrt(D2(p, Par(p))), "1e-12")
        ELSE \A p \in Pix : LET ks == TLCEval([q \in Win[p] |-> K(p, q)])
                                sc == TLCEval([j \in Win[p] |-> Q(p, j, ks)])
                                best == CHOOSE j \in Win[p] : \A k \in Win[p] : RLe(sc[k], sc[j])
                            IN IF RLt(sc[best], "-1e-9") THEN Par(p) = p /\ REq(ev.dists[p + 1], 0)
                               ELSE /\ Par(p) \in Win[p] /\ (RNear(sc[Par(p)], sc[best], "1e-9") \/ (Par(p) = p /\ RWithin(sc[best], 0, "1e-9")))
                                    /\ RNear(ev.dists[p + 1], sc[best], "1e-9")
\* links only ever go up in density, so following them reaches a root
ForestOk == ~ev.medoid => \A p \in Pix : ev.parents[p + 1] # p => RLt(ev.E[p + 1], ev.E[ev.parents[p + 1] + 1])
DefaultOk == LET t == MaxI(W, H) \div 50 IN REq(ev.tau, t) /\ REq(ev.sigma, IF RLt(RDiv(t, 3), 2) THEN 2 ELSE RDiv(t, 3)) /\ ~ev.medoid
Ok == CASE ev.e = "Slic" -> SlicOk [] ev.e = "Shift" -> ShiftOk /\ ForestOk [] ev.e = "Default" -> DefaultOk [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
