------------------------------ MODULE CovTrace ------------------------------
EXTENDS TraceKit, Cov
VARIABLE l
ev == Trace[l]
Num(q) == TLCEval([i \in DOMAIN q |-> RAdd(q[i], 0)])
MaxAbs(q) == RMax(RSqrt(RDiv(RDot(q, q), MaxI(Len(q), 1))), "1e-30")
Alike(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RWithin(a[i], b[i], tol)
Some(P(_)) == P(1) \/ P("1.000001") \/ P("0.999999")
FindOk ==
  LET D == ev.dims  E == ExtremaI(ev.map, D, ev.t4)  g == {<<q[1], q[2], IF D[3] = 0 THEN 0 ELSE q[3]>> : q \in {ev.got[i] : i \in DOMAIN ev.got}}
  IN g = E /\ Len(ev.got) = Cardinality(E)
(* float fields *)
Close(a, b) == IF RNan(a) \/ RNan(b) THEN RNan(a) /\ RNan(b) ELSE IF ~RFinite(a) \/ ~RFinite(b) THEN REq(a, b) ELSE RNear(a, b, "1e-4")
RefineOk ==
  LET D == ev.dims  r == TLCEval(Refine(ev.map, D, ev.p[1], ev.p[2], ev.p[3], 1)) IN
  /\ ev.xi \in 1..(D[1] - 2) /\ ev.yi \in 1..(D[2] - 2) /\ ev.zi = ev.p[3]
  /\ (~r.vague =>
       /\ r.x = ev.xi /\ r.y = ev.yi
       /\ RWithin(ev.x, RAdd(r.x, r.b[1]), "1e-4") /\ RWithin(ev.y, RAdd(r.y, r.b[2]), "1e-4") /\ (D[3] > 0 => RWithin(ev.z, RAdd(ev.zi, r.b[3]), "1e-4"))
       /\ RWithin(ev.peak, r.val, RMul("1e-5", RAdd(1, RAdd(RAbs(r.val), RAbs(r.f.v)))))
       /\ (r.f.hdloose \/ RNan(EdgeScore(r.f)) \/ Close(ev.edge, EdgeScore(r.f)))
       /\ LET v == Stable(D, r, ev.p[3]) IN v = "vague" \/ ev.ok = (v = "yes"))
(* ----------------------------------------------------------------- detection *)
GeomFields == {"w", "h", "o0", "o1", "res", "s0", "s1"}
SameGeom(a, b) == (\A f \in GeomFields : a[f] = b[f]) /\ RNear(a.base, b.base, "1e-12") /\ REq(a.nominal, b.nominal)
Response(M, G, o, s, L(_)) ==
  LET w == Width(G, o)  h == Height(G, o)  sg == RDiv(Sigma(G, o, s), RPow(2, o)) IN
  IF M = 0 THEN <<LET a == L(s)  b == L(s + 1) IN TLCEval([i \in DOMAIN a |-> RSub(a[i], b[i])])>>
  ELSE IF M \in {1, 2, 4} THEN <<HessianResponse(L(s), w, h, sg)>>
  ELSE [i \in 1..3 |-> HarrisResponse(L(s), w, h, sg, <<1, "1.000001", "0.999999">>[i])]
Flat(C) == TLCEval(LET n == Len(C[1]) IN [i \in 1..(n * Len(C)) |-> C[(i - 1) \div n + 1][((i - 1) % n) + 1]])
(* all the candidates, given which levels the multi-scale methods search *)
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN <<p>> \o AsSeq(S \ {p})
Seqs(q) == LET RECURSIVE go(_) go(i) == IF i > Len(q) THEN <<>> ELSE q[i] \o go(i + 1) IN go(1)
CandsOf(M, G, o, C, lastS, tp, te) ==
  LET D == <<Width(G, o), Height(G, o), IF M <= 1 THEN Len(C) ELSE 0>>  bar == RMul("0.8", tp) IN
  IF M <= 1 THEN LET m == Flat(C)  E == AsSeq(Extrema(m, D, bar)) IN TLCEval([i \in DOMAIN E |-> Judge(m, D, G, o, E[i], G.s0, tp, te)])
  ELSE Seqs([k \in 1..(lastS - G.s0 + 1) |-> LET m == C[k]  E == AsSeq(Extrema(m, D, bar)) IN TLCEval([i \in DOMAIN E |-> Judge(m, D, G, o, E[i], G.s0 + k - 1, tp, te)])])
Matches(g, c) == /\ RNear(g.x, c.f.x, "1e-4") /\ RNear(g.y, c.f.y, "1e-4") /\ RNear(g.a11, c.f.s, "1e-4") /\ REq(g.a12, 0) /\ REq(g.a21, 0) /\ REq(g.a22, g.a11)
                 /\ Rel(g.peak, c.peak, "1e-3") /\ Close(g.edge, c.edge)
Explains(cands, F) ==
  LET yes == {i \in DOMAIN cands : cands[i].k = "yes"}  vag == {i \in DOMAIN cands : cands[i].k = "vague"}  lost == {i \in DOMAIN cands : cands[i].k = "lost"}
      un == {j \in DOMAIN F : ~\E i \in yes \cup vag : Matches(F[j], cands[i])}
  IN /\ \A i \in yes : \E j \in DOMAIN F : Matches(F[j], cands[i])
     /\ Cardinality(un) <= Cardinality(lost)
     /\ Len(F) >= Cardinality(yes) /\ Len(F) <= Cardinality(yes) + Cardinality(vag) + Cardinality(lost)
DetectOk ==
  LET M == ev.m  G == GssGeom(M, ev.w, ev.h, ev.o0, ev.num, ev.res, ev.base)  CG == CssGeom(M, G)
      lev(sp, g, o, s) == Num(sp[o - g.o0 + 1][s - g.s0 + 1])
      gss == TLCEval([o \in G.o0..G.o1 |-> [s \in G.s0..G.s1 |-> lev(ev.gss, G, o, s)]])
      css == TLCEval([o \in CG.o0..CG.o1 |-> [s \in CG.s0..CG.s1 |-> lev(ev.css, CG, o, s)]])
      asked(o) == [k \in 1..(CG.s1 - CG.s0 + 1) |-> css[o][CG.s0 + k - 1]]
      cands(lastS) == Seqs([k \in 1..(CG.o1 - CG.o0 + 1) |-> CandsOf(M, CG, CG.o0 + k - 1, asked(CG.o0 + k - 1), lastS, ev.tp, ev.te)])
  IN /\ SameGeom(ev.g, G) /\ SameGeom(ev.cg, CG) /\ ev.gsame
     /\ \A o \in CG.o0..CG.o1 : \A s \in CG.s0..CG.s1 : LET R == Response(M, G, o, s, LAMBDA t : gss[o][t])  c == css[o][s] IN
          \E i \in DOMAIN R : Alike(R[i], c, RMul("1e-4", RAdd(MaxAbs(c), IF M = 0 THEN "1e-4" ELSE RMul("1e-3", Pow4(RDiv(Sigma(G, o, s), RPow(2, o)))))))
     /\ IF M <= 1 THEN Explains(cands(CG.s1), ev.feats) ELSE Explains(cands(CG.s1 - 1), ev.feats) \/ Explains(cands(CG.s1), ev.feats)
SuppressOk ==
  LET F == ev.before  tol == ev.tol
      dead == IF REq(tol, 0) THEN {} ELSE Suppress(tol, F, {}, 1)
      left == SelectSeq([i \in DOMAIN F |-> [i |-> i, f |-> F[i]]], LAMBDA e : e.i \notin dead)
  IN /\ Len(ev.after) = Len(left) /\ \A i \in DOMAIN left : ev.after[i] = left[i].f
     /\ ev.count = Cardinality(dead)
(* ---------------------------------------------------------- patches etc. -- *)
Dmin(d) == RMin(RAbs(d[1]), RAbs(d[2]))
LevelOf(o, s) == Num(ev.gss[o - ev.g.o0 + 1][s - ev.g.s0 + 1])
PatchOk ==
  LET G == ev.g  F == ev.f IN
  /\ IsSvd(F, ev.U, ev.d, ev.V)
  /\ \E c \in Levels(G, ev.sigma, Dmin(ev.d)) : LET im == LevelOf(c[1], c[2])  w == Width(G, c[1])  h == Height(G, c[1])  st == RPow(2, c[1])
                                                 IN Alike(PatchOf(im, w, h, st, F, ev.n, ev.ext), ev.patch, RMul("1e-4", RMax(MaxAbs(im), "1e-3")))
(* without padding, a patch has to lie within the image *)
FitsOk ==
  LET G == ev.g  F == ev.f
      v(c) == LET C == Corners(F, ev.ext)  st == RPow(2, c[1])  e == "1e-6" IN
              Verdict(UNION {{Below(0, RDiv(C[i][1], st), e), Below(RDiv(C[i][1], st), Width(G, c[1]) - 1, e), Below(0, RDiv(C[i][2], st), e), Below(RDiv(C[i][2], st), Height(G, c[1]) - 1, e)} : i \in 1..4})
  IN \E c \in Levels(G, ev.sigma, Dmin(ev.d)) : v(c) = "vague" \/ ev.ok = (v(c) = "yes")
(* the peaks of the histogram above 0.8 of the highest one, the strongest first *)
OrientOk ==
  LET G == ev.g  F == ev.f  d == ev.d
      th0 == RSub(RAtan2(ev.V[2][1], ev.V[1][1]), IF ev.tr THEN RDiv(RPi, 2) ELSE 0)
      near(a, b, t) == LET q == RDiv(RSub(a, b), TwoPi) IN RWithin(q, RFloor(RAdd(q, "0.5")), t)
      fits(c, f) ==
        LET im == LevelOf(c[1], c[2])
            p == TLCEval(OriPatch(im, Width(G, c[1]), Height(G, c[1]), RPow(2, c[1]), Sigma(G, c[1], c[2]), F, ev.U, d, f))
            H == Blur(OriHist(p), 6)
            top == RMax(0, TLCEval(LET RECURSIVE mx(_) mx(b) == IF b = 0 THEN H[0] ELSE RMax(H[b], mx(b - 1)) IN mx(35)))
            eps == RAdd(RMul("1e-2", top), Slack(p))
            up(b, s) == LET hm == H[(b + 35) % 36]  hp == H[(b + 1) % 36]  bar == RMul("0.8", top) IN
                        RLt(RAdd(bar, s), H[b]) /\ RLt(RAdd(hm, s), H[b]) /\ RLt(RAdd(hp, s), H[b])
            sure == {b \in 0..35 : up(b, eps)}  may == {b \in 0..35 : up(b, RNeg(eps))}
            is(o, b) == LET q == PeakOf(H, b, th0)  bend == RAbs(RSub(RAdd(H[(b + 1) % 36], H[(b + 35) % 36]), RMul(2, H[b])))
                        \* the library approximates the angles and moduli of the gradient
                        IN near(o.angle, q.angle, RAdd("2e-3", RDiv(RMul("1e-4", top), RMax(bend, RMul("1e-6", top))))) /\ RWithin(o.score, q.score, eps)
            O == ev.got
        IN \* a flat patch has no orientation that can be told
           \/ RLt(top, RMul("1e-4", RMax(MaxAbs(im), "1e-6")))
           \/ /\ Len(O) <= MinI(ev.max, 4) /\ Len(O) <= Cardinality(may) /\ Len(O) >= MinI(MinI(ev.max, 4), Cardinality(sure))
              /\ \A i \in DOMAIN O : \E b \in may : is(O[i], b)
              /\ \A i \in 1..(Len(O) - 1) : RLe(O[i + 1].score, O[i].score)
              /\ \A b \in sure : (\E i \in DOMAIN O : is(O[i], b)) \/ (Len(O) = MinI(ev.max, 4) /\ \A i \in DOMAIN O : RLe(RSub(H[b], eps), O[i].score))
  IN IsSvd(F, ev.U, d, ev.V) /\ \E c \in Levels(G, 1, Dmin(d)) : Some(LAMBDA f : fits(c, f))
Turned(F, th) == LET c == RCos(th)  s == RSin(th) IN [F EXCEPT !.a11 = RAdd(RMul(F.a11, c), RMul(F.a12, s)), !.a21 = RAdd(RMul(F.a21, c), RMul(F.a22, s)),
                                                               !.a12 = RSub(RMul(F.a12, c), RMul(F.a11, s)), !.a22 = RSub(RMul(F.a22, c), RMul(F.a21, s))]
SameFrame(a, b) == LET z == RMul("1e-5", RAdd(RAdd(RAbs(a.a11), RAbs(a.a22)), RAdd(RAbs(a.a12), RAbs(a.a21)))) IN
                   REq(a.x, b.x) /\ REq(a.y, b.y) /\ RWithin(a.a11, b.a11, z) /\ RWithin(a.a12, b.a12, z) /\ RWithin(a.a21, b.a21, z) /\ RWithin(a.a22, b.a22, z)
(* orienting all the features: each takes its orientations, further ones make copies *)
PermOf(exp, got, Eq(_, _)) == Len(exp) = Len(got) /\ (\A i \in DOMAIN exp : \E j \in DOMAIN got : Eq(exp[i], got[j])) /\ (\A j \in DOMAIN got : \E i \in DOMAIN exp : Eq(exp[i], got[j]))
OrientAllOk ==
  LET one(i) == LET F == ev.before[i]  O == ev.oris[i] IN IF O = <<>> THEN <<[f |-> F, s |-> F.ori]>> ELSE [k \in DOMAIN O |-> [f |-> Turned(F, O[k].angle), s |-> O[k].score]]
      eq(a, b) == SameFrame(a.f, b) /\ REq(a.s, b.ori) /\ REq(a.f.peak, b.peak) /\ REq(a.f.edge, b.edge)
  IN PermOf(Seqs([i \in DOMAIN ev.before |-> one(i)]), ev.after, eq)
LapOk ==
  LET G == ev.g  F == ev.f  d == ev.d
      fits(c, f) ==
        LET im == LevelOf(c[1], c[2])  s0 == Sigma(G, c[1], c[2])
            s1 == RAbs(RDiv(s0, d[1]))  s2 == RAbs(RDiv(s0, d[2]))  sg == IF REq(s1, s2) THEN s1 ELSE RSqrt(RMul(s1, s2))
            p == TLCEval(PatchOf(im, Width(G, c[1]), Height(G, c[1]), RPow(2, c[1]), F, LapRes, RMul(LapRes, RMul("0.5", HalfRoot))))
            S == TLCEval([k \in 0..9 |-> LapScore(p, LapFilter(k, f), k, sg)])
            size == RMul("2e-5", RMax(MaxAbs(im), "1e-3"))
            bends(k, e) == (RLt(RAdd(S[k - 1], e), S[k]) /\ RLt(RAdd(S[k + 1], e), S[k])) \/ (RLt(RAdd(S[k], e), S[k - 1]) /\ RLt(RAdd(S[k], e), S[k + 1]))
            sure == {k \in 1..8 : bends(k, size) /\ RLe(RAdd(ev.lap, size), RAbs(S[k]))}
            may == {k \in 1..8 : bends(k, RNeg(size)) /\ RLe(RSub(ev.lap, size), RAbs(S[k]))}
            \* how well an extremum can be placed depends on how sharp it is
            is(o, k) == LET q == LapPeak(S, k, sg)  cur == RAbs(RSub(RAdd(S[k - 1], S[k + 1]), RMul(2, S[k])))  t == RAdd("1e-4", RDiv(size, RMax(cur, "1e-12"))) IN
                        RNear(o.scale, q.scale, t) /\ RWithin(o.score, q.score, RMul(3, size))
        IN Len(ev.got) \in Cardinality(sure)..Cardinality(may) /\ (\A i \in DOMAIN ev.got : \E k \in may : is(ev.got[i], k)) /\ (\A k \in sure : \E i \in DOMAIN ev.got : is(ev.got[i], k))
  IN IsSvd(F, ev.U, d, ev.V) /\ \E c \in Levels(G, HalfRoot, Dmin(d)) : Some(LAMBDA f : fits(c, f))
Scaled(F, s) == [F EXCEPT !.a11 = RMul(F.a11, s), !.a12 = RMul(F.a12, s), !.a21 = RMul(F.a21, s), !.a22 = RMul(F.a22, s)]
LapAllOk ==
  LET one(i) == LET F == ev.before[i]  S == ev.scales[i] IN [k \in DOMAIN S |-> [f |-> Scaled(F, S[k].scale), s |-> S[k].score]]
      eq(a, b) == SameFrame(a.f, b) /\ REq(a.s, b.lap) /\ REq(a.f.peak, b.peak) /\ REq(a.f.edge, b.edge)
  IN /\ PermOf(Seqs([i \in DOMAIN ev.before |-> one(i)]), ev.after, eq)
     /\ \A n \in 0..4 : ev.stats[n + 1] = Cardinality({i \in DOMAIN ev.before : Len(ev.scales[i]) = n})
(* the adapted frame is upright, keeps the centre and the smaller axis and, for a
   blob, sees a neighbourhood of equal moments                                *)
Det2(F) == RSub(RMul(F.a11, F.a22), RMul(F.a12, F.a21))
Fro2(F) == RAdd(RAdd(RMul(F.a11, F.a11), RMul(F.a22, F.a22)), RAdd(RMul(F.a12, F.a12), RMul(F.a21, F.a21)))
SmallAxis(F) == LET n == Fro2(F)  q == RMul(2, Det2(F)) IN RMul("0.5", RSub(RSqrt(RAdd(n, RAbs(q))), RSqrt(RMax(0, RSub(n, RAbs(q))))))
LongAxis(F) == LET n == Fro2(F)  q == RMul(2, Det2(F)) IN RMul("0.5", RAdd(RSqrt(RAdd(n, RAbs(q))), RSqrt(RMax(0, RSub(n, RAbs(q))))))
AffineOk ==
  LET G == ev.g  F == ev.f  B == ev.got IN
  /\ REq(B.x, F.x) /\ REq(B.y, F.y)
  /\ RNear(SmallAxis(B), SmallAxis(F), "1e-3")
  /\ RLe(LongAxis(B), RMul("1.001", RMul(SmallAxis(B), RMax(5, RDiv(LongAxis(F), SmallAxis(F))))))
  /\ LET z == RMul("1e-5", LongAxis(B)) IN IF ev.tr THEN RWithin(B.a21, 0, z) /\ RLt(0, B.a11) ELSE RWithin(B.a12, 0, z) /\ RLt(0, B.a22)
  /\ RLt(0, RMul(Det2(B), Det2(F)))
  /\ (ev.blob => \E c \in Levels(G, 1, SmallAxis(B)) :
        LET im == LevelOf(c[1], c[2])  m == Moments(PatchOf(im, Width(G, c[1]), Height(G, c[1]), RPow(2, c[1]), B, AaRes, 9))
        IN RLe(RAbs(RSub(m[1], m[3])), RMul("0.06", RAdd(m[1], m[3]))) /\ RLe(RAbs(m[2]), RMul("0.03", RAdd(m[1], m[3]))))
DropOk ==
  LET far(F) == LET C == Corners(F, ev.margin)  e == "1e-6" IN
        Verdict(UNION {{Below(0, C[i][1], e), Below(C[i][1], ev.w - 1, e), Below(0, C[i][2], e), Below(C[i][2], ev.h - 1, e)} : i \in 1..4})
      v == TLCEval([i \in DOMAIN ev.before |-> far(ev.before[i])])
  IN IF \E i \in DOMAIN v : v[i] = "vague" THEN \A j \in DOMAIN ev.after : \E i \in DOMAIN v : v[i] # "no" /\ ev.after[j] = ev.before[i]
     ELSE LET k == SelectSeq([i \in DOMAIN v |-> [i |-> i]], LAMBDA e : v[e.i] = "yes") IN Len(ev.after) = Len(k) /\ \A j \in DOMAIN k : ev.after[j] = ev.before[k[j].i]
HistOk == ev.same /\ ev.clean /\ ev.params
Ok == CASE ev.e = "Find" -> FindOk [] ev.e = "Refine" -> RefineOk [] ev.e = "Detect" -> DetectOk [] ev.e = "Suppress" -> SuppressOk
        [] ev.e = "Patch" -> PatchOk [] ev.e = "Fits" -> FitsOk [] ev.e = "Orient" -> OrientOk [] ev.e = "OrientAll" -> OrientAllOk [] ev.e = "Lap" -> LapOk [] ev.e = "LapAll" -> LapAllOk
        [] ev.e = "Affine" -> AffineOk [] ev.e = "Drop" -> DropOk [] ev.e = "Hist" -> HistOk [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
