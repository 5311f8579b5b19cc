----------------------------- MODULE SiftTrace -----------------------------
EXTENDS TraceKit, Sift
VARIABLE l
ev == Trace[l]
Num(s) == TLCEval([i \in DOMAIN s |-> RAdd(s[i], 0)])
Levels == TLCEval([i \in DOMAIN ev.L |-> Num(ev.L[i])])
Alike(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RWithin(a[i], b[i], tol)
(* one octave: its size, its levels, each from the one before *)
OctaveOk ==
  LET im == Num(ev.im)  L == Levels  w == ev.ow  h == ev.oh  tol == RMul("2e-5", ev.range)
  IN /\ w = Shl(ev.w, 0 - ev.o) /\ h = Shl(ev.h, 0 - ev.o) /\ Len(L) = ev.S + 3 /\ Len(L[1]) = w * h
     /\ Alike(L[1], IF ev.first THEN BaseLevel(im, ev.w, ev.h, ev.S, ev.o) ELSE Subsampled(Num(ev.prev), ev.pw, w, h, 2), tol)
     /\ \A s \in 0..(ev.S + 1) : Alike(L[s + 2], Smooth(L[s + 1], w, h, StepSigma(ev.S, s)), tol)
\* keypoints found in an octave
SameKey(k, x, y, s, b, xper) == /\ k[1] = ev.o /\ k[2] = x /\ k[3] = y /\ k[4] = s
  /\ RNear(k[5], RMul(RAdd(x, b[1]), xper), "2e-4") /\ RNear(k[6], RMul(RAdd(y, b[2]), xper), "2e-4") /\ RWithin(k[7], RAdd(s, b[3]), "2e-4")
  /\ RNear(k[8], RMul(RMul(Sigma0(ev.S), RPow(2, RDiv(RAdd(s, b[3]), ev.S))), xper), "1e-3")
RECURSIVE Match(_, _, _, _, _)
Match(D, w, h, cands, ks) ==     \* the candidates in order, against the reported keypoints in order
  IF cands = <<>> THEN ks = <<>>
  ELSE LET c == cands[1]  r == TLCEval(Refine(D, w, h, c[1], c[2], c[3], 1))
           v == IF r.vague THEN "vague" ELSE Keep(D, w, h, ev.S, c[3], r, ev.tp, ev.te)
           fits == ks # <<>> /\ IF r.vague THEN ks[1][4] = c[3] ELSE SameKey(ks[1], r.x, r.y, c[3], r.f.b, RPow(2, ev.o))
       IN CASE v = "yes" -> fits /\ Match(D, w, h, Tail(cands), Tail(ks))
            [] v = "no" -> Match(D, w, h, Tail(cands), ks)
            [] OTHER -> Match(D, w, h, Tail(cands), ks) \/ (fits /\ Match(D, w, h, Tail(cands), Tail(ks)))
DetectOk ==
  LET L == Levels  w == ev.ow  h == ev.oh  D == TLCEval(Dog(L))
      all == [i \in 1..(w * h * ev.S) |-> <<(i - 1) % w, ((i - 1) \div w) % h, (i - 1) \div (w * h)>>]
      Ext(c) == c[1] > 0 /\ c[2] > 0 /\ c[1] < w - 1 /\ c[2] < h - 1 /\ IsExtremum(D, w, c[1], c[2], c[3], ev.tp)
      cands == TLCEval(SelectSeq(all, Ext))
  IN Match(D, w, h, cands, ev.keys)
(* orientations of a keypoint: peaks of at least 0.8 of the highest; at most four *)
OrientOk ==
  LET w == ev.ow  h == ev.oh  per == RPow(2, ev.o)
      x == RDiv(ev.x, per)  y == RDiv(ev.y, per)
      inside == LET xi == RInt(RAdd(x, "0.5"))  yi == RInt(RAdd(y, "0.5")) IN xi >= 0 /\ xi < w /\ yi >= 0 /\ yi < h
      H == TLCEval(Blur(TLCEval(OriHist(GradIm(Num(ev.im), w, h), w, h, x, y, RDiv(ev.sigma, per))), 6))
      top == TLCEval(H[CHOOSE b \in 0..35 : \A c \in 0..35 : RLe(H[c], H[b])])
      e == TLCEval(RMul("0.006", top))
      hm(b) == H[(b + 35) % 36]  hp(b) == H[(b + 1) % 36]
      \* "yes" when it is a peak whatever the accuracy of the gradient, "no" when it is none
      kind(b) == Verdict({IF RWithin(H[b], RMul("0.8", top), RMul(2, e)) THEN "vague" ELSE IF RLt(RMul("0.8", top), H[b]) THEN "yes" ELSE "no",
                          IF RWithin(H[b], hm(b), e) THEN "vague" ELSE IF RLt(hm(b), H[b]) THEN "yes" ELSE "no",
                          IF RWithin(H[b], hp(b), e) THEN "vague" ELSE IF RLt(hp(b), H[b]) THEN "yes" ELSE "no"})
      kd == TLCEval([b \in 0..35 |-> kind(b)])
      curve(b) == RSub(RMul(2, H[b]), RAdd(hp(b), hm(b)))
      angle(b) == RMul(RDiv(TwoPi, 36), RAdd(b, RAdd("0.5", RMul("0.5", RDiv(RSub(hp(b), hm(b)), curve(b))))))
      slack(b) == RMul(RDiv(TwoPi, 36), RAdd("0.06", RDiv(e, curve(b))))
      hits(a) == {b \in 0..35 : kd[b] # "no" /\ (RLt(curve(b), RMul(2, e)) \/ RWithin(angle(b), a, slack(b)))}
      Sure == {b \in 0..35 : kd[b] = "yes"}  Poss == {b \in 0..35 : kd[b] # "no"}
      n == Len(ev.angles)
  IN IF ~inside \/ ev.is < 0 \/ ev.is > ev.S - 1 THEN n = 0
     ELSE IF REq(top, 0) THEN n = 0
     ELSE /\ n <= 4 /\ n <= Cardinality(Poss) /\ n >= MinI(4, Cardinality(Sure))
          /\ \A i \in 1..n : hits(ev.angles[i]) # {}
          /\ \A i \in 1..(n - 1) : RLt(ev.angles[i], ev.angles[i + 1])
          /\ Cardinality(Poss) <= 4 => \A b \in Sure : \E i \in 1..n : b \in hits(ev.angles[i])
DescrOk ==
  LET w == ev.ow  h == ev.oh  per == RPow(2, ev.o)
      x == RDiv(ev.x, per)  y == RDiv(ev.y, per)  xi == RInt(RAdd(x, "0.5"))  yi == RInt(RAdd(y, "0.5"))
      inside == xi >= 0 /\ xi < w /\ yi >= 0 /\ yi < h - 1
      edge == yi = h - 1
      im == Num(ev.im)
      G == IF ev.raw THEN [i \in 1..(w * h) |-> [m |-> im[2 * i - 1], a |-> im[2 * i]]] ELSE GradIm(im, w, h)
      r == RawDescr(G, w, h, x, y, RDiv(ev.sigma, per), ev.angle, ev.magnif, ev.win, IF ev.raw THEN 0 ELSE 1)
      d == TLCEval(r.d)  u == TLCEval(Unit(d))  norm == TLCEval(RSqrt(RDot(d, d)))
      floor == IF ev.raw THEN RMul(ev.nt, r.n) ELSE ev.nt
      zero == RLt(0, ev.nt) /\ RLt(norm, floor)
      same(f) == \A i \in 1..128 : REq(ev.d[i], f[i])
      void == [i \in 1..128 |-> 0]
  IN IF ~inside \/ (~ev.raw /\ (ev.is < 0 \/ ev.is > ev.S - 1)) THEN edge \/ same(void)
     ELSE IF RLt(0, ev.nt) /\ RNear(norm, floor, "1e-2") THEN TRUE
     ELSE IF zero THEN same(void)
     ELSE IF RLt(norm, "1e-3") THEN TRUE
     ELSE /\ Alike(ev.d, Finish(u), RAdd("0.002", RDiv("0.012", RSqrt(RSum([i \in 1..128 |-> LET t == RMin(u[i], "0.2") IN RMul(t, t)]))))) /\ \A i \in 1..128 : RLe(0, ev.d[i])
          /\ RWithin(RDot(ev.d, ev.d), 1, "1e-3")
(* a frame given by position and scale *)
FrameOk ==
  LET phi == RDiv(RLog(RDiv(ev.sigma, Sigma0(ev.S))), RLog(2))
      lo(v) == RSub(v, RDiv("-0.5", ev.S))
      ofrac == RSub(phi, RDiv("-0.5", ev.S))
      o == MaxI(MinI(RInt(ofrac), ev.omin + ev.O - 1), ev.omin)
      s == RMul(ev.S, RSub(phi, o))
      trunc(a) == IF RLt(a, 0) THEN 0 - RInt(RNeg(a)) ELSE RInt(a)
      is == MaxI(MinI(trunc(RAdd(s, "0.5")), ev.S - 1), 0)
      per == RPow(2, o)
      near(a) == RWithin(a, RFloor(RAdd(a, "0.5")), "1e-5")
      k == ev.k
  IN \/ near(ofrac) \/ near(RAdd(s, "0.5"))
     \/ /\ k[1] = o /\ k[4] = is /\ k[2] = trunc(RAdd(RDiv(ev.x, per), "0.5")) /\ k[3] = trunc(RAdd(RDiv(ev.y, per), "0.5"))
        /\ RNear(k[5], ev.x, "1e-6") /\ RNear(k[6], ev.y, "1e-6") /\ RWithin(k[7], s, "1e-4") /\ RNear(k[8], ev.sigma, "1e-6")
(* walking over the octaves, and using a filter again: octaves are numbered
   from the first, each call past the last one says so and changes nothing    *)
WalkOk == LET O == IF ev.O < 0 THEN DefaultOctaves(ev.w, ev.h, ev.omin) ELSE ev.O IN
  /\ ev.nO = O /\ Len(ev.codes) = O + 1
  /\ \A i \in 1..O : ev.codes[i] = 0 /\ ev.at[i] = ev.omin + i - 1
  /\ ev.codes[O + 1] = 5 /\ (O > 0 => ev.at[O + 1] = ev.omin + O - 1)
AgainOk == ev.fresh = ev.again
Ok == CASE ev.e = "Octave" -> OctaveOk [] ev.e = "Detect" -> DetectOk [] ev.e = "Orient" -> OrientOk [] ev.e = "Descr" -> DescrOk
        [] ev.e = "Frame" -> FrameOk [] ev.e = "Walk" -> WalkOk [] ev.e = "Again" -> AgainOk [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
