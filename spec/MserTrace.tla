------------------------------ MODULE MserTrace ------------------------------
EXTENDS TraceKit, Mser, RealOps
VARIABLE l
ev == Trace[l]
N == Len(ev.img)
Area(R) == Cardinality(R)
(* The selection, computed once per image:  S maps pixels to the region they
   seed, ER are the distinct regions, J gives the verdict on each.             *)
Selection(img, dims, delta, amin, amax, vmax, div) ==
  LET n == Len(img)
      S == TLCEval(Seeded(img, dims))
      ER == TLCEval({S[p] : p \in 0..(n-1)})
      Lev == TLCEval([R \in ER |-> CHOOSE v \in 0..255 : (\E p \in R : Val(img, p) = v) /\ (\A p \in R : Val(img, p) <= v)])
      Ancs == TLCEval([R \in ER |-> {Q \in ER : R \subseteq Q}])          \* including R
      Smallest(T) == CHOOSE R \in T : \A Q \in T : R \subseteq Q
      Largest(T)  == CHOOSE R \in T : \A Q \in T : Q \subseteq R
      Par == TLCEval([R \in ER |-> IF Ancs[R] = {R} THEN R ELSE Smallest(Ancs[R] \ {R})])
      Top == TLCEval([R \in ER |-> Largest({Q \in Ancs[R] : Lev[Q] <= Lev[R] + delta})])
      \* the variation of R is (Area(Top) - Area(R)) / Area(R)
      Grow == TLCEval([R \in ER |-> Area(Top[R]) - Area(R)])
      Less(R, Q) == Grow[R] * Area(Q) < Grow[Q] * Area(R)
      \* of a region and its parent at the next grey level the one that varies less
      \* stays (the parent if they vary alike); the whole image is never selected
      Close(R) == Lev[Par[R]] <= Lev[R] + 1
      Loser(R) == IF Less(R, Par[R]) THEN Par[R] ELSE R
      Losers == {Loser(R) : R \in {Q \in ER : Close(Q)}}
      Stable == ER \ Losers
      Bad(R)   == ~RLt(RDiv(Grow[R], Area(R)), vmax)
      Big(R)   == RLt(RMul(amax, n), Area(R))
      Small(R) == RLt(Area(R), RMul(amin, n))
      \* judged from the brightest level down, because duplicates are judged
      \* against the nearest selected ancestor, or the whole image
      Stab == TLCEval(Stable)
      Verdict(R, up) ==
        IF R \notin Stab THEN "unstable"
        ELSE IF Bad(R) THEN "bad" ELSE IF Big(R) THEN "big" ELSE IF Small(R) THEN "small"
        ELSE IF ~RLt(div, 1) \/ Par[R] = R THEN "kept"
        ELSE LET ref == IF up = {} THEN Largest(Ancs[R]) ELSE Smallest(up)
             IN IF RLt(RDiv(Area(ref) - Area(R), Area(ref)), div) THEN "dup" ELSE "kept"
      RECURSIVE Judged(_, _)
      Judged(done, rest) ==
        IF rest = {} THEN done
        ELSE LET R == CHOOSE R \in rest : Ancs[R] \cap rest = {R}
                 v == Verdict(R, {Q \in Ancs[R] : <<Q, "kept">> \in done})
             IN Judged(TLCEval(done \cup {<<R, v>>}), rest \ {R})
  IN TLCEval([S |-> S, ER |-> ER, J |-> Judged({}, ER), losers |-> Cardinality(Losers)])
Picks(sel, seeds) ==             \* the seeds stand for the selected regions, each once
  LET Q == {seeds[k] : k \in 1..Len(seeds)}
  IN /\ Q \subseteq DOMAIN sel.S /\ Cardinality(Q) = Len(seeds)
     /\ {sel.S[p] : p \in Q} = {R \in sel.ER : <<R, "kept">> \in sel.J}
     /\ Cardinality({sel.S[p] : p \in Q}) = Len(seeds)
MserOk ==
  LET sel == TLCEval(Selection(ev.img, ev.dims, ev.delta, ev.amin, ev.amax, ev.vmax, ev.div))
      Num(k) == Cardinality({R \in sel.ER : <<R, k>> \in sel.J})
  IN /\ "badparam" \notin DOMAIN ev
     /\ (ev.def => /\ ev.delta = 5 /\ REq(ev.amax, "0.75") /\ REq(ev.amin, RDiv(3, N)) /\ REq(ev.vmax, "0.25") /\ REq(ev.div, "0.2"))
     /\ Picks(sel, ev.seeds) /\ ev.again = ev.seeds
     /\ ev.nex = Cardinality(sel.ER) /\ ev.nun = sel.losers
     /\ ev.nbad = Num("bad") /\ ev.nbig = Num("big") /\ ev.nsmall = Num("small") /\ ev.ndup = Num("dup")
(* ---- ellipsoids: mean, then the covariance's upper triangle by columns ---- *)
RECURSIVE SumOf(_, _)
SumOf(f(_), T) == IF T = {} THEN 0 ELSE LET e == CHOOSE e \in T : TRUE IN f(e) + SumOf(f, T \ {e})
Col(d) == CHOOSE j \in 0..9 : (j * (j + 1)) \div 2 <= d /\ d < ((j + 1) * (j + 2)) \div 2
Fits(img, dims, seed, e) ==
  LET nd == Len(dims)
      R == RegionOf(img, TLCEval(Nbrs(img, dims)), seed)  a == Cardinality(R)
      c(p, i) == Subs(p, dims)[i]
      m1(i) == LET f(p) == c(p, i) IN RDiv(SumOf(f, R), a)
      m2(i, j) == LET f(p) == c(p, i) * c(p, j) IN RDiv(SumOf(f, R), a)
  IN /\ Len(e) = nd + (nd * (nd + 1)) \div 2
     /\ \A i \in 1..nd : RNear(e[i], m1(i), "1e-5")
     /\ \A d \in 0..((nd*(nd+1)) \div 2 - 1) : LET j == Col(d) + 1  i == d - ((j - 1) * j) \div 2 + 1 IN
          RWithin(e[nd + d + 1], RSub(m2(i, j), RMul(m1(i), m1(j))), RMul("1e-6", RAdd(1, m2(i, j))))
EllOk ==
  LET nd == Len(ev.dims)
  IN /\ ev.dof = nd + (nd * (nd + 1)) \div 2 /\ Len(ev.ell) = Len(ev.seeds)
     /\ \A k \in 1..Len(ev.seeds) : Fits(ev.img, ev.dims, ev.seeds[k], ev.ell[k])
(* ---- the MATLAB function: dark regions have positive seeds, bright ones (the
   regions of the inverted image) negative ones; pixels count from one ------- *)
MexOk ==
  LET inv == TLCEval([i \in 1..N |-> 255 - ev.img[i]])
      sd == [i \in 1..Len(ev.r) |-> IF ev.r[i] < 0 THEN -ev.r[i] - 1 ELSE ev.r[i] - 1]
      Pos(x) == x > 0   Neg(x) == x < 0
      dark == SelectSeq(ev.r, Pos)  bright == SelectSeq(ev.r, Neg)
      dk == [i \in 1..Len(dark) |-> dark[i] - 1]  bt == [i \in 1..Len(bright) |-> -bright[i] - 1]
      Sel(im) == TLCEval(Selection(im, ev.dims, ev.delta, ev.amin, ev.amax, ev.vmax, ev.div))
      img(k) == IF ev.r[k] < 0 THEN inv ELSE ev.img
      nd == Len(ev.dims)
      centred(k) == [j \in 1..Len(ev.f[k]) |-> IF j <= nd THEN RSub(ev.f[k][j], 1) ELSE ev.f[k][j]]
  IN /\ Len(dark) + Len(bright) = Len(ev.r) /\ Len(ev.f) = Len(ev.r) /\ ev.same
     /\ (IF ev.dark THEN Picks(Sel(ev.img), dk) ELSE dark = <<>>)
     /\ (IF ev.bright THEN Picks(Sel(inv), bt) ELSE bright = <<>>)
     /\ \A k \in 1..Len(ev.r) : Fits(img(k), ev.dims, sd[k], centred(k))
     /\ (nd = 2 => \A k \in 1..Len(ev.r) : Len(ev.ft[k]) = 5 /\ \A j \in 1..5 : REq(ev.ft[k][j], ev.f[k][<<2, 1, 5, 4, 3>>[j]]))
Ok == CASE ev.e = "Mser" -> MserOk [] ev.e = "Ell" -> EllOk [] ev.e = "MexMser" -> MexOk [] ev.e = "BadOpt" -> ev.refused [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
