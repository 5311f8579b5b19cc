------------------------------ MODULE HomKer ------------------------------
(* The homogeneous kernel map: a finite dimensional feature whose inner
   products approximate an additive kernel k(x,y) = (xy)^(g/2) K(log(y/x)).

   The feature samples the spectrum of the signature K at multiples of
   L = 2 pi / period; a rectangular window smooths the spectrum first.       *)
EXTENDS RealOps, Integers, Sequences, TLC
Spectrum(kernel, w) ==
  LET sech == RDiv(1, RCosh(RMul(RPi, w)))
      lor  == RAdd(1, RMul(4, RMul(w, w)))
  IN CASE kernel = "inters" -> RDiv(RDiv(2, RPi), lor)
       [] kernel = "chi2"   -> sech
       [] kernel = "js"     -> RDiv(RMul(RDiv(2, RLog(4)), sech), lor)
Sinc(x) == IF REq(x, 0) THEN 1 ELSE RDiv(RSin(x), x)
\* the integral is sampled at 2049 steps; rounding may keep the last point or not
Window(period) == TLCEval([q \in 0..2049 |->
   LET range == RDiv(RMul(2, 100), period)  step == RDiv(RMul(2, range), 2049)  w == RSub(RMul(q, step), range)
   IN <<w, RMul(step, RMul(Sinc(RMul(RDiv(period, 2), w)), RDiv(period, RMul(2, RPi))))>>])
Smooth(kernel, win, w, last) == RMax(0, RSum([q \in 1..(2049 + last) |-> RMul(win[q - 1][2], Spectrum(kernel, RAdd(win[q - 1][1], w)))]))
DefaultPeriod(kernel, window, n) == RMax(1,
  IF window = "uniform"
  THEN CASE kernel = "chi2"   -> RAdd(RMul("5.86", RSqrt(n)), "3.65")
         [] kernel = "js"     -> RAdd(RMul("6.64", RSqrt(n)), "7.24")
         [] kernel = "inters" -> RAdd(RMul("2.38", RLog(RAdd(n, "0.8"))), "5.6")
  ELSE CASE kernel = "chi2"   -> RSub(RMul("8.80", RSqrt(RAdd(n, "4.44"))), "12.6")
         [] kernel = "js"     -> RSub(RMul("9.63", RSqrt(RAdd(n, 1))), "2.93")
         [] kernel = "inters" -> RAdd(RMul(2, RLog(RAdd(n, "0.99"))), "3.52"))
\* the frequencies that are used: where the spectrum is positive, looking at no
\* more than three times as many as needed; a choice decided by rounding is free
RECURSIVE Pick(_, _, _, _)
Pick(kappa(_), j, got, n) ==
  IF Len(got) = n + 1 THEN {got}
  ELSE LET k == kappa(j)  take == Pick(kappa, j + 1, Append(got, <<j, k>>), n)
           must == j + 1 >= 3 * Len(got)
       IN IF must \/ RLt("1e-12", k) THEN take
          ELSE IF REq(k, 0) THEN Pick(kappa, j + 1, got, n)
          ELSE take \cup Pick(kappa, j + 1, got, n)
\* the sampled spectra that are admissible: sequences of <<multiple, value>>
Samples(kernel, window, period, n) ==
  LET L == RDiv(RMul(2, RPi), period)
  IN IF window = "uniform" THEN Pick(LAMBDA j : Spectrum(kernel, RMul(j, L)), 0, <<>>, n)
     ELSE LET win == Window(period) IN UNION {Pick(LAMBDA j : Smooth(kernel, win, RMul(j, L), last), 0, <<>>, n) : last \in {0, 1}}
\* the feature of a positive number
Psi(s, period, g, n, x) ==
  LET L == RDiv(RMul(2, RPi), period)  lx == RMul(L, RPow(x, g))  lg == RMul(L, RLog(x))
  IN [c \in 1..(2 * n + 1) |->
        LET j == c \div 2  amp == RSqrt(RMul(IF j = 0 THEN 1 ELSE 2, RMul(lx, s[j + 1][2])))  ph == RMul(s[j + 1][1], lg)
        IN IF j = 0 THEN amp ELSE IF c % 2 = 0 THEN RMul(amp, RCos(ph)) ELSE RMul(amp, RSin(ph))]
(* Features are tabulated at 8 + 8 n numbers per octave and interpolated; the
   octaves are 2^-20 to 2^8, and other numbers are taken for zero.            *)
MinExp == -20
MaxExp == 8
Two(e) == RPow(2, e)
Exponent(a) == LET e == RInt(RDiv(RLog(a), RLog(2))) IN IF RLt(a, Two(e)) THEN e - 1 ELSE IF RLe(Two(e + 1), a) THEN e + 1 ELSE e
Feature(s, period, g, n, x) ==
  LET a == RAbs(x) IN
  IF RNan(x) THEN [c \in 1..(2 * n + 1) |-> "nan"]
  ELSE IF RLt(a, Two(MinExp)) \/ RLe(Two(MaxExp), a) THEN [c \in 1..(2 * n + 1) |-> 0]
  ELSE LET e == Exponent(a)  d == 8 + 8 * n  u == RMul(d, RSub(RDiv(a, Two(e)), 1))  q == RInt(u)  r == RSub(u, q)
           at(k) == Psi(s, period, g, n, RMul(Two(e), RAdd(1, RDiv(k, d))))
           lo == at(q)  hi == at(q + 1)
           v(c) == RAdd(RMul(RSub(1, r), lo[c]), RMul(r, hi[c]))
       IN [c \in 1..(2 * n + 1) |-> IF RLt(x, 0) THEN RNeg(v(c)) ELSE v(c)]
\* what is approximated, for positive numbers
Kernel(kernel, g, x, y) ==
  LET h(u, v) == RMul(RDiv(u, 2), RDiv(RLog(RDiv(RAdd(u, v), u)), RLog(2)))
      k == CASE kernel = "inters" -> RMin(x, y)
             [] kernel = "chi2"   -> RDiv(RMul(2, RMul(x, y)), RAdd(x, y))
             [] kernel = "js"     -> RAdd(h(x, y), h(y, x))
  IN RMul(RPow(RMul(x, y), RDiv(RSub(g, 1), 2)), k)
=============================================================================
