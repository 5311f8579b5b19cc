----------------------------- MODULE FeatTrace -----------------------------
(* The MATLAB feature functions against the C library run on the same memory.
   MATLAB stores an image by columns: what the library sees is the transposed
   image.  The relations between the two results are stated here: MATLAB counts
   from one, x and y are exchanged, an angle a becomes pi/2 - a, and the bins of
   a descriptor move with the axes.                                            *)
EXTENDS TraceKit, RealOps, Integers, Sequences, FiniteSets, TLC
VARIABLE l
ev == Trace[l]
Near(a, b) == RNear(a, b, "1e-6")
(* descriptors: nx by ny spatial bins of nt orientations.  Bin (i, j, t) of MATLAB
   (x bin i, y bin j) is bin (j, i) of the library at angle pi/2 - a            *)
\* in vl_sift the library's y axis is also reversed: the keypoint frame rotates with the angle
SiftBin(k) == LET t == k % 8  i == (k \div 8) % 4  j == k \div 32 IN 8 * i + 32 * (3 - j) + ((8 - t) % 8)
DenseBin(nx, ny, nt, k) == LET t == k % nt  i == (k \div nt) % nx  j == k \div (nt * nx) IN
  ((nt \div 4 - t + nt) % nt) + nt * (j + ny * i)
Byte(v) == LET x == RMul(512, v) IN IF RLt(x, 255) THEN RInt(x) ELSE 255
Clip(v) == RMin(RMul(512, v), 255)
\* conversion to bytes truncates: the value is at most one unit away when 512 v is near an integer
ByteOk(b, v) == \/ b = Byte(v)
                \/ LET x == RMul(512, v) IN b \in 0..255 /\ (RWithin(x, b, "1e-3") \/ RWithin(x, b + 1, "1e-3"))
Frame(r, f) == /\ Near(f[1], RAdd(r[2], 1)) /\ Near(f[2], RAdd(r[1], 1)) /\ Near(f[3], r[3])
               /\ RWithin(f[4], RSub(RDiv(RPi, 2), r[4]), "1e-6")
DescOk(float, clip, n, bin(_), r, d) ==
  /\ Len(d) = n /\ Len(r) = n
  /\ \A k \in 0..(n - 1) : LET v == r[bin(k) + 1] IN
       IF float THEN RWithin(d[k + 1], IF clip THEN Clip(v) ELSE RMul(512, v), "1e-3") ELSE ByteOk(RInt(d[k + 1]), v)
Class(float) == IF float THEN "single" ELSE "uint8"
SiftOk ==
  /\ ev.sized /\ ev.fc = "double" /\ Len(ev.f) = Len(ev.ref)
  /\ \A q \in 1..Len(ev.f) : Frame(ev.ref[q], ev.f[q])
  /\ ev.two => /\ ev.dc = Class(ev.float)
               /\ \A q \in 1..Len(ev.f) : DescOk(ev.float, FALSE, 128, SiftBin, SubSeq(ev.ref[q], 5, 132), ev.d[q])
RawOk ==
  /\ ev.sized /\ ev.dc = Class(ev.float)
  /\ \A q \in 1..Len(ev.d) : DescOk(ev.float, FALSE, 128, SiftBin, ev.ref[q], ev.d[q])
DsiftOk ==
  /\ ev.sized /\ ev.fc = "double" /\ (ev.two => ev.dc = Class(ev.float))
  /\ \A q \in 1..Len(ev.k) :
       /\ Near(ev.f[q][1], RAdd(ev.k[q][2], 1)) /\ Near(ev.f[q][2], RAdd(ev.k[q][1], 1))
       /\ ev.norm => Near(ev.f[q][3], ev.k[q][3])
       /\ ev.two => DescOk(ev.float, TRUE, ev.nx * ev.ny * ev.nt, LAMBDA k : DenseBin(ev.nx, ev.ny, ev.nt, k), ev.ref[q], ev.d[q])
(* covariant features: x y a11 a21 a12 a22 of the library; MATLAB's axes exchanged *)
Swap(r) == <<RAdd(r[2], 1), RAdd(r[1], 1), r[6], r[5], r[4], r[3]>>
\* the frame types a user may give: a point, a disc, an oriented disc, an ellipse, an oriented ellipse
Shape(u, f) ==
  LET x == f[3]  y == f[4]  z == f[5]  w == f[6]
      is(a, b) == RWithin(a, b, "1e-5") IN
  CASE Len(u) = 2 -> is(x, 1) /\ is(y, 0) /\ is(z, 0) /\ is(w, 1)
    [] Len(u) = 3 -> is(x, u[3]) /\ is(y, 0) /\ is(z, 0) /\ is(w, u[3])
    [] Len(u) = 4 -> /\ is(x, RMul(u[3], RCos(u[4]))) /\ is(y, RMul(u[3], RSin(u[4])))
                     /\ is(z, RNeg(RMul(u[3], RSin(u[4])))) /\ is(w, RMul(u[3], RCos(u[4])))
    [] Len(u) = 5 -> /\ is(RAdd(RMul(x, x), RMul(z, z)), u[3]) /\ is(RAdd(RMul(x, y), RMul(z, w)), u[4])
                     /\ is(RAdd(RMul(y, y), RMul(w, w)), u[5]) /\ is(z, 0) /\ RLe(0, x) /\ RLe(0, w)
    [] OTHER -> \A k \in 3..6 : is(f[k], u[k])
UserOk(u, f) == RWithin(f[1], u[1], "1e-4") /\ RWithin(f[2], u[2], "1e-4") /\ Shape(u, f)
CovdetOk ==
  /\ ev.sized /\ ev.fc = "double" /\ Len(ev.f) = Len(ev.ref)
  /\ \A q \in 1..Len(ev.f) : \A k \in 1..6 : RWithin(ev.f[q][k], Swap(ev.ref[q])[k], "1e-4")
  /\ ev.user => \A q \in 1..Len(ev.f) : UserOk(ev.u[q], ev.f[q])
  \* scores: those of given features are set by the caller only, so just the detected ones are compared
  /\ ~ev.given => \A q \in 1..Len(ev.scores) : \A k \in 1..4 : REq(ev.scores[q][k], ev.ref[q][k + 6])
  /\ Len(ev.d) = Len(ev.rd) /\ (ev.d # <<>> => ev.dc = "single")
  /\ \A q \in 1..Len(ev.d) :
       IF ev.type = 2 THEN \A k \in 0..127 : RWithin(ev.d[q][k + 1], ev.rd[q][SiftBin(k) + 1], "1e-4")
       ELSE Len(ev.d[q]) = Len(ev.rd[q]) /\ \A k \in 1..Len(ev.d[q]) : RWithin(ev.d[q][k], ev.rd[q][k], "1e-5")
SameOk ==
  /\ ev.sized /\ ev.dc = ev.wc /\ Len(ev.d) = Len(ev.ref)
  /\ \A k \in 1..Len(ev.d) : RNear(ev.d[k], ev.ref[k], ev.tol) \/ RWithin(ev.d[k], ev.ref[k], ev.tol)
PermOk ==
  /\ ev.dc = "uint32" /\ Len(ev.d) = Len(ev.ref) /\ \A k \in 1..Len(ev.d) : ev.d[k] = ev.ref[k] + 1
Ok == CASE ev.e = "Sift" -> SiftOk
        [] ev.e = "Raw" -> RawOk
        [] ev.e = "Dsift" -> DsiftOk
        [] ev.e = "Covdet" -> CovdetOk
        [] ev.e = "Same" -> SameOk
        [] ev.e = "Perm" -> PermOk
        [] ev.e = "Refuse" -> ev.refused
        [] ev.e = "Error" -> FALSE    \* a valid call was refused
        [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
