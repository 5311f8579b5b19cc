------------------------------ MODULE ScaleImpl ------------------------------
(* How vl_scalespace_put_image fills its buffers.  Every cell carries where it
   was sampled (in quarters of an image pixel) and how much it was smoothed
   (the scale is base 2^(k/resolution) for the integer k), so that at the end
   each level can be compared with what its indexes promise.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxSize, MaxOctave, MaxRes, MaxSub
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
Shl(n, o) == IF o >= 0 THEN n * 2 ^ o ELSE n \div (2 ^ (0 - o))
VARIABLES G, mem, o, s, over
vars == <<G, mem, o, s, over>>
W(q) == Shl(G.w, 0 - q)
H(q) == Shl(G.h, 0 - q)
Step(q) == 2 ^ (q + 2)
Blank == <<>>
Cells(q) == (G.s1 - G.s0 + 1) * W(q) * H(q)
Geoms == {g \in [w : 1..MaxSize, h : 1..MaxSize, o0 : -2..MaxOctave, o1 : -2..MaxOctave, res : 1..MaxRes, s0 : (0 - MaxSub)..MaxSub, s1 : (0 - MaxSub)..MaxSub, nom : -3..1] :
            /\ g.o0 <= g.o1 /\ g.s0 <= g.s1 /\ Shl(g.w, 0 - g.o1) >= 1 /\ Shl(g.h, 0 - g.o1) >= 1
            /\ g.nom <= g.o0 * g.res + g.s0}
Init == /\ G \in Geoms /\ mem = [q \in G.o0..G.o1 |-> [i \in 0..(Cells(q) - 1) |-> Blank]] /\ o = G.o0 /\ s = G.s0 - 1 /\ over = FALSE
Base(q, t) == W(q) * H(q) * (t - G.s0)
\* write the sequence of values d from index b of octave q on
Put(q, b, d) == /\ mem' = TLCEval([mem EXCEPT ![q] = [i \in DOMAIN @ |-> IF i >= b /\ i < b + Len(d) THEN d[i - b + 1] ELSE @[i]]])
                /\ over' = (over \/ b + Len(d) > Cells(q))
\* the rows and columns a subsampling visits, and what it copies
Kept(n, step) == {x \in 0..(n - 1) : x % step = 0 /\ x < n - (step - 1)}
Down(src, w, h, step, k) == LET nx == Cardinality(Kept(w, step))  ny == Cardinality(Kept(h, step)) IN
  [i \in 1..(nx * ny) |-> LET v == src[((i - 1) \div nx) * step * w + ((i - 1) % nx) * step] IN <<v[1], v[2], MaxI(v[3], k)>>]
Image == [i \in 0..(G.w * G.h - 1) |-> <<4 * (i % G.w), 4 * (i \div G.w), G.nom>>]
\* the n-fold doubling of the image: cell (x, y) is sampled at (x, y) / 2^n
Doubled(q, k) == [i \in 1..(W(q) * H(q)) |-> <<Step(q) * ((i - 1) % W(q)), Step(q) * ((i - 1) \div W(q)), k>>]
Scale(q, t) == q * G.res + t
Start == /\ o = G.o0 /\ s = G.s0 - 1
         /\ Put(o, 0, IF o >= 0 THEN Down(Image, G.w, G.h, 2 ^ o, Scale(o, G.s0)) ELSE Doubled(o, MaxI(G.nom, Scale(o, G.s0))))
         /\ s' = G.s0 /\ UNCHANGED <<G, o>>
Fill == /\ s >= G.s0 /\ s < G.s1
        /\ Put(o, Base(o, s + 1), [i \in 1..(W(o) * H(o)) |-> LET v == mem[o][Base(o, s) + i - 1] IN <<v[1], v[2], MaxI(v[3], Scale(o, s + 1))>>])
        /\ s' = s + 1 /\ UNCHANGED <<G, o>>
Advance == /\ s = G.s1 /\ o < G.o1
           /\ LET t == MinI(G.s0 + G.res, G.s1) IN
              Put(o + 1, 0, Down([i \in 0..(W(o) * H(o) - 1) |-> mem[o][Base(o, t) + i]], W(o), H(o), 2, Scale(o + 1, G.s0)))
           /\ o' = o + 1 /\ s' = G.s0 /\ UNCHANGED G
Next == Start \/ Fill \/ Advance
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NoOverflow == ~over
Done == o = G.o1 /\ s = G.s1
(* every cell holds the sample its place promises, smoothed to its scale *)
Faithful == Done => \A q \in G.o0..G.o1 : \A t \in G.s0..G.s1 : \A i \in 0..(W(q) * H(q) - 1) :
              mem[q][Base(q, t) + i] = <<Step(q) * (i % W(q)), Step(q) * (i \div W(q)), Scale(q, t)>>
Terminates == <>Done
=============================================================================
