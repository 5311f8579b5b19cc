----------------------------- MODULE RandTrace -----------------------------
(* Several generators used in any interleaving: every value drawn is the next
   value of that generator's own MT19937 stream, mapped as documented.       *)
EXTENDS Twister, TraceKit
VARIABLES gens, l
ev == Trace[l]
Step == l <= Len(Trace) /\ l' = l + 1
Set(g, v) == gens' = [x \in DOMAIN gens \cup {g} |-> IF x = g THEN v ELSE gens[x]]
G == gens[ev.g]

Init == gens = <<>> /\ l = 1
TInitG  == Step /\ ev.e = "Init" /\ Set(ev.g, Fresh)
TSeed   == Step /\ ev.e = "Seed" /\ Set(ev.g, Seed(ev.s))
TSeedA  == Step /\ ev.e = "SeedArray" /\ Set(ev.g, SeedByArray(ev.key))
\* draws that consume one word
TU32    == Step /\ ev.e = "U32"   /\ LET d == Draw(G) IN ev.v = d[1] /\ Set(ev.g, d[2])
TI31    == Step /\ ev.e = "I31"   /\ LET d == Draw(G) IN ev.v = Shr32(d[1], 1) /\ Set(ev.g, d[2])
TReal1  == Step /\ ev.e = "Real1" /\ LET d == Draw(G) IN ev.v = d[1] /\ ev.inrange /\ Set(ev.g, d[2])
TReal2  == Step /\ ev.e = "Real2" /\ LET d == Draw(G) IN ev.v = d[1] /\ ev.inrange /\ Set(ev.g, d[2])
TReal3  == Step /\ ev.e = "Real3" /\ LET d == Draw(G) IN ev.v = d[1] /\ ev.inrange /\ Set(ev.g, d[2])
\* draws that consume two words, the first one the more significant
TU64    == Step /\ ev.e = "U64" /\ LET d == Draw(G) f == Draw(d[2]) IN ev.v = d[1] \o f[1] /\ Set(ev.g, f[2])
TI63    == Step /\ ev.e = "I63" /\ LET d == Draw(G) f == Draw(d[2])
                                       w == d[1] \o f[1] IN
             /\ ev.v = [k \in 1..4 |-> (w[k] \div 2) + (IF k = 1 THEN 0 ELSE (w[k-1] % 2) * 32768)]
             /\ Set(ev.g, f[2])
TRes53  == Step /\ ev.e = "Res53" /\ LET d == Draw(G) f == Draw(d[2])
                                         a == Shr32(d[1], 5)  b == Shr32(f[1], 6)
                                     \* a * 2^26 + b, as four limbs
                                     IN /\ ev.v = <<a[1] \div 64, (a[1] % 64) * 1024 + a[2] \div 64, (a[2] % 64) * 1024 + b[1], b[2]>>
                                        /\ ev.inrange /\ Set(ev.g, f[2])
\* bounded index: the draw modulo the range (one word, or two for wide ranges)
TIdx    == Step /\ ev.e = "Idx" /\ ev.r \in 0..(ev.m - 1)
           /\ LET d == Draw(G) IN ev.r = Mod32(d[1], ev.m) /\ Set(ev.g, d[2])
TIdxW   == Step /\ ev.e = "IdxWide"
           /\ IF SubSeq(ev.m, 1, 2) = <<0, 0>>
              THEN LET d == Draw(G) IN IsDivMod(<<0, 0>> \o d[1], ev.q, ev.m, ev.r) /\ Set(ev.g, d[2])
              ELSE LET d == Draw(G) f == Draw(d[2]) IN IsDivMod(d[1] \o f[1], ev.q, ev.m, ev.r) /\ Set(ev.g, f[2])
\* Knuth's algorithm P: for i from the last position down to 1, exchange i with (draw mod i+1)
RECURSIVE Knuth(_, _, _)
Knuth(a, i, g) == IF i < 1 THEN <<a, g>>
                  ELSE LET d == Draw(g)  j == Mod32(d[1], i + 1)
                       IN Knuth([a EXCEPT ![i+1] = a[j+1], ![j+1] = a[i+1]], i - 1, d[2])
TPerm   == Step /\ ev.e = "Permute" /\ LET r == Knuth(ev.in, Len(ev.in) - 1, G) IN ev.out = r[1] /\ Set(ev.g, r[2])
TShuf   == Step /\ ev.e = "Shuffle" /\ LET r == Knuth(ev.in, Len(ev.in) - 1, G) IN ev.out = r[1] /\ Set(ev.g, r[2])
TNext == TInitG \/ TSeed \/ TSeedA \/ TU32 \/ TI31 \/ TReal1 \/ TReal2 \/ TReal3 \/ TU64 \/ TI63 \/ TRes53
         \/ TIdx \/ TIdxW \/ TPerm \/ TShuf
TSpec == Init /\ [][TNext]_<<gens, l>>
=============================================================================
