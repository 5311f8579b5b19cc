------------------------------ MODULE Twister ------------------------------
(* The 32-bit Mersenne Twister MT19937 as a state machine: a generator is
   [s |-> sequence of 624 words, i |-> number of words of the block already
   handed out, on |-> seeded?].  An unseeded generator seeds itself with 5489
   at its first draw.                                                        *)
EXTENDS Word, SequencesExt, FiniteSets

N == 624
M == 397
Fresh == [s |-> <<>>, i |-> 0, on |-> FALSE]

Seed(w) ==
  LET next(acc, k) == Append(acc, Add32(Mul32(<<27655, 35173>>, WXor(acc[k], Shr32(acc[k], 30))), W32(k)))
  IN [s |-> FoldLeft(next, <<w>>, [k \in 1..(N-1) |-> k]), i |-> N, on |-> TRUE]
\* 1812433253 = 27655*65536 + 35173

Mix(w) == WXor(w, Shr32(w, 30))
SeedByArray(key) ==
  LET L == Len(key)
      base == Seed(W32(19650218)).s
      rounds1 == IF N > L THEN N ELSE L
      \* acc = <<words, i, j>>, zero-based i and j as in the reference code
      f1(acc, k) ==
        LET i == acc[2]  j == acc[3]  s == acc[1]
            w == Add32(Add32(WXor(s[i+1], Mul32(Mix(s[i]), W32(1664525))), key[j+1]), W32(j))
            s1 == [s EXCEPT ![i+1] = w]
            wrap == i + 1 >= N
        IN << IF wrap THEN [s1 EXCEPT ![1] = s1[N]] ELSE s1,
              IF wrap THEN 1 ELSE i + 1,
              IF j + 1 >= L THEN 0 ELSE j + 1 >>
      a1 == FoldLeft(f1, <<base, 1, 0>>, [k \in 1..rounds1 |-> k])
      f2(acc, k) ==
        LET i == acc[2]  s == acc[1]
            w == Sub32(WXor(s[i+1], Mul32(Mix(s[i]), <<23896, 35685>>)), W32(i))
            s1 == [s EXCEPT ![i+1] = w]
            wrap == i + 1 >= N
        IN << IF wrap THEN [s1 EXCEPT ![1] = s1[N]] ELSE s1, IF wrap THEN 1 ELSE i + 1 >>
      a2 == FoldLeft(f2, <<a1[1], a1[2]>>, [k \in 1..(N-1) |-> k])
  IN [s |-> [a2[1] EXCEPT ![1] = <<32768, 0>>], i |-> N, on |-> TRUE]
\* 1566083941 = 23896*65536 + 35685

Y(hi, lo) == <<(hi[1] & 32768) + (lo[1] & 32767), lo[2]>>
Twist1(old, y) == LET t == WXor(old, Shr32(y, 1)) IN IF y[2] % 2 = 1 THEN WXor(t, <<39176, 45279>>) ELSE t
\* 0x9908b0df = <<39176, 45279>>
Twist(s) ==
  LET p1 == [k \in 1..(N-M) |-> Twist1(s[k+M], Y(s[k], s[k+1]))]                                  \* words 1..227
      p2 == [k \in 1..(N-M) |-> Twist1(p1[k], Y(s[k+N-M], s[k+N-M+1]))]                            \* words 228..454
      p3 == [k \in 1..(N-1-2*(N-M)) |-> Twist1(p2[k], Y(s[k+2*(N-M)], s[k+2*(N-M)+1]))]            \* words 455..623
      q  == p1 \o p2 \o p3
  IN Append(q, Twist1(q[M], Y(s[N], q[1])))

Temper(w) ==
  LET a == WXor(w, Shr32(w, 11))
      b == WXor(a, WAnd(Shl32(a, 7), <<40236, 22144>>))      \* 0x9d2c5680
      c == WXor(b, WAnd(Shl32(b, 15), <<61382, 0>>))         \* 0xefc60000
  IN WXor(c, Shr32(c, 18))

\* make sure at least one word of the block is left
Ready(g) == LET h == IF g.on THEN g ELSE Seed(W32(5489))
            IN IF h.i >= N THEN [s |-> Twist(h.s), i |-> 0, on |-> TRUE] ELSE h
\* one draw: <<value, generator after>>
Draw(g) == LET h == Ready(g) IN <<Temper(h.s[h.i+1]), [h EXCEPT !.i = h.i + 1]>>
=============================================================================
