-------------------------------- MODULE Word --------------------------------
(* Unsigned machine words as sequences of 16-bit limbs, most significant
   first.  TLC integers are 32-bit signed, so nothing here exceeds 2^31-1.   *)
EXTENDS Naturals, Integers, Sequences, Bitwise

B == 65536
IsWord(w, n) == Len(w) = n /\ \A k \in 1..n : w[k] \in 0..(B-1)
WXor(a, b) == [k \in 1..Len(a) |-> a[k] ^^ b[k]]
WAnd(a, b) == [k \in 1..Len(a) |-> a[k] & b[k]]
WOr(a, b)  == [k \in 1..Len(a) |-> a[k] | b[k]]
P2(n) == 2^n
\* 32-bit shifts
Shr32(w, n) == IF n >= 16 THEN <<0, w[1] \div P2(n - 16)>>
               ELSE <<w[1] \div P2(n), (w[2] \div P2(n)) + (w[1] % P2(n)) * P2(16 - n)>>
Shl32(w, n) == IF n >= 16 THEN <<(w[2] % P2(32 - n)) * P2(n - 16), 0>>
               ELSE <<(w[1] % P2(16 - n)) * P2(n) + w[2] \div P2(16 - n), (w[2] % P2(16 - n)) * P2(n)>>
Add32(a, b) == LET s == a[2] + b[2] IN <<(a[1] + b[1] + s \div B) % B, s % B>>
Sub32(a, b) == LET s == a[2] - b[2] IN <<(a[1] - b[1] + (IF s < 0 THEN -1 ELSE 0)) % B, s % B>>
\* 16 x 16 -> <<hi, lo>>
Mul16(x, y) == LET p1 == x * (y % 256)  p2 == x * (y \div 256)
                   s == p1 + (p2 % 256) * 256
               IN <<p2 \div 256 + s \div B, s % B>>
Mul32(a, b) == LET ll == Mul16(a[2], b[2])  hl == Mul16(a[1], b[2])  lh == Mul16(a[2], b[1])
               IN <<(ll[1] + hl[2] + lh[2]) % B, ll[2]>>
W32(n) == <<n \div B, n % B>>
\* remainder of a 32-bit word by 1 <= m <= 32767
Mod32(w, m) == ((w[1] % m) * B + w[2]) % m

\* words of any length: comparison, exact addition and multiplication
WLess(a, b) == \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..(k-1) : a[j] = b[j]
RECURSIVE AddAt(_, _, _)     \* add the small value v into limb k of s, propagating the carry
AddAt(s, k, v) == IF v = 0 THEN s
                  ELSE IF k < 1 THEN <<>>            \* overflow: no word
                  ELSE LET t == s[k] + v IN AddAt([s EXCEPT ![k] = t % B], k - 1, t \div B)
RECURSIVE MulAcc(_, _, _, _, _)
\* acc + a*b where a, b, acc have n limbs; <<>> on overflow
MulAcc(acc, a, b, i, j) ==
  LET n == Len(a) IN
  IF i < 1 THEN acc
  ELSE IF j < 1 THEN MulAcc(acc, a, b, i - 1, n)
  ELSE IF a[i] = 0 \/ b[j] = 0 THEN MulAcc(acc, a, b, i, j - 1)
  ELSE LET p == Mul16(a[i], b[j])  k == i + j - n
           s1 == AddAt(acc, k, p[2])
           s2 == IF s1 = <<>> THEN <<>> ELSE AddAt(s1, k - 1, p[1])
       IN IF s2 = <<>> THEN <<>> ELSE MulAcc(s2, a, b, i, j - 1)
\* v = q * m + r  and  r < m
IsDivMod(v, q, m, r) == /\ IsWord(q, Len(v)) /\ IsWord(m, Len(v)) /\ IsWord(r, Len(v))
                        /\ WLess(r, m)
                        /\ MulAcc(r, q, m, Len(v), Len(v)) = v
=============================================================================
