------------------------------ MODULE SqrtImpl ------------------------------
(* The bit-by-bit integer square root on words of Bits bits.
   After handling the pair of bits at position 2k the remainder and
   the partial root satisfy x0 = (y 2^k)^2 + x with x < (2y+1) 4^k, and no
   intermediate value leaves the word.                                        *)
EXTENDS Integers
CONSTANTS Bits, Xs
VARIABLES x0, x, y, k
AllX == 0..(2^12 - 1) \cup (2^16 - 2^10)..(2^16 - 1)
vars == <<x0, x, y, k>>
Init == x0 \in Xs /\ x = x0 /\ y = 0 /\ k = Bits \div 2
Step == k > 0 /\ k' = k - 1 /\ x0' = x0 /\
        LET tmp == (4 * y + 1) * 4^(k-1) IN
          IF x >= tmp THEN x' = x - tmp /\ y' = 2 * y + 1 ELSE x' = x /\ y' = 2 * y
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Inv == /\ x0 = (y * 2^k) * (y * 2^k) + x /\ x < (2 * y + 1) * 4^k
Fits == k > 0 => (4 * y + 1) * 4^(k-1) < 2^Bits
Floor == k = 0 => y * y <= x0 /\ x0 < (y + 1) * (y + 1)
Ends == <>(k = 0)
=============================================================================
