-------------------------------- MODULE Lbp --------------------------------
(* Local binary patterns.  Neighbours are numbered from the right one,
   turning from the x axis towards the y axis; bit b of a pattern tells
   whether neighbour b is brighter than the centre.                          *)
EXTENDS Integers, Sequences, FiniteSets
DX == <<1, 1, 0, -1, -1, -1, 0, 1>>
DY == <<0, 1, 1, 1, 0, -1, -1, -1>>
Bits == 0..7
\* a pattern is the set of its bright neighbours
Transpose(p) == {(2 - b) % 8 : b \in p}         \* reflection about the diagonal
Mirror(p)    == {(4 - b) % 8 : b \in p}         \* left-right
Runs(p) == {b \in Bits : b \in p /\ ((b - 1) % 8) \notin p}    \* where runs of ones start
\* quantisation: 7 i + j - 1 for j ones starting at neighbour i; 56 for no contrast, 57 for the rest
Bin(p) == IF p = {} \/ p = Bits THEN 56
          ELSE IF Cardinality(Runs(p)) = 1 THEN 7 * (CHOOSE b \in Runs(p) : TRUE) + Cardinality(p) - 1 ELSE 57
Quant(p, transposed) == IF transposed THEN Bin(Transpose(p)) ELSE Bin(p)
Abs(v) == IF v < 0 THEN -v ELSE v
Max0(v) == IF v < 0 THEN 0 ELSE v
\* bilinear weight of sample x for cell c of side s, times 2s
Wgt(x, c, s) == Max0(2 * s - Abs(2 * x + 1 - s - 2 * s * c))
\* the permutation of bins that a left-right flip of the image causes (0-based)
FlipBin(q) == IF q >= 56 THEN q ELSE LET i == q \div 7 j == (q % 7) + 1 IN 7 * ((4 - i - j + 1) % 8) + j - 1
=============================================================================
