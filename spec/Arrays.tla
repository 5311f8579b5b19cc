------------------------------- MODULE Arrays -------------------------------
(* Numeric arrays of any number of dimensions, stored in column-major order as
   MATLAB does, and the element-wise utilities the toolbox offers on them.
   An array is a pair of its dimensions and the sequence of its elements.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, RealOps
RECURSIVE Prod(_, _)
Prod(d, k) == IF k = 0 THEN 1 ELSE d[k] * Prod(d, k - 1)   \* of the first k dimensions
Size(d) == Prod(d, Len(d))
Dim(d, k) == IF k <= Len(d) THEN d[k] ELSE 1              \* missing dimensions are singletons
Sub(d, i, k) == ((i - 1) \div Prod(d, IF k - 1 <= Len(d) THEN k - 1 ELSE Len(d))) % Dim(d, k)   \* k-th subscript, from 0
(* linear index of the element of an array of dimensions d with the subscripts
   of element i of an array of dimensions c, except the k-th, which is s       *)
RECURSIVE Lin(_, _, _, _, _, _)
Lin(d, c, i, k, s, n) ==
  IF n = 0 THEN 1 ELSE Lin(d, c, i, k, s, n - 1) + (IF n = k THEN s ELSE Sub(c, i, n)) * Prod(d, n - 1)
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
(* ---- binned sums --------------------------------------------------------- *)
Bits(c) == CASE c \in {"int8", "uint8"} -> 8 [] c \in {"int16", "uint16"} -> 16 [] c \in {"int32", "uint32"} -> 32 [] OTHER -> 64
Signed(c) == c \in {"int8", "int16", "int32", "int64"}
Cast(c, r) ==                                               \* the class's arithmetic wraps around
  IF c = "double" THEN r ELSE IF c = "single" THEN RSingle(r)
  ELSE IF Bits(c) = 64 THEN r                              \* (values beyond doubles are not modelled)
  ELSE LET M == RPow(2, Bits(c))
           u == RSub(r, RMul(M, RFloor(RDiv(r, M))))
       IN IF Signed(c) /\ RLe(RPow(2, Bits(c) - 1), u) THEN RSub(u, M) ELSE u
At(x, i) == IF Len(x) = 1 THEN x[1] ELSE x[i]
RECURSIVE Into(_, _, _, _, _)
Into(c, b, x, i, a) ==                                      \* a: value so far; b: the target's position or 0, per entry
  IF i > Len(b) THEN a ELSE Into(c, b, x, i + 1, IF b[i] THEN Cast(c, RAdd(a, At(x, i))) ELSE a)
(* INDEXES address the whole accumulator                                      *)
SumAllLegal(h, x, b) == (Len(x) = 1 \/ Len(x) = Len(b)) /\ \A i \in 1..Len(b) : b[i] >= 0 /\ b[i] <= Len(h)
SumAll(c, h, x, b) == [j \in 1..Len(h) |-> Into(c, [i \in 1..Len(b) |-> b[i] = j], x, 1, h[j])]
(* INDEXES are subscripts of dimension k                                      *)
SumDimFit(hd, bd, k) == \A n \in 1..MaxLen(hd, bd) : n = k \/ Dim(hd, n) = Dim(bd, n)
SumDimLegal(hd, x, xd, b, bd, k) ==
  /\ k <= Len(hd) /\ SumDimFit(hd, bd, k)
  /\ Len(bd) = Len(hd) \/ (k = Len(hd) /\ Len(bd) = Len(hd) - 1)
  /\ Len(x) = 1 \/ xd = bd \/ (Len(x) = 0 /\ Len(b) = 0)
  /\ \A i \in 1..Len(b) : b[i] >= 0 /\ b[i] <= hd[k]
SumDim(c, h, hd, x, b, bd, k) ==
  LET to == TLCEval([i \in 1..Len(b) |-> IF b[i] = 0 THEN 0 ELSE Lin(hd, bd, i, k, b[i] - 1, Len(hd))])
  IN [j \in 1..Len(h) |-> Into(c, [i \in 1..Len(b) |-> to[i] = j], x, 1, h[j])]
(* ---- bins: element x belongs to the last bin whose left edge is not above it *)
Bin(edges, x) == Cardinality({i \in 1..Len(edges) : RLe(edges[i], x)})
(* ---- cumulative maxima along dimension k ----------------------------------- *)
Along(d, k) == IF k > 0 THEN k ELSE LET N == {n \in 1..Len(d) : d[n] # 1} IN IF N = {} THEN Len(d) ELSE CHOOSE n \in N : \A m \in N : n <= m
RECURSIVE RunMax(_, _, _, _)
RunMax(x, s, i, q) == IF q = 0 THEN x[i] ELSE RMax(x[i], RunMax(x, s, i - s, q - 1))
CumMax(x, d, k) == [i \in 1..Len(x) |-> RunMax(x, Prod(d, Along(d, k) - 1), i, Sub(d, i, Along(d, k)))]
(* ---- local maxima in the first p dimensions --------------------------------- *)
Steps(p) == [1..p -> {-1, 0, 1}]
RECURSIVE Off(_, _, _)
Off(d, v, n) == IF n = 0 THEN 0 ELSE Off(d, v, n - 1) + v[n] * Prod(d, n - 1)
LocalMax(x, d, p, t) ==
  {i \in 1..Len(x) : /\ \A n \in 1..p : Sub(d, i, n) > 0 /\ Sub(d, i, n) < d[n] - 1
                     /\ RLe(t, x[i])
                     /\ \A v \in Steps(p) : (\A n \in 1..p : v[n] = 0) \/ RLt(x[i + Off(d, v, p)], x[i])}
(* ---- weighted histograms: bins [e(i), e(i+1)), the last one only e(end) ------ *)
WhBin(e, x) == IF RNan(x) THEN 0 ELSE LET n == Bin(e, x) IN IF n = Len(e) /\ n > 0 /\ RLt(e[n], x) THEN 0 ELSE n
Whistc(x, d, w, e, k) ==
  LET hd == TLCEval([n \in 1..(IF k > Len(d) THEN k ELSE Len(d)) |-> IF n = k THEN Len(e) ELSE Dim(d, n)])
      b == TLCEval([i \in 1..Len(x) |-> IF RNan(At(w, i)) THEN 0 ELSE WhBin(e, x[i])])
  IN SumDim("double", [i \in 1..Size(hd) |-> 0], hd, w, b, d, k)
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : REq(a[i], b[i])
=============================================================================
