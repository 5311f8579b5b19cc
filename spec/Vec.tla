-------------------------------- MODULE Vec --------------------------------
(* Vector comparisons: squared distances and the corresponding kernels.       *)
EXTENDS RealOps, Integers, Sequences
Dist == {"l1", "l2", "chi2", "hellinger", "js"}
KernelOf(t) == CASE t = "l1" -> "kl1" [] t = "l2" -> "kl2" [] t = "chi2" -> "kchi2" [] t = "hellinger" -> "khellinger" [] t = "js" -> "kjs"
Log2(v) == RDiv(RLog(v), RLog(2))
Zero(v) == REq(v, 0)
Sq(v) == RMul(v, v)
\* one component's contribution
Term(t, a, b, c) ==
  CASE t = "l1" -> RAbs(RSub(a, b))
    [] t = "l2" -> Sq(RSub(a, b))
    [] t = "chi2" -> IF Zero(RAdd(a, b)) THEN 0 ELSE RDiv(Sq(RSub(a, b)), RAdd(a, b))
    [] t = "hellinger" -> Sq(RSub(RSqrt(a), RSqrt(b)))
    [] t = "js" -> RAdd(IF Zero(a) THEN 0 ELSE RMul(a, Log2(RDiv(RMul(2, a), RAdd(a, b)))),
                        IF Zero(b) THEN 0 ELSE RMul(b, Log2(RDiv(RMul(2, b), RAdd(a, b)))))
    [] t = "maha" -> RMul(Sq(RSub(a, b)), c)
    [] t = "kl1" -> IF RLt(RMul(a, b), 0) THEN 0 ELSE RMin(RAbs(a), RAbs(b))
    [] t = "kl2" -> RMul(a, b)
    [] t = "kchi2" -> IF Zero(RAdd(a, b)) THEN 0 ELSE RDiv(RMul(2, RMul(a, b)), RAdd(a, b))
    [] t = "khellinger" -> RSqrt(RMul(a, b))
    [] t = "kjs" -> RDiv(RAdd(IF Zero(a) THEN 0 ELSE RMul(a, Log2(RDiv(RAdd(a, b), a))),
                              IF Zero(b) THEN 0 ELSE RMul(b, Log2(RDiv(RAdd(a, b), b)))), 2)
\* size of the quantities added, which bounds the rounding error
Size(t, a, b, c) == CASE t = "l2" -> Sq(RSub(a, b)) [] t = "kl2" -> RAbs(RMul(a, b)) [] t = "maha" -> RMul(Sq(RSub(a, b)), c)
                      [] OTHER -> RAdd(RAbs(a), RAbs(b))
Cmp(t, x, y, z)   == RSum([k \in 1..Len(x) |-> Term(t, x[k], y[k], IF Len(z) = 0 THEN 0 ELSE z[k])])
Scale(t, x, y, z) == RSum([k \in 1..Len(x) |-> Size(t, x[k], y[k], IF Len(z) = 0 THEN 0 ELSE z[k])])
=============================================================================
