------------------------------- MODULE BigOps -------------------------------
(* Exact integers of any size, for the same reason as RealOps.  A number is an
   integer or a string of decimal digits; results are strings.               *)
BAdd(a, b) == CHOOSE r \in STRING : TRUE
BSub(a, b) == CHOOSE r \in STRING : TRUE
BMul(a, b) == CHOOSE r \in STRING : TRUE
BDiv(a, b) == CHOOSE r \in STRING : TRUE      \* rounding towards minus infinity
BMod(a, b) == CHOOSE r \in STRING : TRUE
BLt(a, b)  == CHOOSE r \in BOOLEAN : TRUE
BLe(a, b)  == CHOOSE r \in BOOLEAN : TRUE
BEq(a, b)  == CHOOSE r \in BOOLEAN : TRUE
=============================================================================
