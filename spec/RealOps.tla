------------------------------ MODULE RealOps ------------------------------
(* Arithmetic on real numbers, approximated by IEEE doubles.  TLC has neither
   reals nor integers beyond 32 bits, so the operators below are evaluated by
   java/RealOps.java; they are nothing but the elementary operations, and
   everything the specifications say about numbers is written in TLA+ with them.

   A number is an integer, a string holding a decimal number ("1.5e-3", "nan",
   "inf"), or the pair of 32-bit halves of a double, which is what the
   operators return.                                                          *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
RAdd(a, b)  == CHOOSE r \in {} : TRUE
RSub(a, b)  == CHOOSE r \in {} : TRUE
RMul(a, b)  == CHOOSE r \in {} : TRUE
RDiv(a, b)  == CHOOSE r \in {} : TRUE
RNeg(a)     == CHOOSE r \in {} : TRUE
RAbs(a)     == CHOOSE r \in {} : TRUE
RMin(a, b)  == CHOOSE r \in {} : TRUE
RMax(a, b)  == CHOOSE r \in {} : TRUE
RSqrt(a)    == CHOOSE r \in {} : TRUE
RExp(a)     == CHOOSE r \in {} : TRUE
RLog(a)     == CHOOSE r \in {} : TRUE
RSin(a)     == CHOOSE r \in {} : TRUE
RCos(a)     == CHOOSE r \in {} : TRUE
RTan(a)     == CHOOSE r \in {} : TRUE
RAtan2(a, b) == CHOOSE r \in {} : TRUE
RPow(a, b)  == CHOOSE r \in {} : TRUE
RCosh(a)    == CHOOSE r \in {} : TRUE
RFloor(a)   == CHOOSE r \in {} : TRUE    \* the real floor
RSingle(a)  == CHOOSE r \in {} : TRUE    \* rounded to single precision
RInt(a)     == CHOOSE r \in {} : TRUE    \* the TLA+ integer floor(a); must fit 32 bits
RLt(a, b)   == CHOOSE r \in BOOLEAN : TRUE
RLe(a, b)   == CHOOSE r \in BOOLEAN : TRUE
REq(a, b)   == CHOOSE r \in BOOLEAN : TRUE  \* equal as numbers, or both not-a-number
RFinite(a)  == CHOOSE r \in BOOLEAN : TRUE
RNan(a)     == CHOOSE r \in BOOLEAN : TRUE
(* |a - b| <= t * max(1, |a|, |b|); infinities only equal themselves          *)
RNear(a, b, t) == CHOOSE r \in BOOLEAN : TRUE
(* |a - b| <= t                                                               *)
RWithin(a, b, t) == CHOOSE r \in BOOLEAN : TRUE
RSum(s)     == CHOOSE r \in {} : TRUE     \* of a sequence of numbers
RDot(s, t)  == CHOOSE r \in {} : TRUE     \* sum of products
RShow(a)    == CHOOSE r \in STRING : TRUE
RPi         == RMul(4, RAtan2(1, 1))
=============================================================================
