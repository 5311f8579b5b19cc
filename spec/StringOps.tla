----------------------------- MODULE StringOps -----------------------------
(* Meaning of the string utilities, on sequences of character codes.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Min(a, b) == IF a < b THEN a ELSE b
Max(S) == CHOOSE m \in S : \A x \in S : x <= m
(* what a bounded writer leaves in a buffer of n bytes: the text it can hold *)
Bounded(res, n) == IF n = 0 THEN <<>> ELSE SubSeq(res, 1, Min(Len(res), n - 1)) \o <<0>>
BufferOk(buf, res, n) == IF n = 0 THEN buf = <<>>
                         ELSE Len(buf) = n /\ SubSeq(buf, 1, Min(Len(res), n-1) + 1) = Bounded(res, n)
SLASH == 47  BACK == 92  DOT == 46  COLON == 58

(* base name: drop everything up to the last / or \, then up to m extensions *)
BaseStart(s) == LET P == {k \in 1..Len(s) : s[k] \in {SLASH, BACK}} IN IF P = {} THEN 1 ELSE Max(P) + 1
Name(s) == SubSeq(s, BaseStart(s), Len(s))
Dots(t) == {k \in 1..Len(t) : t[k] = DOT}
RECURSIVE StripExt(_, _)
StripExt(t, m) == IF m = 0 \/ Dots(t) = {} THEN t ELSE StripExt(SubSeq(t, 1, Max(Dots(t)) - 1), m - 1)
BaseName(s, m) == StripExt(Name(s), m)

(* wildcard expansion with an escape character (0: none) *)
RECURSIVE Expand(_, _, _, _)
Expand(s, w, e, r) ==
  IF s = <<>> THEN <<>>
  ELSE IF e # 0 /\ s[1] = e THEN (IF Len(s) = 1 THEN <<>> ELSE <<s[2]>> \o Expand(SubSeq(s, 3, Len(s)), w, e, r))
  ELSE IF s[1] = w THEN r \o Expand(Tail(s), w, e, r)
  ELSE <<s[1]>> \o Expand(Tail(s), w, e, r)

(* protocol prefix *)
ASCII == <<97,115,99,105,105>>  BIN == <<98,105,110>>
Seps(s) == {k \in 1..(Len(s) - 2) : s[k] = COLON /\ s[k+1] = SLASH /\ s[k+2] = SLASH}
Sep(s) == CHOOSE k \in Seps(s) : \A j \in Seps(s) : k <= j
Protocol(s) == IF Seps(s) = {} THEN 0
               ELSE LET p == SubSeq(s, 1, Sep(s) - 1) IN IF p = ASCII THEN 1 ELSE IF p = BIN THEN 2 ELSE -1
AfterProtocol(s) == IF Seps(s) = {} THEN s ELSE SubSeq(s, Sep(s) + 3, Len(s))
ProtocolName(c) == CASE c = 1 -> ASCII [] c = 2 -> BIN [] OTHER -> <<>>

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerS(s) == [k \in 1..Len(s) |-> Lower(s[k])]
At0(s, k) == IF k <= Len(s) THEN s[k] ELSE 0
CmpSign(s, t) == LET a == LowerS(s) b == LowerS(t)
                     D == {k \in 1..(Len(s) + Len(t) + 1) : At0(a, k) # At0(b, k)}
                 IN IF D = {} THEN 0 ELSE LET k == CHOOSE x \in D : \A y \in D : x <= y IN IF At0(a, k) < At0(b, k) THEN -1 ELSE 1
FindRev(s, b, e, c) == LET P == {k \in (b+1)..e : s[k] = c} IN IF P = {} THEN -1 ELSE Max(P) - 1
First(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : m <= x
EnumGet(names, s) == First({k \in 1..Len(names) : names[k] = s}) - 1
EnumGetI(names, s) == First({k \in 1..Len(names) : LowerS(names[k]) = LowerS(s)}) - 1
EnumGetV(vals, v) == First({k \in 1..Len(vals) : vals[k] = v}) - 1
=============================================================================
