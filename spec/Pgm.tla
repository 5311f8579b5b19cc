-------------------------------- MODULE Pgm --------------------------------
(* The PGM grammar on sequences of bytes, as positions in a stream.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
White == {9, 10, 13, 32}
HASH == 35  NL == 10  MINUS == 45
Digit(c) == c \in 48..57
At(b, i) == IF i <= Len(b) THEN b[i] ELSE -1           \* -1: end of file
INV_HEAD == 101  INV_META == 102  INV_DATA == 103  IO == 104  BAD_ARG == 3

RECURSIVE AfterLine(_, _)
AfterLine(b, i) == IF i > Len(b) THEN i ELSE IF b[i] = NL THEN i + 1 ELSE AfterLine(b, i + 1)
RECURSIVE AfterGap(_, _)                                 \* white space and comments
AfterGap(b, i) == IF At(b, i) \in White THEN AfterGap(b, i + 1)
                  ELSE IF At(b, i) = HASH THEN AfterGap(b, AfterLine(b, i)) ELSE i
RECURSIVE DigitsFrom(_, _, _)
DigitsFrom(b, i, v) == IF Digit(At(b, i)) THEN DigitsFrom(b, i + 1, 10 * v + b[i] - 48) ELSE [pos |-> i, val |-> v]
Bad == [ok |-> FALSE, pos |-> 0, val |-> 0]
Field(b, i) ==                                           \* non empty gap, then a number
  LET g == AfterGap(b, i) n == DigitsFrom(b, g, 0)
  IN IF g = i \/ n.pos = g THEN Bad ELSE [ok |-> TRUE, pos |-> n.pos, val |-> n.val]

Fail(e) == [err |-> e, w |-> 0, h |-> 0, mx |-> 0, raw |-> FALSE, pos |-> 0]
ReadHead(b) ==
  IF Len(b) < 2 \/ b[1] # 80 \/ b[2] \notin {50, 53} THEN Fail(INV_HEAD)
  ELSE LET w == Field(b, 3) IN IF ~w.ok THEN Fail(INV_META)
  ELSE LET h == Field(b, w.pos) IN IF ~h.ok THEN Fail(INV_META)
  ELSE LET m == Field(b, h.pos) IN IF ~m.ok THEN Fail(INV_META)
  ELSE IF At(b, m.pos) \notin White \/ w.val < 1 \/ h.val < 1 \/ m.val < 1 \/ m.val > 65535 THEN Fail(INV_META)
  ELSE [err |-> 0, w |-> w.val, h |-> h.val, mx |-> m.val, raw |-> b[2] = 53, pos |-> m.pos + 1]

Bpp(mx) == IF mx >= 256 THEN 2 ELSE 1
RECURSIVE SkipWhite(_, _)
SkipWhite(b, i) == IF At(b, i) \in White THEN SkipWhite(b, i + 1) ELSE i
RECURSIVE Plain(_, _, _, _)
Plain(b, i, n, acc) == IF n = 0 THEN [err |-> 0, pix |-> acc]
  ELSE LET s == SkipWhite(b, i) d == DigitsFrom(b, s, 0)
       IN IF d.pos = s THEN [err |-> INV_DATA, pix |-> <<>>] ELSE Plain(b, d.pos, n - 1, Append(acc, d.val))
Data(b, hd) ==
  LET n == hd.w * hd.h k == Bpp(hd.mx)
  IN IF ~hd.raw THEN Plain(b, hd.pos, n, <<>>)
     ELSE IF Len(b) - hd.pos + 1 < n * k THEN [err |-> INV_DATA, pix |-> <<>>]
     ELSE [err |-> 0, pix |-> [i \in 1..n |-> IF k = 1 THEN b[hd.pos + i - 1]
                                              ELSE 256 * b[hd.pos + 2*(i-1)] + b[hd.pos + 2*(i-1) + 1]]]
Read(b) == LET hd == ReadHead(b) IN IF hd.err # 0 THEN [err |-> hd.err, pix |-> <<>>] ELSE Data(b, hd)
=============================================================================
