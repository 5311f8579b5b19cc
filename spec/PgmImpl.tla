------------------------------ MODULE PgmImpl ------------------------------
(* The header reader as a byte-at-a-time automaton over a growing stream.
   TLC checks on every short stream that it stops with the verdict, fields
   and stream position that the grammar of Pgm gives for what was consumed.   *)
EXTENDS Pgm, TLC
CONSTANTS MaxTail
Alphabet == {32, 10, 35, 55, 48, 120}
VARIABLES seen, st, k, gap, val, num
vars == <<seen, st, k, gap, val, num>>
Init == /\ seen \in {<<80, 53>>, <<80, 50>>, <<80, 54>>, <<81, 53>>}
        /\ st = (IF seen \in {<<80,53>>, <<80,50>>} THEN "gap" ELSE "badhead")
        /\ k = 1 /\ gap = FALSE /\ val = <<0, 0, 0>> /\ num = FALSE
Running == st \in {"gap", "comment", "num"}
Blank(c) == st = "gap" /\ c \in White /\ gap' = TRUE /\ UNCHANGED <<st, k, val, num>>
OpenComment(c) == st = "gap" /\ c = HASH /\ gap' = TRUE /\ st' = "comment" /\ UNCHANGED <<k, val, num>>
InComment(c) == st = "comment" /\ st' = (IF c = NL THEN "gap" ELSE "comment") /\ UNCHANGED <<k, gap, val, num>>
FirstDigit(c) == st = "gap" /\ Digit(c) /\ gap /\ st' = "num" /\ val' = [val EXCEPT ![k] = c - 48] /\ UNCHANGED <<k, gap, num>>
NextDigit(c) == st = "num" /\ Digit(c) /\ val' = [val EXCEPT ![k] = 10 * @ + c - 48] /\ UNCHANGED <<st, k, gap, num>>
EndNumber(c) == /\ st = "num" /\ ~Digit(c)
                /\ IF k = 3 THEN /\ st' = (IF c \in White /\ \A i \in 1..3 : val[i] >= 1 THEN "ok" ELSE "badmeta") /\ UNCHANGED <<k, gap>>
                   ELSE /\ k' = k + 1
                        /\ IF c \in White THEN st' = "gap" /\ gap' = TRUE
                           ELSE IF c = HASH THEN st' = "comment" /\ gap' = TRUE
                           ELSE st' = "badmeta" /\ gap' = gap
                /\ UNCHANGED <<val, num>>
Junk(c) == st = "gap" /\ c \notin White /\ c # HASH /\ ~(Digit(c) /\ gap) /\ st' = "badmeta" /\ UNCHANGED <<k, gap, val, num>>
Feed(c) == /\ Running /\ Len(seen) < MaxTail + 2 /\ seen' = Append(seen, c)
           /\ (Blank(c) \/ OpenComment(c) \/ InComment(c) \/ FirstDigit(c) \/ NextDigit(c) \/ EndNumber(c) \/ Junk(c))
Next == \E c \in Alphabet : Feed(c)
Spec == Init /\ [][Next]_vars
Agrees == LET h == ReadHead(seen) IN
  CASE st = "ok" -> h.err = 0 /\ <<h.w, h.h, h.mx>> = val /\ h.pos = Len(seen) + 1
    [] st = "badhead" -> h.err = INV_HEAD
    [] OTHER -> h.err = INV_META           \* also when the stream ends while running
=============================================================================
