---------------------------- MODULE StringImpl ----------------------------
(* The character-at-a-time expansion machine with its bounded buffer.  TLC
   checks for every short text, replacement and buffer size that it computes
   Expand, never writes outside the buffer and always terminates it.         *)
EXTENDS StringOps, TLC
CONSTANTS MaxSrc, MaxBuf
W == 42  E == 92  A == 97
Texts == UNION {[1..n -> {W, E, A}] : n \in 0..MaxSrc}
Repls == {<<>>, <<W>>, <<A, E, W>>}
VARIABLES src, n, repl, esc, rest, mode, k, buf, done, hi
vars == <<src, n, repl, esc, rest, mode, k, buf, done, hi>>
Init == /\ src \in Texts /\ n \in 0..MaxBuf /\ repl \in Repls /\ esc \in {0, E}
        /\ rest = src /\ mode = "plain" /\ k = 0 /\ buf = [i \in 1..n |-> 170] /\ done = FALSE /\ hi = 0
Put(c) == /\ buf' = IF k + 1 < n THEN [buf EXCEPT ![k + 1] = c] ELSE buf
          /\ hi' = IF k + 1 < n THEN k + 1 ELSE hi
          /\ k' = k + 1
RECURSIVE PutAll(_, _, _)
PutAll(b, p, r) == IF r = <<>> THEN b ELSE PutAll(IF p + 1 < n THEN [b EXCEPT ![p + 1] = r[1]] ELSE b, p + 1, Tail(r))
Escape == rest # <<>> /\ mode = "plain" /\ esc # 0 /\ rest[1] = esc /\ mode' = "escape" /\ rest' = Tail(rest) /\ UNCHANGED <<src, n, repl, esc, k, buf, done, hi>>
Wild   == rest # <<>> /\ mode = "plain" /\ rest[1] = W /\ rest[1] # esc /\ rest' = Tail(rest)
          /\ buf' = PutAll(buf, k, repl) /\ k' = k + Len(repl) /\ hi' = hi /\ UNCHANGED <<src, n, repl, esc, mode, done>>
Plain  == rest # <<>> /\ (mode = "escape" \/ (rest[1] # W /\ (esc = 0 \/ rest[1] # esc))) /\ rest' = Tail(rest) /\ mode' = "plain" /\ Put(rest[1]) /\ UNCHANGED <<src, n, repl, esc, done>>
Close  == rest = <<>> /\ ~done /\ done' = TRUE /\ buf' = (IF n > 0 THEN [buf EXCEPT ![Min(k, n - 1) + 1] = 0] ELSE buf)
          /\ UNCHANGED <<src, n, repl, esc, rest, mode, k, hi>>
Next == Escape \/ Wild \/ Plain \/ Close
Spec == Init /\ [][Next]_vars
InBuffer == DOMAIN buf = 1..n /\ hi <= n
Right == done => k = Len(Expand(src, W, esc, repl)) /\ BufferOk(buf, Expand(src, W, esc, repl), n)
=============================================================================
