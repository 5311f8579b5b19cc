---------------------------- MODULE ThreadTrace ----------------------------
(* What each thread may observe of the library's per-thread and global state,
   under any schedule.  One event per API call, logged at its return by the
   only running thread.                                                      *)
EXTENDS Twister, TraceKit
VARIABLES thr, glob, l
ev == Trace[l]
Step == l <= Len(Trace) /\ l' = l + 1

RECURSIVE Draws(_, _)
Draws(g, k) == IF k = 0 THEN <<>> ELSE LET d == Draw(g) IN <<d[1]>> \o Draws(d[2], k - 1)
Seeds == {1, 2, 5489}
Stream == [s \in Seeds |-> Draws(Seed(W32(s)), 12)]

New == [err |-> 0, msg |-> "", seed |-> 5489, n |-> 0, tic |-> 0]
T == thr[ev.t]
Upd(r) == thr' = [thr EXCEPT ![ev.t] = r]
Same == UNCHANGED <<thr, glob>>

Init == thr = <<>> /\ glob = [simd |-> TRUE, pf |-> 0] /\ l = 1
TBegin  == Step /\ ev.e = "Begin" /\ thr' = [k \in 1..ev.n |-> New] /\ UNCHANGED glob
TSetErr == Step /\ ev.e = "SetErr" /\ ev.r = ev.code /\ Upd([T EXCEPT !.err = ev.code, !.msg = ev.msg]) /\ UNCHANGED glob
TGetErr == Step /\ ev.e = "GetErr" /\ ev.r = T.err /\ Same
TGetMsg == Step /\ ev.e = "GetMsg" /\ ev.r = T.msg /\ Same
TSeed   == Step /\ ev.e = "SeedRand" /\ Upd([T EXCEPT !.seed = ev.s, !.n = 0]) /\ UNCHANGED glob
TDraw   == Step /\ ev.e = "DrawRand" /\ T.n < 12 /\ ev.v = Stream[T.seed][T.n + 1] /\ Upd([T EXCEPT !.n = @ + 1]) /\ UNCHANGED glob
TTic    == Step /\ ev.e = "Tic" /\ Upd([T EXCEPT !.tic = ev.now]) /\ UNCHANGED glob
TToc    == Step /\ ev.e = "Toc" /\ ev.d = ev.now - T.tic /\ Same
\* process-wide switches: last write wins, every thread sees it
TSetS   == Step /\ ev.e = "SetSimd" /\ glob' = [glob EXCEPT !.simd = ev.x] /\ UNCHANGED thr
TGetS   == Step /\ ev.e = "GetSimd" /\ ev.r = glob.simd /\ Same
TSetP   == Step /\ ev.e = "SetPrintf" /\ glob' = [glob EXCEPT !.pf = ev.x] /\ UNCHANGED thr
TGetP   == Step /\ ev.e = "GetPrintf" /\ ev.r = glob.pf /\ Same
\* the private state is private memory, the same at every call of a thread
TAddr   == Step /\ ev.e = "Addr" /\ ev.stable /\ ev.distinct /\ Same
\* all threads have ended: nothing they created is left
\* without the scheduler: a thread reads back what it set itself, and its own stream
TSaw    == Step /\ ev.e = "Saw" /\ ev.t \in DOMAIN thr /\ ev.rcode = ev.code /\ ev.rmsg = ev.msg /\ ev.rv = ev.v /\ Same
TEnd    == Step /\ ev.e = "End" /\ ev.finished /\ ev.live = 0 /\ Same
TNext == TBegin \/ TSetErr \/ TGetErr \/ TGetMsg \/ TSeed \/ TDraw \/ TTic \/ TToc \/ TSetS \/ TGetS \/ TSetP \/ TGetP \/ TAddr \/ TSaw \/ TEnd
TSpec == Init /\ [][TNext]_<<thr, glob, l>>
=============================================================================
