---------------------------- MODULE GetoptTrace ----------------------------
(* One "Scan" event is a complete scan of one argument vector by the real
   parser: every call's report in order, then the vector and cursor left.      *)
EXTENDS TraceKit, Getopt
VARIABLE l
ev == Trace[l]
RECURSIVE Run(_,_,_,_,_)
Run(s, opts, longs, outs, k) ==     \* the reports are those of the grammar
  LET r == Call(s, opts, longs) IN
  /\ k <= Len(outs)
  /\ outs[k] = r.out
  /\ IF r.out.ret = -1 THEN k = Len(outs) ELSE Run(r.st, opts, longs, outs, k + 1)
RECURSIVE Last2(_,_,_)
Last2(s, opts, longs) == LET r == Call(s, opts, longs) IN IF r.out.ret = -1 THEN r.st ELSE Last2(r.st, opts, longs)
Count(s, w) == Cardinality({k \in 1..Len(s) : s[k] = w})
ScanOk == /\ Run(Start(ev.argv), ev.opts, ev.longs, ev.outs, 1)
          /\ LET f == Last2(Start(ev.argv), ev.opts, ev.longs)
             IN /\ ev.ind = Len(f.done) + 1
                /\ Len(ev.after) = Len(ev.argv)
                /\ SubSeq(ev.after, ev.ind, Len(ev.after)) = f.ops
                /\ \A k \in 1..Len(ev.argv) : Count(ev.after, ev.argv[k]) = Count(ev.argv, ev.argv[k])
          /\ ev.guard
TScan == l <= Len(Trace) /\ l' = l + 1 /\ ev.e = "Scan" /\ ScanOk
TSpec == l = 1 /\ [][TScan]_l
=============================================================================
