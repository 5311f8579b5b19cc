------------------------------ MODULE MemTrace ------------------------------
(* The recorded requests of the library, replayed into Mem.  Every block has
   a number (-1 is NULL); "bad" counts blocks written beyond their ends,
   released twice or never obtained, as the guarded allocator saw them. *)
EXTENDS TraceKit, Mem
VARIABLE l
ev == Trace[l]
Step ==
  CASE ev.e = "Begin" -> Begin(ev.what)
    [] ev.e = "Fail" -> Begin("refusals")
    [] ev.e = "Alloc" -> IF ev.p = -1 THEN Refuse ELSE Obtain(ev.p)
    [] ev.e = "Realloc" -> IF ev.q = -1 THEN Refuse ELSE IF ev.p = -1 THEN Obtain(ev.q) ELSE Move(ev.p, ev.q)
    [] ev.e = "Free" -> IF ev.p = -1 THEN Nothing ELSE Return(ev.p)
    [] ev.e = "Direct" -> Take(ev.p)
    [] ev.e = "Free2" -> IF ev.p = -1 THEN Nothing ELSE Drop(ev.p)
    [] ev.e = "End" -> End(ev.ok, ev.live) /\ ev.bad = 0
    [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == l = 1 /\ MInit /\ [][T]_<<l, mvars>>
=============================================================================
