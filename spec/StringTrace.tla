---------------------------- MODULE StringTrace ----------------------------
EXTENDS TraceKit, StringOps
VARIABLE l
ev == Trace[l]
Written(res) == ev.ret = Len(res) /\ ev.guard /\ BufferOk(ev.buf, res, ev.n)
(* a copied substring also stops at an embedded null, which a sequence of
   non-null codes cannot contain; [b, e) may be empty                        *)
Ok == CASE ev.e = "Copy"  -> Written(ev.src)
        [] ev.e = "Sub"   -> Written(SubSeq(ev.src, ev.b + 1, Min(ev.t, Len(ev.src))))
        [] ev.e = "Base"  -> Written(BaseName(ev.src, ev.m))
        [] ev.e = "Wild"  -> Written(Expand(ev.src, ev.w, ev.x, ev.repl))
        [] ev.e = "Proto" -> ev.rest = AfterProtocol(ev.src) /\ ev.rest0 = ev.rest /\ ev.code = Protocol(ev.src)
        [] ev.e = "PName" -> ev.name = ProtocolName(ev.code)
        [] ev.e = "Rev"   -> ev.at = FindRev(ev.src, ev.b, ev.t, ev.c)
        [] ev.e = "Cmp"   -> ev.sign = CmpSign(ev.s, ev.t)
        [] ev.e = "Length" -> ev.len = Len(ev.src)
        [] ev.e = "Enum"  -> /\ ev.get = EnumGet(ev.names, ev.key)
                             /\ ev.geti = EnumGetI(ev.names, ev.key)
                             /\ ev.getv = EnumGetV(ev.vals, ev.val)
        [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
