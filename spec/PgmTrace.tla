------------------------------ MODULE PgmTrace ------------------------------
(* Every event is one call on one file: the file's bytes, the verdict, what
   was produced, and whether handles, blocks and the error record are clean. *)
EXTENDS TraceKit, Pgm
VARIABLE l
ev == Trace[l]
Clean == ev.files = 0 /\ ev.last = ev.err
HeadOk == LET h == ReadHead(ev.bytes) IN
  /\ ev.err = h.err /\ Clean /\ ev.blocks = 0
  /\ h.err = 0 => /\ ev.w = h.w /\ ev.h = h.h /\ ev.mx = h.mx /\ ev.raw = h.raw /\ ev.pos = h.pos - 1
                  /\ ev.npix = h.w * h.h /\ ev.bpp = Bpp(h.mx)
DataOk == LET r == Read(ev.bytes) IN ev.err = r.err /\ Clean /\ ev.blocks = 0 /\ (r.err = 0 => ev.pix = r.pix)
Wide(b) == LET h == ReadHead(b) IN h.err = 0 /\ Bpp(h.mx) = 2
FileErr(b) == IF ev.missing THEN IO ELSE IF Wide(b) THEN BAD_ARG ELSE Read(b).err
FileOk == /\ ev.err = FileErr(ev.bytes) /\ Clean
          /\ ev.blocks = (IF ev.err = 0 THEN 1 ELSE 0)        \* the caller owns exactly the pixels
          /\ ev.err = 0 => /\ ev.pix = (IF ev.float THEN [i \in DOMAIN ev.pix |-> Read(ev.bytes).pix[i]] ELSE Read(ev.bytes).pix)
                           /\ Len(ev.pix) = ev.w * ev.h
                           /\ ev.w = ReadHead(ev.bytes).w /\ ev.h = ReadHead(ev.bytes).h /\ ev.mx = ReadHead(ev.bytes).mx
(* what is written is a valid raw file holding exactly the given image *)
InsertOk == /\ ev.err = 0 /\ ev.blocks = 0
            /\ LET h == ReadHead(ev.bytes) IN
               /\ h.err = 0 /\ h.raw /\ h.w = ev.w /\ h.h = ev.h /\ h.mx = ev.mx
               /\ Len(ev.bytes) = h.pos - 1 + ev.w * ev.h * Bpp(ev.mx)
               /\ Data(ev.bytes, h).pix = ev.pix
            /\ ev.kept                                    \* the caller's buffer is not modified
            /\ ev.files = 0
Mn(s) == CHOOSE m \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : m <= s[i]
Mx(s) == CHOOSE m \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : m >= s[i]
(* rescaled writing: pixel = floor(255 (v-min)/(max-min)), rounding slack 1/100 *)
ScaleOk == /\ ev.err = 0 /\ ev.blocks = 0 /\ ev.files = 0
           /\ LET h == ReadHead(ev.bytes) p == Data(ev.bytes, h).pix a == Mn(ev.vals) R == Mx(ev.vals) - a IN
              /\ h.err = 0 /\ h.w = ev.w /\ h.h = ev.h /\ h.mx = 255 /\ Len(p) = ev.w * ev.h
              /\ \A i \in DOMAIN p : LET x == 255 * (ev.vals[i] - a) IN
                    IF R = 0 THEN p[i] = 0 ELSE 100 * p[i] * R <= 100 * x + R /\ 100 * (p[i] + 1) * R >= 100 * x - R
WErrOk == ev.err = IO /\ ev.last = IO /\ ev.files = 0 /\ ev.blocks = 0
Ok == CASE ev.e = "Head" -> HeadOk [] ev.e = "Data" -> DataOk [] ev.e = "File" -> FileOk
        [] ev.e = "Insert" -> InsertOk [] ev.e = "Scale" -> ScaleOk [] ev.e = "WErr" -> WErrOk [] OTHER -> FALSE
T == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == l = 1 /\ [][T]_l
=============================================================================
