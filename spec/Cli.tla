-------------------------------- MODULE Cli --------------------------------
(* The programs sift and mser: file specifiers (vlfeat(7)), which options are
   refused, which files an invocation creates and what is in each, and the
   exit status.  Names and arguments are sequences of character codes; what
   the library computes for an image comes with it.                          *)
EXTENDS StringOps, TLC
PCT == 37
Ext(s) == <<PCT, DOT>> \o s
Spec0(on, ext) == [on |-> on, proto |-> 1, pat |-> Ext(ext)]
SIFT  == <<115,105,102,116>>        FRAME == <<102,114,97,109,101>>
DESCR == <<100,101,115,99,114>>     META  == <<109,101,116,97>>
PGM   == <<112,103,109>>            MSER  == <<109,115,101,114>>
Defaults(prog) ==
  IF prog = "sift"
  THEN ("output" :> Spec0(TRUE, SIFT)) @@ ("frames" :> Spec0(FALSE, FRAME)) @@ ("descriptors" :> Spec0(FALSE, DESCR))
       @@ ("meta" :> Spec0(FALSE, META)) @@ ("gss" :> Spec0(FALSE, PGM)) @@ ("read-frames" :> Spec0(FALSE, FRAME))
  ELSE ("frames" :> Spec0(FALSE, FRAME)) @@ ("seeds" :> Spec0(FALSE, MSER)) @@ ("meta" :> Spec0(FALSE, META))

(* one occurrence of an option with a file specifier: either part may be absent *)
Given(m, o) == IF ~ o.has THEN [m EXCEPT !.on = TRUE]
               ELSE LET p == Protocol(o.arg) r == AfterProtocol(o.arg) IN
                    [on |-> TRUE, proto |-> IF p \in {1, 2} THEN p ELSE m.proto, pat |-> IF r = <<>> THEN m.pat ELSE r]
RECURSIVE Fold(_, _)
Fold(metas, os) == IF os = <<>> THEN metas
                   ELSE Fold([metas EXCEPT ![Head(os).key] = Given(@, Head(os))], Tail(os))
(* which outputs are produced in the end *)
Metas(prog, os) ==
  LET m == Fold(Defaults(prog), os)
      asked(k) == \E i \in 1..Len(os) : os[i].key = k
  IN IF prog = "sift" THEN (IF ~ asked("output") /\ (m["frames"].on \/ m["descriptors"].on) THEN [m EXCEPT !["output"].on = FALSE] ELSE m)
     ELSE IF ~ m["frames"].on /\ ~ m["seeds"].on THEN [m EXCEPT !["frames"].on = TRUE] ELSE m
SpecOk(o) == o.has => Protocol(o.arg) # -1 /\ (o.key = "meta" => Protocol(o.arg) # 2)
NumOk(n) ==
  /\ n.good
  /\ CASE n.key \in {"O", "S", "octaves", "levels"} -> n.v >= 0
       [] n.key = "first-octave" -> TRUE
       [] n.key \in {"edge-thresh", "magnif"} -> n.v >= 1000
       [] n.key \in {"peak-thresh", "d", "delta", "max-variation"} -> n.v >= 0
       [] n.key \in {"max-area", "min-area", "min-diversity"} -> n.v \in 0..1000
       [] n.key \in {"dark-on-bright", "bright-on-dark"} -> n.v \in {0, 1000}
Refused(e) == \/ e.junk
              \/ \E i \in 1..Len(e.specs) : ~ SpecOk(e.specs[i])
              \/ \E i \in 1..Len(e.nums) : ~ NumOk(e.nums[i])

(* names: % is the base name of the image, %% a percent sign *)
RECURSIVE Subst(_, _)
Subst(p, b) == IF p = <<>> THEN <<>>
               ELSE IF p[1] = PCT THEN (IF Len(p) > 1 /\ p[2] = PCT THEN <<PCT>> \o Subst(SubSeq(p, 3, Len(p)), b) ELSE b \o Subst(Tail(p), b))
               ELSE <<p[1]>> \o Subst(Tail(p), b)
Base(f) == BaseName(f.name, 1)
NameOf(m, f) == Subst(m.pat, Base(f))
Digits(n, w) == LET a == IF n < 0 THEN -n ELSE n
                    d == IF a < 10 THEN <<48 + a>> ELSE <<48 + (a \div 10), 48 + (a % 10)>>
                    s == IF n < 0 THEN <<45>> \o d ELSE d
                IN [i \in 1..(IF w > Len(s) THEN w - Len(s) ELSE 0) |-> 48] \o s
LevelName(m, f, g) == Subst(m.pat, Base(f) \o <<95>> \o Digits(g.o, 2) \o <<95>> \o Digits(g.s, 3))
FULL == <<47,100,101,118,47,102,117,108,108>>           \* a device that takes no data
SUB == <<115,117,98>>                                   \* the one directory there is
DirOf(n) == IF BaseStart(n) = 1 THEN <<>> ELSE SubSeq(n, 1, BaseStart(n) - 2)
Creatable(n) == n = FULL \/ (Len(Name(n)) \in 1..255 /\ DirOf(n) \in {<<>>, SUB})

(* --- contents ----------------------------------------------------------- *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Byte(x) == Min(255, x)
Cells(d) == [i \in 1..Len(d) |-> ToString(Byte(d[i]))]
RevBy(s, k) == [i \in 1..Len(s) |-> LET q == (i - 1) \div k IN s[q * k + k + 1 - (i - q * k)]]
Real8(b, little) == IF little THEN RevBy(b, 8) ELSE b
Int4(n, little) == LET m == IF n < 0 THEN n + 2147483647 + 1 ELSE n
                       b == <<(m \div 16777216) + (IF n < 0 THEN 128 ELSE 0), (m \div 65536) % 256, (m \div 256) % 256, m % 256>>
                   IN IF little THEN RevBy(b, 4) ELSE b
Rows(e, f) == f.rows
Seeds(e, f) == (IF e.useDark = 1 THEN f.dark.seeds ELSE <<>>) \o
               (IF e.useBright = 1 THEN [i \in 1..Len(f.bright.seeds) |-> -f.bright.seeds[i]] ELSE <<>>)
Ells(e, f) == (IF e.useDark = 1 THEN f.dark.g ELSE <<>>) \o (IF e.useBright = 1 THEN f.bright.g ELSE <<>>)
EllBytes(e, f) == (IF e.useDark = 1 THEN f.dark.b ELSE <<>>) \o (IF e.useBright = 1 THEN f.bright.b ELSE <<>>)
Lines(e, f, k) == IF e.prog = "mser" THEN Ells(e, f)
                  ELSE LET r == f.rows IN
                       CASE k = "output" -> [i \in 1..Len(r) |-> r[i].g \o Cells(r[i].d)]
                         [] k = "frames" -> [i \in 1..Len(r) |-> r[i].g]
                         [] k = "descriptors" -> [i \in 1..Len(r) |-> Cells(r[i].d)]
RawBytes(e, f, k, little) ==
  IF e.prog = "mser"
  THEN IF k = "seeds" THEN LET s == Seeds(e, f) IN Flat([i \in 1..Len(s) |-> Int4(s[i], little)])
       ELSE Real8(EllBytes(e, f), little)
  ELSE LET r == f.rows IN
       CASE k = "output" -> Flat([i \in 1..Len(r) |-> Real8(r[i].b, little) \o [j \in 1..128 |-> Byte(r[i].d[j])]])
         [] k = "frames" -> Flat([i \in 1..Len(r) |-> Real8(r[i].b, little)])
         [] k = "descriptors" -> Flat([i \in 1..Len(r) |-> [j \in 1..128 |-> Byte(r[i].d[j])]])
Nothing(e, f, k) == IF e.prog = "mser" THEN IF k = "seeds" THEN Seeds(e, f) = <<>> ELSE Ells(e, f) = <<>>
                    ELSE f.rows = <<>>
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
RECURSIVE Str(_)
Str(s) == IF s = <<>> THEN "" ELSE SubSeq(Printable, Head(s) - 31, Head(s) - 31) \o Str(Tail(s))
Quoted(s) == "'" \o Str(s) \o "'"
Range(s) == {s[i] : i \in 1..Len(s)}
Content(e, f, ms, k, o, little) ==
  IF k = "meta"
  THEN /\ o.kind = "text" /\ o.lines # <<>>
       /\ LET t == Range(Flat(o.lines)) IN
          /\ Quoted(f.name) \in t
          /\ \A j \in DOMAIN ms : j \in {"frames", "descriptors", "seeds"} /\ ms[j].on => Quoted(NameOf(ms[j], f)) \in t
  ELSE IF Nothing(e, f, k) THEN o.kind = "text" /\ Flat(o.lines) = <<>>
  ELSE IF ms[k].proto = 2 THEN o.kind = "bytes" /\ o.bytes = RawBytes(e, f, k, little)
  ELSE /\ o.kind = "text"
       /\ IF k = "seeds" THEN LET s == Seeds(e, f) IN Flat(o.lines) = [i \in 1..Len(s) |-> ToString(s[i])]
          ELSE o.ends /\ o.lines = Lines(e, f, k)
LevelIs(o, g) == o.kind = "pgm" /\ o.w = g.w /\ o.h = g.h /\ o.mx = 255 /\ o.len = g.w * g.h /\ o.fnv = g.fnv

(* --- one invocation ------------------------------------------------------ *)
Outputs(ms) == {k \in DOMAIN ms : ms[k].on /\ k \notin {"gss", "read-frames"}}
GssOn(e, ms) == e.prog = "sift" /\ ms["gss"].on
Readable(e, f) == f.stat = "ok" \/ (e.prog = "sift" /\ f.stat = "wide")
Succeeds(e, ms, f) ==
  /\ Readable(e, f)
  /\ (e.prog = "sift" /\ ms["read-frames"].on) => f.there /\ ~ f.garbage
  /\ \A k \in Outputs(ms) : LET n == NameOf(ms[k], f) IN
       Creatable(n) /\ (n = FULL => k # "meta" /\ Nothing(e, f, k))
  /\ GssOn(e, ms) => \A i \in 1..Len(f.gss) : Creatable(LevelName(ms["gss"], f, f.gss[i]))
Creates(e, ms, f, n) == \/ \E k \in Outputs(ms) : NameOf(ms[k], f) = n
                        \/ GssOn(e, ms) /\ \E i \in 1..Len(f.gss) : LevelName(ms["gss"], f, f.gss[i]) = n
IsRight(e, ms, f, o, little) ==
  \/ \E k \in Outputs(ms) : NameOf(ms[k], f) = o.name /\ Content(e, f, ms, k, o, little)
  \/ GssOn(e, ms) /\ \E i \in 1..Len(f.gss) : LevelName(ms["gss"], f, f.gss[i]) = o.name /\ LevelIs(o, f.gss[i])
(* every file that is there was asked for, and holds what its last image put in it *)
Explained(e, ms, o, little) ==
  LET P == {i \in 1..Len(e.files) : Creates(e, ms, e.files[i], o.name)} IN
  /\ P # {}
  /\ LET i == Max(P) IN Succeeds(e, ms, e.files[i]) => IsRight(e, ms, e.files[i], o, little)
Present(e, n) == n = FULL \/ \E j \in 1..Len(e.outs) : e.outs[j].name = n
Complete(e, ms, f) ==
  /\ \A k \in Outputs(ms) : Present(e, NameOf(ms[k], f))
  /\ GssOn(e, ms) => \A i \in 1..Len(f.gss) : Present(e, LevelName(ms["gss"], f, f.gss[i]))
RunOk(e) ==
  IF e.help \/ (e.files = <<>> /\ ~ Refused(e)) THEN e.exit = 0 /\ e.said /\ e.outs = <<>>
  ELSE IF Refused(e) THEN e.exit = 1 /\ e.err /\ e.outs = <<>>
  ELSE LET ms == TLCEval(Metas(e.prog, e.specs)) IN
       LET good == {i \in 1..Len(e.files) : Succeeds(e, ms, e.files[i])}
           allgood == good = 1..Len(e.files)
       IN /\ e.exit = (IF allgood THEN 0 ELSE 1)
          /\ e.err = ~ allgood
          /\ \A i \in good : Complete(e, ms, e.files[i])
          /\ \E little \in BOOLEAN : \A j \in 1..Len(e.outs) : Explained(e, ms, e.outs[j], little)
=============================================================================
