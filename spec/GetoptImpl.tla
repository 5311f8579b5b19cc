----------------------------- MODULE GetoptImpl -----------------------------
(* The parser as the library implements it: one array permuted in place with
   the global cursor optind.  TLC checks on every small argument vector that
   the permuting machine refines the grammar of Getopt (same reports), never
   loses a word, terminates, and leaves the operands last and in order.        *)
EXTENDS Getopt, TLC
CONSTANTS MaxLen
H == 104  F == 102  X == 120  B == 98
Words == { <<X>>, <<>>, <<DASH>>, <<DASH,DASH>>, <<DASH,H>>, <<DASH,F>>, <<DASH,F,X>>, <<DASH,H,F>>, <<DASH,B,H>>,
           <<DASH,DASH,H>>, <<DASH,DASH,F>>, <<DASH,DASH,F,EQ,X>>, <<DASH,DASH,X>>, <<DASH,DASH,B>> }
Opts  == { <<H,F,COLON>>, <<COLON,H,F,COLON>> }
Longs == << [name |-> <<H>>, arg |-> 0, flag |-> FALSE, val |-> 1], [name |-> <<F>>, arg |-> 1, flag |-> TRUE, val |-> 2],
            [name |-> <<X>>, arg |-> 2, flag |-> FALSE, val |-> 3] >>
Vectors == UNION { [1..n -> Words] : n \in 0..MaxLen }

VARIABLES argv, optind, place, beg, spec, imp, spc, orig, opts
vars == <<argv, optind, place, beg, spec, imp, spc, orig, opts>>
NoOut == Out(-2, NoArg, -1, -1, 0)

Init == /\ orig \in Vectors /\ opts \in Opts /\ argv = orig /\ optind = 1 /\ place = <<>> /\ beg = 0
        /\ spec = Start(orig) /\ imp = NoOut /\ spc = NoOut

(* rotate argv[b..e-1] down to position i (1-based, half-open) *)
Rotate(a, i, b, e) == SubSeq(a, 1, i-1) \o SubSeq(a, b, e-1) \o SubSeq(a, i, b-1) \o SubSeq(a, e, Len(a))
Done(b, e) == argv' = Rotate(argv, optind, b, e) /\ optind' = optind + (e - b) /\ place' = <<>> /\ beg' = 0

ImplShort(b, pl) ==
  LET c == pl[1] more == Tail(pl) e == b + 1 IN
  IF more # <<>> /\ (~ShortKnown(opts, c) \/ ~ShortArg(opts, c))
  THEN /\ UNCHANGED <<argv, optind>> /\ place' = more /\ beg' = b
       /\ imp' = IF ShortKnown(opts, c) THEN Out(c, NoArg, -1, c, 0) ELSE Out(BADCH, NoArg, -1, c, 0)
  ELSE IF ~ShortKnown(opts, c) THEN Done(b, e) /\ imp' = Out(BADCH, NoArg, -1, c, 0)
  ELSE IF ~ShortArg(opts, c) THEN Done(b, e) /\ imp' = Out(c, NoArg, -1, c, 0)
  ELSE IF more # <<>> THEN Done(b, e) /\ imp' = Out(c, more, -1, c, 0)
  ELSE IF b >= Len(argv) THEN Done(b, e) /\ imp' = Out(Missing(opts), NoArg, -1, c, 0)
  ELSE Done(b, e + 1) /\ imp' = Out(c, argv[e], -1, c, 0)

ImplLong(b) ==
  LET w == argv[b] i == LongIdx(Longs, NameOf(w)) e == b + 1 IN
  IF i = 0 THEN Done(b, e) /\ imp' = Out(BADCH, NoArg, -1, -1, 0)
  ELSE LET o == Longs[i] ret == IF o.flag THEN 0 ELSE o.val flg == IF o.flag THEN o.val ELSE 0 IN
    IF o.arg # 0 /\ ValueOf(w) # NoArg THEN Done(b, e) /\ imp' = Out(ret, ValueOf(w), i-1, -1, flg)
    ELSE IF o.arg = 1 THEN IF b >= Len(argv) THEN Done(b, e) /\ imp' = Out(Missing(opts), NoArg, i-1, -1, 0)
                           ELSE Done(b, e + 1) /\ imp' = Out(ret, argv[e], i-1, -1, flg)
    ELSE Done(b, e) /\ imp' = Out(ret, NoArg, i-1, -1, flg)

Active == imp.ret # -1
FirstOpt == {k \in optind..Len(argv) : IsOption(argv[k]) /\ \A j \in optind..(k-1) : ~IsOption(argv[j])}
DoCall == /\ Active
          /\ LET r == Call(spec, opts, Longs) IN spec' = r.st /\ spc' = r.out
          /\ IF place # <<>> THEN ImplShort(beg, place)
             ELSE IF FirstOpt = {} THEN UNCHANGED <<argv, optind, place, beg>> /\ imp' = Out(-1, NoArg, -1, -1, 0)
             ELSE LET b == CHOOSE k \in FirstOpt : TRUE IN
                  IF IsEnd(argv[b]) THEN Done(b, b + 1) /\ imp' = Out(-1, NoArg, -1, -1, 0)
                  ELSE IF IsLong(argv[b]) THEN ImplLong(b)
                  ELSE ImplShort(b, Tail(argv[b]))
          /\ UNCHANGED <<orig, opts>>
Next == DoCall
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Count(s, w) == Cardinality({k \in 1..Len(s) : s[k] = w})
SameReports == imp = spc
Lossless == \A w \in Words : Count(argv, w) = Count(orig, w)
Final == ~Active => /\ spec.short = <<>> /\ spec.rest = <<>> /\ argv = spec.done \o spec.ops /\ optind = Len(spec.done) + 1
Terminates == <>(~Active)
=============================================================================
