------------------------------- MODULE Getopt -------------------------------
(* The documented grammar of the long option parser, on strings represented
   as sequences of character codes.  State of the scan: the words not yet
   examined, the operands already skipped, the short options still pending
   in the current word.  Every call of the parser is one transition.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

DASH == 45  EQ == 61  COLON == 58  BADCH == 63
NoArg == <<-1>>                          \* "no argument" (not a string)

IsOption(w) == Len(w) >= 2 /\ w[1] = DASH        \* a lone dash is an operand
IsEnd(w)    == w = <<DASH, DASH>>
IsLong(w)   == Len(w) >= 3 /\ w[1] = DASH /\ w[2] = DASH
HasEq(w)    == \E i \in 1..Len(w) : w[i] = EQ
EqPos(w)    == CHOOSE i \in 1..Len(w) : w[i] = EQ /\ \A j \in 1..(i-1) : w[j] # EQ
NameOf(w)   == LET b == SubSeq(w, 3, Len(w)) IN IF HasEq(b) THEN SubSeq(b, 1, EqPos(b)-1) ELSE b
ValueOf(w)  == LET b == SubSeq(w, 3, Len(w)) IN IF HasEq(b) THEN SubSeq(b, EqPos(b)+1, Len(b)) ELSE NoArg

(* short option table: a string such as "hbf:", possibly with leading ':' *)
Shorts(opts) == IF opts # <<>> /\ opts[1] = COLON THEN Tail(opts) ELSE opts
Quiet(opts)  == opts # <<>> /\ opts[1] = COLON
ShortKnown(opts, c) == \E i \in 1..Len(Shorts(opts)) : Shorts(opts)[i] = c
ShortArg(opts, c) == LET s == Shorts(opts)
                         i == CHOOSE j \in 1..Len(s) : s[j] = c /\ \A k \in 1..(j-1) : s[k] # c
                     IN i < Len(s) /\ s[i+1] = COLON
Missing(opts) == IF Quiet(opts) THEN COLON ELSE BADCH

(* long option table: sequence of [name, arg, flag, val]; first match counts *)
LongIdx(longs, n) == IF \E i \in 1..Len(longs) : longs[i].name = n
                     THEN CHOOSE i \in 1..Len(longs) : longs[i].name = n /\ \A j \in 1..(i-1) : longs[j].name # n
                     ELSE 0

(* result of one call: what it reports and the state after it.
   state: [rest, ops, short, done]   done: words consumed, in order            *)
Out(ret, arg, idx, opt, flag) == [ret |-> ret, arg |-> arg, idx |-> idx, opt |-> opt, flag |-> flag]
St(rest, ops, short, done) == [rest |-> rest, ops |-> ops, short |-> short, done |-> done]

ShortStep(s, opts) ==      \* s.short # <<>>; the word it belongs to is Last(s.done)
  LET c == s.short[1]  more == Tail(s.short)
  IN IF ~ShortKnown(opts, c) THEN [out |-> Out(BADCH, NoArg, -1, c, 0), st |-> [s EXCEPT !.short = more]]
     ELSE IF ~ShortArg(opts, c) THEN [out |-> Out(c, NoArg, -1, c, 0), st |-> [s EXCEPT !.short = more]]
     ELSE IF more # <<>> THEN [out |-> Out(c, more, -1, c, 0), st |-> [s EXCEPT !.short = <<>>]]
     ELSE IF s.rest = <<>> THEN [out |-> Out(Missing(opts), NoArg, -1, c, 0), st |-> [s EXCEPT !.short = <<>>]]
     ELSE [out |-> Out(c, Head(s.rest), -1, c, 0),
           st |-> St(Tail(s.rest), s.ops, <<>>, Append(s.done, Head(s.rest)))]

LongStep(s, w, opts, longs) ==   \* s with w already consumed
  LET i == LongIdx(longs, NameOf(w))
  IN IF i = 0 THEN [out |-> Out(BADCH, NoArg, -1, -1, 0), st |-> s]
     ELSE LET o == longs[i]
              ret == IF o.flag THEN 0 ELSE o.val
              flg == IF o.flag THEN o.val ELSE 0
          IN IF o.arg = 0 THEN [out |-> Out(ret, NoArg, i-1, -1, flg), st |-> s]
             ELSE IF HasEq(SubSeq(w, 3, Len(w))) THEN [out |-> Out(ret, ValueOf(w), i-1, -1, flg), st |-> s]
             ELSE IF o.arg = 2 THEN [out |-> Out(ret, NoArg, i-1, -1, flg), st |-> s]
             ELSE IF s.rest = <<>> THEN [out |-> Out(Missing(opts), NoArg, i-1, -1, 0), st |-> s]
             ELSE [out |-> Out(ret, Head(s.rest), i-1, -1, flg),
                   st |-> St(Tail(s.rest), s.ops, <<>>, Append(s.done, Head(s.rest)))]

RECURSIVE SkipOps(_)
SkipOps(s) == IF s.rest = <<>> \/ IsOption(Head(s.rest)) THEN s
              ELSE SkipOps(St(Tail(s.rest), Append(s.ops, Head(s.rest)), <<>>, s.done))

End(s) == Out(-1, NoArg, -1, -1, 0)
Call(s, opts, longs) ==
  IF s.short # <<>> THEN ShortStep(s, opts)
  ELSE LET t == SkipOps(s)
       IN IF t.rest = <<>> THEN [out |-> End(t), st |-> t]
          ELSE LET w == Head(t.rest)
                   u == St(Tail(t.rest), t.ops, <<>>, Append(t.done, w))
               IN IF IsEnd(w) THEN [out |-> End(u), st |-> St(<<>>, t.ops \o Tail(t.rest), <<>>, u.done)]
                  ELSE IF IsLong(w) THEN LongStep(u, w, opts, longs)
                  ELSE ShortStep([u EXCEPT !.short = Tail(w)], opts)

Start(words) == St(words, <<>>, <<>>, <<>>)
=============================================================================
