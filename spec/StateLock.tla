----------------------------- MODULE StateLock -----------------------------
(* The library's recursive state lock, step by step as it is built from a
   mutex, a condition variable, an owner and a count; used by every thread to
   find (or lazily create) its own state.  One action per pthread call.
   Spurious wake-ups are allowed.                                            *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Threads, Depth, Rounds
NoT == "none"
VARIABLES pc, mx, owner, count, waiting, depth, rounds, tls, created
vars == <<pc, mx, owner, count, waiting, depth, rounds, tls, created>>

Init == /\ pc = [t \in Threads |-> "idle"] /\ mx = NoT /\ owner = NoT /\ count = 0
        /\ waiting = {} /\ depth = [t \in Threads |-> 0] /\ rounds = [t \in Threads |-> 0]
        /\ tls = [t \in Threads |-> 0] /\ created = 0
Go(t, p) == pc' = [pc EXCEPT ![t] = p]

\* --- taking the lock
BeginLock(t) == /\ pc[t] = "idle" /\ rounds[t] < Rounds /\ depth[t] < Depth
                /\ Go(t, "lk") /\ UNCHANGED <<mx, owner, count, waiting, depth, rounds, tls, created>>
LkMutex(t) == /\ pc[t] = "lk" /\ mx = NoT /\ mx' = t
              /\ Go(t, "test") /\ UNCHANGED <<owner, count, waiting, depth, rounds, tls, created>>
LkTest(t) == /\ pc[t] = "test" /\ mx = t
             /\ \/ /\ count >= 1 /\ owner = t /\ count' = count + 1
                   /\ Go(t, "lkrel") /\ UNCHANGED <<owner, waiting, mx>>
                \/ /\ count >= 1 /\ owner # t
                   /\ waiting' = waiting \cup {t} /\ mx' = NoT /\ Go(t, "wait") /\ UNCHANGED <<owner, count>>
                \/ /\ count = 0 /\ owner' = t /\ count' = 1 /\ Go(t, "lkrel") /\ UNCHANGED <<waiting, mx>>
             /\ UNCHANGED <<depth, rounds, tls, created>>
Spurious(t) == /\ pc[t] = "wait" /\ t \in waiting /\ waiting' = waiting \ {t}
               /\ UNCHANGED <<pc, mx, owner, count, depth, rounds, tls, created>>
LkWake(t) == /\ pc[t] = "wait" /\ t \notin waiting /\ mx = NoT /\ mx' = t
             /\ Go(t, "retest") /\ UNCHANGED <<owner, count, waiting, depth, rounds, tls, created>>
LkRetest(t) == /\ pc[t] = "retest"     \* the while loop around the wait
               /\ IF count >= 1 THEN waiting' = waiting \cup {t} /\ mx' = NoT /\ Go(t, "wait") /\ UNCHANGED <<owner, count>>
                  ELSE owner' = t /\ count' = 1 /\ Go(t, "lkrel") /\ UNCHANGED <<waiting, mx>>
               /\ UNCHANGED <<depth, rounds, tls, created>>
LkRelease(t) == /\ pc[t] = "lkrel" /\ mx = t /\ mx' = NoT /\ depth' = [depth EXCEPT ![t] = @ + 1]
                /\ Go(t, "in") /\ UNCHANGED <<owner, count, waiting, rounds, tls, created>>
\* --- holding it: find or create the thread's state, or nest once more
Lookup(t) == /\ pc[t] = "in" /\ IF tls[t] = 0 THEN tls' = [tls EXCEPT ![t] = created + 1] /\ created' = created + 1
                                ELSE UNCHANGED <<tls, created>>
             /\ Go(t, "ul") /\ UNCHANGED <<mx, owner, count, waiting, depth, rounds>>
Nest(t) == /\ pc[t] = "in" /\ depth[t] < Depth /\ Go(t, "lk")
           /\ UNCHANGED <<mx, owner, count, waiting, depth, rounds, tls, created>>
\* --- releasing it
UlMutex(t) == /\ pc[t] = "ul" /\ mx = NoT /\ mx' = t /\ Go(t, "uldec")
              /\ UNCHANGED <<owner, count, waiting, depth, rounds, tls, created>>
UlDec(t) == /\ pc[t] = "uldec" /\ count' = count - 1
            /\ IF count = 1 THEN (IF waiting = {} THEN UNCHANGED waiting ELSE \E w \in waiting : waiting' = waiting \ {w})
               ELSE UNCHANGED waiting
            /\ depth' = [depth EXCEPT ![t] = @ - 1]
            /\ Go(t, "ulrel") /\ UNCHANGED <<mx, owner, rounds, tls, created>>
UlRelease(t) == /\ pc[t] = "ulrel" /\ mx = t /\ mx' = NoT
                /\ IF depth[t] > 0 THEN Go(t, "ul") /\ UNCHANGED rounds
                   ELSE Go(t, "idle") /\ rounds' = [rounds EXCEPT ![t] = @ + 1]
                /\ UNCHANGED <<owner, count, waiting, depth, tls, created>>
Step(t) == \/ BeginLock(t) \/ LkMutex(t) \/ LkTest(t) \/ Spurious(t) \/ LkWake(t) \/ LkRetest(t) \/ LkRelease(t)
           \/ Lookup(t) \/ Nest(t) \/ UlMutex(t) \/ UlDec(t) \/ UlRelease(t)
Finished == \A t \in Threads : pc[t] = "idle" /\ rounds[t] = Rounds
Next == (\E t \in Threads : Step(t)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(LkMutex(t) \/ LkTest(t) \/ LkWake(t) \/ LkRetest(t) \/ LkRelease(t)
                                      \/ Lookup(t) \/ UlMutex(t) \/ UlDec(t) \/ UlRelease(t) \/ BeginLock(t)) /\ SF_vars(LkMutex(t)) /\ SF_vars(LkWake(t)) /\ SF_vars(UlMutex(t))

Holding(t) == depth[t] > 0
Mutex == Cardinality({t \in Threads : Holding(t)}) <= 1
OwnerOK == \A t \in Threads : Holding(t) => owner = t /\ count >= 1
OwnState == \A t, u \in Threads : t # u /\ tls[t] # 0 => tls[t] # tls[u]
Stable == [][\A t \in Threads : tls[t] # 0 => tls'[t] = tls[t]]_vars
AllDone == <>Finished
=============================================================================
