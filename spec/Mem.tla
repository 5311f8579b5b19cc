-------------------------------- MODULE Mem --------------------------------
(* Who owns the memory (properties G05).  The library asks the registered
   functions for every block it uses (vl/generic.c, "memory allocation
   functions ... can be customized"), hands each back exactly once, to the
   family it came from, and when the last object is deleted none is left --
   also when an allocation in the middle of a call fails, in which case the
   call says so.

   held    blocks obtained from the registered functions and not returned
   raw     blocks obtained from the C library directly: thread scratch of the
           quantisation of k-means (vl/kmeans.c), which MATLAB's allocator
           cannot serve; nobody else takes any
   lost    requests that were refused since the episode began           *)
EXTENDS Integers, FiniteSets
CONSTANT Scratch                  \* the episodes that may take raw blocks
VARIABLES held, raw, lost, may
mvars == <<held, raw, lost, may>>

MInit == held = {} /\ raw = {} /\ lost = 0 /\ may = FALSE
Begin(what) == held = {} /\ raw = {} /\ held' = {} /\ raw' = {} /\ lost' = 0 /\ may' = (what \in Scratch)
Obtain(p) == p \notin held \union raw /\ held' = held \union {p} /\ UNCHANGED <<raw, lost, may>>
Refuse == lost' = lost + 1 /\ UNCHANGED <<held, raw, may>>
Return(p) == p \in held /\ held' = held \ {p} /\ UNCHANGED <<raw, lost, may>>
Nothing == UNCHANGED mvars                         \* releasing NULL
Move(p, q) == p \in held /\ (q = p \/ q \notin held \union raw) /\ held' = (held \ {p}) \union {q} /\ UNCHANGED <<raw, lost, may>>
Take(p) == may /\ p \notin held \union raw /\ raw' = raw \union {p} /\ UNCHANGED <<held, lost, may>>
Drop(p) == p \in raw /\ raw' = raw \ {p} /\ UNCHANGED <<held, lost, may>>
\* the objects are gone; ok: the calls reported success
End(ok, left) == held = {} /\ raw = {} /\ left = 0 /\ (lost > 0 <=> ~ok) /\ UNCHANGED mvars
=============================================================================
