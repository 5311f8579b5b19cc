---------------------------- MODULE DsiftBuffers ----------------------------
(* A DSIFT filter keeps buffers from one image to the next and replaces them
   when the geometry asks for others: one block of descriptors, one of frames
   and one gradient map for each orientation.  Settings change in any order.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS TS, XYS, FS, TESTT, TESTB, TESTF   \* orientations, spatial bins, frames; which sizes are compared
VARIABLES t, xy, f, blocks, asked, ok, steps
vars == <<t, xy, f, blocks, asked, ok, steps>>
Nothing == [maps |-> 0, descr |-> 0, frames |-> 0]
Init == t \in TS /\ xy \in XYS /\ f \in FS /\ blocks = Nothing /\ asked = <<0, 0, 0>> /\ ok = TRUE /\ steps = 0
Tick == steps < 5 /\ steps' = steps + 1
Geometry == \E a \in TS, b \in XYS : Tick /\ t' = a /\ xy' = b /\ UNCHANGED <<f, blocks, asked, ok>>
Bounds == \E c \in FS : Tick /\ f' = c /\ UNCHANGED <<t, xy, blocks, asked, ok>>
Process == LET size == t * xy
               renew == (TESTB /\ asked[1] # size) \/ (TESTT /\ asked[2] # t) \/ (TESTF /\ asked[3] # f)
               B == IF renew THEN [maps |-> t, descr |-> size * f, frames |-> f] ELSE blocks
           IN /\ Tick /\ blocks' = B /\ asked' = (IF renew THEN <<size, t, f>> ELSE asked)
              /\ ok' = (t <= B.maps /\ size * f <= B.descr /\ f <= B.frames)
              /\ UNCHANGED <<t, xy, f>>
Next == Geometry \/ Bounds \/ Process
Spec == Init /\ [][Next]_vars
Fits == ok
=============================================================================
