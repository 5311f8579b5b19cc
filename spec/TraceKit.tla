------------------------------ MODULE TraceKit ------------------------------
(* Scaffolding shared by every trace specification: the recorded trace, and
   the acceptance condition.  A trace specification consumes exactly one
   recorded event per step, so the trace is a behaviour of the specification
   iff TLC reaches a state at depth Len(Trace)+1.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VF_TRACE)

TraceAccepted ==
  LET d == TLCGet("stats").diameter
  IN  IF d - 1 = Len(Trace) THEN TRUE
      ELSE PrintT("VF-REJECTED-AT " \o ToString(d)) /\ FALSE
=============================================================================
