------------------------------- MODULE Conform -------------------------------
(* Trace validation.  Each recorded trace is a sequence of public operations   *)
(* with arguments and observed outcome.  A step consumes one event: the state   *)
(* moves as the specification prescribes, and the clauses the observed outcome  *)
(* violates are collected, so the verdict on a trace is total.                  *)
EXTENDS Switss, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, heap, bad
vars == <<tid, l, heap, bad>>

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ heap = [x \in {} |-> 0]
        /\ bad = {}

Consume == /\ l <= Len(Traces[tid].ev)
           /\ LET e == Traces[tid].ev[l]
              IN /\ bad' = bad \cup {<<l, c>> : c \in Violated(heap, e)}
                 /\ heap' = Effect(heap, e)
           /\ l' = l + 1
           /\ UNCHANGED tid
Report == /\ l = Len(Traces[tid].ev) + 1
          /\ PrintT("V " \o ToJson(<<tid, bad>>))
          /\ l' = l + 1
          /\ UNCHANGED <<tid, heap, bad>>
Next == Consume \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
