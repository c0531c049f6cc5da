------------------------------- MODULE GenForm -------------------------------
(* Every small reachability form (SmallMDP.tla), handed to the implementation.   *)
EXTENDS SmallMDP, Json
Emit == (Complete /\ Form) =>
  PrintT("B " \o ToJson([n |-> M.n, D |-> DD, rows |-> Plain, ec |-> ECStates(M) # {}, term |-> TerminatesRF(M)]))
=============================================================================
