----------------------------- MODULE GenShared -----------------------------
(* Schedules of work on one shared form: two minimisations that are started,    *)
(* advanced and left suspended at any point, and queries in between.            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Iters, Queries, Steps
VARIABLES pc, ops
vars == <<pc, ops>>
Init == pc = [i \in Iters |-> 0] /\ ops = <<>>     \* 0 not started, k+1 after k results
Start(i) == pc[i] = 0 /\ pc' = [pc EXCEPT ![i] = 1] /\ ops' = Append(ops, [op |-> "start", i |-> i])
Step(i) == pc[i] \in 1..Steps /\ pc' = [pc EXCEPT ![i] = @ + 1] /\ ops' = Append(ops, [op |-> "next", i |-> i])
Ask(q) == pc' = pc /\ ops' = Append(ops, [op |-> "ask", i |-> q])
Next == Len(ops) < Depth /\ ((\E i \in Iters : Start(i) \/ Step(i)) \/ (\E q \in Queries : Ask(q)))
Spec == Init /\ [][Next]_vars
\* only schedules in which two activities are really interleaved are of interest
Kinds == {<<ops[j].op = "ask", ops[j].i>> : j \in 1..Len(ops)}
Interleaved == \E j \in 1..Len(ops) : \E k \in j + 2..Len(ops) :
  ops[j].op # "ask" /\ ops[k].op = "next" /\ ops[k].i = ops[j].i /\ \E l \in j + 1..k - 1 : <<ops[l].op = "ask", ops[l].i>> # <<FALSE, ops[j].i>>
Emit == (Len(ops) = Depth /\ Interleaved) => PrintT("B " \o ToJson([ops |-> ops]))
=============================================================================
