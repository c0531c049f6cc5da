------------------------------- MODULE MC_Graph -------------------------------
(* Design model: on every support structure with NS states and at most NA       *)
(* actions per state the refinement algorithms of MDPCore agree with the        *)
(* declarative definitions (end components, strong connectivity, reachability). *)
(* Structures are grown action by action so that TLC explores them in parallel. *)
EXTENDS MDPCore
CONSTANTS NS, NA
VARIABLES rows
S == 0..(NS - 1)
Model == [n |-> NS, D |-> 1, rows |-> rows, lab |-> <<>>, alab |-> <<>>, rew |-> <<>>]
SetToSeq(X) == CHOOSE q \in [1..Cardinality(X) -> X] : \A i, j \in 1..Cardinality(X) : i < j => q[i] < q[j]
Mk(s, a, X) == [s |-> s, a |-> a, t |-> [i \in 1..Cardinality(X) |-> <<SetToSeq(X)[i], 1>>]]
Code(X) == SumSet(LAMBDA x : 2^x, X)
Init == rows = <<>>
\* actions of a state are added in increasing order of their support, states in order
Add(s, X) ==
  /\ rows # <<>> => rows[Len(rows)].s <= s
  /\ LET own == {i \in 1..Len(rows) : rows[i].s = s}
     IN /\ Cardinality(own) < NA
        /\ \A i \in own : Code({x[1] : x \in Range(rows[i].t)}) < Code(X)
        /\ s > 0 => \E i \in 1..Len(rows) : rows[i].s = s - 1
        /\ rows' = Append(rows, Mk(s, Cardinality(own), X))
Next == \E s \in S, X \in (SUBSET S \ {{}}) : Add(s, X)
Spec == Init /\ [][Next]_rows
Complete == \A s \in S : RowsOf(Model, s) # {}

ECs == {T \in SUBSET S : IsEC(Model, T)}
MaxECs == {T \in ECs : \A U \in ECs : T \subseteq U => U = T}
DeclMECs == MaxECs \cup {{s} : s \in S \ UNION MaxECs}
MecOK == Complete => /\ MECs(Model) = DeclMECs
                     /\ ProperStates(Model) = UNION MaxECs
                     /\ \A T, U \in ECs : T \cap U # {} => (T \cup U) \in ECs
Step(T) == {e[2] : e \in {x \in Edges(Model) : x[1] \in T}}
DReach(s) == Lfp(Step, {s})
SccOK == Complete => SCCs(Model) = {{t \in S : t \in DReach(s) /\ s \in DReach(t)} : s \in S}
BlockStep(B, T) == {e[2] : e \in {x \in Edges(Model) : x[1] \in T \ B}}
ReachOK == Complete => \A s \in S, B \in SUBSET S :
   LET f(T) == BlockStep(B, T) IN /\ Reach(Model, {s}, "forward", B) = Lfp(f, {s})
                                  /\ \A t \in S : (t \in Reach(Model, {s}, "forward", {})) <=> (s \in Reach(Model, {t}, "backward", {}))
\* sure self loops are exactly the proper singletons; end components avoid leaving states
=============================================================================
