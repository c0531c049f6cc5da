------------------------------- MODULE MC_Heur -------------------------------
(* Design model of the quotient-sum heuristic (C18, C20): the program of a form  *)
(* and threshold is abstracted to the family of group sets that can be the        *)
(* positive indicators of a feasible point -- a family closed under enlarging,    *)
(* as every witness stays one when states are added.  A round picks any feasible  *)
(* set of least weight, an update computes new weights (and may fix the vanished  *)
(* groups to zero).                                                               *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Groups, Iters, Fixing
VARIABLES fam, weights, fixed, results, phase
vars == <<fam, weights, fixed, results, phase>>
Penalty == 100
UpClosed(S) == \A A \in S : \A B \in SUBSET Groups : A \subseteq B => B \in S
Families == {S \in SUBSET (SUBSET Groups) : UpClosed(S)}
Success(i) == results[i] # <<>>
Got(i) == results[i][1]
Init == /\ fam \in Families /\ weights = [g \in Groups |-> 1] /\ fixed = {} /\ results = <<>> /\ phase = "solve"
RECURSIVE Sum(_, _)
Sum(w, A) == IF A = {} THEN 0 ELSE LET g == CHOOSE x \in A : TRUE IN w[g] + Sum(w, A \ {g})
Feasible == {A \in fam : A \cap fixed = {}}
Least == {A \in Feasible : \A B \in Feasible : Sum(weights, A) <= Sum(weights, B)}
Solve == /\ phase = "solve" /\ Len(results) < Iters
         /\ IF Feasible = {} THEN results' = Append(results, <<>>) /\ phase' = "stop"
            ELSE \E A \in Least : results' = Append(results, <<A>>) /\ phase' = "update"
         /\ UNCHANGED <<fam, weights, fixed>>
\* positive indicators get some quotient weight, vanished ones the penalty (or are fixed and need none)
Update == /\ phase = "update"
          /\ LET A == Got(Len(results)) IN
             \E w \in [A -> 1..3] :
                /\ weights' = [g \in Groups |-> IF g \in A THEN w[g] ELSE IF Fixing THEN 0 ELSE Penalty]
                /\ fixed' = IF Fixing THEN fixed \cup (Groups \ A) ELSE fixed
          /\ phase' = "solve" /\ UNCHANGED <<fam, results>>
Next == Solve \/ Update
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* a feasible program stays feasible through every update, an infeasible one is so at once
FeasibleAll == (fam # {}) => \A i \in 1..Len(results) : Success(i)
InfeasibleOnce == (fam = {}) => Len(results) <= 1
Witnesses == \A i \in 1..Len(results) : Success(i) => Got(i) \in fam
\* with fixing the set of groups only shrinks, and vanished groups never come back
Shrinks == Fixing => \A i \in 2..Len(results) : Success(i) /\ Success(i - 1) => Got(i) \subseteq Got(i - 1)
NeverBack == Fixing => \A i \in 2..Len(results) : Success(i) => Got(i) \cap (Groups \ Got(i - 1)) = {}
Bounded == Len(results) <= Iters
Ends == <>(phase = "stop" \/ Len(results) = Iters)
=============================================================================
