------------------------------ MODULE MC_Reduce ------------------------------
(* Design model: reduction (Reach.tla) on every small model with every set of     *)
(* targets yields a reachability form (or is not defined), keeps the extremal      *)
(* probabilities of all kept states (C09), and -- for reward forms -- is accepted   *)
(* as terminating exactly when goal is reached surely under every scheduler (C13). *)
(* Subsystems of a form (C21) are forms exactly when what remains is connected,     *)
(* and have the value of the form with everything else lost.                       *)
EXTENDS SmallMDP
\* here the two last states are ordinary ones as well: a model over Inner with target sets T
Model == [n |-> NI, D |-> DD, rows |-> Plain, lab |-> <<[l |-> "init", s |-> <<0>>]>>, alab |-> <<>>, rew |-> <<>>, kind |-> "mdp"]
Closed == \A i \in 1..Len(rows) : \A x \in Range(rows[i].t) : x[1] \in Inner
ClosedSoFar == Closed
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET x == MinSet(S) IN <<x>> \o Asc(S \ {x})
With(T) == [Model EXCEPT !.lab = Append(@, [l |-> "T", s |-> Asc(T)])]
\* true extremal values in the model: runs stop at T
TVal(f, T, s) ==
  LET C == [W |-> [u \in Inner |-> [d \in 0..(NI + 1) |-> IF u \in T THEN IF d = G THEN DD ELSE 0 ELSE IF d \in Inner THEN ProbTo(Model, f[u], d) ELSE 0]],
            den |-> [u \in Inner |-> DD], rw |-> [u \in Inner |-> 0]]
      X == Only(C, Inner, s)
      d == X.den[s] - X.W[s][s]
  IN IF d = 0 THEN <<0, 1>> ELSE <<X.W[s][G], d>>
TMax(T, s) == RatMax({TVal(f, T, s) : f \in Scheds(Inner)})
TMin(T, s) == RatMin({TVal(f, T, s) : f \in Scheds(Inner)})
Number(K) == [s \in K |-> Rank(K, s)]
Ready == Complete /\ Closed
IsFormOK == Ready => \A T \in SUBSET Inner \ {{}} : ReduceDefined(With(T), "init", "T") =>
  LET K == Kept(With(T), "init", T) X == Reduced(With(T), "init", T, Number(K), "rf_target", "rf_fail") IN
  /\ WellFormed(X, "mdp") /\ IsRF(X, "init", "rf_target", "rf_fail")
Preserve == Ready => \A T \in SUBSET Inner \ {{}} : ReduceDefined(With(T), "init", "T") =>
  LET K == Kept(With(T), "init", T) f == Number(K) X == Reduced(With(T), "init", T, f, "rf_target", "rf_fail") IN
  \A s \in K : Same(TMax(T, s), FMax(X, f[s])) /\ Same(TMin(T, s), FMin(X, f[s]))
\* every scheduler reaches a target surely from every kept state
Sure == Ready => \A T \in SUBSET Inner \ {{}} : ReduceDefined(With(T), "init", "T") =>
  LET K == Kept(With(T), "init", T) X == Reduced(With(T), "init", T, Number(K), "rf_target", "rf_fail") IN
  TerminatesRF(X) = (\A s \in K : Same(TMin(T, s), <<1, 1>>))
\* reducing a form again changes nothing but the number of states before goal
Again == Ready => \A T \in SUBSET Inner \ {{}} : ReduceDefined(With(T), "init", "T") =>
  LET K == Kept(With(T), "init", T) X == Reduced(With(T), "init", T, Number(K), "rf_target", "rf_fail")
      K2 == Kept(X, "init", {Goal(X)})
      Y == Reduced(X, "init", {Goal(X)}, Number(K2), "t2", "f2")
  IN K2 = States(X) \ {Fail(X)} /\ Same(FMax(Y, 0), FMax(X, 0))
=============================================================================
