------------------------------ MODULE MC_Subsys ------------------------------
(* Design model: the subsystem induced by a set K of states (Reach.tla) has, where *)
(* it is a reachability form, the extremal values of the form with everything else  *)
(* lost; labels never make a bigger set of labels a smaller system (C19).           *)
EXTENDS SmallMDP
Good == Complete /\ Form
Map(K, s) == Rank(K, s)
InducedOK == Good => \A K \in SUBSET Inner : 0 \in K =>
  LET X == Induced(R, K) IN
  /\ WellFormed(X, "mdp")
  /\ \A s \in K : /\ Same(FMax(X, Map(K, s)), PrMaxK(K, s))
                  /\ Same(FMin(X, Map(K, s)), PrMinK(K, s))
  /\ K = Inner => IsRF(X, "init", "goal", "fail")
\* a witness of positive value contains one that is a reachability form of the same value
Trim == Good => \A K \in SUBSET Inner : 0 \in K /\ PrMaxK(K, 0)[1] > 0 =>
  \E L \in SUBSET K : IsRF(Induced(R, L), "init", "goal", "fail") /\ Same(PrMaxK(L, 0), PrMaxK(K, 0))
\* the trimmed states are those on a path to goal within K
Labels == {<<{0}, {1}>>, <<{0, 1}, {1}>>, <<{}, {0}>>}
LabelMono == Good => \A p \in Labels :
  LET Ml == [M EXCEPT !.lab = @ \o <<[l |-> "a", s |-> [i \in 1..Cardinality(p[1]) |-> CHOOSE s \in p[1] : Rank(p[1], s) = i - 1]],
                                      [l |-> "b", s |-> [i \in 1..Cardinality(p[2]) |-> CHOOSE s \in p[2] : Rank(p[2], s) = i - 1]]>>]
      Ls == {"a", "b"}
      al(L) == Allowed(Ml, Ls, L) \cap Inner
  IN /\ \A L1, L2 \in SUBSET Ls : L1 \subseteq L2 => al(L1) \subseteq al(L2)
     /\ al(Ls) = Inner
     \* a set of states uses only labels L iff it is a subset of what L allows
     /\ \A K \in SUBSET Inner, L \in SUBSET Ls : (Carried(Ml, Ls, K) \subseteq L) = (K \subseteq al(L))
=============================================================================
