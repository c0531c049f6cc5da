------------------------------ MODULE MC_Farkas ------------------------------
(* Design model: what the conditions on certificates (Farkas.tla) mean.  On every *)
(* small reachability form and for every vector of a grid:                        *)
(*  Sound     a vector satisfying the system for a mode and comparison bounds the *)
(*            extremal probability from the side it claims                        *)
(*  Complete  the bound is attained: the extremal values (or the state-action     *)
(*            frequencies of an optimal scheduler) satisfy the system; for upper   *)
(*            bounds on minimal probabilities only without end components         *)
(*  Support   the states with a positive entry alone attain the claimed value, so *)
(*            minimisation over points of the polytope yields witnesses (C17-C19) *)
(*  Converse  every subsystem is the support of such a point for its value        *)
EXTENDS SmallMDP
CONSTANTS W, Top, Q
NR_ == Len(M.rows) - 2
Grid(k) == [1..k -> 0..Top]
True_(mode) == IF mode = "min" THEN PrMinK(Inner, 0) ELSE PrMaxK(Inner, 0)
\* the claimed value as a rational
Claim(mode, sense, vec, w) == <<Claimed(R, mode, sense, vec), DD * w>>
Dim(mode, sense) == IF CertForm(mode, sense) = "z" THEN NI ELSE NR_
Good == Complete /\ Form
Sound == Good => \A mode \in {"min", "max"}, sense \in {">=", "<="} :
  \A vec \in Grid(Dim(mode, sense)) : SystemOK(R, mode, sense, vec, W, 0) =>
     LET c == Claim(mode, sense, vec, W) IN IF sense = ">=" THEN Leq(c, True_(mode)) ELSE Leq(True_(mode), c)

\* expected number of visits to s from state 0 under f, over Q; states that are never left count as not visited
Visits(f, s) ==
  LET C0 == ChainOf(f, Inner)
      RECURSIVE Part(_, _)
      Part(C, K) == IF K \subseteq {0, s} THEN C ELSE LET x == CHOOSE y \in K \ {0, s} : TRUE IN Part(Without(C, K, x), K \ {x})
      C == Part(C0, Inner)
      D0 == Only(C0, Inner, s)
      ret == D0.den[s] - D0.W[s][s]
  IN IF ret = 0 THEN <<0, 1>>
     ELSE IF s = 0 THEN <<D0.den[0], ret>>
     ELSE IF C.den[0] = C.W[0][0] THEN <<0, 1>>
     ELSE <<C.W[0][s] * D0.den[s], (C.den[0] - C.W[0][0]) * ret>>
FlowOf(f) == [i \in 1..NR_ |-> IF f[M.rows[i].s] = i THEN OverQ(Visits(f, M.rows[i].s), Q) ELSE 0]
ZOf(val(_)) == [i \in 1..NI |-> OverQ(val(i - 1), Q)]
NoEC == ECStates(M) = {}
CompleteOK == Good =>
  LET mn(s) == PrMinK(Inner, s)
      mx(s) == PrMaxK(Inner, s)
      eq(mode, sense, vec) == SystemOK(R, mode, sense, vec, Q, 0) /\ LET c == Claim(mode, sense, vec, Q) IN Leq(c, True_(mode)) /\ Leq(True_(mode), c)
  IN /\ eq("min", ">=", ZOf(mn))
     /\ eq("max", "<=", ZOf(mx))
     /\ \E f \in Scheds(Inner) : eq("max", ">=", FlowOf(f))
     /\ NoEC => \E f \in Scheds(Inner) : eq("min", "<=", FlowOf(f))
Supp_(mode, vec) == IF mode = "min" THEN {s \in Inner : vec[s + 1] > 0} ELSE {M.rows[i].s : i \in {j \in 1..NR_ : vec[j] > 0}}
ValK(mode, K) == IF mode = "min" THEN PrMinK(K, 0) ELSE PrMaxK(K, 0)
Support == Good => \A mode \in {"min", "max"} : \A vec \in Grid(Dim(mode, ">=")) :
  SystemOK(R, mode, ">=", vec, W, 0) => Leq(Claim(mode, ">=", vec, W), ValK(mode, Supp_(mode, vec)))
Converse == Good => \A K \in SUBSET Inner :
  LET mn(s) == PrMinK(K, s)
      z == ZOf(mn)
            sub(f) == [i \in 1..NR_ |-> IF M.rows[i].s \in K THEN f[i] ELSE 0]
  IN /\ SystemOK(R, "min", ">=", z, Q, 0) /\ Supp_("min", z) \subseteq K /\ Same(Claim("min", ">=", z, Q), ValK("min", K))
     /\ 0 \in K => ValK("min", K)[1] = 0 \/ 0 \in Supp_("min", z)
\* without the zeros on end components the conditions for minimal probabilities would be unsound: some system shows it
NeedZeros == Good => \A vec \in Grid(NI) :
  (/\ NonNeg(vec, 0) /\ \A i \in InnerRows(M) : ZRes(M, i, vec) <= ProbTo(M, i, G) * W) => Leq(Claim("min", ">=", vec, W), True_("min"))
=============================================================================
