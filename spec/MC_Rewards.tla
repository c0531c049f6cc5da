------------------------------ MODULE MC_Rewards ------------------------------
(* Design model for reward forms: the conditions of VerifyRew hold for exactly the *)
(* vector of extremal expected rewards (also when states are lost), a point of the  *)
(* polytope (PolyOK) claims no more than the states with positive entries collect,  *)
(* and the extremal values are such points.                                         *)
EXTENDS SmallMDP
CONSTANTS Q, Top, W, RewSet
RewQuick == <<0, 1, 2>>
RewOf(i) == LET k == Len(RewSet) x == rows[i].c + rows[i].s IN RewSet[1 + x - k * (x \div k)]
RM == [M EXCEPT !.rew = [i \in 1..Len(rows) + 2 |-> IF i <= Len(rows) THEN 4 * RewOf(i) ELSE 0]]
RR == MkRF(RM, 0, "init", "goal", "fail", TRUE)
Good == Complete /\ IsRF(RM, "init", "goal", "fail") /\ TerminatesRF(RM)
RewChain(f, K) == [W |-> [s \in K |-> [d \in 0..(NI + 1) |-> ProbTo(M, f[s], d)]], den |-> [s \in K |-> DD],
                   rw |-> [s \in K |-> RewOf(f[s]) * DD]]
ChainRew(f, K, s) == LET C == Only(RewChain(f, K), K, s) IN <<C.rw[s], C.den[s] - C.W[s][s]>>
RewMaxK(K, s) == IF s \notin K THEN <<0, 1>> ELSE RatMax({ChainRew(f, K, s) : f \in Scheds(K)})
RewMinK(K, s) == IF s \notin K THEN <<0, 1>> ELSE RatMin({ChainRew(f, K, s) : f \in Scheds(K)})
RVec(val(_)) == [i \in 1..(NI + 2) |-> IF i - 1 \in Inner THEN OverQ(val(i - 1), Q) ELSE 0]
Max_(K) == LET f(s) == RewMaxK(K, s) IN RVec(f)
Min_(K) == LET f(s) == RewMinK(K, s) IN RVec(f)
\* candidates: a grid, and the values of every scheduler
Cands(K) == {[i \in 1..(NI + 2) |-> IF i - 1 \in K THEN g[i - 1] ELSE 0] : g \in [K -> {(Q * j) \div 4 : j \in 0..4 * Top}]}
            \cup {LET v(s) == IF s \in K THEN ChainRew(f, K, s) ELSE <<0, 1>> IN RVec(v) : f \in Scheds(K)}
Unique == Good => \A K \in SUBSET Inner :
  /\ {v \in Cands(K) : VerifyRew(RM, {G}, K, Q, v, TRUE)} = {Max_(K)}
  /\ {v \in Cands(K) : VerifyRew(RM, {G}, K, Q, v, FALSE)} = {Min_(K)}
Monotone == Good => \A K \in SUBSET Inner, x \in Inner : \A s \in Inner :
  Max_(K)[s + 1] <= Max_(K \cup {x})[s + 1] /\ Min_(K)[s + 1] <= Min_(K \cup {x})[s + 1]
NRw == Len(rows)
Dim(mode) == IF mode = "min" THEN NI ELSE NRw
\* (the threshold of a point is compared in PolyThreshold in hundredths; here exactly)
ClaimR(mode, vec, w) == IF mode = "min" THEN <<vec[1], w>>
                        ELSE LET f(i) == BVec(RR, i) * vec[i] IN <<SumTo(f, 1, NRw), 4 * DD * w>>
SuppR(mode, vec) == IF mode = "min" THEN {s \in Inner : vec[s + 1] > 0} ELSE {RM.rows[i].s : i \in {j \in 1..NRw : vec[j] > 0}}
ValR(mode, K) == IF mode = "min" THEN RewMinK(K, 0) ELSE RewMaxK(K, 0)
Support == Good => \A mode \in {"min", "max"} : \A vec \in [1..Dim(mode) -> 0..Top * W] :
  PolyOK(RR, mode, vec, W, 0) => Leq(ClaimR(mode, vec, W), ValR(mode, SuppR(mode, vec)))
Attained == Good => \A K \in SUBSET Inner :
  LET z == [i \in 1..NI |-> Min_(K)[i]] IN PolyOK(RR, "min", z, Q, 0) /\ Leq(RewMinK(K, 0), ClaimR("min", z, Q))
=============================================================================
