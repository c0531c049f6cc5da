------------------------------ MODULE SmallMDP ------------------------------
(* All Markov decision processes with NI states besides an absorbing goal and an *)
(* absorbing fail state, probabilities in multiples of 1/DD, at most NA actions  *)
(* per state and at most NR rows, grown row by row so that TLC explores them in  *)
(* parallel.  The extremal values are computed here in the most elementary way,  *)
(* by enumerating deterministic schedulers and eliminating the states of the     *)
(* resulting chains; the design models MC_* compare this with the                *)
(* characterisations the checks rely on.                                         *)
EXTENDS Witness
CONSTANTS NI, NA, NR, DD
VARIABLES rows

Inner == 0..(NI - 1)
G == NI
F == NI + 1
\* distributions as sequences of <<dest, k>>: functions from destinations to 0..DD summing to DD
Dists == {f \in [0..(NI + 1) -> 0..DD] : SumSet(LAMBDA d : f[d], 0..(NI + 1)) = DD}
RECURSIVE AsT(_, _)
AsT(f, d) == IF d > NI + 1 THEN <<>> ELSE (IF f[d] > 0 THEN <<<<d, f[d]>>>> ELSE <<>>) \o AsT(f, d + 1)
DistSet == TLCEval({AsT(f, 0) : f \in Dists})
\* an arbitrary numbering of the distributions orders the actions of a state
RECURSIVE Numbered(_)
Numbered(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Numbered(S \ {x})
DistSeq == TLCEval(Numbered(DistSet))

\* a row is [s, a, t, c] with c the number of its distribution
Grow(s, c) ==
  LET own == {i \in 1..Len(rows) : rows[i].s = s} IN
  /\ Len(rows) < NR
  /\ rows # <<>> => rows[Len(rows)].s <= s
  /\ Cardinality(own) < NA
  /\ \A i \in own : rows[i].c < c
  /\ s > 0 => \E i \in 1..Len(rows) : rows[i].s = s - 1
  /\ rows' = Append(rows, [s |-> s, a |-> Cardinality(own), t |-> DistSeq[c], c |-> c])
Init == rows = <<>>
Next == \E s \in Inner, c \in 1..Len(DistSeq) : Grow(s, c)
Spec == Init /\ [][Next]_rows
Complete == \A s \in Inner : \E i \in 1..Len(rows) : rows[i].s = s

Plain == [i \in 1..Len(rows) |-> [s |-> rows[i].s, a |-> rows[i].a, t |-> rows[i].t]]
M == [n |-> NI + 2, D |-> DD,
      rows |-> Plain \o <<[s |-> G, a |-> 0, t |-> <<<<G, DD>>>>], [s |-> F, a |-> 0, t |-> <<<<F, DD>>>>]>>,
      lab |-> <<[l |-> "init", s |-> <<0>>], [l |-> "goal", s |-> <<G>>], [l |-> "fail", s |-> <<F>>]>>,
      alab |-> <<>>, rew |-> <<>>, kind |-> "mdp"]
R == MkRF(M, 0, "init", "goal", "fail", FALSE)
Form == IsRF(M, "init", "goal", "fail")

----------------------------------------------------------------------------
\* a chain is given by the row chosen in every state; W[u][w] / den[u] is the probability from u to w
Scheds(K) == {f \in [K -> 1..Len(rows)] : \A s \in K : rows[f[s]].s = s}
ChainOf(f, K) == [W |-> [s \in K |-> [d \in 0..(NI + 1) |-> ProbTo(M, f[s], d)]], den |-> [s \in K |-> DD],
                  rw |-> [s \in K |-> 0]]
\* removing state x: every other state moves on to the successors of x.  A state that never leaves itself is lost.
Without(C, K, x) ==
  LET stay == C.den[x] - C.W[x][x]
      \* probability mass entering x is lost when x never leaves itself
      w(u, d) == IF stay = 0 THEN (IF d = x THEN 0 ELSE C.W[u][d])
                 ELSE IF d = x THEN 0 ELSE C.W[u][d] * stay + C.W[u][x] * C.W[x][d]
      r(u) == IF stay = 0 THEN C.rw[u] ELSE C.rw[u] * stay + C.W[u][x] * C.rw[x]
  IN [W |-> [u \in K \ {x} |-> [d \in DOMAIN C.W[u] |-> w(u, d)]],
      den |-> [u \in K \ {x} |-> IF stay = 0 THEN C.den[u] ELSE C.den[u] * stay],
      rw |-> [u \in K \ {x} |-> r(u)]]
RECURSIVE Only(_, _, _)
Only(C, K, s) == IF K = {s} THEN C ELSE LET x == CHOOSE y \in K : y # s IN Only(Without(C, K, x), K \ {x}, s)
\* probability (expected reward) from s as <<num, den>>
ChainPr(f, K, s) == LET C == Only(ChainOf(f, K), K, s) d == C.den[s] - C.W[s][s]
                    IN IF d = 0 THEN <<0, 1>> ELSE <<C.W[s][G], d>>
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
RatMax(S) == CHOOSE x \in S : \A y \in S : Leq(y, x)
RatMin(S) == CHOOSE x \in S : \A y \in S : Leq(x, y)
\* extremal probabilities when the states outside K are lost
PrMaxK(K, s) == IF s \notin K THEN <<0, 1>> ELSE RatMax({ChainPr(f, K, s) : f \in Scheds(K)})
PrMinK(K, s) == IF s \notin K THEN <<0, 1>> ELSE RatMin({ChainPr(f, K, s) : f \in Scheds(K)})
\* as numerators over Q; the denominators of the systems considered divide Q
OverQ(x, Q) == (x[1] * Q) \div x[2]
Exact(x, Q) == (x[1] * Q) % x[2] = 0
VecOf(val(_), Q) == [i \in 1..(NI + 2) |-> IF i - 1 = G THEN Q ELSE IF i - 1 = F THEN 0 ELSE OverQ(val(i - 1), Q)]

----------------------------------------------------------------------------
\* the same for an arbitrary form X (column -1 stands for its goal)
FScheds(X) == {f \in [InnerStates(X) -> InnerRows(X)] : \A s \in InnerStates(X) : X.rows[f[s]].s = s}
FVal(X, f, s) ==
  LET K == InnerStates(X)
      C == Only([W |-> [u \in K |-> [d \in K \cup {-1} |-> IF d = -1 THEN ProbTo(X, f[u], Goal(X)) ELSE ProbTo(X, f[u], d)]],
                 den |-> [u \in K |-> X.D], rw |-> [u \in K |-> 0]], K, s)
      d == C.den[s] - C.W[s][s]
  IN IF d = 0 THEN <<0, 1>> ELSE <<C.W[s][-1], d>>
FMax(X, s) == RatMax({FVal(X, f, s) : f \in FScheds(X)})
FMin(X, s) == RatMin({FVal(X, f, s) : f \in FScheds(X)})
Same(a, b) == Leq(a, b) /\ Leq(b, a)
=============================================================================
