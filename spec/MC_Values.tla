------------------------------ MODULE MC_Values ------------------------------
(* Design model: on every small system the conditions of Values.tla, under which *)
(* the checks accept values as extremal, hold for exactly one vector, and it is  *)
(* the one found by enumerating schedulers -- for the whole system and for every *)
(* subsystem.  Probabilities of reaching goal within k steps approach it from    *)
(* below.                                                                        *)
EXTENDS SmallMDP
CONSTANTS Q, Steps
Vecs(K) == {[i \in 1..(NI + 2) |-> IF i - 1 = G THEN Q ELSE IF i - 1 \in K THEN g[i - 1] ELSE 0] : g \in [K -> 0..Q]}
Max_(K) == LET f(s) == PrMaxK(K, s) IN VecOf(f, Q)
Min_(K) == LET f(s) == PrMinK(K, s) IN VecOf(f, Q)
AllExact == Complete => \A s \in Inner : \A f \in Scheds(Inner) : Exact(ChainPr(f, Inner, s), Q)
Unique == Complete => \A K \in SUBSET Inner :
  /\ {v \in Vecs(K) : VerifyPrMax(M, {G}, K, Q, v)} = {Max_(K)}
  /\ {v \in Vecs(K) : VerifyPrMin(M, {G}, K, Q, v)} = {Min_(K)}
\* optimal value within k steps, numerators over Q * DD^k
RECURSIVE Within(_, _, _)
Within(k, mx, s) ==
  IF s = G THEN Q * DD^k ELSE IF s = F THEN 0 ELSE IF k = 0 THEN 0
  ELSE LET val(i) == LET g(j) == M.rows[i].t[j][2] * Within(k - 1, mx, M.rows[i].t[j][1]) IN SumTo(g, 1, Len(M.rows[i].t))
           S == {val(i) : i \in RowsOf(M, s)}
       IN IF mx THEN MaxSet(S) ELSE MinSet(S)
Approach == Complete => \A s \in Inner :
  LET a == Within(Steps, TRUE, s) b == Max_(Inner)[s + 1] * DD^Steps
      c == Within(Steps, FALSE, s) d == Min_(Inner)[s + 1] * DD^Steps
      prev == Within(Steps - 1, TRUE, s) * DD
  IN a <= b /\ c <= d /\ c <= a /\ prev <= a /\ Min_(Inner)[s + 1] <= Max_(Inner)[s + 1]
     \* after as many rounds as there are states some of the probability has been seen
     /\ (a = 0) = (b = 0) /\ (c = 0) = (d = 0)
\* losing more states never helps (used by Witness.tla to decide minimality)
Monotone == Complete => \A K \in SUBSET Inner, x \in Inner : \A s \in Inner :
  Max_(K)[s + 1] <= Max_(K \cup {x})[s + 1] /\ Min_(K)[s + 1] <= Min_(K \cup {x})[s + 1]
=============================================================================
