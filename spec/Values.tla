-------------------------------- MODULE Values --------------------------------
(* Extremal reachability probabilities and expected rewards (C09, C11, C12).     *)
(* Values are integers v with common denominator q (value of s: v[s+1] / q).     *)
(* They are supplied by the harness as untrusted hints and accepted only when    *)
(* the conditions below, which characterise the extremal values uniquely, hold:  *)
(*  max: v is a fixed point of the Bellman operator and the tight actions lead   *)
(*       from every positive state to the goal (so v is attained)                *)
(*  min: v is a fixed point that is zero wherever the goal can be avoided        *)
(*  expected rewards (terminating): v is a fixed point                           *)
(* MC_Values checks these characterisations against enumeration of schedulers.   *)
(* live is the set of states that are part of the system considered; all other   *)
(* states except goals count as lost.                                            *)
EXTENDS Reach

RowVal(M, i, v) == LET f(j) == M.rows[i].t[j][2] * v[M.rows[i].t[j][1] + 1] IN SumTo(f, 1, Len(M.rows[i].t))
Dead(M, G, K) == States(M) \ (G \cup K)
ShapeOK(M, G, K, q, v) ==
  /\ q > 0 /\ Len(v) = M.n /\ G \cap K = {} /\ G \subseteq States(M) /\ K \subseteq States(M)
  /\ \A s \in G : v[s + 1] = q
  /\ \A s \in Dead(M, G, K) : v[s + 1] = 0
Tight(M, i, v) == RowVal(M, i, v) = M.D * v[M.rows[i].s + 1]

VerifyPrMax(M, G, K, q, v) ==
  /\ ShapeOK(M, G, K, q, v)
  /\ \A i \in Rows(M) : M.rows[i].s \in K => RowVal(M, i, v) <= M.D * v[M.rows[i].s + 1]
  /\ \A s \in K : v[s + 1] >= 0
  /\ LET tight == {i \in Rows(M) : M.rows[i].s \in K /\ Tight(M, i, v)}
         step(W) == {M.rows[i].s : i \in {j \in tight : Supp(M, j) \cap W # {}}}
         W == Lfp(step, G)
     IN /\ \A s \in K : \E i \in tight : M.rows[i].s = s
        /\ \A s \in K : v[s + 1] > 0 => s \in W
Avoid(M, G, K) ==
  LET stay(B) == {s \in B : \E i \in RowsOf(M, s) : Supp(M, i) \subseteq B \cup Dead(M, G, K)} IN Gfp(stay, K)
VerifyPrMin(M, G, K, q, v) ==
  /\ ShapeOK(M, G, K, q, v)
  /\ \A i \in Rows(M) : M.rows[i].s \in K => RowVal(M, i, v) >= M.D * v[M.rows[i].s + 1]
  /\ \A s \in K : \E i \in RowsOf(M, s) : Tight(M, i, v)
  /\ \A s \in Avoid(M, G, K) : v[s + 1] = 0

\* expected rewards; rewards are multiples of 1/4, q a multiple of 4
RewVal(M, i, q, v) == M.D * M.rew[i] * (q \div 4) + RowVal(M, i, v)
RewShape(M, G, K, q, v) == /\ q > 0 /\ q % 4 = 0 /\ HasRew(M)
                           /\ Len(v) = M.n /\ G \cap K = {}
                           /\ \A s \in States(M) \ K : v[s + 1] = 0
RewTight(M, i, q, v) == RewVal(M, i, q, v) = M.D * v[M.rows[i].s + 1]
\* no end component within K
Terminates(M, K) == LET stay(B) == {s \in B : \E i \in RowsOf(M, s) : Supp(M, i) \subseteq B} IN Gfp(stay, K) = {}
VerifyRew(M, G, K, q, v, mx) ==
  /\ RewShape(M, G, K, q, v) /\ Terminates(M, K)
  /\ \A i \in Rows(M) : M.rows[i].s \in K =>
       IF mx THEN RewVal(M, i, q, v) <= M.D * v[M.rows[i].s + 1] ELSE RewVal(M, i, q, v) >= M.D * v[M.rows[i].s + 1]
  /\ \A s \in K : \E i \in RowsOf(M, s) : RewTight(M, i, q, v)

Verify(M, kind, G, K, q, v) ==
  CASE kind = "prmax" -> VerifyPrMax(M, G, K, q, v)
    [] kind = "prmin" -> VerifyPrMin(M, G, K, q, v)
    [] kind = "rewmax" -> VerifyRew(M, G, K, q, v, TRUE)
    [] kind = "rewmin" -> VerifyRew(M, G, K, q, v, FALSE)

ModelOf(heap, h) == IF "m" \in DOMAIN heap[h] THEN heap[h].m ELSE heap[h]
V_hint(heap, e) ==
  LET M == ModelOf(heap, e.a.h) IN
  Viol(Verify(M, e.a.kind, Range(e.a.goal), Range(e.a.live), e.a.q, e.a.v), "HINT." \o e.a.kind)
E_hint(heap, e) ==
  Put(heap, e.a.to, [h |-> e.a.h, kind |-> e.a.kind, G |-> Range(e.a.goal), K |-> Range(e.a.live), q |-> e.a.q, v |-> e.a.v])
\* the hint talks about the whole of form h
HintFor(heap, hint, h, kind) ==
  LET H == heap[hint] M == heap[h].m IN
  H.h = h /\ H.kind = kind /\ H.G = {Goal(M)} /\ H.K = InnerStates(M)

----------------------------------------------------------------------------
(* C09: the form has the probabilities the model has.  The values of the model   *)
(* carried over along the state map must be the values of the form.              *)
V_preserve(heap, e) ==
  LET H == heap[e.a.hint]
      R == heap[e.a.h]
      M == R.m
      f == SMapFn(R)
      inv(t) == {s \in DOMAIN f : f[s] = t}
      w == [i \in 1..M.n |-> IF i - 1 = Goal(M) THEN H.q
                             ELSE IF inv(i - 1) = {} THEN 0 ELSE H.v[(CHOOSE s \in inv(i - 1) : TRUE) + 1]]
  IN IF ~(H.h = e.a.orig /\ H.G = StatesBy(heap[e.a.orig], e.a.target) /\ H.K = States(heap[e.a.orig]) \ H.G) THEN {"HINT.preserve"}
     ELSE Viol(DOMAIN f = Kept(heap[e.a.orig], e.a.init, H.G), "C09.kept")
          \cup Viol(Verify(M, H.kind, {Goal(M)}, InnerStates(M), H.q, w), "C09." \o H.kind)

----------------------------------------------------------------------------
(* C11, C12: reported values *)
Tol(q) == q \div 50000 + 2
NearV(obs, v, k, q) == Len(obs) = k /\ \A i \in 1..k : Close(obs[i], v[i], Tol(q) + Abs(v[i]) \div 80000)
\* which: the quantity the query reports
V_value(heap, e) ==
  LET R == heap[e.a.h]
      H == heap[e.a.hint]
      p == IF R.reward THEN "C12." ELSE "C11."
  IN IF ~HintFor(heap, e.a.hint, e.a.h, e.a.kind) THEN {"HINT.value"}
     ELSE IF ~Ok(e) THEN {p \o e.a.kind \o "-error"}
     ELSE Viol(e.r.q = H.q /\ NearV(e.r.v, H.v, NN(R.m), H.q), p \o e.a.kind)
\* one step expectation of the minimal values
V_step(heap, e) ==
  LET R == heap[e.a.h]
      M == R.m
      H == heap[e.a.hint]
      p == IF R.reward THEN "C12." ELSE "C11."
      exp(i) == IF R.reward THEN RewVal(M, i, H.q, H.v) ELSE RowVal(M, i, H.v)
  IN IF ~HintFor(heap, e.a.hint, e.a.h, IF R.reward THEN "rewmin" ELSE "prmin") THEN {"HINT.step"}
     ELSE IF ~Ok(e) THEN {p \o "state-action-error"}
     ELSE Viol(/\ e.r.q = H.q /\ Len(e.r.v) = CC(M)
               /\ \A i \in 1..CC(M) : Close(M.D * e.r.v[i], exp(i), M.D * Tol(H.q) + Abs(exp(i)) \div 80000), p \o "state-action")
\* a flow y (units 1 / qy) from the initial state
FlowBalance(M, y, s) ==
  LET out(j) == IF M.rows[j].s = s THEN M.D * y[j] ELSE 0
      in(j) == ProbTo(M, j, s) * y[j]
      f(j) == out(j) - in(j)
  IN SumTo(f, 1, CC(M))
IsFlow(M, init, y, qy, slack) ==
  /\ Len(y) = CC(M) /\ \A j \in 1..CC(M) : y[j] >= 0 - slack
  /\ \A s \in InnerStates(M) : FlowBalance(M, y, s) <= (IF s = init THEN M.D * qy ELSE 0) + M.D * slack
Inflow(M, y) == LET f(j) == ProbTo(M, j, Goal(M)) * y[j] IN SumTo(f, 1, CC(M))
FlowSlack(M, qy) == CC(M) + 2 + qy \div 20000
V_flow(heap, e) ==
  LET R == heap[e.a.h]
      M == R.m
      H == heap[e.a.hint]
      p == IF R.reward THEN "C12." ELSE "C11."
      qy == e.r.q
      sl == FlowSlack(M, qy)
      \* compare in units of 1/1000
      K == 1000
  IN IF ~HintFor(heap, e.a.hint, e.a.h, IF R.reward THEN "rewmax" ELSE "prmax") THEN {"HINT.flow"}
     ELSE IF ~Ok(e) THEN {p \o "frequency-error"}
     ELSE Viol(IsFlow(M, R.init, e.r.v, qy, sl), p \o "frequency-flow")
          \cup (IF R.reward
                THEN LET g(j) == M.rew[j] * e.r.v[j]
                     IN Viol(Len(e.r.v) = CC(M) /\ Close((SumTo(g, 1, CC(M)) \div 4) \div Max2(1, qy \div K), H.v[R.init + 1] \div (H.q \div K),
                              4 + (H.v[R.init + 1] \div (H.q \div K)) \div (IF H.q % K = 0 THEN 2000 ELSE 100)), p \o "frequency-value")
                ELSE Viol(Len(e.r.v) = CC(M) /\ Close((Inflow(M, e.r.v) \div M.D) \div Max2(1, qy \div K), H.v[R.init + 1] \div (H.q \div K), 3), p \o "frequency-value"))
E_flow(heap, e) == IF Ok(e) THEN Put(heap, e.a.to, [y |-> e.r.v, q |-> e.r.q]) ELSE heap
\* per state: the sum over its actions
V_flowstate(heap, e) ==
  LET R == heap[e.a.h]
      M == R.m
      F == heap[e.a.flow]
      p == IF R.reward THEN "C12." ELSE "C11."
      sum(s) == LET f(j) == IF M.rows[j].s = s THEN F.y[j] ELSE 0 IN SumTo(f, 1, CC(M))
  IN IF ~Ok(e) THEN {p \o "frequency-state-error"}
     ELSE Viol(Len(e.r.v) = NN(M) /\ \A s \in InnerStates(M) : Close(e.r.v[s + 1], sum(s), CC(M) + 2 + F.q \div 20000), p \o "frequency-state")
=============================================================================
