-------------------------------- MODULE Reach --------------------------------
(* Reachability forms: reduction (C08), the gate (C10), induced subsystems      *)
(* (C21), reward forms (C13).  A reachability form is a record                  *)
(*   m     model whose last two states (rows) are goal and fail                 *)
(*   init  initial state;  il, tl, fl  the three labels;  reward  BOOLEAN        *)
EXTENDS Dict

Goal(M) == M.n - 2
Fail(M) == M.n - 1
NN(M) == M.n - 2
CC(M) == Len(M.rows) - 2
InnerStates(M) == 0..(M.n - 3)
InnerRows(M) == 1..(Len(M.rows) - 2)

OneState(M, l) == Cardinality(StatesBy(M, l)) = 1
TheState(M, l) == CHOOSE s \in StatesBy(M, l) : TRUE
Absorbing(M, s, row) == RowsOf(M, s) = {row} /\ Supp(M, row) = {s}
IsRF(M, il, tl, fl) ==
  /\ Cardinality({il, tl, fl}) = 3
  /\ OneState(M, il) /\ OneState(M, tl) /\ OneState(M, fl)
  /\ M.n >= 2 /\ Len(M.rows) >= 2
  /\ StatesBy(M, tl) = {Goal(M)} /\ StatesBy(M, fl) = {Fail(M)}
  /\ Absorbing(M, Goal(M), Len(M.rows) - 1) /\ Absorbing(M, Fail(M), Len(M.rows))
  /\ Reach(M, StatesBy(M, il), "forward", {}) \cup {Fail(M)} = States(M)
  /\ Reach(M, {Goal(M)}, "backward", {}) = States(M) \ {Fail(M)}

\* equality of two models up to the order of their rows
SameTrans(E, B, p) ==
  Viol(B.n = E.n /\ B.shape = <<Len(E.rows), Len(E.rows), E.n, Len(E.rows)>>, p \o ".shape")
  \cup Viol(Len(B.rows) = Len(E.rows) /\ Pairs(B) = Pairs(E), p \o ".pairs")
  \cup Viol(TransRel(B) = TransRel(E), p \o ".transitions")
SameUpToRows(E, B, p) ==
  SameTrans(E, B, p)
  \cup Viol(LabRel(B) = LabRel(E), p \o ".labels")
  \cup Viol(ALabRel(B) = ALabRel(E), p \o ".actionlabels")
  \cup Viol(B.kind = E.kind, p \o ".kind")
  \cup (IF Pairs(B) # Pairs(E) \/ Len(B.rows) # Len(E.rows) THEN {}
        ELSE Viol(HasRew(E) = HasRew(B) /\ (HasRew(E) => Len(B.rew) = Len(B.rows)
                  /\ \A i \in Rows(B) : B.rew[i] = E.rew[RowOf(E, B.rows[i].s, B.rows[i].a)]), p \o ".rewards"))

\* the matrices a reachability form exposes: everything but goal and fail
InnerP(M) == [i \in InnerRows(M) |-> {x \in Trans(M, i) : x[1] \in InnerStates(M)}]
InnerA(M) == [i \in InnerRows(M) |->
               {x \in {<<d, (IF d = M.rows[i].s THEN M.D ELSE 0) - ProbTo(M, i, d)>> : d \in InnerStates(M)} : x[2] # 0}]
InnerB(M) == [i \in InnerRows(M) |-> ProbTo(M, i, Goal(M))]
RowSet(q) == {<<q[j][1], q[j][2]>> : j \in 1..Len(q)}
ViewViol(M, v, p) ==
  Viol(Len(v.P) = CC(M) /\ v.Pshape = <<CC(M), NN(M)>> /\ \A i \in InnerRows(M) : RowSet(v.P[i]) = InnerP(M)[i], p \o ".P")
  \cup Viol(Len(v.A) = CC(M) /\ v.Ashape = <<CC(M), NN(M)>> /\ \A i \in InnerRows(M) : RowSet(v.A[i]) = InnerA(M)[i], p \o ".A")
  \cup Viol(Len(v.b) = CC(M) /\ \A i \in InnerRows(M) : v.b[i] = InnerB(M)[i], p \o ".b")
  \cup Viol(Len(v.idx) = CC(M) /\ \A i \in InnerRows(M) : v.idx[i] = <<M.rows[i].s, M.rows[i].a>>, p \o ".index")

MkRF(M, init, il, tl, fl, rw) == [m |-> M, init |-> init, il |-> il, tl |-> tl, fl |-> fl, reward |-> rw]
StripObs(B) == [n |-> B.n, D |-> B.D, rows |-> B.rows, lab |-> B.lab, alab |-> B.alab, rew |-> B.rew, kind |-> B.kind]

V_rfgate(heap, e) ==
  LET M == heap[e.a.h] IN
  IF IsRF(M, e.a.il, e.a.tl, e.a.fl)
  THEN IF ~Ok(e) THEN {"C10.rejects-wellformed"}
       ELSE Viol(e.r.init = TheState(M, e.a.il) /\ e.r.il = e.a.il /\ e.r.tl = e.a.tl /\ e.r.fl = e.a.fl, "C10.names")
            \cup ViewViol(M, e.r.v, "C10.view")
            \cup SameUpToRows(M, e.r.m, "C10.system")
  ELSE IF Ok(e) THEN {"C10.accepts-malformed"} ELSE Viol(e.x = "AssertionError", "C10.wrong-error")
E_rfgate(heap, e) == IF Ok(e) THEN Put(heap, e.a.to, MkRF(heap[e.a.h], e.r.init, e.a.il, e.a.tl, e.a.fl, FALSE)) ELSE heap

\* a stored form (and a stored subsystem) loads as that form: row numbers are what certificates refer to
V_rfstore(heap, e) ==
  LET R == heap[e.a.h]
      B == e.r.m IN
  IF ~Ok(e) THEN {"C07.stored-form-error"}
  ELSE Viol(e.r.init = R.init /\ e.r.il = R.il /\ e.r.tl = R.tl /\ e.r.fl = R.fl, "C07.stored-form-names")
       \cup SameTrans(R.m, B, "C07.stored-form")
       \cup Viol(R.m.kind = "mdp" => SameRows(R.m, B), "C07.stored-form-rows")
       \cup Viol(LabRel(B) = LabRel(R.m), "C07.stored-form-labels")
       \cup Viol(B.kind = R.m.kind, "C07.stored-form-kind")

----------------------------------------------------------------------------
(* reduction *)
RedInit(M, il) == TheState(M, il)
Kept(M, il, T) == Reach(M, StatesBy(M, il), "forward", T) \cap Reach(M, T, "backward", {})
\* the reachability form up to the choice of a numbering f of the kept states
Reduced(M, il, T, f, tl, fl) ==
  LET K == DOMAIN f
      k == Cardinality(K)
      old == {i \in Rows(M) : M.rows[i].s \in K}
      RECURSIVE AsSeq(_)
      AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == MinSet(S) IN <<x>> \o AsSeq(S \ {x})
      q == AsSeq(old)
      toFail(i) == LET g(x) == x[2] IN SumSet(g, {x \in Trans(M, i) : x[1] \notin K})
      trans(i) == IF M.rows[i].s \in T THEN <<<<k, M.D>>>>
                  ELSE LET in == {<<f[x[1]], x[2]>> : x \in {y \in Trans(M, i) : y[1] \in K}}
                           all == in \cup (IF toFail(i) > 0 THEN {<<k + 1, toFail(i)>>} ELSE {})
                           RECURSIVE Enum(_)
                           Enum(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Enum(S \ {x})
                       IN Enum(all)
      rows == [j \in 1..Len(q) |-> [s |-> f[M.rows[q[j]].s], a |-> M.rows[q[j]].a, t |-> trans(q[j])]]
      labs == [j \in 1..Len(M.lab) |-> [l |-> M.lab[j].l, s |-> LET z == SelectSeq(M.lab[j].s, LAMBDA s : s \in K) IN [i \in 1..Len(z) |-> f[z[i]]]]]
      alabs == [j \in 1..Len(M.alab) |-> [l |-> M.alab[j].l, sa |-> LET z == SelectSeq(M.alab[j].sa, LAMBDA s : s[1] \in K) IN [i \in 1..Len(z) |-> <<f[z[i][1]], z[i][2]>>]]]
  IN [n |-> k + 2, D |-> M.D,
      rows |-> rows \o <<[s |-> k, a |-> 0, t |-> <<<<k, M.D>>>>], [s |-> k + 1, a |-> 0, t |-> <<<<k + 1, M.D>>>>]>>,
      lab |-> labs \o <<[l |-> tl, s |-> <<k>>], [l |-> fl, s |-> <<k + 1>>]>>,
      alab |-> alabs,
      rew |-> IF HasRew(M) THEN [j \in 1..Len(q) |-> M.rew[q[j]]] \o <<0, 0>> ELSE <<>>,
      kind |-> M.kind]

\* is reduction asked to do something meaningful?
ReduceOK(M, il, tgt, tl, fl) ==
  /\ OneState(M, il) /\ StatesBy(M, tgt) # {}
  /\ tl \notin LabelNames(M) /\ fl \notin LabelNames(M) /\ tl # fl
ReduceDefined(M, il, tgt) == StatesBy(M, il) \subseteq Reach(M, StatesBy(M, tgt), "backward", {})

SMapOK(M, K, r) ==
  /\ Len(r.smap) = Cardinality(K)
  /\ {x[1] : x \in Range(r.smap)} = K
  /\ {x[2] : x \in Range(r.smap)} = 0..(Cardinality(K) - 1)
SMapFn(r) == [s \in {x[1] : x \in Range(r.smap)} |-> (CHOOSE x \in Range(r.smap) : x[1] = s)[2]]
LastTwo(B) == /\ B.rows[Len(B.rows) - 1].s = Goal(B) /\ B.rows[Len(B.rows)].s = Fail(B)

\* violated clauses of a successful reduction (used by both kinds of forms)
ReducedViol(M, e, fl) ==
  LET T == StatesBy(M, e.a.target)
      K == Kept(M, e.a.init, T)
  IN IF ~SMapOK(M, K, e.r) THEN {"C08.state-map"}
     ELSE LET f == SMapFn(e.r)
              X == Reduced(M, e.a.init, T, f, e.a.tl, fl)
          IN SameUpToRows(X, e.r.m, "C08")
             \cup Viol(Len(e.r.m.rows) >= 2 /\ LastTwo(e.r.m), "C08.last-rows")
             \cup Viol(Range(e.r.amap) = {<<<<p[1], p[2]>>, <<f[p[1]], p[2]>>>> : p \in {z \in Pairs(M) : z[1] \in K}}
                       /\ NoDup(e.r.amap), "C08.action-map")
             \cup Viol(e.r.init = f[RedInit(M, e.a.init)], "C08.initial")
             \cup Viol(e.r.il = e.a.init /\ e.r.fl = fl, "C08.names")
             \cup Viol(e.r.tl = e.a.tl, "C08.goal-label")

V_reduce(heap, e) ==
  LET M == heap[e.a.h] IN
  IF ~ReduceOK(M, e.a.init, e.a.target, e.a.tl, e.a.fl) THEN Viol(~Ok(e), "C08.accepts-bad-request")
  ELSE IF ~ReduceDefined(M, e.a.init, e.a.target) THEN Viol(~Ok(e), "C08.accepts-unreachable-target")
  ELSE IF ~Ok(e) THEN {"C08.error"}
  ELSE ReducedViol(M, e, e.a.fl) \cup ViewViol(StripObs(e.r.m), e.r.v, "C10.view")
E_reduce(heap, e) == IF Ok(e) THEN Put(heap, e.a.to, MkRF(StripObs(e.r.m), e.r.init, e.r.il, e.r.tl, e.r.fl, FALSE) @@ [smap |-> e.r.smap]) ELSE heap

----------------------------------------------------------------------------
(* reward forms *)
NoFail(M) == \A i \in InnerRows(M) : ProbTo(M, i, Fail(M)) = 0
OnlyGoalProper(M, absorbing) == ProperStates(M) = absorbing
\* goal is reached with probability one under every scheduler
TerminatesRF(M) == NoFail(M) /\ OnlyGoalProper(M, {Goal(M), Fail(M)})

V_rreduce(heap, e) ==
  LET M == heap[e.a.h]
      fl == "rf_fail" IN
  IF ~ReduceOK(M, e.a.init, e.a.target, e.a.tl, fl) THEN Viol(~Ok(e), "C13.accepts-bad-request")
  ELSE IF ~ReduceDefined(M, e.a.init, e.a.target) THEN Viol(~Ok(e), "C13.accepts-unreachable-target")
  ELSE LET T == StatesBy(M, e.a.target)
           K == Kept(M, e.a.init, T)
           RECURSIVE AsSeq(_)
           AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == MinSet(S) IN <<x>> \o AsSeq(S \ {x})
           q == AsSeq(K)
           f == [s \in K |-> (CHOOSE j \in 1..Len(q) : q[j] = s) - 1]
           good == HasRew(M) /\ TerminatesRF(Reduced(M, e.a.init, T, f, e.a.tl, fl))
       IN IF good THEN (IF ~Ok(e) THEN {"C13.rejects-terminating"}
                        ELSE {c \in ReducedViol(M, e, e.r.fl) : c # "C08.goal-label"}
                             \cup {"C12.attachment" : c \in ReducedViol(M, e, e.r.fl) \cap {"C08.rewards"}}
                             \cup Viol(e.r.tl = e.a.tl, "C13.goal-label")
                             \cup Viol(Len(e.r.rv) = CC(e.r.m) /\ \A i \in 1..Len(e.r.rv) : e.r.rv[i] = e.r.m.rew[i], "C13.reward-vector"))
          ELSE (IF Ok(e) THEN {"C13.accepts-nonterminating"} ELSE Viol(e.x = "AssertionError", "C13.wrong-error"))
E_rreduce(heap, e) == IF Ok(e) THEN Put(heap, e.a.to, MkRF(StripObs(e.r.m), e.r.init, e.r.il, e.r.tl, e.r.fl, TRUE)
                                               @@ (IF e.op = "rreduce" THEN [smap |-> e.r.smap] ELSE <<>>)) ELSE heap

IsRewSystem(M, il, tl) ==
  /\ HasRew(M) /\ il # tl
  /\ OneState(M, il) /\ OneState(M, tl)
  /\ StatesBy(M, tl) = {M.n - 1}
  /\ Absorbing(M, M.n - 1, Len(M.rows))
  /\ Reach(M, StatesBy(M, il), "forward", {}) = States(M)
  /\ Reach(M, {M.n - 1}, "backward", {}) = States(M)
  /\ ProperStates(M) = {M.n - 1}
\* the same system with an unreachable fail state
WithFail(M, fl) ==
  [n |-> M.n + 1, D |-> M.D, rows |-> Append(M.rows, [s |-> M.n, a |-> 0, t |-> <<<<M.n, M.D>>>>]),
   lab |-> Append(M.lab, [l |-> fl, s |-> <<M.n>>]), alab |-> M.alab,
   rew |-> Append(M.rew, 0), kind |-> M.kind]
V_rsystem(heap, e) ==
  LET M == heap[e.a.h] IN
  IF IsRewSystem(M, e.a.il, e.a.tl)
  THEN IF ~Ok(e) THEN {"C13.rejects-system"}
       ELSE Viol(e.r.tl = e.a.tl, "C13.goal-label")
            \cup Viol(e.r.init = TheState(M, e.a.il) /\ e.r.il = e.a.il, "C13.initial")
            \cup SameUpToRows(WithFail(M, e.r.fl), e.r.m, "C13")
            \cup Viol(Len(e.r.rv) = CC(e.r.m) /\ \A i \in 1..Len(e.r.rv) : e.r.rv[i] = M.rew[RowOf(M, e.r.m.rows[i].s, e.r.m.rows[i].a)], "C13.reward-vector")
  ELSE IF Ok(e) THEN {"C13.accepts-bad-system"} ELSE Viol(e.x = "AssertionError", "C13.wrong-error")
E_rsystem(heap, e) == E_rreduce(heap, e)

\* the caller's model after building a form from it
V_rsnap(heap, e) == IF ~Ok(e) THEN {"C13.snapshot-error"} ELSE ModelViol(heap[e.a.h], e.r, "C13.system-modified")

----------------------------------------------------------------------------
(* subsystems *)
\* states with a positive entry; cert entries are signs -1, 0, 1 (z-form per state, y-form per row)
MaskOf(M, mode, pos) ==
  IF mode = "min" THEN {s \in InnerStates(M) : s + 1 \in pos}
  ELSE {M.rows[i].s : i \in pos \cap InnerRows(M)}
Rank(K, s) == Cardinality({x \in K : x < s})
Induced(R, K) ==
  LET M == R.m
      f == [s \in K |-> Rank(K, s)]
      k == Cardinality(K)
      old == {i \in InnerRows(M) : M.rows[i].s \in K}
      RECURSIVE AsSeq(_)
      AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == MinSet(S) IN <<x>> \o AsSeq(S \ {x})
      q == AsSeq(old)
      RECURSIVE Enum(_)
      Enum(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Enum(S \ {x})
      trans(i) == LET g(x) == x[2]
                      lost == SumSet(g, {x \in Trans(M, i) : x[1] \notin K /\ x[1] # Goal(M)})
                      in == {<<f[x[1]], x[2]>> : x \in {y \in Trans(M, i) : y[1] \in K}}
                      go == {<<k, x[2]>> : x \in {y \in Trans(M, i) : y[1] = Goal(M)}}
                  IN Enum(in \cup go \cup (IF lost > 0 THEN {<<k + 1, lost>>} ELSE {}))
      keepL(z) == LET w == SelectSeq(z, LAMBDA s : s \in K) IN [i \in 1..Len(w) |-> f[w[i]]]
      keepA(z) == LET w == SelectSeq(z, LAMBDA s : s[1] \in K) IN [i \in 1..Len(w) |-> <<f[w[i][1]], w[i][2]>>]
  IN [n |-> k + 2, D |-> M.D,
      rows |-> [j \in 1..Len(q) |-> [s |-> f[M.rows[q[j]].s], a |-> M.rows[q[j]].a, t |-> trans(q[j])]]
               \o <<[s |-> k, a |-> 0, t |-> <<<<k, M.D>>>>], [s |-> k + 1, a |-> 0, t |-> <<<<k + 1, M.D>>>>]>>,
      lab |-> [j \in 1..Len(M.lab) |-> [l |-> M.lab[j].l, s |-> keepL(M.lab[j].s)]]
              \o <<[l |-> R.tl, s |-> <<k>>], [l |-> R.fl, s |-> <<k + 1>>]>>,
      alab |-> [j \in 1..Len(M.alab) |-> [l |-> M.alab[j].l, sa |-> keepA(M.alab[j].sa)]],
      rew |-> <<>>, kind |-> M.kind]

Positive(c) == {i \in 1..Len(c) : c[i] > 0}
CertLen(M, mode) == IF mode = "min" THEN NN(M) ELSE CC(M)
V_mask(heap, e) ==
  LET R == heap[e.a.h] IN
  IF Len(e.a.cert) # CertLen(R.m, e.a.mode) THEN Viol(~Ok(e), "C21.accepts-wrong-length")
  ELSE IF ~Ok(e) THEN {"C21.mask-error"}
  ELSE Viol(e.r.len = NN(R.m), "C21.mask-length")
       \cup Viol(Range(e.r.on) = MaskOf(R.m, e.a.mode, Positive(e.a.cert)), "C21.mask")
V_subsys(heap, e) ==
  LET R == heap[e.a.h] IN
  IF Len(e.a.cert) # CertLen(R.m, e.a.mode) THEN Viol(~Ok(e), "C21.accepts-wrong-length")
  ELSE LET X == Induced(R, MaskOf(R.m, e.a.mode, Positive(e.a.cert)))
       IN IF IsRF(X, R.il, R.tl, R.fl)
          THEN IF ~Ok(e) THEN {"C21.error"}
               ELSE SameUpToRows(X, [e.r.m EXCEPT !.rew = <<>>], "C21")
                    \cup Viol(Len(e.r.m.rows) >= 2 /\ LastTwo(e.r.m), "C21.last-rows")
                    \cup Viol(e.r.init = TheState(X, R.il) /\ e.r.il = R.il /\ e.r.tl = R.tl /\ e.r.fl = R.fl, "C21.names")
          ELSE IF Ok(e) THEN {"C21.accepts-non-reachability-form"} ELSE Viol(e.x = "AssertionError", "C21.wrong-error")
E_subsys(heap, e) == IF Ok(e) THEN Put(heap, e.a.to, MkRF(StripObs(e.r.m), e.r.init, e.r.il, e.r.tl, e.r.fl, FALSE)) ELSE heap

\* snapshot of a form: it is what it was when it was built, views included
V_rfsnap(heap, e) ==
  LET R == heap[e.a.h] IN
  IF ~Ok(e) THEN {"C24.snapshot-error"}
  ELSE ModelViol(R.m, e.r.m, "C24.system")
       \cup Viol(e.r.init = R.init /\ e.r.il = R.il /\ e.r.tl = R.tl /\ e.r.fl = R.fl, "C24.names")
       \cup (IF R.reward THEN {} ELSE ViewViol(R.m, e.r.v, "C24.view"))
=============================================================================
