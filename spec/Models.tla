------------------------------- MODULE Models -------------------------------
(* Workbench operations on models: construction (C01), graph queries (C02-C05),*)
(* label updates (C06).  Every operation Op contributes                        *)
(*   V_Op(heap, e)  the set of violated clauses when the operation with        *)
(*                  arguments e.a was observed to end with exception e.x       *)
(*                  ("" for none) and result e.r in workbench state heap       *)
(*   E_Op(heap, e)  the workbench state afterwards                             *)
EXTENDS MDPCore

Ok(e) == e.x = ""
\* Put(heap, h, obj): (re)bind handle h
Put(heap, h, obj) == (h :> obj) @@ heap

SameRows(A, B) ==
  /\ Len(A.rows) = Len(B.rows)
  /\ \A i \in 1..Len(A.rows) : /\ A.rows[i].s = B.rows[i].s
                               /\ A.rows[i].a = B.rows[i].a
                               /\ Trans(A, i) = {x \in Range(B.rows[i].t) : x[2] # 0}
SameLabels(A, B) == LabRel(A) = LabRel(B) /\ LabelNames(A) = LabelNames(B)
SameALabels(A, B) == ALabRel(A) = ALabRel(B)
\* observed model B shows exactly abstract model A
ModelViol(A, B, p) ==
  Viol(B.n = A.n /\ B.shape = <<Len(A.rows), Len(A.rows), A.n, Len(A.rows)>>, p \o ".shape")
  \cup Viol(SameRows(A, B), p \o ".matrix")
  \cup Viol(SameLabels(A, B), p \o ".labels")
  \cup Viol(SameALabels(A, B), p \o ".actionlabels")
  \cup Viol(A.rew = B.rew, p \o ".rewards")
  \cup Viol(A.kind = B.kind, p \o ".kind")

V_new(heap, e) ==
  LET M == e.a.m
      good == WellFormed(M, e.a.kind)
  IN IF good
     THEN IF Ok(e) THEN ModelViol(M, e.r, "C01.kept") ELSE {"C01.rejects-valid"}
     ELSE (IF Ok(e) THEN {"C01.accepts-invalid"} ELSE Viol(e.x = "AssertionError", "C01.wrong-error"))
E_new(heap, e) == IF Ok(e) THEN Put(heap, e.a.h, e.a.m) ELSE heap

V_succ(heap, e) ==
  LET M == heap[e.a.h] IN
  IF ~Ok(e) THEN {"C02.succ-error"}
  ELSE Viol(Len(e.r) = M.n /\ \A s \in States(M) : SameSet(e.r[s + 1], Succs(M, s)), "C02.succ")
V_pred(heap, e) ==
  LET M == heap[e.a.h] IN
  IF ~Ok(e) THEN {"C02.pred-error"}
  ELSE Viol(Len(e.r) = M.n /\ \A s \in States(M) : SameSet(e.r[s + 1], Preds(M, s)), "C02.pred")
V_acts(heap, e) ==
  LET M == heap[e.a.h] IN
  IF ~Ok(e) THEN {"C02.acts-error"}
  ELSE Viol(Len(e.r) = M.n /\ \A s \in States(M) : SameSet(e.r[s + 1], Acts(M, s)), "C02.acts")

\* the graph object: neighbours by one action, for every state and every action name asked for
V_gviews(heap, e) ==
  LET M == heap[e.a.h] IN
  IF ~Ok(e) THEN {"C02.graph-error"}
  ELSE Viol(e.r.n = M.n, "C02.graph-size")
       \cup Viol(\A i \in 1..Len(e.a.acts) : LET a == e.a.acts[i] IN
              \A s \in States(M) : /\ SameSet(e.r.succ[i][s + 1], {x \in Succs(M, s) : x[2] = a})
                                   /\ SameSet(e.r.pred[i][s + 1], {x \in Preds(M, s) : x[2] = a}), "C02.by-action")

\* Starts are marked; the rest is what can be reached without expanding blocked states
V_reach(heap, e) ==
  LET M == heap[e.a.h] IN
  IF e.a.from = <<>> \/ e.a.dir \notin {"forward", "backward"}
  THEN Viol(e.x = "AssertionError", "C03.bad-arguments")
  ELSE IF ~Ok(e) THEN {"C03.error"}
  ELSE Viol(e.r.len = M.n, "C03.length")
       \cup Viol(Range(e.r.on) = Reach(M, Range(e.a.from), e.a.dir, Range(e.a.block)), "C03.mask-" \o e.a.dir)

V_mec(heap, e) ==
  LET M == heap[e.a.h] IN
  IF ~Ok(e) THEN {"C04.error"}
  ELSE LET part == MECs(M) IN
       IF ~IsIndexing(e.r.ix, e.r.cnt, part, M.n, 0) THEN {"C04.components"}
       ELSE IF Len(e.r.proper) # e.r.cnt THEN {"C04.proper-length"}
       ELSE Viol(\A B \in part : LET s == CHOOSE x \in B : TRUE
                                 IN e.r.proper[e.r.ix[s + 1] + 1] = (IF ProperPart(M, B) THEN 1 ELSE 0), "C04.proper")

V_scc(heap, e) ==
  LET M == heap[e.a.h] IN
  IF ~Ok(e) THEN {"C05.error"}
  ELSE Viol(\/ IsIndexing(e.r.ix, e.r.cnt, SCCs(M), M.n, 0)
            \/ IsIndexing(e.r.ix, e.r.cnt, SCCs(M), M.n, 1), "C05.components")

\* snapshot of a model: it still is what the specification says it is
V_snap(heap, e) ==
  IF ~Ok(e) THEN {"C24.snapshot-error"} ELSE ModelViol(heap[e.a.h], e.r, "C24.model")
=============================================================================
