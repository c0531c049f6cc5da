------------------------------ MODULE Import ------------------------------
(* Models taken from other tools (C26).                                         *)
(*                                                                              *)
(* PRISM is an external process.  Its side of the exchange is part of the       *)
(* state: what it is handed (model text, constant assignments, labels to add)   *)
(* and what it answers (an exported model, or a failure of some kind).          *)
EXTENDS Cli

\* what PRISM was handed, per call: c.text the lines of the file before the added
\* labels, c.labels the label declarations after it, c.consts the assignments
SentOK(e, c) ==
  Viol(c.text = e.a.text, "C26.model-text")
  \cup Viol(Range(c.labels) = Range(e.a.labels) /\ Len(c.labels) = Len(e.a.labels), "C26.extra-labels")
  \cup Viol(Range(c.consts) = Range(e.a.consts) /\ Len(c.consts) = Len(e.a.consts), "C26.constants")
  \cup Viol(c.export, "C26.export-request")
Sent(e) ==
  IF e.a.fault = "missing" THEN {}
  ELSE IF e.r.calls = <<>> THEN {"C26.not-asked"}
  ELSE UNION {SentOK(e, e.r.calls[i]) : i \in 1..Len(e.r.calls)}

\* the imported model shows the exported one: same states, choices (in any
\* order), probabilities, labels (also those of no state), action labels
SameModel(M, B, names, p) ==
  Viol(B.n = M.n /\ B.shape = <<Len(M.rows), Len(M.rows), M.n, Len(M.rows)>>, p \o "-shape")
  \cup Viol(Pairs(B) = Pairs(M) /\ Len(B.rows) = Len(M.rows), p \o "-choices")
  \cup Viol(TransRel(B) = TransRel(M), p \o "-transitions")
  \cup Viol(LabRel(B) = LabRel(M) /\ (names => LabelNames(B) = LabelNames(M)), p \o "-labels")
  \cup Viol(ALabRel(B) = ALabRel(M), p \o "-action-labels")
  \cup Viol(B.kind = M.kind, p \o "-kind")

\* from_prism_model.  e.a: m the model PRISM exports, fault "" or what goes wrong
\* e.r: got the imported model (when there is one), err the exception, kept
V_prism(heap, e) ==
  Sent(e)
  \cup Viol(e.r.kept, "C26.changes-inputs")
  \cup (IF e.a.fault # "" THEN Viol(e.r.err # "", "C26.failure-not-reported")
        ELSE IF e.r.err # "" THEN {"C26.import-error"}
        ELSE SameModel(e.a.m, e.r.got[1], TRUE, "C26.import"))
E_prism(heap, e) == IF e.r.got # <<>> THEN Put(heap, e.a.to, e.a.m) ELSE heap

\* prism_to_tra on its own: TRUE exactly when PRISM exported the model
V_prtra(heap, e) ==
  Sent(e)
  \cup Viol(e.r.kept, "C26.changes-inputs")
  \cup (IF e.a.fault = "nothing" THEN {}  \* a PRISM that claims success
        ELSE IF e.a.fault = "" THEN Viol(e.r.err = "" /\ e.r.said, "C26.export-denied") \cup Viol(e.r.files, "C26.export-place")
        ELSE Viol(e.r.err # "" \/ ~e.r.said, "C26.failure-not-reported"))

\* the three views of a label file
V_prlab(heap, e) ==
  LET M == e.a.m IN
  IF ~Ok(e) THEN {"C26.label-file-error"}
  ELSE Viol({<<e.r.byid[i][1], e.r.byid[i][2]>> : i \in 1..Len(e.r.byid)} = {<<i - 1, e.a.names[i]>> : i \in 1..Len(e.a.names)}, "C26.label-ids")
       \cup Viol(UNION {{<<e.r.bylab[i][1], s>> : s \in Range(e.r.bylab[i][2])} : i \in 1..Len(e.r.bylab)} = LabRel(M)
                 /\ {e.r.bylab[i][1] : i \in 1..Len(e.r.bylab)} = LabelNames(M), "C26.label-states")
       \cup Viol(UNION {{<<l, e.r.bystate[i][1]>> : l \in Range(e.r.bystate[i][2])} : i \in 1..Len(e.r.bystate)} = LabRel(M), "C26.state-labels")

\* stormpy.  e.a: m the source model; c global number of each choice = its row;
\* the choice model has one more state per choice
ChoiceState(M, i) == M.n + i - 1
ChoiceTrans(M) ==
  {<<M.rows[i].s, M.rows[i].a, ChoiceState(M, i)>> : i \in 1..Len(M.rows)}
ChoiceLabs(M) ==
  LabRel(M) \cup {<<"state", s>> : s \in States(M)}
  \cup {<<"choice", ChoiceState(M, i)>> : i \in 1..Len(M.rows)}
  \cup UNION {{<<x[1], ChoiceState(M, i)>> : x \in {y \in ALabRel(M) : y[2] = <<M.rows[i].s, M.rows[i].a>>}} : i \in 1..Len(M.rows)}
ChoiceModel(M, B) ==
  LET C == Len(M.rows)
      rowsOf(s) == {i \in 1..Len(B.rows) : B.rows[i].s = s} IN
  IF B.n # M.n + C \/ Len(B.rows) # 2 * C THEN {"C26.choice-shape"}
  ELSE Viol(\A s \in States(M) : \A i \in rowsOf(s) : \E x \in ChoiceTrans(M) : x[1] = s /\ x[2] = B.rows[i].a /\ Trans(B, i) = {<<x[3], B.D>>}, "C26.choice-steps")
       \cup Viol(\A s \in States(M) : {B.rows[i].a : i \in rowsOf(s)} = Acts(M, s), "C26.choice-actions")
       \cup Viol(\A k \in 1..C : LET R == rowsOf(ChoiceState(M, k)) IN Cardinality(R) = 1 /\ \A i \in R : Trans(B, i) = Trans(M, k), "C26.choice-transitions")
       \cup Viol(LabRel(B) = ChoiceLabs(M), "C26.choice-labels")
       \cup Viol(B.kind = "mdp", "C26.choice-kind")
V_storm(heap, e) ==
  LET M == e.a.m IN
  IF e.a.choice /\ M.kind = "dtmc" THEN Viol(~Ok(e), "C26.choice-model-of-dtmc")
  ELSE IF ~Ok(e) THEN {"C26.storm-error"}
  ELSE IF e.a.choice THEN ChoiceModel(M, e.r)
  ELSE SameModel(M, e.r, FALSE, "C26.storm")
E_storm(heap, e) == IF Ok(e) /\ ~e.a.choice THEN Put(heap, e.a.to, e.r) ELSE heap
=============================================================================
