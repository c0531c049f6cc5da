-------------------------------- MODULE Dict --------------------------------
(* Invertible mappings and label views (C06).  A mapping is a relation          *)
(* rel \subseteq K \X V.  A handle is a direction onto a shared relation, so     *)
(* d and d.inv are two handles of one object:                                   *)
(*   heap[h]    = [t |-> "view", base |-> b, flip |-> BOOLEAN]                   *)
(*   heap[b]    = [t |-> "rel", rel |-> relation, dflt |-> BOOLEAN,              *)
(*                 ever |-> <<keys ever used, values ever used>>]                *)
EXTENDS Models

FlipR(r) == {<<x[2], x[1]>> : x \in r}
RelOf(heap, h) == LET v == heap[h] IN IF v.flip THEN FlipR(heap[v.base].rel) ELSE heap[v.base].rel
EverOf(heap, h) == LET v == heap[h] IN heap[v.base].ever[IF v.flip THEN 2 ELSE 1]
Img(r, k) == {x[2] : x \in {y \in r : y[1] = k}}
Dom(r) == {x[1] : x \in r}
Dflt(heap, h) == heap[heap[h].base].dflt

SeqPairs(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}
\* an observed list of <<key, sequence of values>>
ObsRel(q) == UNION {{<<q[i][1], v>> : v \in Range(q[i][2])} : i \in 1..Len(q)}
ObsOK(q) == /\ NoDup([i \in 1..Len(q) |-> q[i][1]])
            /\ \A i \in 1..Len(q) : NoDup(q[i][2])

V_idnew(heap, e) ==
  IF e.a.wellformed
  THEN Viol(Ok(e), "C06.construct")
  ELSE Viol(~Ok(e), "C06.construct-bad")
E_idnew(heap, e) ==
  IF Ok(e)
  THEN (e.a.h :> [t |-> "view", base |-> "@" \o e.a.h, flip |-> FALSE])
       @@ (("@" \o e.a.h) :> [t |-> "rel", rel |-> ObsRel(e.a.rel), dflt |-> e.a.dflt,
                              ever |-> <<{e.a.rel[i][1] : i \in 1..Len(e.a.rel)}, {}>>])
       @@ heap
  ELSE heap

SetRel(heap, h, r, k, v) ==
  LET w == heap[h]
      o == heap[w.base]
      ev == IF w.flip THEN <<o.ever[1] \cup {v}, o.ever[2] \cup {k}>> ELSE <<o.ever[1] \cup {k}, o.ever[2] \cup {v}>>
  IN (w.base :> [o EXCEPT !.rel = IF w.flip THEN FlipR(r) ELSE r, !.ever = ev]) @@ heap

V_idadd(heap, e) == Viol(Ok(e), "C06.add-error")
E_idadd(heap, e) == SetRel(heap, e.a.h, RelOf(heap, e.a.h) \cup {<<e.a.k, e.a.v>>}, e.a.k, e.a.v)
\* removing what is not there is refused
V_idrem(heap, e) ==
  IF <<e.a.k, e.a.v>> \in RelOf(heap, e.a.h) THEN Viol(Ok(e), "C06.remove-error")
  ELSE Viol(~Ok(e), "C06.remove-missing-accepted")
E_idrem(heap, e) ==
  IF <<e.a.k, e.a.v>> \in RelOf(heap, e.a.h) THEN SetRel(heap, e.a.h, RelOf(heap, e.a.h) \ {<<e.a.k, e.a.v>>}, e.a.k, e.a.v) ELSE heap

V_idget(heap, e) ==
  LET r == Img(RelOf(heap, e.a.h), e.a.k) IN
  IF r # {} THEN IF Ok(e) THEN Viol(SameSet(e.r, r), "C06.get") ELSE {"C06.get-error"}
  ELSE IF Dflt(heap, e.a.h) THEN IF Ok(e) THEN Viol(e.r = <<>>, "C06.get-missing") ELSE {"C06.get-missing-error"}
  \* a mapping without default: a key never seen is an error; a key whose values
  \* were all removed may be gone or empty
  ELSE IF Ok(e) THEN Viol(e.r = <<>> /\ e.a.k \in EverOf(heap, e.a.h), "C06.get-unknown-key") ELSE {}

V_iditems(heap, e) ==
  IF ~Ok(e) THEN {"C06.items-error"}
  ELSE Viol(ObsOK(e.r) /\ ObsRel(e.r) = RelOf(heap, e.a.h), "C06.items")
       \cup Viol({e.r[i][1] : i \in 1..Len(e.r)} \subseteq Dom(RelOf(heap, e.a.h)) \cup EverOf(heap, e.a.h), "C06.items-keys")
V_idkeys(heap, e) ==
  IF ~Ok(e) THEN {"C06.keys-error"}
  ELSE Viol(/\ NoDup(e.r) /\ Dom(RelOf(heap, e.a.h)) \subseteq Range(e.r)
            /\ Range(e.r) \subseteq Dom(RelOf(heap, e.a.h)) \cup EverOf(heap, e.a.h), "C06.keys")
V_idhas(heap, e) ==
  LET k == e.a.k IN
  IF ~Ok(e) THEN {"C06.has-error"}
  ELSE IF k \in Dom(RelOf(heap, e.a.h)) THEN Viol(e.r, "C06.has")
  ELSE Viol(e.r => k \in EverOf(heap, e.a.h), "C06.has")

\* the inverse is the other direction of the same object; taking it twice gives the object
V_idinv(heap, e) == IF ~Ok(e) THEN {"C06.inv-error"} ELSE Viol(e.r.back, "C06.inverse-of-inverse")
E_idinv(heap, e) == IF Ok(e) THEN Put(heap, e.a.to, [heap[e.a.h] EXCEPT !.flip = ~heap[e.a.h].flip]) ELSE heap

\* the dictionary a mapping was created from is not the mapping
V_idsource(heap, e) == Viol(Ok(e) /\ e.r = e.a.was, "C06.source-changed")

----------------------------------------------------------------------------
(* label views of models *)
V_addlabel(heap, e) == Viol(Ok(e), "C06.addlabel-error")
E_addlabel(heap, e) ==
  LET M == heap[e.a.h] IN Put(heap, e.a.h, [M EXCEPT !.lab = Append(M.lab, [l |-> e.a.l, s |-> <<e.a.s>>])])

V_labviews(heap, e) ==
  LET M == heap[e.a.h] IN
  IF ~Ok(e) THEN {"C06.label-view-error"}
  ELSE Viol(ObsOK(e.r.sbl) /\ ObsRel(e.r.sbl) = LabRel(M), "C06.states-by-label")
       \cup Viol(Len(e.r.lbs) = M.n /\ \A s \in States(M) : SameSet(e.r.lbs[s + 1], LabelsOf(M, s)), "C06.labels-by-state")
       \cup Viol(ObsOK(e.r.abl) /\ ObsRel(e.r.abl) = ALabRel(M), "C06.actions-by-label")
       \cup Viol(Len(e.r.lba) = Len(M.rows) /\ \A i \in Rows(M) : SameSet(e.r.lba[i], ALabelsOf(M, <<M.rows[i].s, M.rows[i].a>>)), "C06.labels-by-action")
       \cup Viol(\A i \in 1..Len(e.r.get) : SameSet(e.r.get[i][2], StatesBy(M, e.r.get[i][1])), "C06.states-of-label")
\* what the caller passed in
V_given(heap, e) ==
  IF ~Ok(e) THEN {"C06.given-error"}
  ELSE Viol(ObsRel(e.r.lab) = LabRel(e.a.m) /\ {e.r.lab[i][1] : i \in 1..Len(e.r.lab)} = LabelNames(e.a.m), "C06.caller-labels-changed")
       \cup Viol(ObsRel(e.r.alab) = ALabRel(e.a.m) /\ {e.r.alab[i][1] : i \in 1..Len(e.r.alab)} = ALabelNames(e.a.m), "C06.caller-action-labels-changed")

----------------------------------------------------------------------------
(* files (C07) *)
TransCount(M) == LET f(i) == Cardinality(Trans(M, i)) IN SumTo(f, 1, Len(M.rows))
V_save(heap, e) ==
  LET M == heap[e.a.h] IN
  IF ~Ok(e) THEN {"C07.save-error"}
  ELSE Viol(e.r.hdr = (IF M.kind = "mdp" THEN <<M.n, Len(M.rows), TransCount(M)>> ELSE <<M.n, TransCount(M)>>), "C07.header")
       \cup Viol(e.r.lines = TransCount(M), "C07.line-count")
       \cup Viol({<<x[1], x[2], x[3], x[4]>> : x \in Range(e.r.trans)} = TransRel(M), "C07.file-transitions")
V_load(heap, e) ==
  LET M == heap[e.a.h]
      B == e.r IN
  IF ~Ok(e) THEN {"C07.load-error"}
  ELSE Viol(B.n = M.n /\ B.shape = <<Len(M.rows), Len(M.rows), M.n, Len(M.rows)>>, "C07.shape")
       \cup Viol(Pairs(B) = Pairs(M) /\ Len(B.rows) = Len(M.rows), "C07.pairs")
       \cup Viol(TransRel(B) = TransRel(M), "C07.transitions")
       \cup Viol(M.kind = "mdp" => SameRows(M, B), "C07.row-order")
       \cup Viol(LabRel(B) = LabRel(M) /\ LabelNames(B) = LabelNames(M), "C07.labels")
       \cup Viol(B.kind = M.kind, "C07.kind")
E_load(heap, e) == IF Ok(e) THEN Put(heap, e.a.to, e.r) ELSE heap
=============================================================================
