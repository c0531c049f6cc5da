------------------------------ MODULE Shared ------------------------------
(* Shared objects (C24).  A query is a function of the contents of the form it  *)
(* is put to: whatever was asked before, in whatever order, and whichever       *)
(* minimisations are suspended, its answer is the one a fresh copy gives.       *)
(* State: the answer of every query seen so far, and every object handed out.   *)
EXTENDS Import

AskKey(e) == "ask:" \o e.a.h \o ":" \o e.a.q
SameAnswer(a, b) == a.err = b.err /\ Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : Close(a.v[i], b.v[i], 2)
\* e.a: h the form, q the query; r: err the exception, v the answer as numbers
V_ask(heap, e) ==
  IF AskKey(e) \notin DOMAIN heap THEN {}
  ELSE Viol(SameAnswer(heap[AskKey(e)], e.r), IF heap[AskKey(e)].fresh # e.a.fresh THEN "C24.answer-differs-from-fresh" ELSE "C24.answer-not-repeatable")
E_ask(heap, e) == IF AskKey(e) \in DOMAIN heap THEN heap ELSE Put(heap, AskKey(e), [err |-> e.r.err, v |-> e.r.v, fresh |-> e.a.fresh])

\* an object handed out earlier, looked at again
LookKey(e) == "look:" \o e.a.id
V_look(heap, e) ==
  IF LookKey(e) \notin DOMAIN heap THEN Viol(Ok(e), "C24.look-error")
  ELSE IF ~Ok(e) THEN {"C24.look-error"}
  ELSE Viol(heap[LookKey(e)] = e.r.v, "C24.earlier-result-changed")
E_look(heap, e) == IF Ok(e) /\ LookKey(e) \notin DOMAIN heap THEN Put(heap, LookKey(e), e.r.v) ELSE heap
=============================================================================
