------------------------------- MODULE Treap -------------------------------
(* The balanced tree of the component search as a set of integers (C29).        *)
EXTENDS Solver

V_tnew(heap, e) == Viol(Ok(e), "C29.new-error")
E_tnew(heap, e) == Put(heap, e.a.h, [t |-> "treap", keys |-> Range(e.a.keys)])
V_tadd(heap, e) == Viol(Ok(e), "C29.add-error")
E_tadd(heap, e) == LET T == heap[e.a.h] IN Put(heap, e.a.h, [T EXCEPT !.keys = @ \cup {e.a.k}])
E_tdrop(heap, e) == Put(heap, e.a.h, [t |-> "treap", keys |-> {}])
V_tsize(heap, e) == Viol(Ok(e) /\ e.r = Cardinality(heap[e.a.h].keys), "C29.size")
V_thas(heap, e) == Viol(Ok(e) /\ Len(e.r) = Len(e.a.ks) /\ \A i \in 1..Len(e.r) : e.r[i] = (e.a.ks[i] \in heap[e.a.h].keys), "C29.membership")
V_tarr(heap, e) == Viol(Ok(e) /\ SameSet(e.r, heap[e.a.h].keys), "C29.listing")
=============================================================================
