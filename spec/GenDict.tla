------------------------------- MODULE GenDict -------------------------------
(* Behaviours of invertible mappings: every history of Len operations through   *)
(* either direction, from several initial mappings.  Used twice:                *)
(*  - design level: the two-table representation (a table and a lazily built    *)
(*    inverse table, both updated in place) is coherent with the relation       *)
(*  - generation: complete histories are printed and replayed into the code     *)
EXTENDS Dict, Json
CONSTANTS Depth, Emitting
VARIABLES init, dflt, rel, fwd, bwd, ops
vars == <<init, dflt, rel, fwd, bwd, ops>>
Ks == {"k1", "k2"}
Vs == {"v1", "v2"}
None == [none |-> TRUE]
Starts == {<<>>, <<<<"k1", <<"v1">>>>>>, <<<<"k1", <<"v1", "v2">>>>, <<"k2", <<"v2">>>>>>, <<<<"k2", <<>>>>>>}

Table(r, D) == [k \in D |-> Img(r, k)]
Init == /\ init \in Starts /\ dflt \in BOOLEAN
        /\ rel = ObsRel(init)
        /\ fwd = Table(ObsRel(init), {init[i][1] : i \in 1..Len(init)})
        /\ bwd = None
        /\ ops = <<>>
AddTo(t, k, v) == [x \in DOMAIN t \cup {k} |-> IF x = k THEN (IF k \in DOMAIN t THEN t[k] ELSE {}) \cup {v} ELSE t[x]]
DelFrom(t, k, v) == [t EXCEPT ![k] = @ \ {v}]
Do(o) == ops' = Append(ops, o) /\ UNCHANGED <<init, dflt>>
HasInv == bwd # None
Inv == /\ ~HasInv
       /\ bwd' = Table(FlipR(rel), {x[2] : x \in rel})
       /\ Do([op |-> "inv", h |-> "d", to |-> "i"]) /\ UNCHANGED <<rel, fwd>>
Add(k, v) == /\ rel' = rel \cup {<<k, v>>}
             /\ fwd' = AddTo(fwd, k, v)
             /\ bwd' = IF HasInv THEN AddTo(bwd, v, k) ELSE bwd
Rem(k, v) == /\ <<k, v>> \in rel
             /\ rel' = rel \ {<<k, v>>}
             /\ fwd' = DelFrom(fwd, k, v)
             /\ bwd' = IF HasInv THEN DelFrom(bwd, v, k) ELSE bwd
Next == /\ Len(ops) < Depth
        /\ \/ Inv
           \/ \E k \in Ks, v \in Vs :
                \/ Add(k, v) /\ (Do([op |-> "add", h |-> "d", k |-> k, v |-> v]) \/ (HasInv /\ Do([op |-> "add", h |-> "i", k |-> v, v |-> k])))
                \/ Rem(k, v) /\ (Do([op |-> "rem", h |-> "d", k |-> k, v |-> v]) \/ (HasInv /\ Do([op |-> "rem", h |-> "i", k |-> v, v |-> k])))
Spec == Init /\ [][Next]_vars
RelT(t) == UNION {{<<k, v>> : v \in t[k]} : k \in DOMAIN t}
Coherent == /\ RelT(fwd) = rel
            /\ HasInv => RelT(bwd) = FlipR(rel)
Emit == (Emitting /\ Len(ops) = Depth) => PrintT("B " \o ToJson([init |-> init, dflt |-> dflt, ops |-> ops]))
=============================================================================
