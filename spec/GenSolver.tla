------------------------------ MODULE GenSolver ------------------------------
(* Builder histories: every sequence of Depth builder operations over a small   *)
(* vocabulary, replayed into the code (C22); after the history the program is   *)
(* solved.  Design level: what a program prescribes depends on the live          *)
(* constraints only, not on the history that led to them.                        *)
EXTENDS Solver, Json
CONSTANTS Depth, Emitting
VARIABLES P, ops
vars == <<P, ops>>
VarKinds == {[d |-> "real", lo |-> <<0>>, hi |-> <<12>>], [d |-> "integer", lo |-> <<-4>>, hi |-> <<8>>],
             [d |-> "binary", lo |-> <<>>, hi |-> <<>>], [d |-> "real", lo |-> <<>>, hi |-> <<10>>]}
Last == NVars(P) - 1
Exprs == IF Last = 0 THEN {<<<<0, 4>>>>, <<<<0, 4>>, <<0, -12>>>>} ELSE {<<<<Last, 4>>>>, <<<<0, -4>>, <<Last, 8>>>>}
Init == /\ ops = <<>>
        /\ \E s \in {"min", "max"} : P = [t |-> "prog", p |-> "C22", sense |-> s, vars |-> <<>>, cons |-> <<>>, obj |-> <<>>]
Do(o) == ops' = Append(ops, o)
AddVar(v) == /\ NVars(P) < 3
             /\ P' = [P EXCEPT !.vars = Append(@, v)]
             /\ Do([op |-> "vars", v |-> <<v>>])
AddCon(q, s, b) == /\ P' = [P EXCEPT !.cons = Append(@, [t |-> q, s |-> s, b |-> b, on |-> TRUE])]
                   /\ Do([op |-> "con", e |-> q, s |-> s, b |-> b])
Rem(i) == /\ P.cons[i].on
          /\ P' = [P EXCEPT !.cons[i].on = FALSE]
          /\ Do([op |-> "rem", i |-> i - 1])
SetObj(q) == /\ q # P.obj
             /\ P' = [P EXCEPT !.obj = q]
             /\ Do([op |-> "obj", e |-> q])
Solve == /\ ops # <<>> /\ ops[Len(ops)].op # "solve"
         /\ Do([op |-> "solve"]) /\ UNCHANGED P
Next == /\ Len(ops) < Depth
        /\ \/ \E v \in VarKinds : AddVar(v)
           \/ /\ NVars(P) > 0
              /\ \/ \E q \in Exprs, sb \in {<<">=", 2>>, <<"<=", 4>>, <<"=", 4>>} : AddCon(q, sb[1], sb[2])
                 \/ \E i \in 1..Len(P.cons) : Rem(i)
                 \/ \E q \in Exprs : SetObj(q)
                 \/ Solve
Spec == Init /\ [][Next]_vars
\* the same live constraints in a fresh program prescribe the same
Fresh == [P EXCEPT !.cons = SelectSeq(P.cons, LAMBDA c : c.on)]
HistoryFree == (~Emitting /\ NVars(P) > 0) => Decide(P) = Decide(Fresh)
Emit == (Emitting /\ Len(ops) = Depth) => PrintT("B " \o ToJson([sense |-> P.sense, ops |-> ops]))
=============================================================================
