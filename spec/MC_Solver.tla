------------------------------ MODULE MC_Solver ------------------------------
(* The decision procedure of Solver.tla itself, against enumeration: on the box  *)
(* [-1, 2]^2 with coefficients in {-1, 0, 1} all vertices lie on the half grid,   *)
(* so the best feasible half-grid point (integer variables on the integers) is    *)
(* the optimum.                                                                  *)
EXTENDS Solver
CONSTANTS NRows, Rhs
VARIABLE p
C == {-4, 0, 4}
Con == {[t |-> <<<<0, a>>, <<1, b>>>>, s |-> s, b |-> r, on |-> TRUE] : a \in C, b \in C, s \in {"<=", "="}, r \in Rhs \cup {- x : x \in Rhs}}
NoCon == [t |-> <<>>, s |-> "<=", b |-> 0, on |-> FALSE]
Doms == {<<"real", "real">>, <<"integer", "real">>, <<"integer", "integer">>, <<"binary", "real">>}
Init == \E d \in Doms, sense \in {"min", "max"}, oa \in C, ob \in C, k1 \in Con, k2 \in (IF NRows = 1 THEN {NoCon} ELSE Con) :
          p = [t |-> "prog", p |-> "C22", sense |-> sense,
               vars |-> [i \in 1..2 |-> [d |-> d[i], lo |-> <<-4>>, hi |-> <<8>>]],
               cons |-> IF NRows = 1 THEN <<k1>> ELSE <<k1, k2>>,
               obj |-> <<<<0, oa>>, <<1, ob>>>>]
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
\* points in halves
Pts == {<<x, y>> \in (-2..4) \X (-2..4) :
          LET z == <<x, y>> IN
          /\ \A i \in 1..2 : p.vars[i].d # "real" => z[i] % 2 = 0
          /\ \A i \in 1..2 : p.vars[i].d = "binary" => z[i] >= 0 /\ z[i] <= 2
          /\ \A c \in Range(p.cons) : LET l == c.t[1][2] * x + c.t[2][2] * y
                                      IN IF c.s = "<=" THEN l <= 2 * c.b ELSE l = 2 * c.b}
Obj(z) == p.obj[1][2] * z[1] + p.obj[2][2] * z[2]
\* an equation with right hand side 1/2 may only have points between the grid's integers
Exact == LET D == Decide(p) IN
         IF Pts = {} THEN D.st = "infeasible"
         ELSE /\ D.st = "optimal"
              /\ LET best == IF p.sense = "min" THEN MinSet({Obj(z) : z \in Pts}) ELSE MaxSet({Obj(z) : z \in Pts})
                 IN LET Bs == DOMAIN D.v
                    IN IF Cardinality(Bs) = 1 THEN LET B == CHOOSE x \in Bs : TRUE IN 2 * D.v[B][1] = best * D.v[B][2]
                       ELSE LET A == CHOOSE x \in Bs : 1 \in x
                                B == CHOOSE x \in Bs : 2 \in x
                            IN 2 * (D.v[A][1] * D.v[B][2] + D.v[B][1] * D.v[A][2]) = best * D.v[A][2] * D.v[B][2]
=============================================================================
