------------------------------ MODULE Interior ------------------------------
(* The search for a point (strictly) inside a polyhedron A x <= b (C30).         *)
(* What there is to find is decided exactly: the program min s, A x <= b + s      *)
(* (x >= -s and x_i = 0 where asked for) is handed to Solver.tla's DecideBlock.   *)
EXTENDS Shared

IPScale == 100000
\* event: n, A (rows of 4 * coefficients), b (4 * values), nn (x >= 0), zero (variables forced to 0)
IPProg(a, allpos) ==
  LET free == [d |-> "real", lo |-> <<>>, hi |-> <<>>]
      rows == [i \in 1..Len(a.A) |-> [t |-> [j \in 1..a.n + 1 |-> <<j - 1, IF j <= a.n THEN a.A[i][j] ELSE -4>>], s |-> "<=", b |-> a.b[i], on |-> TRUE]]
      keep == {j \in 1..a.n : allpos \/ j - 1 \notin Range(a.zero)}
      pos == IF a.nn THEN SelectSeq([j \in 1..a.n |-> [t |-> <<<<j - 1, 4>>, <<a.n, 4>>>>, s |-> ">=", b |-> 0, on |-> j \in keep]], LAMBDA c : c.on) ELSE <<>>
      zer == [j \in 1..Len(a.zero) |-> [t |-> <<<<a.zero[j], 4>>>>, s |-> "=", b |-> 0, on |-> TRUE]]
  IN [t |-> "prog", p |-> "C30", sense |-> "min", vars |-> [i \in 1..a.n + 1 |-> free], cons |-> rows \o pos \o zer, obj |-> <<<<a.n, 4>>>>]

\* rows of one variable each, of coefficient 1 or -1: the least slack, for any number of variables
IPVar(row) == CHOOSE j \in 1..Len(row) : row[j] # 0
IPIsBox(a) == \A i \in 1..Len(a.A) : Cardinality({j \in 1..a.n : a.A[i][j] # 0}) = 1 /\ a.A[i][IPVar(a.A[i])] \in {4, -4}
IPBox(a, allpos) ==
  LET keep == {j \in 1..a.n : allpos \/ j - 1 \notin Range(a.zero)}
      \* bounds from above and below, each up to the slack: x <= b + s, -x <= b + s
      up(j) == {a.b[i] : i \in {k \in 1..Len(a.A) : a.A[k][j] > 0}}
      dn(j) == {a.b[i] : i \in {k \in 1..Len(a.A) : a.A[k][j] < 0}} \cup (IF a.nn /\ j \in keep THEN {0} ELSE {})
      \* twice the slack is at least each of these
      need(j) == IF j - 1 \in Range(a.zero) THEN {-2 * x : x \in up(j) \cup dn(j)} ELSE {-(x + y) : x \in up(j), y \in dn(j)}
      all == UNION {need(j) : j \in 1..a.n}
  IN IF all = {} THEN [st |-> "unbounded", v |-> <<0, 1>>] ELSE [st |-> "optimal", v |-> <<CHOOSE x \in all : \A y \in all : y <= x, 2>>]
IPDecide(a, allpos) == IF a.n > 3 /\ IPIsBox(a) THEN IPBox(a, allpos) ELSE DecideBlock(IPProg(a, allpos))

\* the two ways to decide agree where both apply
IPAgree(a) == a.n > 3 \/ ~IPIsBox(a) \/ \A p \in BOOLEAN : LET x == IPBox(a, p) y == DecideBlock(IPProg(a, p)) IN x.st = y.st /\ (x.st = "optimal" => x.v[1] * y.v[2] = y.v[1] * x.v[2])

\* lhs of row i at the point x, in units 1 / (4 * IPScale)
IPLhs(a, i, x) == LET f(j) == a.A[i][j] * x[j] IN SumTo(f, 1, a.n)
IPSize(a, i) == LET f(j) == Abs(a.A[i][j]) IN SumTo(f, 1, a.n)
V_ipoint(heap, e) ==
  LET a == e.a
      D == IPDecide(a, TRUE)
      \* a forced zero leaves no slack in x >= 0, there may still be slack in the rows
      D2 == IF a.nn /\ a.zero # <<>> THEN IPDecide(a, FALSE) ELSE D
      there == D2.st = "optimal" /\ RLess(D2.v, <<-4, 100>>)
      x == e.r.x
      \* the optimal slack is clearly negative / positive (v is 4 * slack)
      inside == D.st = "optimal" /\ RLess(D.v, <<-4, 100>>)
      empty == D.st = "optimal" /\ RLess(<<4, 100>>, D.v)
      rows == 1..Len(a.A)
  IN IF ~IPAgree(a) THEN {"HINT.box"}
     ELSE IF ~Ok(e) THEN {"C30.error"}
     ELSE Viol(e.r.same, "C30.changes-arguments")
          \cup Viol(there => e.r.optimal, "C30.feasible-not-found")
          \cup (IF inside THEN Viol(e.r.strict, "C30.interior-not-found")
                ELSE IF empty THEN Viol(~e.r.optimal, "C30.infeasible-reported-feasible") \cup Viol(~e.r.strict, "C30.infeasible-reported-strict")
                ELSE IF D.st = "unbounded" THEN Viol(~e.r.optimal, "C30.unbounded-reported-optimal") ELSE {})
          \cup (IF ~e.r.optimal \/ e.r.big THEN {}
                ELSE IF Len(x) # a.n THEN {"C30.point-length"}
                ELSE Viol(\A i \in rows : IPLhs(a, i, x) <= a.b[i] * IPScale + IPSize(a, i) + 8, "C30.point-outside")
                     \cup Viol(inside => \A i \in rows : IPLhs(a, i, x) < a.b[i] * IPScale, "C30.point-not-inside")
                     \cup Viol(a.nn => \A j \in 1..a.n : x[j] >= -1, "C30.point-negative")
                     \cup Viol(\A j \in 1..Len(a.zero) : Abs(x[a.zero[j] + 1]) <= 1, "C30.point-not-zero"))
=============================================================================
