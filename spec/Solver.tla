------------------------------- MODULE Solver -------------------------------
(* Linear programs built step by step (C22) or from coefficients (C23).         *)
(* A program is                                                                 *)
(*   [t |-> "prog", p |-> property, sense |-> "min"/"max",                       *)
(*    vars |-> <<[d |-> domain, lo |-> <<>> or <<4*lb>>, hi |-> ...]>>,           *)
(*    cons |-> <<[t |-> <<<<var, 4*coefficient>>>>, s |-> sense, b |-> 4*rhs,    *)
(*               on |-> BOOLEAN]>>, obj |-> <<<<var, 4*coefficient>>>>]          *)
(* All numbers of generated programs are multiples of 1/4.  What a program      *)
(* prescribes is decided exactly: real variables are eliminated by               *)
(* Fourier-Motzkin elimination, integer variables are enumerated.               *)
EXTENDS Heur

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* a row is <<a, b>> with a a sequence: a . x <= b
GcdRow(r) == LET RECURSIVE g(_)
                 g(i) == IF i = 0 THEN Abs(r[2]) ELSE Gcd(Abs(r[1][i]), g(i - 1))
             IN g(Len(r[1]))
LNorm(r) == LET d == GcdRow(r) IN IF d <= 1 THEN r ELSE <<[i \in 1..Len(r[1]) |-> r[1][i] \div d], r[2] \div d>>
Comb(r, m, q, k) == LNorm(<<[i \in 1..Len(r[1]) |-> m * r[1][i] + k * q[1][i]], m * r[2] + k * q[2]>>)
Neg(r) == <<[i \in 1..Len(r[1]) |-> - r[1][i]], - r[2]>>
\* only the tightest of parallel rows, no trivially true rows
Prune(R) == LET R1 == {r \in R : r[2] < 0 \/ \E i \in 1..Len(r[1]) : r[1][i] # 0}
            IN {r \in R1 : \A q \in R1 : q[1] = r[1] => r[2] <= q[2]}
Elim(R, k) ==
  LET eqs == {r \in R : r[1][k] > 0 /\ Neg(r) \in R}
  IN IF eqs # {}
     THEN LET r == CHOOSE x \in eqs : \A y \in eqs : x[1][k] <= y[1][k]
          IN Prune({Comb(q, r[1][k], r, - q[1][k]) : q \in R \ {r, Neg(r)}})
     ELSE LET pos == {r \in R : r[1][k] > 0}
              neg == {r \in R : r[1][k] < 0}
          IN Prune({r \in R : r[1][k] = 0} \cup {Comb(p, - q[1][k], q, p[1][k]) : <<p, q>> \in pos \X neg})
RECURSIVE ElimAll(_, _)
ElimAll(R, K) == IF K = {} THEN R ELSE LET k == CHOOSE x \in K : TRUE IN ElimAll(Elim(R, k), K \ {k})
Consistent(R) == \A r \in R : (\A i \in 1..Len(r[1]) : r[1][i] = 0) => r[2] >= 0

\* the coefficient of a variable in an expression: repeated variables add up
CoefOf(q, v) == LET f(i) == IF q[i][1] = v THEN q[i][2] ELSE 0 IN SumTo(f, 1, Len(q))
\* rows of a program over (x_0, ..., x_{n-1}, z) with z = 4 * objective
NVars(P) == Len(P.vars)
LRow(P, q, b, sg) == LNorm(<<[i \in 1..NVars(P) + 1 |-> IF i <= NVars(P) THEN sg * CoefOf(q, i - 1) ELSE 0], sg * b>>)
ConRows(P, c) == (IF c.s \in {"<=", "="} THEN {LRow(P, c.t, c.b, 1)} ELSE {}) \cup (IF c.s \in {">=", "="} THEN {LRow(P, c.t, c.b, -1)} ELSE {})
Lower(x) == IF x.d = "binary" THEN <<IF x.lo = <<>> THEN 0 ELSE Max2(0, x.lo[1])>> ELSE x.lo
Upper(x) == IF x.d = "binary" THEN <<IF x.hi = <<>> THEN 4 ELSE Min2(4, x.hi[1])>> ELSE x.hi
VarRows(P, i) == LET x == P.vars[i] IN
  (IF Lower(x) = <<>> THEN {} ELSE {LRow(P, <<<<i - 1, 4>>>>, Lower(x)[1], -1)})
  \cup (IF Upper(x) = <<>> THEN {} ELSE {LRow(P, <<<<i - 1, 4>>>>, Upper(x)[1], 1)})
ObjRow(P, sg) == <<[i \in 1..NVars(P) + 1 |-> IF i <= NVars(P) THEN - sg * CoefOf(P.obj, i - 1) ELSE sg], 0>>
Rows4(P) == Prune(UNION {ConRows(P, P.cons[i]) : i \in {j \in 1..Len(P.cons) : P.cons[j].on}}
                  \cup UNION {VarRows(P, i) : i \in 1..NVars(P)}
                  \cup {LNorm(ObjRow(P, 1)), LNorm(ObjRow(P, -1))})

\* rationals <<num, den>> with den > 0, compared without large products
RECURSIVE RLess(_, _)
RLess(a, b) ==
  LET fa == a[1] \div a[2]
      fb == b[1] \div b[2]
      ra == a[1] % a[2]
      rb == b[1] % b[2]
  IN IF fa # fb THEN fa < fb
     ELSE IF ra = 0 THEN rb # 0
     ELSE IF rb = 0 THEN FALSE
     ELSE RLess(<<b[2], rb>>, <<a[2], ra>>)
RMin(S) == CHOOSE x \in S : \A y \in S : ~ RLess(y, x)
RMax(S) == CHOOSE x \in S : \A y \in S : ~ RLess(x, y)
FloorR(a) == a[1] \div a[2]
CeilR(a) == - ((- a[1]) \div a[2])

Ints(P) == {i \in 1..NVars(P) : P.vars[i].d # "real"}
Reals(P) == (1..NVars(P)) \ Ints(P)
BoxLimit == 8
\* range of the integer variable i in the relaxation: <<lower, upper>>, each <<>> when unbounded
RangeOf(R, n, i) ==
  LET Q == ElimAll(R, (1..n + 1) \ {i})
      lo == {<<- r[2], - r[1][i]>> : r \in {x \in Q : x[1][i] < 0}}
      hi == {<<r[2], r[1][i]>> : r \in {x \in Q : x[1][i] > 0}}
  IN [lo |-> IF lo = {} THEN <<>> ELSE <<CeilR(RMax(lo))>>, hi |-> IF hi = {} THEN <<>> ELSE <<FloorR(RMin(hi))>>]

(* What the program prescribes: [st |-> "infeasible"], [st |-> "unbounded"] or    *)
(* [st |-> "optimal", v |-> rational value of 4 * objective]; "undecided" when    *)
(* the enumeration of integer points is not known to be complete.                *)
DecideBlock(P) ==
  LET n == NVars(P)
      R0 == Rows4(P)
      R1 == ElimAll(R0, Reals(P))
      I == Ints(P)
      rng == [i \in I |-> RangeOf(R1, n, i)]
      known == \A i \in I : rng[i].lo # <<>> /\ rng[i].hi # <<>> /\ rng[i].lo[1] >= - BoxLimit /\ rng[i].hi[1] <= BoxLimit
      val(i) == IF rng[i].lo # <<>> /\ rng[i].hi # <<>>
                THEN Max2(- BoxLimit, rng[i].lo[1])..Min2(BoxLimit, rng[i].hi[1]) ELSE -2..2
      R2 == Elim(R1, n + 1)
      sub(r, x) == LET f(i) == IF i \in I THEN r[1][i] * x[i] ELSE 0 IN SumTo(f, 1, n)
      pts == {x \in [I -> -BoxLimit..BoxLimit] : FALSE}
      RECURSIVE grid(_)
      grid(J) == IF J = {} THEN {[i \in {} |-> 0]}
                 ELSE LET j == CHOOSE y \in J : TRUE IN {(j :> v) @@ g : v \in val(j), g \in grid(J \ {j})}
      feas == {x \in grid(I) : \A r \in R2 : sub(r, x) <= r[2]}
      \* rows bounding z on the side the objective pushes to
      side == {r \in R1 : IF P.sense = "min" THEN r[1][n + 1] < 0 ELSE r[1][n + 1] > 0}
      zat(x) == IF P.sense = "min"
                THEN RMax({<<sub(r, x) - r[2], - r[1][n + 1]>> : r \in side})
                ELSE RMin({<<r[2] - sub(r, x), r[1][n + 1]>> : r \in side})
      relax == ElimAll(R1, 1..n)
      relaxbounded == \E r \in relax : IF P.sense = "min" THEN r[1][n + 1] < 0 ELSE r[1][n + 1] > 0
  IN IF ~Consistent(R1) \/ ~Consistent(ElimAll(R2, 1..n)) THEN [st |-> "infeasible"]
     ELSE IF feas = {} THEN IF known THEN [st |-> "infeasible"] ELSE [st |-> "undecided"]
     ELSE IF ~relaxbounded THEN [st |-> "unbounded"]
     ELSE IF ~known THEN [st |-> "undecided"]
     ELSE [st |-> "optimal", v |-> (IF P.sense = "min" THEN RMin({zat(x) : x \in feas}) ELSE RMax({zat(x) : x \in feas}))]

(* Variables that share no constraint do not influence each other: the program   *)
(* falls apart into blocks, and its optimum is the sum of their optima.           *)
Mentions(P, i) == {v \in {P.cons[i].t[j][1] + 1 : j \in 1..Len(P.cons[i].t)} : CoefOf(P.cons[i].t, v - 1) # 0}
RECURSIVE BlockOf(_, _)
BlockOf(sets, B) == LET C == B \cup UNION {s \in sets : s \cap B # {}} IN IF C = B THEN B ELSE BlockOf(sets, C)
RECURSIVE Blocks(_, _)
Blocks(sets, V) == IF V = {} THEN {} ELSE LET B == BlockOf(sets, {CHOOSE v \in V : TRUE}) IN {B} \cup Blocks(sets, V \ B)
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == MinSet(S) IN <<m>> \o Ascending(S \ {m})
SubProgram(P, B) ==
  LET vs == Ascending(B)
      pos == [v \in B |-> (CHOOSE k \in 1..Len(vs) : vs[k] = v) - 1]
      cut(q) == LET r == SelectSeq(q, LAMBDA x : x[1] + 1 \in B) IN [k \in 1..Len(r) |-> <<pos[r[k][1] + 1], r[k][2]>>]
      mine == {i \in 1..Len(P.cons) : P.cons[i].on /\ Mentions(P, i) # {} /\ Mentions(P, i) \subseteq B}
      cs == Ascending(mine)
  IN [P EXCEPT !.vars = [k \in 1..Len(vs) |-> P.vars[vs[k]]],
               !.cons = [k \in 1..Len(cs) |-> [P.cons[cs[k]] EXCEPT !.t = cut(@)]],
               !.obj = cut(P.obj)]
(* [st |-> "optimal", v |-> block -> rational]                                  *)
Decide(P) ==
  LET on == {i \in 1..Len(P.cons) : P.cons[i].on}
      empty == {i \in on : Mentions(P, i) = {}}
      bad(c) == CASE c.s = "<=" -> c.b < 0 [] c.s = ">=" -> c.b > 0 [] OTHER -> c.b # 0
      Bs == Blocks({Mentions(P, i) : i \in on \ empty}, 1..NVars(P))
      D == [B \in Bs |-> DecideBlock(SubProgram(P, B))]
      has(st) == \E B \in Bs : D[B].st = st
  IN IF has("infeasible") \/ \E i \in empty : bad(P.cons[i]) THEN [st |-> "infeasible"]
     ELSE IF has("undecided") THEN [st |-> "undecided"]
     ELSE IF has("unbounded") THEN [st |-> "unbounded"]
     ELSE [st |-> "optimal", v |-> [B \in Bs |-> D[B].v]]

----------------------------------------------------------------------------
SolverScale == 1000
Domains == {"real", "integer", "binary"}
ExprOk(P, q) == \A i \in 1..Len(q) : q[i][1] >= 0 /\ q[i][1] < NVars(P)

\* programs of the Gurobi back end name their property
PropOf(a, p) == IF "p" \in DOMAIN a THEN a.p ELSE p
V_pnew(heap, e) == LET p == PropOf(e.a, "C22") IN IF e.a.sense \in {"min", "max"} THEN Viol(Ok(e), p \o ".new-error") ELSE Viol(~Ok(e), p \o ".new-bad-objective")
E_pnew(heap, e) == IF Ok(e) THEN Put(heap, e.a.h, [t |-> "prog", p |-> PropOf(e.a, "C22"), sense |-> e.a.sense, vars |-> <<>>, cons |-> <<>>, obj |-> <<>>]) ELSE heap

V_pvars(heap, e) ==
  LET P == heap[e.a.h]
      k == Len(e.a.v)
      good == \A i \in 1..k : e.a.v[i].d \in Domains
  IN IF ~good THEN Viol(~Ok(e), P.p \o ".variables-bad-domain")
     ELSE IF ~Ok(e) THEN {P.p \o ".variables-error"}
     ELSE Viol(e.r.ids = [i \in 1..k |-> NVars(P) + i - 1], P.p \o ".variables-index")
E_pvars(heap, e) ==
  IF (\A i \in 1..Len(e.a.v) : e.a.v[i].d \in Domains) THEN Put(heap, e.a.h, [heap[e.a.h] EXCEPT !.vars = @ \o e.a.v]) ELSE heap

V_pobj(heap, e) ==
  LET P == heap[e.a.h] IN
  IF e.a.nan \/ ~ExprOk(P, e.a.e) THEN Viol(~Ok(e), P.p \o ".objective-bad-accepted") ELSE Viol(Ok(e), P.p \o ".objective-error")
E_pobj(heap, e) == LET P == heap[e.a.h] IN IF e.a.nan \/ ~ExprOk(P, e.a.e) THEN heap ELSE Put(heap, e.a.h, [P EXCEPT !.obj = e.a.e])

ConOk(P, e) == ~e.a.nan /\ ExprOk(P, e.a.e) /\ e.a.s \in {"<=", "=", ">="}
V_pcon(heap, e) ==
  LET P == heap[e.a.h] IN
  IF ~ConOk(P, e) THEN Viol(~Ok(e), P.p \o ".constraint-bad-accepted")
  ELSE IF ~Ok(e) THEN {P.p \o ".constraint-error"} ELSE Viol(e.r = Len(P.cons), P.p \o ".constraint-index")
E_pcon(heap, e) ==
  LET P == heap[e.a.h] IN
  IF ConOk(P, e) THEN Put(heap, e.a.h, [P EXCEPT !.cons = Append(@, [t |-> e.a.e, s |-> e.a.s, b |-> e.a.b, on |-> TRUE])]) ELSE heap

RemOk(P, i) == i >= 0 /\ i < Len(P.cons) /\ P.cons[i + 1].on
V_prem(heap, e) ==
  LET P == heap[e.a.h] IN
  IF RemOk(P, e.a.i) THEN Viol(Ok(e), P.p \o ".remove-error") ELSE Viol(~Ok(e), P.p \o ".remove-missing-accepted")
E_prem(heap, e) == LET P == heap[e.a.h] IN IF RemOk(P, e.a.i) THEN Put(heap, e.a.h, [P EXCEPT !.cons[e.a.i + 1].on = FALSE]) ELSE heap

(* from_coefficients: A is a sequence of rows of 4 * coefficients, c = <<>> means *)
(* no objective, bnd = <<>> no bounds                                            *)
CoefProg(a) ==
  [t |-> "prog", p |-> PropOf(a, "C23"), sense |-> a.sense,
   vars |-> [i \in 1..a.n |-> [d |-> a.doms[i], lo |-> IF a.bnd = <<>> THEN <<>> ELSE a.bnd[i][1], hi |-> IF a.bnd = <<>> THEN <<>> ELSE a.bnd[i][2]]],
   cons |-> [i \in 1..Len(a.A) |-> [t |-> [j \in 1..a.n |-> <<j - 1, a.A[i][j]>>], s |-> a.s, b |-> a.b[i], on |-> TRUE]],
   obj |-> [j \in 1..Len(a.c) |-> <<j - 1, a.c[j]>>]]
V_pcoef(heap, e) == Viol(Ok(e), PropOf(e.a, "C23") \o ".from-coefficients-error")
\* matrices and vectors of the caller stay as they are
V_pgiven(heap, e) == Viol(Ok(e) /\ e.r, "C23.caller-data-changed")
E_pcoef(heap, e) == IF Ok(e) THEN Put(heap, e.a.h, CoefProg(e.a)) ELSE heap

\* is a point (SolverScale fixed point) feasible, up to solver tolerance
FeasAt(P, x) ==
  LET n == NVars(P)
      slack(r) == LET f(i) == Abs(r[1][i]) IN 2 * SumTo(f, 1, n) + 2
      lhs(r) == LET f(i) == r[1][i] * x[i] IN SumTo(f, 1, n)
      R == UNION {ConRows(P, P.cons[i]) : i \in {j \in 1..Len(P.cons) : P.cons[j].on}} \cup UNION {VarRows(P, i) : i \in 1..n}
  IN /\ \A r \in R : lhs(r) <= r[2] * SolverScale + slack(r)
     /\ \A i \in Ints(P) : LET m == x[i] % SolverScale IN m <= 2 \/ m >= SolverScale - 2
\* is v (fixed point) the sum of the rationals of q, divided by 4
FixOf(q) == LET w == q[1] \div q[2] IN w * SolverScale + ((q[1] - w * q[2]) * SolverScale) \div q[2]
ValueIs(v, q) == LET f(B) == FixOf(q[B]) IN Close(4 * v, SumSet(f, DOMAIN q), 12 + Cardinality(DOMAIN q))
(* The solvers are third-party programs with errors of their own (cbc reports      *)
(* some feasible programs as infeasible, glpsol aborts on some).  e.a.ref is what  *)
(* the same solver answers on an independently written copy of the prescribed      *)
(* program: where that answer is not the right one, nothing but an answer without  *)
(* a wrong optimum can be asked of the tool.                                      *)
RightAnswer(D, st, val) == st = D.st /\ (D.st = "optimal" => ValueIs(val, D.v))
V_psolve(heap, e) ==
  LET P == heap[e.a.h]
      D == Decide(P)
      ref == e.a.ref
  IN IF e.a.bad THEN Viol(~Ok(e), P.p \o ".solve-bad-argument-accepted")
     ELSE IF D.st = "undecided" THEN {"HINT.program-undecided"}
     ELSE IF ref.st = "error" THEN {}
     ELSE IF ~Ok(e) THEN {P.p \o ".solve-error"}
     ELSE Viol(Len(e.r.x) = NVars(P) \/ (P.p = "C31" /\ e.r.st # "optimal"), P.p \o ".solve-vector-length")
          \cup (IF RightAnswer(D, ref.st, ref.val) THEN Viol(e.r.st = D.st, P.p \o ".solve-status")
                ELSE Viol(ref.st # "optimal" => e.r.st # "optimal", P.p \o ".solve-status"))
          \cup (IF e.r.st # "optimal" \/ D.st # "optimal" \/ Len(e.r.x) # NVars(P) \/ ~RightAnswer(D, ref.st, ref.val) THEN {}
                ELSE LET obj == LET f(i) == CoefOf(P.obj, i - 1) * e.r.x[i] IN SumTo(f, 1, NVars(P))
                         sz == LET f(i) == Abs(CoefOf(P.obj, i - 1)) IN SumTo(f, 1, NVars(P))
                     IN Viol(FeasAt(P, e.r.x), P.p \o ".solve-infeasible-point")
                        \cup Viol(ValueIs(e.r.val, D.v), P.p \o ".solve-value")
                        \cup Viol(Close(obj, 4 * e.r.val, 2 * sz + 8), P.p \o ".solve-point-value"))

(* Stopped early: whatever is reported as optimal is the optimum.  The value is    *)
(* reported relative to an attainable bound of the objective (a planted solution    *)
(* meets the upper bound constraint of the objective).                            *)
V_ptimed(heap, e) ==
  IF ~Ok(e) THEN {"C22.timeout-error"}
  ELSE Viol(e.r.st \in {"optimal", "notsolved", "infeasible", "undefined"}, "C22.timeout-status")
       \cup Viol(e.r.st = "optimal" => e.r.val >= e.a.best * SolverScale - 2, "C22.timeout-not-optimal")
=============================================================================
