--------------------------------- MODULE Heur ---------------------------------
(* The quotient-sum heuristic (C20): weights of initializers and updaters and the *)
(* iteration that uses them.  Weights and indicator values are observed as        *)
(* <<m, e>> with four significant digits, meaning m * 10^e (m = 0 for zero).      *)
EXTENDS Witness

Pow10(k) == CASE k <= 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] k = 4 -> 10000 [] k = 5 -> 100000
             [] k = 6 -> 1000000 [] k = 7 -> 10000000 [] k = 8 -> 100000000 [] OTHER -> 1000000000
\* a positive integer with four digits (exact when it has at most four)
RECURSIVE Sci(_, _)
Sci(x, e) == IF x = 0 THEN <<0, 0>> ELSE IF x >= 10000 THEN Sci(x \div 10, e + 1) ELSE IF x < 1000 THEN Sci(x * 10, e - 1) ELSE <<x, e>>
\* a * b = c up to a relative error of 1/rel (a, b, c positive)
ProdIs(a, b, c, rel) ==
  LET d == c[2] - a[2] - b[2]          \* a.m * b.m = c.m * 10^d
      p == a[1] * b[1]                 \* 10^6 .. 10^8
  IN d >= 2 /\ d <= 5 /\ LET x == c[1] * Pow10(d) IN Abs(p - x) <= p \div rel
\* comparison of positive numbers
SciLeq(a, b) == \/ a[1] = 0
                \/ b[1] # 0 /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[1] <= b[1]))
E9 == <<1000, 6>>
E8 == <<1000, 5>>
\* w = c / x, or the cap c * 10^9 when x is no more than 10^-9 (one percent of doubt)
CappedInv(w, x, c, rel) ==
  \/ w[1] > 0 /\ ProdIs(w, x, Sci(c, 0), rel)
  \/ SciLeq(x, <<1010, 0 - 12>>) /\ w = Sci(c, 9)
\* a * b >= 0.99
AtLeastOne(a, b) == LET d == a[2] + b[2] p == a[1] * b[1]
                    IN d >= 0 - 6 \/ (d = 0 - 7 /\ p >= 9900000) \/ (d = 0 - 8 /\ p >= 99000000)

WeightFn(w) == [g \in {w[i][1] : i \in 1..Len(w)} |-> LET i == CHOOSE j \in 1..Len(w) : w[j][1] = g IN <<w[i][2], w[i][3]>>]
OnePer(w, groups) == Len(w) = Len(groups) /\ {w[i][1] : i \in 1..Len(w)} = {groups[i][1] : i \in 1..Len(groups)} /\ NoDup([i \in 1..Len(w) |-> w[i][1]])
UserWeight(e, g) == IF e.a.wt = <<>> THEN 1 ELSE LET i == CHOOSE j \in 1..Len(e.a.wt) : e.a.wt[j][1] = g IN e.a.wt[i][2]

\* reachability values of the variables (states or rows), numerators over q * D
VarValue(R, mode, H, v) == IF mode = "min" THEN R.m.D * H.v[v + 1]
                           ELSE IF R.reward THEN RewVal(R.m, v + 1, H.q, H.v) ELSE RowVal(R.m, v + 1, H.v)
\* frequencies of the variables, numerators over q of the flow
VarFreq(R, mode, F, v) == IF mode = "max" THEN F.y[v + 1]
                          ELSE LET f(j) == IF R.m.rows[j].s = v THEN F.y[j] ELSE 0 IN SumTo(f, 1, CC(R.m))

V_weights(heap, e) ==
  LET R == heap[e.a.h]
      M == R.m
      gs == e.a.groups
      W == WeightFn(e.r.w)
      vars(i) == Range(gs[i][2])
      H == heap[e.a.hint]
      F == heap[e.a.flow]
      reachOK(i) ==
        LET f(v) == VarValue(R, e.a.mode, H, v)
            x == SumSet(f, vars(i))              \* over D * q
            n == Cardinality(vars(i))
        IN IF x = 0 THEN SciLeq(<<9890, 5>>, W[gs[i][1]]) /\ SciLeq(W[gs[i][1]], E9)
           ELSE IF x < (M.D * H.q) \div 2000 THEN TRUE
           ELSE CappedInv(W[gs[i][1]], Sci(x, 0), n * M.D * H.q, 250)
      freqOK(i) ==
        LET f(v) == VarFreq(R, e.a.mode, F, v)
            x == SumSet(f, vars(i))
        IN IF x <= 2 THEN SciLeq(<<9890, 4>>, W[gs[i][1]]) /\ SciLeq(W[gs[i][1]], E9)
           ELSE IF x < F.q \div 500 THEN TRUE
           ELSE CappedInv(W[gs[i][1]], Sci(x, 0), F.q, 200)
      \* thousandths of the values times thousandths of the frequencies
      combOK(i) ==
        LET f(v) == (VarValue(R, e.a.mode, H, v) \div Max2(1, (M.D * H.q) \div 1000)) * (VarFreq(R, e.a.mode, F, v) \div Max2(1, F.q \div 1000))
            x == SumSet(f, vars(i))
            g(v) == IF VarFreq(R, e.a.mode, F, v) <= 2 \/ VarValue(R, e.a.mode, H, v) = 0 THEN 0 ELSE 1
        IN IF SumSet(g, vars(i)) = 0 THEN SciLeq(<<9890, 4>>, W[gs[i][1]]) /\ SciLeq(W[gs[i][1]], E9)
           ELSE IF x < 200000 THEN TRUE
           ELSE CappedInv(W[gs[i][1]], Sci(x, 0), 1000000, 25)
      sig(g) == LET i == CHOOSE j \in 1..Len(e.a.sig) : e.a.sig[j][1] = g IN <<e.a.sig[i][2], e.a.sig[i][3]>>
      invOK(g) == CappedInv(W[g], sig(g), UserWeight(e, g), 250)
      plainInv(g) == ProdIs(W[g], sig(g), Sci(UserWeight(e, g), 0), 250)
      G == {gs[i][1] : i \in 1..Len(gs)}
      on == {g \in G : sig(g)[1] > 0}
      p == "C20." \o e.a.kind
  IN IF ~Ok(e) THEN {p \o "-error"}
     ELSE IF ~OnePer(e.r.w, gs) THEN {p \o "-groups"}
     ELSE CASE e.a.kind = "AllOnes" -> Viol(\A g \in G : W[g] = Sci(UserWeight(e, g), 0), p)
            [] e.a.kind = "InverseReachability" ->
                 IF ~HintFor(heap, e.a.hint, e.a.h, IF R.reward THEN "rewmin" ELSE "prmin") THEN {"HINT.weights"}
                 ELSE Viol(\A i \in 1..Len(gs) : reachOK(i), p)
            [] e.a.kind = "InverseFrequency" -> Viol(\A i \in 1..Len(gs) : freqOK(i), p)
            [] e.a.kind = "InverseCombined" ->
                 IF ~HintFor(heap, e.a.hint, e.a.h, IF R.reward THEN "rewmin" ELSE "prmin") THEN {"HINT.weights"}
                 ELSE Viol(\A i \in 1..Len(gs) : combOK(i), p)
            [] e.a.kind = "InverseResult" ->
                 \* one penalty for all vanished groups, dominating every other quotient
                 Viol(\A g \in on : invOK(g), p \o "-positive")
                 \cup Viol(\A g \in G \ on : SciLeq(E8, W[g]) /\ SciLeq(W[g], E9)
                             /\ \A k \in on : SciLeq(<<9890, 5>>, W[g]) \/ AtLeastOne(W[g], sig(k)), p \o "-penalty")
                 \cup Viol(\A g, k \in G \ on : W[g] = W[k], p \o "-penalty")
            [] e.a.kind = "InverseResultFixedZeros" ->
                 Viol(\A g \in on : plainInv(g), p \o "-positive") \cup Viol(\A g \in G \ on : W[g][1] = 0, p \o "-zero")

\* constraints an updater asks for: sequences of [t, sense, rhs] with t a sequence of <<var, m, e>>
V_cons(heap, e) ==
  LET G == {e.a.groups[i][1] : i \in 1..Len(e.a.groups)}
      off == {g \in G : \E i \in 1..Len(e.a.sig) : e.a.sig[i][1] = g /\ e.a.sig[i][2] = 0}
      want == IF e.a.kind = "InverseResultFixedZeros" THEN {[t |-> <<<<g, 1000, 0 - 3>>>>, sense |-> "=", rhs |-> 0] : g \in off} ELSE {}
  IN IF ~Ok(e) THEN {"C20.constraints-error"} ELSE Viol(SameSet(e.r.c, want), "C20.constraints")

----------------------------------------------------------------------------
(* The iteration.  e.r.rounds is a sequence of                                   *)
(*   obj    objective of the solved program, <<var, m, e>> with nonzero weight    *)
(*   miss   number of constraints of the first program that are gone              *)
(*   extra  constraints added since the first program                             *)
(*   st     status, sig  indicator values <<var, m, e>> of the solution           *)
(* e.r.prod[i] is what the initializer (i = 1) or the updater after round i - 1   *)
(* produced: obj as above and cons, together with the indicators it was given.    *)
NonZero(w) == {w[i] : i \in {j \in 1..Len(w) : w[j][2] # 0}}
V_loop(heap, e) ==
  LET R == e.r
      k == Len(R.rounds)
      cons(i) == UNION {Range(R.prod[j].cons) : j \in 1..i}
      off(i) == {R.rounds[i].sig[j][1] : j \in {x \in 1..Len(R.rounds[i].sig) : R.rounds[i].sig[x][2] = 0}}
      ok(i) == R.rounds[i].st = "success"
  IN IF ~Ok(e) THEN {"C20.loop-error"}
     ELSE Viol(k = Len(R.vals) /\ k <= e.a.iters /\ (k = e.a.iters \/ (k >= 1 /\ ~ok(k))), "C20.loop-rounds")
          \cup (IF k # Len(R.vals) \/ Len(R.prod) < k THEN {"C20.loop-rounds"}
                ELSE Viol(\A i \in 1..k : Range(R.rounds[i].obj) = NonZero(R.prod[i].obj), "C20.loop-objective")
                     \cup Viol(\A i \in 1..k : R.rounds[i].miss = 0 /\ Range(R.rounds[i].extra) = cons(i), "C20.loop-constraints")
                     \cup Viol(\A i \in 2..k : ok(i - 1) /\ R.prod[i].given = R.rounds[i - 1].sig, "C20.loop-update-argument")
                     \cup Viol(\A i \in 1..k : ok(i) => R.vals[i] = Cardinality({j \in 1..Len(R.rounds[i].sig) : R.rounds[i].sig[j][2] > 0}), "C20.loop-value")
                     \cup (IF e.a.updater # "InverseResultFixedZerosUpdater" THEN {}
                           ELSE Viol(\A i \in 2..k : ok(i) /\ ok(i - 1) => R.vals[i] <= R.vals[i - 1] /\ off(i - 1) \subseteq off(i), "C20.loop-dropped")))
=============================================================================
