-------------------------------- MODULE Witness --------------------------------
(* Witnessing subsystems: exact (C17) and heuristic (C18) minimisation, labels    *)
(* (C19).  A subsystem is given by the set K of its states; its value is the      *)
(* extremal value of the form when everything outside K is lost (Values.tla).     *)
(* Enlarging K never lowers that value (MC_Witness), so a witness of size k is    *)
(* minimal iff no set of k - 1 states is one.                                     *)
EXTENDS Farkas

ExtKind(R, mode) == IF R.reward THEN (IF mode = "min" THEN "rewmin" ELSE "rewmax")
                    ELSE (IF mode = "min" THEN "prmin" ELSE "prmax")
\* threshold in hundredths against a value with denominator q
MeetsInit(H, R, thr) == H.v[R.init + 1] >= HundredthsUp(thr, H.q)
Subsets(S, k) == IF k < 0 THEN {} ELSE {T \in SUBSET S : Cardinality(T) = k}

\* vec (units 1 / q) is a point of the Farkas polytope of the threshold, up to slack
PolyOK(R, mode, vec, q, slack) ==
  LET M == R.m IN
  /\ NonNeg(vec, slack)
  /\ ~R.reward => ZerosOK(R, mode, IF mode = "min" THEN "z" ELSE "none", vec, slack)
  /\ IF mode = "min"
     THEN \A i \in InnerRows(M) : 4 * ZRes(M, i, vec) <= BVec(R, i) * q + 4 * M.D * slack
     ELSE \A s \in InnerStates(M) : FlowBalance(M, vec, s) <= (IF s = R.init THEN M.D * q ELSE 0) + M.D * slack
PolyThreshold(R, mode, vec, q, slack, thr) ==
  LET M == R.m
      f(i) == BVec(R, i) * vec[i]
      c == IF mode = "min" THEN vec[R.init + 1] ELSE SumTo(f, 1, CC(M)) \div (4 * M.D)
  IN c >= thr * (q \div 100) - 6 * slack

PosStates(R, mode, vec, eps) ==
  IF mode = "min" THEN {s \in InnerStates(R.m) : vec[s + 1] > eps}
  ELSE {R.m.rows[i].s : i \in {j \in InnerRows(R.m) : vec[j] > eps}}

\* labels of Ls carried by a set of states, and the states left when only L is allowed
Carried(M, Ls, S) == {l \in Ls : StatesBy(M, l) \cap S # {}}
Allowed(M, Ls, L) == InnerStates(M) \ UNION {StatesBy(M, l) : l \in Ls \ L}

V_minimise(heap, e) ==
  LET R == heap[e.a.h]
      M == R.m
      H == heap[e.a.hint]
      thr == e.a.thr
      feasible == MeetsInit(H, R, thr)
      res == e.r.res
      good == {i \in 1..Len(res) : res[i].st = "success"}
      labels == Range(e.a.labels)
      slack(x) == CC(M) + 2 + x.q \div 20000
  IN IF e.a.mode \notin {"min", "max"} \/ thr < 0 \/ (~R.reward /\ thr > 100) THEN Viol(~Ok(e), "C18.accepts-bad-request")
     ELSE IF ~HintFor(heap, e.a.hint, e.a.h, ExtKind(R, e.a.mode)) \/ Abs(H.v[R.init + 1] - Hundredths(thr, H.q)) < H.q \div 400 THEN {"HINT.minimise"}
     ELSE IF ~Ok(e) THEN {"C18.error"}
     ELSE Viol(Len(res) >= 1 /\ Len(res) <= e.a.iters, "C20.iterations")
          \cup (IF feasible THEN Viol(good = 1..Len(res), "C18.not-success") \cup (IF e.a.exact /\ ~e.a.bylabel THEN Viol(good = 1..Len(res), "C17.not-success") ELSE {})
                                                            \cup (IF e.a.bylabel THEN Viol(good = 1..Len(res), "C19.not-success") ELSE {})
                            ELSE Viol(good = {}, "C18.success-above-threshold"))
          \cup UNION {LET x == res[i] IN
                 IF Len(x.v) # CertLen(M, e.a.mode) THEN {"C18.certificate-length"}
                 ELSE Viol(PolyOK(R, e.a.mode, x.v, x.q, slack(x)), "C18.certificate-system")
                      \cup Viol(PolyThreshold(R, e.a.mode, x.v, x.q, slack(x), thr), "C18.certificate-threshold")
                      \cup Viol(PosStates(R, e.a.mode, x.v, 1) \subseteq Range(x.mask), "C18.mask")
                      \cup Viol(Range(x.mask) \subseteq InnerStates(M), "C18.mask")
                      \* labels used by clearly positive states are counted
                      \cup (IF ~e.a.bylabel THEN {}
                            ELSE Viol(Cardinality(Carried(M, labels, PosStates(R, e.a.mode, x.v, 1 + x.q \div 100000))) * 1000 <= x.k + 1, "C19.uses-uncounted-label")
                                 \cup Viol(x.k <= 1000 * Cardinality(Carried(M, labels, InnerStates(M))), "C19.counts-too-many"))
                      : i \in good}
\* the at-th program of a minimisation (of the one returning all results and of the one returning the last) ends
\* with the given status: this outcome is reported as it is, and nothing comes after it
V_faulted(heap, e) ==
  LET R == heap[e.a.h]
      H == heap[e.a.hint]
      res == e.r.res
      k == Len(res)
  IN IF ~HintFor(heap, e.a.hint, e.a.h, ExtKind(R, e.a.mode)) \/ ~MeetsInit(H, R, e.a.thr) \/ e.a.at > e.a.iters THEN {"HINT.faulted"}
     ELSE IF ~Ok(e) THEN {"C18.error-on-solver-failure"}
     ELSE IF k = 0 THEN {"C18.solver-failure-hidden"}
     ELSE Viol(\A i \in 1..k - 1 : res[i].st = "success", "C18.continues-after-failure")
          \cup Viol(k = e.a.at /\ res[k].st = e.a.status /\ res[k].none, "C18.solver-failure-hidden")
          \cup Viol(e.r.last.st = e.a.status /\ e.r.last.none, "C18.solver-failure-hidden")
\* the program bounding the certificates is stopped early: exact minimisation may refuse (it needs the bounds), but
\* what is reported is right all the same
V_boundstopped(heap, e) == IF e.x = "AssertionError" /\ e.a.exact THEN {} ELSE V_minimise(heap, e)
\* the last of all results and the one result
V_solveagree(heap, e) ==
  IF ~Ok(e) THEN {"C18.error"}
  ELSE Viol(Len(e.r.res) >= 1 /\ e.r.last = e.r.res[Len(e.r.res)], "C18.not-the-last-result")
E_minimise(heap, e) ==
  IF Ok(e) THEN Put(heap, e.a.to, [h |-> e.a.h, mode |-> e.a.mode, thr |-> e.a.thr, bylabel |-> e.a.bylabel,
                                   labels |-> Range(e.a.labels), exact |-> e.a.exact, res |-> e.r.res])
  ELSE heap

\* the groups of the program for given labels: one per label carried by an inner state, and it holds exactly the
\* entries (states, or state-action pairs) carrying that label; without labels one per entry (per state for exact
\* minimisation over state-action pairs)
V_groups(heap, e) ==
  LET R == heap[e.a.h]
      M == R.m
      Ls == Range(e.a.labels)
      entries(S) == IF e.a.mode = "min" THEN S ELSE {i - 1 : i \in {j \in InnerRows(M) : M.rows[j].s \in S}}
      by(l) == StatesBy(M, l) \cap InnerStates(M)
      carried == {l \in Ls : by(l) # {}}
      got == e.r.groups
      seen(G) == Cardinality({i \in 1..Len(got) : Range(got[i]) = G})
  IN IF ~Ok(e) THEN {"C19.groups-error"}
     ELSE IF e.a.bylabel
          THEN Viol(Len(got) = Cardinality(carried) /\ \A l \in carried : seen(entries(by(l))) = Cardinality({k \in carried : by(k) = by(l)}), "C19.groups")
          ELSE Viol(IF e.a.mode = "max" /\ ~e.a.relaxed
                    THEN Len(got) = Cardinality(InnerStates(M)) /\ \A s \in InnerStates(M) : seen(entries({s})) = 1
                    ELSE LET all == IF e.a.mode = "min" THEN InnerStates(M) ELSE {i - 1 : i \in InnerRows(M)}
                         IN Len(got) = Cardinality(all) /\ \A x \in all : seen({x}) = 1, "C19.groups")
\* the states of the i-th result alone meet the threshold (up to the solver's tolerance)
V_witness(heap, e) ==
  LET S == heap[e.a.of]
      R == heap[S.h]
      x == S.res[e.a.i]
      H == heap[e.a.hint]
  IN IF H.h # S.h \/ H.kind # ExtKind(R, S.mode) \/ H.G # {Goal(R.m)} \/ H.K # Range(x.mask) THEN {"HINT.witness"}
     ELSE Viol(H.v[R.init + 1] >= Hundredths(S.thr, H.q) - H.q \div 10000 - S.thr * (H.q \div 1000000) - 1,
               IF S.bylabel THEN "C19.not-a-witness" ELSE IF S.exact THEN "C17.not-a-witness" ELSE "C18.not-a-witness")

\* a smaller witness than the reported one, and a refutation of all smaller ones by branching: a node excludes and
\* then includes an item (state or label) x; a leaf has k items included already, or the system without the items
\* excluded so far is no witness -- and then nothing within it is (monotony: MC_Subsys)
ItemsOf(S, R) == IF S.bylabel THEN Carried(R.m, S.labels, InnerStates(R.m)) ELSE InnerStates(R.m)
Barring(S, R, out) == IF S.bylabel THEN InnerStates(R.m) \ UNION {StatesBy(R.m, l) : l \in out} ELSE InnerStates(R.m) \ out
HintOn(heap, S, R, name, K) ==
  LET H == heap[name] IN H.h = S.h /\ H.kind = ExtKind(R, S.mode) /\ H.G = {Goal(R.m)} /\ H.K = K
CountOf(S) == (S.res[1].k + 500) \div 1000
V_minrefuted(heap, e) ==
  LET S == heap[e.a.of]
      R == heap[S.h]
      out == ItemsOf(S, R) \ Range(e.a.items)
  IN IF ~HintOn(heap, S, R, e.a.hint, Barring(S, R, out)) \/ ~MeetsInit(heap[e.a.hint], R, S.thr) \/ Cardinality(Range(e.a.items)) >= CountOf(S)
     THEN {"HINT.minrefuted"} ELSE {(IF S.bylabel THEN "C19" ELSE "C17") \o ".not-minimal"}
RECURSIVE Refutes(_, _, _, _, _, _, _)
Refutes(heap, S, R, t, i, inc, out) ==
  LET x == t[i] IN
  CASE x.t = "full" -> Cardinality(inc) >= CountOf(S)
    [] x.t = "weak" -> HintOn(heap, S, R, x.hint, Barring(S, R, out)) /\ ~MeetsInit(heap[x.hint], R, S.thr)
    [] x.t = "split" -> /\ x.x \in ItemsOf(S, R) \ (inc \cup out)
                        /\ Refutes(heap, S, R, t, x.no, inc, out \cup {x.x}) /\ Refutes(heap, S, R, t, x.yes, inc \cup {x.x}, out)
V_mincover(heap, e) ==
  LET S == heap[e.a.of] R == heap[S.h]
      p == IF S.bylabel THEN "C19" ELSE "C17"
      used == IF S.bylabel THEN Cardinality(Carried(R.m, S.labels, Range(S.res[1].mask))) ELSE Cardinality(Range(S.res[1].mask))
  IN IF Abs(S.res[1].k - 1000 * CountOf(S)) > 1 \/ CountOf(S) < 0 THEN {p \o ".value-not-a-count"}
     ELSE Viol(used <= CountOf(S), p \o ".reports-too-few")
          \cup Viol(Refutes(heap, S, R, e.a.tree, 1, {}, {}), "HINT.mincover")

\* the reported number is the least possible
V_minimal(heap, e) ==
  LET S == heap[e.a.of]
      R == heap[S.h]
      M == R.m
      x == S.res[1]
      p == IF S.bylabel THEN "C19" ELSE "C17"
      k == (x.k + 500) \div 1000
      carried == Carried(M, S.labels, InnerStates(M))
      \* candidate systems with one state (label) less
      smaller == IF S.bylabel THEN {Allowed(M, S.labels, L) : L \in Subsets(carried, k - 1)}
                 ELSE {K \in Subsets(InnerStates(M), k - 1) : R.init \in K \/ k = 1}
      hintOf(K) == {i \in 1..Len(e.a.hints) : LET H == heap[e.a.hints[i]] IN H.h = S.h /\ H.kind = ExtKind(R, S.mode) /\ H.G = {Goal(M)} /\ H.K = K}
      used == IF S.bylabel THEN Cardinality(Carried(M, S.labels, Range(x.mask))) ELSE Cardinality(Range(x.mask))
  IN IF Abs(x.k - 1000 * k) > 1 \/ k < 0 THEN {p \o ".value-not-a-count"}
     ELSE IF \E K \in smaller : hintOf(K) = {} THEN {"HINT.minimal"}
     ELSE Viol(used <= k, p \o ".reports-too-few")
          \cup Viol(\A K \in smaller : LET H == heap[e.a.hints[CHOOSE i \in hintOf(K) : TRUE]] IN ~MeetsInit(H, R, S.thr), p \o ".not-minimal")
=============================================================================
