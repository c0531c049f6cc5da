-------------------------------- MODULE Farkas --------------------------------
(* Farkas systems (C14), certificates and their generation (C15, C16).            *)
(* Matrices are observed in units 1/(4D), right-hand sides in units 1/(4 td D),    *)
(* thresholds in units 1/td: hundredths, or what the event gives.                 *)
EXTENDS Values

\* nonzero entries of A = I - P, numerators over D
AEnt(M, i, s) == (IF M.rows[i].s = s THEN M.D ELSE 0) - ProbTo(M, i, s)
BVec(R, i) == IF R.reward THEN R.m.rew[i] * R.m.D ELSE 4 * ProbTo(R.m, i, Goal(R.m))   \* units 1/(4D)

ZRow(R, i) == LET M == R.m IN
  IF i <= CC(M) THEN {x \in {<<s, 4 * AEnt(M, i, s)>> : s \in InnerStates(M)} : x[2] # 0}
  ELSE {<<R.init, 0 - 4 * M.D>>}
ZRhs(R, thr, td, i) == IF i <= CC(R.m) THEN td * BVec(R, i) ELSE 0 - 4 * R.m.D * thr
YRow(R, k) == LET M == R.m IN
  IF k <= NN(M) THEN {x \in {<<i - 1, 4 * AEnt(M, i, k - 1)>> : i \in InnerRows(M)} : x[2] # 0}
  ELSE {x \in {<<i - 1, 0 - BVec(R, i)>> : i \in InnerRows(M)} : x[2] # 0}
YRhs(R, thr, td, k) == IF k <= NN(R.m) THEN (IF k - 1 = R.init THEN 4 * td * R.m.D ELSE 0) ELSE 0 - 4 * R.m.D * thr
SystemViol(R, form, thr, td, r, p) ==
  LET M == R.m
      nr == IF form = "z" THEN CC(M) + 1 ELSE NN(M) + 1
      nc == IF form = "z" THEN NN(M) ELSE CC(M)
      row(i) == IF form = "z" THEN ZRow(R, i) ELSE YRow(R, i)
      rhs(i) == IF form = "z" THEN ZRhs(R, thr, td, i) ELSE YRhs(R, thr, td, i)
  IN IF ~(Len(r.M) = nr /\ r.shape = <<nr, nc>> /\ Len(r.rhs) = nr) THEN {p \o ".shape"}
     ELSE Viol(\A i \in 1..nr : RowSet(r.M[i]) = row(i), p \o ".matrix")
          \cup Viol(\A i \in 1..nr : r.rhs[i] = rhs(i), p \o ".rhs")
FormOf(mode) == IF mode \in {"min", "z"} THEN "z" ELSE "y"
V_fark(heap, e) ==
  IF e.a.mode \notin {"min", "max", "z", "y"} THEN Viol(~Ok(e), "C14.accepts-bad-mode")
  ELSE IF ~Ok(e) THEN {"C14.error"}
  ELSE SystemViol(heap[e.a.h], FormOf(e.a.mode), e.a.thr, e.a.td, e.r, "C14")
E_fark(heap, e) == IF Ok(e) THEN Put(heap, e.a.to, [h |-> e.a.h, form |-> FormOf(e.a.mode), thr |-> e.a.thr, td |-> e.a.td]) ELSE heap
\* a system returned earlier, looked at again
V_farkagain(heap, e) ==
  LET S == heap[e.a.of] IN SystemViol(heap[S.h], S.form, S.thr, S.td, e.r, "C14.retained")

----------------------------------------------------------------------------
(* Certificates.  vec has denominator w, the threshold is thr / td.              *)
CertForm(mode, sense) ==
  IF (mode = "min") = (sense \in {">=", ">"}) THEN "z" ELSE "y"
\* <<s, numerator>> residuals are over D * w
ZRes(M, i, z) == LET f(j) == M.rows[i].t[j][2] * (IF M.rows[i].t[j][1] \in InnerStates(M) THEN z[M.rows[i].t[j][1] + 1] ELSE 0)
                 IN M.D * z[M.rows[i].s + 1] - SumTo(f, 1, Len(M.rows[i].t))
ECStates(M) == UNION {B \in MECs(M) : ProperPart(M, B) /\ B \subseteq InnerStates(M)}
NonNeg(vec, slack) == \A i \in 1..Len(vec) : vec[i] >= 0 - slack
ZerosOK(R, mode, form, vec, slack) ==
  mode = "min" => LET ec == ECStates(R.m) IN
    IF form = "z" THEN \A s \in ec : Abs(vec[s + 1]) <= slack
    ELSE \A i \in InnerRows(R.m) : R.m.rows[i].s \in ec => Abs(vec[i]) <= slack
\* The same with tolerance: every constraint deviates by at most S / (D * w).  How a
\* tolerance applies to the entries that have to be zero is left open.
SystemWithin(R, mode, sense, vec, w, S) ==
  LET M == R.m form == CertForm(mode, sense) lower == sense \in {">=", ">"} IN
  /\ \A i \in 1..Len(vec) : M.D * vec[i] >= 0 - S
  /\ ZerosOK(R, mode, form, vec, S \div M.D)
  /\ IF form = "z"
     THEN \A i \in InnerRows(M) : LET r == ZRes(M, i, vec) b == ProbTo(M, i, Goal(M)) * w
                                  IN IF lower THEN r <= b + S ELSE r >= b - S
     ELSE \A s \in InnerStates(M) : LET r == FlowBalance(M, vec, s) b == IF s = R.init THEN M.D * w ELSE 0
                                    IN IF lower THEN r <= b + S ELSE r >= b - S
\* everything but the threshold
SystemOK(R, mode, sense, vec, w, slack) ==
  LET M == R.m form == CertForm(mode, sense) lower == sense \in {">=", ">"} IN
  /\ NonNeg(vec, slack) /\ ZerosOK(R, mode, form, vec, slack)
  /\ IF form = "z"
     THEN \A i \in InnerRows(M) : LET r == ZRes(M, i, vec) b == ProbTo(M, i, Goal(M)) * w
                                  IN IF lower THEN r <= b + M.D * slack ELSE r >= b - M.D * slack
     ELSE \A s \in InnerStates(M) : LET r == FlowBalance(M, vec, s) b == IF s = R.init THEN M.D * w ELSE 0
                                    IN IF lower THEN r <= b + M.D * slack ELSE r >= b - M.D * slack
\* what the certificate claims for the initial state, numerator over D * w
Claimed(R, mode, sense, vec) ==
  IF CertForm(mode, sense) = "z" THEN R.m.D * vec[R.init + 1] ELSE Inflow(R.m, vec)

V_check(heap, e) ==
  LET R == heap[e.a.h]
      M == R.m
      len == IF CertForm(e.a.mode, e.a.sense) = "z" THEN NN(M) ELSE CC(M)
      \* threshold over the same denominator as the vector
      t == M.D * e.a.thr
      c == Claimed(R, e.a.mode, e.a.sense, e.a.vec)
      lower == e.a.sense \in {">=", ">"}
      \* the tolerance is 1 / e.a.tl (0: small enough to be ignored), here over D * w
      tol == IF e.a.tl = 0 THEN 0 ELSE (M.D * e.a.w) \div e.a.tl
      in == (3 * tol) \div 4
      out == IF tol = 0 /\ (e.a.tl = 0 \/ (4 * M.D * e.a.w) \div e.a.tl = 0) THEN 0 ELSE tol + tol \div 4 + 1
      far == ~SystemWithin(R, e.a.mode, e.a.sense, e.a.vec, e.a.w, out) \/ (IF lower THEN c < t - out ELSE c > t + out)
      near == SystemWithin(R, e.a.mode, e.a.sense, e.a.vec, e.a.w, in) /\ ZerosOK(R, e.a.mode, CertForm(e.a.mode, e.a.sense), e.a.vec, 0)
              /\ (IF lower THEN c >= t - in ELSE c <= t + in)
  IN IF e.a.mode \notin {"min", "max"} \/ e.a.sense \notin {"<=", "<", ">=", ">"} \/ e.a.thr < 0 \/ e.a.thr > e.a.w
     THEN Viol(~Ok(e), "C15.accepts-bad-request")
     ELSE IF Len(e.a.vec) # len THEN Viol(~Ok(e) \/ ~e.r.ok, "C15.accepts-wrong-length")
     ELSE IF ~Ok(e) THEN {"C15.error"}
     ELSE IF far THEN Viol(~e.r.ok, "C15.accepts-invalid")
     \* at exact equality a strict comparison is decided within the tolerance
     ELSE IF ~near \/ (e.a.sense \in {"<", ">"} /\ c = t) THEN {}
     ELSE Viol(e.r.ok, "C15.rejects-valid")

\* generation: thr in hundredths; the hint holds the extremal values
GenHolds(H, R, sense, thr) ==
  LET x == H.v[R.init + 1] dn == Hundredths(thr, H.q) up == HundredthsUp(thr, H.q) IN
  CASE sense = ">=" -> x >= up [] sense = ">" -> x > dn [] sense = "<=" -> x <= dn [] sense = "<" -> x < up
GenMargin(H, R, thr, m) == Abs(H.v[R.init + 1] - Hundredths(thr, H.q)) >= m * (H.q \div 100)
\* the threshold is the value itself: the comparison holds, though without slack
GenTight(H, R, sense, thr) == sense \in {">=", "<="} /\ Hundredths(thr, H.q) = H.v[R.init + 1] /\ HundredthsUp(thr, H.q) = H.v[R.init + 1]
GenTrivial(sense, thr) == (sense = ">=" /\ thr = 0) \/ (sense = "<=" /\ thr = 100)
V_gen(heap, e) ==
  LET R == heap[e.a.h]
      M == R.m
      H == heap[e.a.hint]
      form == CertForm(e.a.mode, e.a.sense)
      holds == GenHolds(H, R, e.a.sense, e.a.thr)
      \* with end components certificates for upper bounds on minimal probabilities need not exist; a.wit holds one that does
      wit == e.a.wit
      shown == wit.v # <<>> /\ SystemOK(R, e.a.mode, e.a.sense, wit.v, wit.w, 0)
               /\ 100 * (Claimed(R, e.a.mode, e.a.sense, wit.v) \div M.D) <= (e.a.thr - 3) * wit.w
      complete == ~(e.a.mode = "min" /\ e.a.sense \in {"<=", "<"} /\ ECStates(M) # {}) \/ shown
      q == e.r.q
      sl == CC(M) + 2 + q \div 20000
      lower == e.a.sense \in {">=", ">"}
  IN IF e.a.thr < 0 \/ e.a.thr > 100 THEN Viol(~Ok(e), "C16.accepts-bad-threshold")
     ELSE IF ~HintFor(heap, e.a.hint, e.a.h, IF e.a.mode = "min" THEN "prmin" ELSE "prmax") \/ ~(GenMargin(H, R, e.a.thr, 1) \/ GenTrivial(e.a.sense, e.a.thr) \/ GenTight(H, R, e.a.sense, e.a.thr)) THEN {"HINT.gen"}
     ELSE IF ~Ok(e) THEN {"C16.error"}
     ELSE IF e.r.none THEN Viol(~(holds /\ complete), "C16.missing")
     ELSE Viol(holds, "C16.generates-for-violated")
          \cup Viol(e.r.checked, "C16.not-accepted-by-checker")
          \cup (IF Len(e.r.v) # (IF form = "z" THEN NN(M) ELSE CC(M)) THEN {"C16.length"}
                ELSE Viol(SystemOK(R, e.a.mode, e.a.sense, e.r.v, q, sl), "C16.invalid-system")
                     \cup Viol(LET c == Claimed(R, e.a.mode, e.a.sense, e.r.v) \div M.D t == (e.a.thr * (q \div 100))
                               IN IF lower THEN c >= t - sl ELSE c <= t + sl, "C16.invalid-threshold"))
=============================================================================
