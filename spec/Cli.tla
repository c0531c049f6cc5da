-------------------------------- MODULE Cli --------------------------------
(* The command line pipeline (C25): rf, minimize, certify, subsystem, info,       *)
(* render.  Every command is judged by the transition of the library operation    *)
(* it stands for, applied to the files it read and wrote.                          *)
EXTENDS Render

In(p, S) == {p \o c : c \in S}

\* rf: the written model, read again and taken as reachability form, together with
\* the mapping file, is what the reduction of the read model is
V_clirf(heap, e) == In("C25.rf:", V_reduce(heap, e)) \cup (IF Ok(e) THEN Viol(e.r.inputs, "C25.changes-inputs") ELSE {})
E_clirf(heap, e) == E_reduce(heap, e)

\* minimize.  e.a: h the form the model file is, mode, thr (hundredths), iter, ref the
\* answers of the library for the same request (sequence of [ok, mask]).
V_climin(heap, e) ==
  LET R == heap[e.a.h]
      M == R.m
      H == heap[e.a.hint]
      ref == e.a.ref
      good == SelectSeq([i \in 1..Len(ref) |-> <<i - 1, ref[i].ok, ref[i].mask>>], LAMBDA x : x[2])
      \* all iterations, or the last
      want == IF e.a.iter THEN good
              ELSE IF ref # <<>> /\ ref[Len(ref)].ok THEN <<<<0, TRUE, ref[Len(ref)].mask>>>> ELSE <<>>
      res == e.r.res
      slack(x) == CC(M) + 2 + x.q \div 20000
  IN IF e.a.bad THEN Viol(~Ok(e), "C25.minimize-accepts-bad-request")
     ELSE IF ~HintFor(heap, e.a.hint, e.a.h, ExtKind(R, e.a.mode)) \/ Abs(H.v[R.init + 1] - Hundredths(e.a.thr, H.q)) < H.q \div 400 THEN {"HINT.climin"}
     ELSE IF ~Ok(e) THEN {"C25.minimize-fails"}
     ELSE Viol(e.r.mode = e.a.mode, "C25.minimize-mode")
          \cup Viol(e.r.inputs, "C25.changes-inputs")
          \cup Viol(MeetsInit(H, R, e.a.thr) \/ res = <<>>, "C25.minimize-above-threshold")
          \cup (IF Len(res) # Len(want) THEN {"C25.minimize-iterations"}
                ELSE UNION {LET x == res[i] IN
                       IF Len(x.v) # CertLen(M, e.a.mode) THEN {"C25.minimize-certificate-length"}
                       ELSE Viol(x.it = want[i][1], "C25.minimize-iteration-number")
                            \cup Viol(x.thr = e.a.thr, "C25.minimize-threshold")
                            \cup Viol(PolyOK(R, e.a.mode, x.v, x.q, slack(x)) /\ PolyThreshold(R, e.a.mode, x.v, x.q, slack(x), e.a.thr), "C25.minimize-invalid-certificate")
                            \cup Viol(Range(x.mask) = Range(want[i][3]), "C25.minimize-not-the-result")
                       : i \in 1..Len(res)})
          \cup Viol(Len(e.r.said) = Len(want) /\ \A i \in 1..Len(e.r.said) : e.r.said[i], "C25.minimize-verdict")

\* certify: one verdict per stored certificate, in order
V_clicert(heap, e) ==
  LET one(i) == [op |-> "check", x |-> "", a |-> [h |-> e.a.h, mode |-> e.a.mode, sense |-> ">=", thr |-> e.a.insts[i].thr, vec |-> e.a.insts[i].vec, w |-> e.a.insts[i].w, tl |-> e.a.insts[i].tl],
                 r |-> [ok |-> e.r.said[i]]]
  IN IF e.a.bad THEN Viol(~Ok(e) \/ e.r.said = <<FALSE>>, "C25.certify-accepts-bad-request")
     ELSE IF ~Ok(e) THEN {"C25.certify-fails"}
     ELSE IF Len(e.r.said) # Len(e.a.insts) THEN {"C25.certify-verdicts"}
     ELSE UNION {In("C25.certify:", V_check(heap, one(i))) : i \in 1..Len(e.a.insts)}
          \cup Viol(e.r.inputs, "C25.changes-inputs")

\* subsystem: the form with one more label, one file per certificate
WithLabel(M, l, S) == [M EXCEPT !.lab = Append(@, [l |-> l, s |-> S])]
V_clisub(heap, e) ==
  LET R == heap[e.a.h]
      M == R.m
      RECURSIVE AsSeq(_)
      AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == MinSet(S) IN <<x>> \o AsSeq(S \ {x})
  IN IF e.a.bad \/ e.a.label \in LabelNames(M) THEN Viol(~Ok(e), "C25.subsystem-accepts-bad-request")
     ELSE IF ~Ok(e) THEN {"C25.subsystem-fails"}
     ELSE IF Len(e.r.ms) # Len(e.a.pos) THEN {"C25.subsystem-files"}
     ELSE UNION {SameUpToRows(WithLabel(M, e.a.label, AsSeq(MaskOf(M, e.a.mode, Range(e.a.pos[i])))), e.r.ms[i], "C25.subsystem") : i \in 1..Len(e.a.pos)}
          \cup Viol(e.r.inputs, "C25.changes-inputs")

V_cliinfo(heap, e) == IF e.a.bad THEN Viol(~Ok(e), "C25.info-accepts-bad-request") ELSE Viol(Ok(e) /\ e.r.inputs, "C25.info-fails")

\* render: an image with every node and edge; with -col, states with the same of the
\* given labels look the same, others do not (cols: name of the colour of each state)
V_clirender(heap, e) ==
  LET M == heap[e.a.h]
      rows == Len(M.rows)
      mdp == M.kind = "mdp"
      nodes == Cardinality(Drawn(M)) + (IF mdp THEN rows ELSE 0)
      edges == Cardinality(TransRel(M)) + (IF mdp THEN rows ELSE 0)
      fill(s) == (CHOOSE x \in Range(e.r.fills) : x[1] = s)[2]
  IN IF ~Ok(e) THEN {"C25.render-fails"}
     ELSE Viol(e.r.nodes = nodes /\ e.r.edges = edges, "C25.render-content")
          \cup (IF {x[1] : x \in Range(e.r.fills)} # Drawn(M) THEN {"C25.render-states"}
                ELSE Viol(\A s, t \in Drawn(M) :
                        LET same == IF e.a.cols = <<>> THEN LabelsOf(M, s) = LabelsOf(M, t)
                                    ELSE LabelsOf(M, s) \cap Range(e.a.col) = LabelsOf(M, t) \cap Range(e.a.col)
                            differ == e.a.cols # <<>> /\ e.a.cols[s + 1] # e.a.cols[t + 1]
                        IN (same => fill(s) = fill(t)) /\ (differ => fill(s) # fill(t)), "C25.render-colours"))
          \cup Viol(e.r.inputs, "C25.changes-inputs")
=============================================================================
