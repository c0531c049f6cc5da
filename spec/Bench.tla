------------------------------- MODULE Bench -------------------------------
(* Benchmark runs (C27).  Thresholds are integers over 10^4.  The outcomes a     *)
(* method would return are a sequence per threshold of [s |-> "success", v] /     *)
(* [s |-> other status]; the specification says which of them are recorded.       *)
EXTENDS Treap

ThrUnit == 10000
\* thresholds of the requested range; whether 1 itself belongs to it is left open
RECURSIVE Grid(_, _, _)
Grid(f, t, s) == IF f > t THEN <<>> ELSE <<f>> \o Grid(f + s, t, s)
\* what one threshold records: values, and how the run goes on
RECURSIVE Follow(_, _, _)
Follow(out, i, stop) ==
  IF i > Len(out) THEN [vals |-> <<>>, end |-> "next"]
  ELSE IF out[i].s = "success" THEN LET r == Follow(out, i + 1, stop) IN [r EXCEPT !.vals = <<out[i].v>> \o @]
  ELSE IF out[i].s = "infeasible" THEN [vals |-> <<>>, end |-> "drop"]
  ELSE IF stop THEN [vals |-> <<-1>>, end |-> "stop"]
  ELSE LET r == Follow(out, i + 1, stop) IN [r EXCEPT !.vals = <<-1>> \o @]
\* expected [rows, calls] from threshold number k on
RECURSIVE RunFrom(_, _, _, _)
RunFrom(grid, outs, k, stop) ==
  IF k > Len(grid) THEN [rows |-> <<>>, calls |-> <<>>]
  ELSE LET f == Follow(outs[k], 1, stop)
           rest == RunFrom(grid, outs, k + 1, stop)
           row == <<[thr |-> grid[k], vals |-> f.vals]>>
       IN IF f.end = "drop" THEN [rows |-> <<>>, calls |-> <<grid[k]>>]
          ELSE IF f.end = "stop" THEN [rows |-> row, calls |-> <<grid[k]>>]
          ELSE [rows |-> row \o rest.rows, calls |-> <<grid[k]>> \o rest.calls]

\* e.a.outs[j] are the outcomes of run j (one per combination of method and mode),
\* e.r.runs[j] the data returned, e.r.calls[j] the thresholds the method was run for
OneRun(e, j) ==
  LET full == Grid(e.a.from, e.a.to, e.a.step)
      got == e.r.runs[j]
      want(g) == RunFrom(g, e.a.outs[j], 1, e.a.stop)
      ok(g) == /\ Len(got.rows) = Len(want(g).rows)
               /\ \A i \in 1..Len(got.rows) : got.rows[i].thr = want(g).rows[i].thr /\ got.rows[i].vals = want(g).rows[i].vals
      okc(g) == e.r.calls[j] = want(g).calls
      grids == {full} \cup (IF full # <<>> /\ full[Len(full)] = ThrUnit THEN {SubSeq(full, 1, Len(full) - 1)} ELSE {})
      \* the grid with one more threshold, and outcomes for it
      longer == Append(full, (IF full = <<>> THEN e.a.from ELSE full[Len(full)]) + (IF full = <<>> THEN 0 ELSE e.a.step))
  IN Viol(\E g \in grids : ok(g) /\ okc(g),
          IF \E g \in grids : okc(g) THEN "C27.recorded"
          ELSE IF Len(e.a.outs[j]) >= Len(longer) /\ ok(longer) /\ okc(longer) THEN "C27.one-beyond" ELSE "C27.thresholds")
     \cup Viol(got.mode = e.a.combos[j][2] /\ got.method = e.a.combos[j][1], "C27.method-info")
     \cup Viol(\A i \in 1..Len(got.rows) : LET r == got.rows[i] IN
                 /\ Len(r.wall) = Len(r.vals) /\ Len(r.proc) = Len(r.vals)
                 /\ \A t \in {r.wall, r.proc} : \A q \in 1..Len(t) : t[q] >= 0 /\ (q > 1 => t[q] >= t[q - 1]), "C27.times")
     \cup Viol(\A q \in 1..Len(got.wait) : got.wait[q][1] <= got.wait[q][2], "C27.wall-time-too-short")
     \cup Viol(\A q \in 1..Len(e.r.args[j]) : e.r.args[j][q] = <<e.a.combos[j][2], e.a.labels, e.a.timeout>>, "C27.arguments")
V_bench(heap, e) ==
  IF ~Ok(e) THEN {"C27.run-error"}
  ELSE IF Len(e.r.runs) # Len(e.a.combos) \/ e.r.list # e.a.list THEN {"C27.combinations"}
  ELSE UNION {OneRun(e, j) : j \in 1..Len(e.a.combos)}
       \cup Viol(e.r.json = e.a.json, "C27.json")

(* Plots of a run in which every threshold has the same number of values.         *)
(* Points are <<threshold, value>>, thresholds over 10^4, values over 10^3.        *)
(* Times: of the last value unless the request names others; missing ones as the    *)
(* given time, and (unless told otherwise) those of at most a second as one second. *)
TimeLines(e) ==
  LET R == e.a.rows
      idx == IF e.a.sol # <<>> THEN e.a.sol ELSE <<Len(R[1].vals) - 1>>
      val(t) == IF t = -1000 /\ e.a.tv # <<>> THEN 1000 * e.a.tv[1]
                ELSE IF e.a.cap /\ t \in 0..1000 THEN 1000 ELSE t
  IN [j \in 1..Len(idx) |-> [i \in 1..Len(R) |-> <<R[i].thr, val(R[i].times[idx[j] + 1])>>]]
PlotLines(e) ==
  IF e.a.mode \in {"wall_time-thr", "proc_time-thr"} THEN TimeLines(e) ELSE
  LET R == e.a.rows
      n == Len(R[1].vals)
      idx == IF e.a.sol # <<>> THEN e.a.sol ELSE [i \in 1..n |-> i - 1]
      keep == SelectSeq(idx, LAMBDA i : e.a.mode # "laststates-thr" \/ i = n - 1)
      val(v) == IF v = -1 /\ e.a.tv # <<>> THEN e.a.tv[1] ELSE v
  IN [j \in 1..Len(keep) |-> [i \in 1..Len(R) |-> <<R[i].thr, IF e.a.norm THEN val(R[i].vals[keep[j] + 1]) ELSE 1000 * val(R[i].vals[keep[j] + 1])>>]]
V_plot(heap, e) == IF ~Ok(e) THEN {"C27.plot-error"} ELSE
  Viol(e.r.lines = PlotLines(e), "C27.plot")
  \cup Viol(e.r.kept, "C27.plot-changes-run")
  \cup Viol(e.r.ax /\ e.r.title, "C27.plot-axis")
  \* every line says which method it shows, and lines can be told apart
  \cup Viol(/\ \A i \in 1..Len(e.r.labels) : e.r.labels[i][1]
            /\ \A i, j \in 1..Len(e.r.labels) : i # j => e.r.labels[i][2] # e.r.labels[j][2], "C27.plot-labels")
=============================================================================
