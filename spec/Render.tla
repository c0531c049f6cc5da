------------------------------- MODULE Render -------------------------------
(* Graph renderings (C28).  Observed is the list of drawn nodes and edges:       *)
(*   e.r.nodes  sequence of [id, at]      at is a sequence of <<attribute, value>>*)
(*   e.r.edges  sequence of [from, to, at]                                        *)
(*   e.r.stray  anything else in the drawing                                      *)
(*   e.r.dirty  style dictionaries of the user that were changed by drawing       *)
(* Weights shown in a label are split off by the harness into the pseudo          *)
(* attribute "weight" |-> "index=value" (value in units of 10^-5).                *)
(* e.a.st, e.a.tr, e.a.ac name the style in force for states, transitions and      *)
(* actions: "std" is the default of the tool, the others are functions of the      *)
(* harness that write their arguments into attributes.                             *)
EXTENDS Bench

Attrs(at) == Range(at)
AttrOf(at, k) == LET S == {x \in Attrs(at) : x[1] = k} IN IF S = {} THEN "" ELSE (CHOOSE x \in S : TRUE)[2]
Str(x) == ToString(x)
\* all ways to write a set of labels with a separator
RECURSIVE Joins(_, _)
Joins(L, sep) ==
  IF L = {} THEN {""}
  ELSE IF Cardinality(L) = 1 THEN L
  ELSE UNION {{l \o sep \o j : j \in Joins(L \ {l}, sep)} : l \in L}

\* the arguments written by a style function of the harness: f says which map it is
Args(f, tag, tail) == f \o ":" \o tag \o ":" \o tail
\* does attribute sequence at come from style `tag` of kind f with one of the argument strings?
Uses(at, f, tag, tails) ==
  LET shown == \E x \in Attrs(at) : x[1] = "weight"
      \* action nodes with weights are rectangles
      base == {x \in Attrs(at) : x[1] # "weight" /\ ~(shown /\ f = "A" /\ x = <<"shape", "rectangle">>)}
      full == {Args(f, tag, t) : t \in tails}
  IN /\ Cardinality({x[1] : x \in Attrs(at)}) = Len(at)
     /\ CASE tag = "fixed" -> base = {<<"color", "pink">>, <<"label", f>>}
          [] tag = "plain" -> /\ {x \in base : ~(x[1] = "label" /\ x[2] = "")} \in {{<<"comment", c>>, <<"color", "blue">>} : c \in full}
                          [] OTHER -> base \in {{<<"comment", c>>, <<"color", "blue">>, <<"label", tag \o f>>} : c \in full}

Palette(at) == AttrOf(at, "color") # ""
StateStyled(at, tag, s, L) ==
  IF tag = "std" THEN /\ AttrOf(at, "style") = "filled" /\ Palette(at)
                      /\ AttrOf(at, "label") \in {"State " \o Str(s) \o "\n" \o j : j \in Joins(L, ",")}
  ELSE Uses(at, "S", tag, {Str(s) \o ":" \o j : j \in Joins(L, ",")})
ActNodeStyled(at, tag, s, a, L) ==
  IF tag = "std" THEN /\ AttrOf(at, "shape") = "rectangle" /\ AttrOf(at, "color") = "black"
                      /\ AttrOf(at, "label") \in ({Str(a) \o "\n" \o j : j \in Joins(L, "")} \cup (IF L = {} THEN {Str(a)} ELSE {}))
  ELSE Uses(at, "A", tag, {Str(s) \o ":" \o Str(a) \o ":" \o j : j \in Joins(L, ",")})
ActEdgeStyled(at, tag, s, a, L) ==
  IF tag = "std" THEN AttrOf(at, "dir") = "none" /\ AttrOf(at, "color") = "black"
  ELSE Uses(at, "E", tag, {Str(s) \o ":" \o Str(a) \o ":" \o j : j \in Joins(L, ",")})
\* p in units of 1/D; for the default style the harness writes its label in these units
TransStyled(at, tag, kind, ss, a, ds, p) ==
  IF tag = "std" THEN AttrOf(at, "color") = "black" /\ AttrOf(at, "label") = Str(p)
  ELSE Uses(at, "T", tag, {Str(s) \o ":" \o (IF kind = "mdp" THEN Str(a) \o ":" ELSE "") \o Str(d) \o ":" \o Str(p) : s \in ss, d \in ds})

Grey(at) == AttrOf(at, "color") = "azure3" /\ AttrOf(at, "style") = "filled" /\ AttrOf(at, "label") = "" /\ AttrOf(at, "weight") = ""
NoWeight(at) == AttrOf(at, "weight") = ""

(* What is drawn.  K describes the object:                                         *)
(*   m model; org(s) original state; goal, fail styles ("" where not special);     *)
(*   grey states; wst(s), wac(row) weight shown ("" none)                           *)
ActName(s, a) == Str(s) \o "-" \o Str(a)
Drawn(M) == {M.rows[i].s : i \in {j \in Rows(M) : Trans(M, j) # {}}} \cup UNION {Supp(M, i) : i \in Rows(M)}

DrawViol(e, M, special, org(_), grey, wst(_), wac(_)) ==
  LET N == e.r.nodes
      E == e.r.edges
      mdp == M.kind = "mdp"
      rows == {i \in Rows(M) : Trans(M, i) # {}}
      goal == M.n - 2
      fail == M.n - 1
      stTag(s) == IF special /\ s = goal THEN e.a.goal ELSE IF special /\ s = fail THEN e.a.fail ELSE e.a.st
      acTag(s) == IF special /\ s = goal THEN e.a.goal ELSE IF special /\ s = fail THEN e.a.fail ELSE e.a.ac
      trTag(d) == IF special /\ d = goal THEN e.a.goal ELSE IF special /\ d = fail THEN e.a.fail ELSE e.a.tr
      isSpecial(s) == special /\ s \in {goal, fail}
      o(s) == IF isSpecial(s) THEN s ELSE org(s)
      nodeIds == {Str(s) : s \in Drawn(M)} \cup (IF mdp THEN {ActName(M.rows[i].s, M.rows[i].a) : i \in rows} ELSE {})
      at(id) == (CHOOSE x \in Range(N) : x.id = id).at
      \* default looks of goal and fail
      dflt(s) == IF s = goal THEN <<"green", e.a.tl>> ELSE <<"red", e.a.fl>>
      stateOk(s) ==
        IF isSpecial(s) /\ stTag(s) = "std"
        THEN AttrOf(at(Str(s)), "color") = dflt(s)[1] /\ AttrOf(at(Str(s)), "label") = dflt(s)[2]
        ELSE StateStyled(at(Str(s)), stTag(s), o(s), LabelsOf(M, s))
      actOk(i) ==
        LET s == M.rows[i].s
            a == M.rows[i].a IN
        IF isSpecial(s) /\ acTag(s) = "std" THEN AttrOf(at(ActName(s, a)), "shape") = "point"
        ELSE ActNodeStyled(at(ActName(s, a)), acTag(s), o(s), a, ALabelsOf(M, <<s, a>>))
      from(i) == IF mdp THEN ActName(M.rows[i].s, M.rows[i].a) ELSE Str(M.rows[i].s)
      edgePairs == {<<from(i), Str(d)>> : <<i, d>> \in {x \in rows \X Drawn(M) : x[2] \in Supp(M, x[1])}}
                   \cup (IF mdp THEN {<<Str(M.rows[i].s), ActName(M.rows[i].s, M.rows[i].a)>> : i \in rows} ELSE {})
      eat(x) == (CHOOSE y \in Range(E) : <<y.from, y.to>> = x).at
      transOk(i, d) ==
        LET s == M.rows[i].s IN
        TransStyled(eat(<<from(i), Str(d)>>), trTag(d), M.kind,
                    IF trTag(d) = e.a.tr /\ ~isSpecial(d) THEN {o(s)} ELSE {s, o(s)}, M.rows[i].a, {o(d)}, ProbTo(M, i, d))
      actEdgeOk(i) ==
        LET s == M.rows[i].s
            a == M.rows[i].a
            x == eat(<<Str(s), ActName(s, a)>>) IN
        IF isSpecial(s) /\ acTag(s) = "std" THEN AttrOf(x, "dir") = "none"
        ELSE ActEdgeStyled(x, acTag(s), o(s), a, ALabelsOf(M, <<s, a>>))
  IN IF ~(Len(N) = Cardinality(nodeIds) /\ {N[j].id : j \in 1..Len(N)} = nodeIds) THEN {"C28.nodes"}
     ELSE IF ~(Len(E) = Cardinality(edgePairs) /\ {<<E[j].from, E[j].to>> : j \in 1..Len(E)} = edgePairs) THEN {"C28.edges"}
     ELSE Viol(\A s \in Drawn(M) \ grey : stateOk(s), "C28.state-style")
          \cup Viol(\A s \in grey : Grey(at(Str(s))), "C28.grey")
          \cup Viol(\A s \in Drawn(M) \ grey : AttrOf(at(Str(s)), "color") # "azure3", "C28.grey")
          \cup Viol(\A s \in Drawn(M) \ grey : AttrOf(at(Str(s)), "weight") \in wst(s), "C28.weights")
          \cup Viol(mdp => \A i \in rows : actOk(i) /\ actEdgeOk(i), "C28.action-style")
          \cup Viol(mdp => \A i \in rows : AttrOf(at(from(i)), "weight") \in wac(i), "C28.weights")
          \cup Viol(\A i \in rows : \A d \in Supp(M, i) : transOk(i, d), "C28.transition-style")
          \cup Viol(e.r.stray = <<>>, "C28.stray")
          \cup Viol(e.r.dirty = <<>>, "C28.changes-style")
          \* equal labels have equal default colours
          \cup Viol(e.a.st = "std" => \A s, t \in {u \in Drawn(M) \ grey : ~isSpecial(u)} :
                      LabelsOf(M, s) = LabelsOf(M, t) => AttrOf(at(Str(s)), "color") = AttrOf(at(Str(t)), "color"), "C28.colour")

\* a model as such
V_draw(heap, e) ==
  IF ~Ok(e) THEN {"C28.error"}
  ELSE LET id(s) == s
           none(s) == {""}
       IN DrawViol(e, heap[e.a.h], FALSE, id, {}, none, none)
Reduced_(R) == "smap" \in DOMAIN R
OrgOf(R) == IF ~Reduced_(R) THEN [s \in States(R.m) |-> s] ELSE [s \in {x[2] : x \in Range(R.smap)} |-> (CHOOSE x \in Range(R.smap) : x[2] = s)[1]]
WithLabels(e, R) == [e EXCEPT !.a = [tl |-> R.tl, fl |-> R.fl] @@ e.a]
\* the system of a reduced reachability form
V_drawrf(heap, e) ==
  IF ~Ok(e) THEN {"C28.error"}
  ELSE LET R == heap[e.a.h]
           f == OrgOf(R)
           org(s) == f[s]
           none(s) == {""}
       IN DrawViol(WithLabels(e, R), R.m, Reduced_(R), org, {}, none, none)
\* a subsystem: e.a.cert in units of 10^-5, e.a.pos the positions of positive entries
V_drawsub(heap, e) ==
  IF ~Ok(e) THEN {"C28.error"}
  ELSE LET R == heap[e.a.h]
           M == R.m
           f == OrgOf(R)
           org(s) == f[s]
           on == MaskOf(M, e.a.mode, Range(e.a.pos))
           show(k, v) == Str(k) \o "=" \o Str(v)
           rowOf(s) == CHOOSE i \in InnerRows(M) : M.rows[i].s = s
           wst(s) == IF ~e.a.weights \/ s \notin on THEN {""}
                     ELSE IF e.a.mode = "min" THEN {show(s, e.a.cert[s + 1])}
                     ELSE IF M.kind = "dtmc" THEN {show(k, e.a.cert[rowOf(s)]) : k \in {s, rowOf(s) - 1}}
                     ELSE {""}
           wac(i) == IF ~e.a.weights \/ e.a.mode = "min" \/ M.kind = "dtmc" \/ M.rows[i].s \notin on THEN {""}
                     ELSE {show(i - 1, e.a.cert[i])}
       IN DrawViol(WithLabels(e, R), M, Reduced_(R), org, InnerStates(M) \ on, wst, wac)
=============================================================================
