------------------------------- MODULE MDPCore -------------------------------
(* Markov decision processes as the tool represents them, and their graph     *)
(* semantics.  A model is a record                                            *)
(*   n    number of states (states are 0..n-1)                                *)
(*   D    common denominator of all probabilities                             *)
(*   rows sequence of [s, a, t]: row i of the matrix belongs to action a of   *)
(*        state s and t is a sequence of <<dest, k>> with probability k / D   *)
(*   lab  sequence of [l, s]  : label l marks the states in sequence s        *)
(*   alab sequence of [l, sa] : label l marks the state-action pairs in sa    *)
(*   rew  sequence of rewards per row, <<>> if the model carries no rewards   *)
EXTENDS Util

States(M) == 0..(M.n - 1)
Rows(M) == 1..Len(M.rows)
RowsOf(M, s) == {i \in Rows(M) : M.rows[i].s = s}
\* row i as a set of <<dest, k>> with k > 0
Trans(M, i) == {x \in Range(M.rows[i].t) : x[2] > 0}
Supp(M, i) == {x[1] : x \in Trans(M, i)}
ProbTo(M, i, d) == LET T == {x \in Trans(M, i) : x[1] = d} IN IF T = {} THEN 0 ELSE (CHOOSE x \in T : TRUE)[2]
RowSum(M, i) == LET f(j) == M.rows[i].t[j][2] IN SumTo(f, 1, Len(M.rows[i].t))
Pairs(M) == {<<M.rows[i].s, M.rows[i].a>> : i \in Rows(M)}
RowOf(M, s, a) == CHOOSE i \in Rows(M) : M.rows[i].s = s /\ M.rows[i].a = a
Acts(M, s) == {M.rows[i].a : i \in RowsOf(M, s)}

LabelNames(M) == {M.lab[i].l : i \in 1..Len(M.lab)}
StatesBy(M, l) == UNION {Range(M.lab[i].s) : i \in {j \in 1..Len(M.lab) : M.lab[j].l = l}}
LabelsOf(M, s) == {l \in LabelNames(M) : s \in StatesBy(M, l)}
ALabelNames(M) == {M.alab[i].l : i \in 1..Len(M.alab)}
PairsBy(M, l) == UNION {Range(M.alab[i].sa) : i \in {j \in 1..Len(M.alab) : M.alab[j].l = l}}
ALabelsOf(M, sa) == {l \in ALabelNames(M) : sa \in PairsBy(M, l)}
HasRew(M) == Len(M.rew) > 0

\* the relations the constructor is given
LabRel(M) == UNION {{<<M.lab[i].l, s>> : s \in Range(M.lab[i].s)} : i \in 1..Len(M.lab)}
ALabRel(M) == UNION {{<<M.alab[i].l, x>> : x \in Range(M.alab[i].sa)} : i \in 1..Len(M.alab)}
TransRel(M) == UNION {{<<M.rows[i].s, M.rows[i].a, x[1], x[2]>> : x \in Trans(M, i)} : i \in Rows(M)}

----------------------------------------------------------------------------
(* Well-formedness: what makes a probabilistic model *)
RowOK(M, i) == /\ \A x \in Range(M.rows[i].t) : x[2] >= 0 /\ x[2] <= M.D
               /\ RowSum(M, i) = M.D
WellFormed(M, kind) ==
  /\ \A i \in Rows(M) : RowOK(M, i)
  /\ HasRew(M) => \A i \in Rows(M) : M.rew[i] >= 0
  /\ kind = "dtmc" => Len(M.rows) = M.n /\ \A i \in Rows(M) : M.rows[i].a = 0

----------------------------------------------------------------------------
(* Graph views *)
Succs(M, s) == UNION {{<<x[1], M.rows[i].a, x[2]>> : x \in Trans(M, i)} : i \in RowsOf(M, s)}
Preds(M, d) == UNION {{<<M.rows[i].s, M.rows[i].a, x[2]>> : x \in {y \in Trans(M, i) : y[1] = d}} : i \in Rows(M)}
Edges(M) == UNION {{<<M.rows[i].s, d>> : d \in Supp(M, i)} : i \in Rows(M)}
PostFn(E, S) == [s \in S |-> {e[2] : e \in {x \in E : x[1] = s}}]

RECURSIVE Bfs(_, _, _, _)
Bfs(post, blocked, front, seen) ==
  IF front = {} THEN seen
  ELSE LET nxt == (UNION {post[s] : s \in front \ blocked}) \ seen
       IN Bfs(post, blocked, nxt, seen \cup nxt)
ReachE(E, S, from, blocked) == Bfs(TLCEval(PostFn(E, S)), blocked, from, from)
Flip(E) == {<<e[2], e[1]>> : e \in E}
\* states reachable from a set; blocked states are reached but not expanded
Reach(M, from, dir, blocked) ==
  ReachE(IF dir = "forward" THEN Edges(M) ELSE Flip(Edges(M)), States(M), from, blocked)

----------------------------------------------------------------------------
(* Strongly connected components of an edge set within S, as a partition *)
RECURSIVE SccPart(_, _)
SccPart(E, S) ==
  IF S = {} THEN {}
  ELSE LET s == CHOOSE x \in S : TRUE
           F == {e \in E : e[1] \in S /\ e[2] \in S}
           fw == ReachE(F, S, {s}, {})
           bw == ReachE(Flip(F), S, {s}, {})
           C == fw \cap bw
       IN {C} \cup SccPart(F, fw \ C) \cup SccPart(F, bw \ C) \cup SccPart(F, S \ (fw \cup bw))
SCCs(M) == SccPart(Edges(M), States(M))

(* End components.  Rows of states in B that certainly stay in B: *)
Inside(M, B) == {i \in Rows(M) : M.rows[i].s \in B /\ Supp(M, i) \subseteq B}
InsideEdges(M, B) == UNION {{<<M.rows[i].s, d>> : d \in Supp(M, i)} : i \in Inside(M, B)}
\* Declarative definition: T is an end component iff nonempty, every state has
\* an action staying inside, and the staying actions strongly connect T
IsEC(M, T) ==
  /\ T # {}
  /\ \A s \in T : \E i \in Inside(M, T) : M.rows[i].s = s
  /\ LET E == InsideEdges(M, T) IN \A s \in T : ReachE(E, T, {s}, {}) = T
\* The partition into maximal end components by refinement
RECURSIVE MecPart(_, _)
MecPart(M, B) ==
  LET parts == SccPart(InsideEdges(M, B), B)
  IN IF Cardinality(parts) = 1 THEN {B} ELSE UNION {MecPart(M, C) : C \in parts}
MECs(M) == UNION {MecPart(M, C) : C \in SCCs(M)}
\* such a part contains an end component iff some action certainly stays in it
ProperPart(M, B) == Inside(M, B) # {}
ProperStates(M) == UNION {B \in MECs(M) : ProperPart(M, B)}

\* an observed index vector ix (sequence, state s at s+1) denotes partition Part with cnt classes 0..cnt-1
IsIndexing(ix, cnt, Part, n, base) ==
  /\ Len(ix) = n
  /\ cnt = Cardinality(Part)
  /\ Range(ix) \subseteq base..(base + cnt - 1)
  /\ \A B \in Part : Cardinality({ix[s + 1] : s \in B}) = 1
  /\ Cardinality(Range(ix)) = cnt
=============================================================================
