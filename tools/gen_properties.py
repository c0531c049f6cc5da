#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
AM="switss/model/amdp.py"; MD="switss/model/mdp.py"; DT="switss/model/dtmc.py"; GR="switss/utils/graph.pyx"
RF="switss/model/reachability_form.py"; RR="switss/model/reward_reachability_form.py"; TR="switss/utils/treaps.pyx"
IV="switss/utils/invertible_dict.py"; ML="switss/solver/milp.py"; SS="switss/problem/subsystem.py"
FO="switss/problem/formulations.py"; ME="switss/problem/milpexact.py"; QS="switss/problem/qsheur.py"; QP="switss/problem/qsheurparams.py"
PF="switss/problem/problemform.py"; CE="switss/certification/certificates.py"; PR="switss/prism/prism.py"; BE="switss/benchmarks/benchmarks.py"
CL="bin/switss"; GV="switss/utils/graphviz_utils.py"; CA="switss/utils/casting.py"; ST="switss/utils/stack.pyx"

p("C01","Models are accepted exactly when they are probabilistic models",
 "Constructing an MDP or DTMC succeeds exactly when every row of the transition matrix sums to one (to about nine decimals) with entries in [0,1], given rewards are nonnegative, and (DTMC) the matrix is square with every action 0; otherwise construction raises an AssertionError. An accepted model exposes exactly the given matrix, state-action index map, labels and rewards, whatever container type (list, array, dense or sparse matrix) the matrix came in.",
 ["inputs"],"all matrices, container types, index maps, reward vectors and labelings",
 "The tests construct a handful of well-formed example models; they never construct an ill-formed one, a permuted index map or non-list containers.",
 [AM,MD,DT,CA],[("__check_correctness",AM),("cast_dok_matrix",CA)],["MDP(...)","DTMC(...)","P, C, N, index_by_state_action, reward_vector"])
p("C02","Successor and predecessor views describe exactly the transition relation",
 "For every model and state, the successors are exactly the triples (destination, action, probability) with positive probability in the rows of that state, the predecessors exactly the (source, action, probability) triples leading into it, and the available actions exactly those of the index map. No zero-probability transition is ever reported, each transition is reported once, and the views do not change when they are queried repeatedly.",
 ["inputs"],"all models, including index maps that permute rows, self loops, shared successors, states without incoming edges, stored zeros",
 "Tests use fixed example models with identity-like index maps and look at no successor or predecessor list.",
 [GR,AM],[("Graph.__cinit__/add_successor",GR),("actions_by_state",AM)],["successors","predecessors","actions_by_state"])
p("C03","Reachability masks equal graph reachability, with blocked states not expanded",
 "For every model, nonempty start set, direction and blocklist, the reachability mask marks exactly the states connected to the start set by a path of positive-probability transitions in that direction whose states before the last are all unblocked; start states are always marked, and blocked states may be marked but are never left.",
 ["inputs"],"all models, start sets, both directions, all blocklists",
 "The tests never call reachability directly; reductions in tests use one target state and no interesting blocklist.",
 [GR,AM],[("Graph.reachable",GR)],["reachable_mask"])
p("C04","Maximal end components and their properness are exact",
 "For every model, two states get the same component index exactly when they lie in a common end component (or are equal), the indices are 0..k-1 with k the reported count, and a component is flagged proper exactly when it contains an end component, i.e. has at least two states or a state with an action that stays there with probability one. Results do not depend on random numbers, earlier queries, or state numbering.",
 ["inputs","histories"],"all models (action supports that leave a component, nested components, singletons with and without sure self loops) and repeated calls",
 "test_mecs/test_proper_mecs compare a few hand-built models; splitting after an SCC refinement, multi-destination actions and singletons appear in only one or two shapes.",
 [GR,TR,ST],[("Graph.maximal_end_components/strongconnect",GR),("treap set",TR)],["maximal_end_components","nr_of_mecs, proper_mecs, in_proper_ec"])
p("C05","Strongly connected components are exact",
 "For every model the SCC query returns a partition of the states in which two states share an index exactly when each can reach the other along positive-probability transitions, together with the number of components.",
 ["inputs"],"all models","No test calls the SCC query at all.",
 [AM,GR],[("Tarjan",GR)],["strongly_connected_components"])
p("C06","Labels stay a coherent two-way relation under any history of updates",
 "After any sequence of additions, removals and inverse accesses made through either direction, an invertible mapping and its inverse describe the same relation, the inverse of the inverse is the mapping itself, missing keys give the empty set (default mappings) or an error, and reads never change anything. Model label views (labels by state, states by label, labels by action) are such mappings of the labels given plus those added, and adding a label never alters objects the caller passed in.",
 ["histories"],"all histories of add/remove/lookup/inverse operations over both directions; add_label interleaved with reads",
 "No test updates labels after construction or touches the inverse before and after an update.",
 [IV,AM],[("InvertibleDict",IV),("add_label",AM)],["InvertibleDict.add/remove/inv/[]/in/items","add_label, states_by_label, labels_by_state"],
 [("forward/inverse dictionaries","relation and cached inverse",IV)])
p("C07","Saving and loading a model preserves it",
 "For every model that can be constructed, loading the saved .tra/.lab pair succeeds and yields the same state-action pairs, the same transition probabilities (to about nine decimals), and the same state labels, including empty, overlapping and many labels. For MDPs the rows keep their numbers, so that a stored reachability form, or the stored system of a subsystem, loads as that reachability form. The written files carry the declared counts of states, choices and transitions and one line per transition.",
 ["inputs"],"all models and labelings (labels without line breaks or double quotes), including non-dyadic probabilities and noncontiguous action numbers",
 "No test saves or loads anything.",
 [MD,DT,AM,PR],[("save",MD),("save",DT),("_load_transition_matrix",MD),("parse_label_file",PR)],["save","from_file"])
p("C08","Reduction builds exactly the reachability form of the model",
 "Reducing a model keeps exactly the states that are reachable from the initial state without passing through a target and can reach a target, each with all its actions; returned maps are bijections between kept states/state-action pairs and their new indices, keep action numbers, and the new transitions equal the old ones between kept states. Old targets step surely to the new goal, all probability into removed states goes to fail, goal and fail are the last two absorbing states and rows, and state labels, action labels and rewards carry over along the map while goal and fail carry only their new labels.",
 ["inputs"],"all models with one initial state, any nonempty target set reachable from it, any label names",
 "Tests reduce a few models and then only minimise them; no test inspects the maps, the labels, rewards or fail mass, or uses several targets or an initial target.",
 [RF],[("ReachabilityForm.reduce/__initialize_system",RF)],["ReachabilityForm.reduce"])
p("C09","Reduction preserves extremal reachability probabilities",
 "For every model and target set, the minimal and maximal probability of reaching a target from any kept state of the model equals the minimal and maximal probability of reaching goal from its image in the reachability form.",
 ["inputs"],"all models, including those with end components, several targets, unreachable states and rows whose decimals do not sum exactly to one in binary",
 "No test compares probabilities before and after reduction.",
 [RF,GR],[("reduce",RF),("pr_min/pr_max",RF)],["ReachabilityForm.reduce","pr_min","pr_max"])
p("C10","The reachability-form gate accepts exactly well-formed systems",
 "Wrapping a system as reachability form succeeds exactly when the three labels differ and each marks one state, goal and fail are the last two states and rows and only loop on themselves, every state but fail is reachable from the initial state and every state but fail reaches goal; otherwise an AssertionError is raised. On acceptance the exposed matrix P, A = I - P, target vector and index map are those of the system without goal and fail.",
 ["inputs"],"all systems and label choices, in particular all near-miss violations of a single condition",
 "Tests only wrap well-formed systems.",
 [RF],[("assert_consistency",RF),("__init__",RF)],["ReachabilityForm(...)","assert_consistency","A, P, to_target, index_by_state_action, initial"])
p("C11","Reported minimal and maximal reachability probabilities are the true ones",
 "For every reachability form, with or without end components, pr_min and pr_max return for each state the minimal and maximal probability of reaching goal over all schedulers; the state-action variants return the one-step expectation of these values, and the frequency queries return a nonnegative flow from the initial state whose goal inflow attains the maximal probability.",
 ["inputs","configurations"],"all reachability forms, both bundled solvers, any order of queries",
 "Tests never compare pr_min/pr_max with known values, and no example mixes proper end components with probabilities.",
 [RF,ML],[("max_z_state, pr_max, max_y_*",RF)],["pr_min","pr_max","max_z_state(_action)","max_y_state(_action)"])
p("C12","Reported minimal and maximal expected rewards are the true ones",
 "For every reward reachability form, rew_min and rew_max return for each state the minimal and maximal expected reward accumulated before goal over all schedulers, with rewards attached to the right state-action pairs after reduction.",
 ["inputs"],"all reward models in which goal is reached almost surely","test_rewards_exact checks witness sizes on two models only; expected rewards are never compared.",
 [RR,RF],[("rew_min/rew_max, max_y_*",RR)],["RewardReachabilityForm.reduce","rew_min","rew_max"])
p("C13","The reward-form gate accepts exactly almost-surely terminating systems",
 "Building a reward reachability form, by reduction or from a system already in that form, succeeds exactly when rewards are present, goal is reached almost surely under every scheduler (no mass to fail, no proper end component besides goal) and, for ready-made systems, initial and goal labels mark one state each with goal last, absorbing, and every state reachable and reaching goal; otherwise an AssertionError is raised. Rounding noise in row sums does not change the verdict, the caller's system is not modified, and the requested goal label is used.",
 ["inputs"],"all systems, in particular single-condition violations and decimal probability rows","Tests use two well-formed reward models and never call the ready-made constructor.",
 [RR],[("assert_reachform_consistency/assert_system_consistency/fromsystem",RR)],["RewardReachabilityForm.reduce","RewardReachabilityForm.fromsystem"])
p("C14","Farkas constraint systems are exact and independent of query history",
 "For every reachability form, threshold and mode, the returned constraint matrix and right-hand side are exactly the Farkas systems: z-form rows A z <= b plus -z(init) <= -threshold, y-form rows y A <= delta_init plus -b y <= -threshold (for reward forms with rewards in place of b). A returned system stays valid after any later queries with other thresholds, and later answers do not depend on earlier ones.",
 ["inputs","histories"],"all reachability and reward forms, thresholds, and interleavings of constraint queries",
 "No test inspects the constraint systems; caching makes the answer depend on history, which single-call tests cannot see.",
 [RF,RR],[("fark_z_constraints/fark_y_constraints caches",RF),("fark_*",RR)],["fark_constraints","fark_z_constraints","fark_y_constraints"],
 [("cached matrices and rhs","memoised constraint systems",RF)])
p("C15","Certificate checking accepts exactly valid Farkas certificates",
 "For every reachability form, mode, comparison, threshold and candidate vector, the checker accepts vectors that satisfy all Farkas conditions for that constraint and rejects every vector that violates one of them by clearly more than the tolerance, including nonnegativity of frequency vectors and zeros on proper end components. Hence an accepted vector implies that the probability constraint holds up to the tolerance, and the verdict does not depend on earlier queries.",
 ["inputs","histories"],"all reachability forms, four comparisons, two modes, thresholds, and candidate vectors valid, near-valid and adversarial",
 "Tests call the checker only on certificates the tool produced itself; no invalid certificate is ever presented.",
 [CE],[("check_farkas_certificate",CE)],["check_farkas_certificate"])
p("C16","Certificates are generated exactly when the property holds",
 "For every reachability form, mode, comparison and threshold clearly away from the true probability, certificate generation returns a certificate that is valid for that very constraint when the constraint holds, and None when it does not (for minimal probabilities bounded from above this is required on forms without proper end components; otherwise a returned certificate must still be valid). On forms without proper end components a threshold that equals the probability is certified for non-strict comparisons too (upper bounds on minimal probabilities excepted).",
 ["inputs","configurations"],"all reachability forms, modes, comparisons, thresholds",
 "No test generates certificates for false constraints, strict comparisons or models with end components.",
 [CE],[("generate_farkas_certificate/find_interior_point",CE)],["generate_farkas_certificate"])
p("C17","Exact minimisation returns a minimum witnessing subsystem",
 "For every reachability form, mode and threshold for which it succeeds, exact minimisation reports the least number of states of any subsystem whose minimal (maximal) probability of reaching goal is at least the threshold, and its returned subsystem has at most that many states and is such a witness. For reward forms the same holds with expected reward.",
 ["inputs","configurations"],"all reachability forms (for maximal probability: without proper end components) and thresholds off the finitely many critical values",
 "Tests compare a few witness sizes but their status check never matches, so wrong sizes go unnoticed; minimality quantifies over all subsystems.",
 [ME,FO,SS],[("construct_MILP, compute_upper_bounds",FO),("MILPExact",ME)],["MILPExact.solve"])
p("C18","Every reported subsystem is a witness, and infeasible means none exists",
 "Whenever exact or heuristic minimisation (any initializer, updater, iteration count) reports success, the returned certificate is a point of the Farkas polytope for the threshold and the subsystem consisting of its positive states alone already meets the threshold; when the threshold exceeds the true value of the model the outcome is not success, and when it is below, the outcome is success. A program the solver does not solve to optimality is reported with its status and without a subsystem, nothing follows it, and solve returns the last result of solveiter.",
 ["inputs","configurations"],"all reachability and reward forms, thresholds, modes, and solver configurations",
 "The result status is compared with a string it never equals, so the witness property is not asserted at all; infeasible thresholds are never tried.",
 [QS,ME,FO,SS],[("QSHeur._solveiter",QS),("MILPExact._solveiter",ME),("construct_MILP",FO)],["solve","solveiter"])
p("C19","Label-based minimisation counts the fewest labels of any witness",
 "Given a set of labels, exact minimisation reports the least number of those labels such that the states carrying none of the other given labels (unlabelled states included) form a witness for the threshold; heuristic label-based results report the number of labels with positive weight and their positive states use only those labels. The program's indicator groups are exactly the entries carrying each given label. Labels that also mark goal, fail, or no state at all do not disturb the result.",
 ["inputs"],"all labelings (overlapping, empty, covering goal or fail, multiple per state), modes, thresholds",
 "Label tests use disjoint labels on one model per class and assert nothing on success.",
 [FO,ME,QS],[("groups_from_labels/add_indicator_constraints",FO)],["MILPExact.solve(labels=)","QSHeur.solveiter(labels=)"])
p("C20","The heuristic follows its documented objective sequence",
 "Every initializer yields exactly one weight per group as documented (all ones, inverse reachability, inverse frequency, inverse combined), every updater yields weight 1/sigma for positive indicators and the documented penalty or zero-fixing for vanished ones, and the iteration performs at most the requested number of rounds, each solving the program with exactly the objective and constraints produced so far. With zero-fixing, groups dropped once stay dropped, so reported sizes never grow.",
 ["inputs","histories"],"all reachability forms, groupings, last-result vectors, iteration counts",
 "Tests only run default settings and do not look at weights or at intermediate iterations.",
 [QS,QP],[("initializers/updaters",QP),("QSHeur._solveiter",QS)],["Initializer.initialize","Updater.update/constraints","QSHeur.solveiter"],
 [("current objective / added constraints","state of the iteration loop",QS)])
p("C21","A subsystem is the reachability form induced by its positive states",
 "For every reachability form and certificate, the subsystem mask marks exactly the states with a positive entry (max form: with a positive entry for some action), and the built subsystem has exactly those states in order with all their actions, their old transitions among each other and to goal, all lost probability to fail, and their state and action labels. If that system is not a reachability form an AssertionError is raised; building never changes the supersystem and is repeatable, and certificates of wrong length are rejected.",
 ["inputs"],"all reachability and reward forms and certificate vectors of both forms, including decimal probability rows",
 "No test builds subsystems and compares their transitions or labels.",
 [SS],[("subsystem_mask/subsys",SS)],["Subsystem(...)","subsystem_mask","subsys"])
p("C22","The program builder solves exactly the program that was built",
 "After any sequence of adding variables (with domains and bounds), adding and removing constraints and setting the objective, solving reports optimal with a feasible optimal point and its value, infeasible or unbounded, exactly as the mathematical program built so far prescribes; indices returned by additions are consecutive, solving changes nothing, and ill-formed expressions are rejected. Every later solve reflects all changes made since.",
 ["histories","configurations"],"all operation histories over small programs, mixed domains and bounds, both bundled solvers",
 "test for the solver builds at most one program; removal, repeated solving, repeated objectives and mixed domains never occur.",
 [ML],[("MILP builder",ML),("LP",ML)],["add_variables(_w_bounds)","add_constraint","remove_constraint","set_objective_function","solve"],
 [("variables/constraints/objective","the program so far",ML)])
p("C23","Programs built from coefficients mean the stated optimisation problem",
 "Building a program from a matrix, right-hand side, objective vector, domains, comparison, objective sense and bounds (any container type) yields the program optimise c x subject to A x <= b (or >= b) with exactly those domains and bounds; LPs are the all-real case. Solving returns an optimal vertex value, a feasible vector in variable order, and the right status.",
 ["inputs","configurations"],"all coefficient matrices (with zero rows and columns), senses, objectives, domains, bounds and container types",
 "One fixed two-variable example at most.",
 [ML,CA],[("from_coefficients",ML)],["MILP.from_coefficients","LP.from_coefficients"])
p("C24","Queries on shared objects do not interfere",
 "For every sequence of public queries and minimisations on one reachability form, in any order and repetition, each answer equals the answer on a freshly built copy, and neither the form, its system, nor any previously returned constraint system, certificate or subsystem changes.",
 ["histories","schedules"],"all interleavings of queries, certificate generation and checking, minimisation iterations (including suspended iterators) on shared objects",
 "Tests use every object once, in one order.",
 [RF,CE,QS,SS,AM],[("memoised state of RF, Subsystem, labels, actions_by_state",RF)],["all public queries"],
 [("caches","lazily computed views",RF)])
p("C25","The command line pipeline is faithful to the library",
 "For every saved model, the rf command writes the reachability form and the state/action mapping that the library computes, minimize finds and stores certificates that are valid for the requested mode and threshold (all iterations, or the last), certify reports exactly the validity of each stored certificate, and subsystem writes for each certificate the reachability form with exactly the positive states additionally labelled. Info and render terminate successfully on every loadable model.",
 ["inputs","configurations"],"all models and the documented parameter combinations (modes, methods, labels, initializers, outputs)",
 "No test runs the command line tool.",
 [CL],[("rfargs/minargs/certargs/subsysargs",CL)],["bin/switss rf|minimize|certify|subsystem|info|render"])
p("C26","Imported PRISM and stormpy models equal their source",
 "Importing a PRISM model passes the model text, every constant assignment and every extra label unchanged to PRISM and returns exactly the exported model, or fails with an error when PRISM fails; importing a stormpy model yields exactly its states, choices, probabilities, state labels and choice labels, and the choice model adds one deterministic state per choice carrying that choice's labels.",
 ["inputs","fault_sequences"],"all constant and label dictionaries, exported files, PRISM failures, stormpy models",
 "PRISM is absent in the tests (they are skipped) and stormpy is not installed.",
 [PR,MD,DT,AM],[("prism_to_tra/parse_label_file",PR),("from_stormpy_model",MD),("from_stormpy_model",DT)],["from_prism_model","from_stormpy"])
p("C27","Benchmark runs record what each method returned for each threshold",
 "A benchmark run evaluates the method at every threshold of the requested range in order and records for each the sequence of values its iterations returned, with one wall and one process time per value; it stops at the first infeasible threshold without recording it, stops after recording a failed threshold when told to stop on timeouts and otherwise continues, and runs every combination of method and mode when lists are given. A requested JSON file contains the returned data. Plotting runs draws exactly their recorded values in the requested form and changes no run.",
 ["inputs","fault_sequences"],"all threshold ranges, methods, outcome sequences (success, infeasible, unsolved) per threshold",
 "No test runs benchmarks.",
 [BE],[("run",BE)],["benchmarks.run","benchmarks.render"])
p("C28","Renderings contain every state and transition once, styled by the given maps",
 "The graph rendering of a model has one node per state that occurs in a transition, for MDPs one node and connecting edge per state-action pair, and one edge per transition, each with the attributes the configured or given style functions return for the original indices, labels and probability. Reachability forms made by reduction show goal and fail in their special styles, subsystem renderings grey exactly the states outside the subsystem and show the requested certificate values at the states or actions they belong to, and rendering changes no object.",
 ["inputs"],"all models, style functions, reachability forms and subsystems",
 "No test renders anything.",
 [MD,DT,RF,SS,GV],[("digraph",MD),("digraph",DT),("digraph",SS),("__adapt_style",RF)],["digraph"])
p("C29","The treap behaves as a set with an exact size",
 "After any sequence of insertions (including repeated keys) and for every random priority sequence, the balanced tree used by the component search contains exactly the inserted keys, reports their exact number as size, lists each key once, and answers membership exactly.",
 ["inputs","histories"],"all insertion sequences and random priorities",
 "test_utils_treap inserts four fixed sequences under 21 seeds.",
 [TR,"switss/utils/treaps.pxd"],[("insert/split_treap/update_size",TR)],["add_to_treap, in_treap, treap_to_arr (compiled interface)","maximal_end_components"],
 [("tree nodes","keys, heap priorities, sizes",TR)])
p("C30","The interior point search finds a point exactly when there is one",
 "For every polyhedron A x <= b (optionally with x >= 0, optionally with some variables forced to zero) in which the best achievable slack is bounded: find_interior_point reports a point as found when the polyhedron contains a point with slack to spare, and as not found when every point violates some row; a reported point satisfies every row (and is nonnegative, and zero where zero was asked for); it is reported as strict, and is strictly inside every row, when an interior with slack exists (and no forced zero stands against x >= 0), and never when there is no point at all. An unbounded slack is not reported as optimal. The given matrix, vector and variable list stay as they are.",
 ["inputs"],"all matrices, right-hand sides, sign restrictions, forced zeros and solvers",
 "The tests reach the search only through certificate generation, and only look at whether the generated vector is accepted.",
 [CE],[("find_interior_point",CE)],["find_interior_point"])
p("C31","The Gurobi back end builds and solves the same programs",
 "Provided Gurobi follows its documented interface: after any sequence of operations on a GurobiMILP (variables with domains and bounds, constraints, removals, objectives), or after building one from coefficients (objective and bounds optional), solving reports the status, value and a vector of exactly the program built, as for the other back ends (a variable without a lower bound has none, an expression may be empty). Exact and heuristic minimisation with solver 'gurobi' report witnesses, exact ones minimum (by states or labels), also where no bound on the certificates is known (max-forms with end components, a bounding program stopped early), and a program stopped early is reported as such.",
 ["histories","inputs"],"all operation histories over small programs; all small reachability and reward forms, thresholds, modes and label sets",
 "The tests with Gurobi need an installed and licensed solver, so they fail or are skipped here; they compare a few sizes of witnesses and build no program by hand.",
 [ML,FO,ME,QS],[("GurobiMILP",ML),("add_indicator_constraints, construct_MILP",FO)],["GurobiMILP","MILPExact(solver='gurobi')","QSHeur(solver='gurobi')"],
 [("variables/constraints/objective","the program so far",ML)])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
