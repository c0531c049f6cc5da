"""Writes the list of repaired defects of known-findings.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = """C02 8d6fda1 stored zeros in sparse input became zero-probability successors/predecessors (also C03, C04, C28)
C05 e7699fc strongly_connected_components raised AttributeError on every call
C22 a196056 LP.add_variables passed the domains as separate arguments and always failed
C22 6f58fff remove_constraint did not accept the index add_constraint returned
C20 b2a8ad1 setting the objective again kept coefficients of the old objective (also C22)
C20 c979a90 groups whose result was -1e-17 instead of 0 were not fixed to zero and came back for free
C22 342c0a2 repeated variables in an expression: the last coefficient replaced the others
C22 a017d2f programs without objective function could not be solved
C22 96d8a13 variables that occur in no constraint had no value in the result
C22 c226946 bounds of binary variables were dropped
C22 bd99c38 a constraint without variables left a variable of pulp in the program after solving with glpk, later solves failed
C23 67753a7 MILP.from_coefficients(opt=None) raised although documented
C23 c208bb7 LP.from_coefficients rejected nested lists although documented
C18 aadc46c when the bounding program of a reward form was stopped early, exact minimisation bounded min-certificates by one and wrongly reported infeasible
C31 4a13aed variables of Gurobi programs without a lower bound were bounded by zero
C31 c33b2e4 Gurobi programs with an empty constraint (a zero row) or objective could not be built
C31 d05738a GurobiMILP.from_coefficients(opt=None) raised although documented
C31 d75d9c7 exact minimisation with Gurobi without bounds on the certificates always failed
C22 a15f574 a solution found before a timeout was reported as optimal
C06 6ae296f InvertibleDict changed the sets it was created from
C06 18530d5 models shared (and changed) the label mappings of the caller
C01 c8acb87 negative rewards raised a plain Exception type other than AssertionError
C01 3c3f734 rows that do not sum to one were not rejected with an AssertionError
C01 d56eb1c non-square DTMC matrices were not rejected with an AssertionError
C07 61952cc save wrote probabilities with six digits, so loading failed or changed them
C07 75d62a8 MDP.save shuffled the rows, so stored subsystems did not load as reachability forms
C29 57ebf33 treap_from_arr looped forever
C26 f6db4b2 prism constants given as a dictionary crashed
C26 6618fad extra labels given as a dictionary crashed
C26 5f60e10 choice labels were attached to the wrong choice states
C26 0ab8434 DTMC.from_stormpy ignored choice_model
C26 cac0123 DTMCs imported from stormpy lost their state labels
C13 7787ddc reduction turned rounding errors into transitions to fail (also C08)
C08 aa44d96 reduction (and C21 subsystems) failed when rounding noise made the mass lost to fail exceed one
C14 b71f922 Farkas systems returned earlier changed with later thresholds
C11 d463040 max_y_state included entries that are no state-action frequencies (also C12)
C13 44b40b7 RewardReachabilityForm.reduce ignored the requested target label
C13 a550314 RewardReachabilityForm.fromsystem failed and modified the system
C17 07ea583 reward forms lacked fail_label/to_target/index needed by subsystems and groupings (also C21)
C21 daddadb action labels of subsystems were attached to wrong actions
C21 6115849 subsystems turned rounding errors into transitions to fail
C15 70d8c12 certificates with negative entries were accepted
C17 7bb6704 exact minimisation returned states beyond the counted ones (solver noise)
C16 284d826 y-certificates of forms with end components used wrong variable indices
C16 d950114 no certificate where unbounded frequencies made the solver return vectors of size 1e10
C19 2ab3f08 labels on goal, fail or no state broke label-based minimisation
C28 ece8938 rendering subsystems failed for state styles without a label
C28 9a21459 rendering subsystems changed (and accumulated weights in) the style dictionaries of the user
C28 297d134 rendering a max-subsystem without initial state failed
C28 c62f36d renderings of DTMC subsystems with permuted rows showed weights of other states
C25 6f64587 switss minimize ignored the mode in the solving step and crashed on missing results
C25 23b754e switss subsystem could not copy the system
C26 e66b6b0 labels added to a model text without final newline were glued to its last line"""
path = os.path.join(here, "known-findings.json")
d = json.load(open(path))
d["fixed"] = ["fixed: property=" + l for l in T.split("\n")]
# defects in files that count as benchmarks (and may therefore not be repaired here)
d["findings"] = [
    {"id": "C27-one-beyond", "property": "C27", "clause": "C27.one-beyond", "tag": "beyond",
     "what": "benchmarks.run evaluates one threshold beyond to_thr when numpy.arange(from_thr, min(1, to_thr + step), step) has one element too many by rounding, e.g. from .19 to .91 step .09"},
    {"id": "C27-above-one", "property": "C27", "clause": "C27.run-error", "tag": "above-one",
     "what": "benchmarks.run fails with AssertionError when the element numpy.arange has too many by rounding exceeds 1, e.g. from .1 to 1 step .3 gives 1.0000000000000002"},
    {"id": "C27-mode-string", "property": "C27", "clause": "C27.run-error", "tag": "mode-string",
     "what": "benchmarks.run with several methods and one mode given as string (documented: List[str] or str) runs the methods for the modes 'm', 'i', 'n' and fails"}]
json.dump(d, open(path, "w"), indent=1)
