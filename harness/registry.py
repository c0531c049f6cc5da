"""Which design models accompany each property's conformance check, and how the
check is described in MANIFEST.json."""
_G = [("MC_Graph.tla", "MC_Graph.cfg"), ("MC_Graph.tla", "MC_Graph2.cfg")]
_GT = [("MC_Graph.tla", "MC_Graph_big.cfg")]
_FORMS = [{"quick": ("GenForm.tla", "GenForm.cfg", "gen-forms.ndjson", 0), "thorough": ("GenForm.tla", "GenForm_big.cfg", "gen-forms.ndjson", 4000)}]
CHECKS = {
    "C01": {"design": []},
    "C02": {"design": []},
    "C03": {"design": _G, "design_thorough": _GT},
    "C04": {"design": _G, "design_thorough": _GT},
    "C05": {"design": _G, "design_thorough": _GT},
    "C06": {"design": [], "generate": [{"quick": ("GenDict.tla", "GenDict.cfg", "gen-C06.ndjson", 900),
                                        "thorough": ("GenDict.tla", "GenDict_big.cfg", "gen-C06.ndjson", 20000)}]},
    "C07": {"design": []},
    "C08": {"design": [("MC_Reduce.tla", "MC_Reduce.cfg")], "design_thorough": [("MC_Reduce.tla", "MC_Reduce_big.cfg")]},
    "C10": {"design": []},
    "C09": {"design": [("MC_Reduce.tla", "MC_Reduce.cfg")], "design_thorough": [("MC_Reduce.tla", "MC_Reduce_big.cfg")]},
    "C11": {"design": [("MC_Values.tla", "MC_Values.cfg")], "design_thorough": [("MC_Values.tla", "MC_Values_big.cfg")], "generate": _FORMS},
    "C12": {"design": [("MC_Rewards.tla", "MC_Rewards.cfg")], "design_thorough": [("MC_Rewards.tla", "MC_Rewards_big.cfg")], "generate": _FORMS},
    "C13": {"design": [("MC_Reduce.tla", "MC_Reduce.cfg")], "design_thorough": [("MC_Reduce.tla", "MC_Reduce_big.cfg")]},
    "C14": {"design": [], "generate": _FORMS},
    "C15": {"design": [("MC_Farkas.tla", "MC_Farkas.cfg")], "design_thorough": [("MC_Farkas.tla", "MC_Farkas_big.cfg")], "generate": _FORMS},
    "C16": {"design": [("MC_Farkas.tla", "MC_Farkas.cfg")], "design_thorough": [("MC_Farkas.tla", "MC_Farkas_big.cfg")], "generate": _FORMS},
    "C17": {"design": [("MC_Values.tla", "MC_Values.cfg"), ("MC_Subsys.tla", "MC_Subsys.cfg"), ("MC_Rewards.tla", "MC_Rewards.cfg")], "design_thorough": [("MC_Values.tla", "MC_Values_big.cfg"), ("MC_Subsys.tla", "MC_Subsys_big.cfg"), ("MC_Rewards.tla", "MC_Rewards_big.cfg")], "generate": _FORMS},
    "C18": {"design": [("MC_Farkas.tla", "MC_Farkas.cfg"), ("MC_Rewards.tla", "MC_Rewards.cfg")], "design_thorough": [("MC_Farkas.tla", "MC_Farkas_big.cfg"), ("MC_Rewards.tla", "MC_Rewards_big.cfg")], "generate": _FORMS},
    "C19": {"design": [("MC_Subsys.tla", "MC_Subsys.cfg")], "design_thorough": [("MC_Subsys.tla", "MC_Subsys_big.cfg")]},
    "C20": {"design": [("MC_Heur.tla", "MC_Heur_TRUE.cfg"), ("MC_Heur.tla", "MC_Heur_FALSE.cfg")], "generate": _FORMS},
    "C21": {"design": [("MC_Subsys.tla", "MC_Subsys.cfg")], "design_thorough": [("MC_Subsys.tla", "MC_Subsys_big.cfg")], "generate": _FORMS},
    "C22": {"design": [("MC_Solver.tla", "MC_Solver.cfg")],
            "design_thorough": [("MC_Solver.tla", "MC_Solver_big.cfg"), ("GenSolver.tla", "GenSolver_hist.cfg")],
            "generate": [{"quick": ("GenSolver.tla", "GenSolver.cfg", "gen-C22.ndjson", 320),
                          "thorough": ("GenSolver.tla", "GenSolver.cfg", "gen-C22.ndjson", 6000)}]},
    "C23": {"design": [("MC_Solver.tla", "MC_Solver.cfg")], "design_thorough": [("MC_Solver.tla", "MC_Solver_big.cfg")]},
    "C24": {"design": [], "generate": [{"quick": ("GenShared.tla", "GenShared.cfg", "gen-C24.ndjson", 160),
                                        "thorough": ("GenShared.tla", "GenShared_big.cfg", "gen-C24.ndjson", 1500)}]},
    "C25": {"design": []},
    "C26": {"design": []},
    "C27": {"design": []},
    "C28": {"design": []},
    "C29": {"design": [("MC_Treap.tla", "MC_Treap.cfg")], "design_thorough": [("MC_Treap.tla", "MC_Treap_big.cfg")],
            "prepare": "prep_treap",
            "generate": [{"quick": ("MC_Treap.tla", "MC_Treap_gen.cfg", "gen-C29.ndjson", 1200),
                          "thorough": ("MC_Treap.tla", "MC_Treap_gen.cfg", "gen-C29.ndjson", 0)}]},
    "C30": {"design": []},
    "C31": {"design": [("MC_Solver.tla", "MC_Solver.cfg")], "design_thorough": [("MC_Solver.tla", "MC_Solver_big.cfg")], "counts": ["C17", "C18", "C19"]},
}
NOT_APPLICABLE = {}
