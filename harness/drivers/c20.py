"""C20: the heuristic follows its documented objective sequence."""
import math, random, re
import numpy as np
import lib, work, minim, values
from drivers.c17 import pick_thr, top, scene_of
from drivers.c19 import form
from drivers import rfq


def cases(seed, tier):
    rng = random.Random(seed * 1049 + 20)
    for i in range(1800 if tier == "thorough" else 240):
        yield (rng.choice(["units", "loop"]), rng.choice(["red", "ecfree", "direct", "rew", "sys"]), rng.randrange(2 ** 31))
    for i in range(200 if tier == "thorough" else 30):
        yield (rng.choice(["units", "loop"]), rng.choice(["wide", "rwide"]), rng.randrange(2 ** 31))
    for i in range(200 if tier == "thorough" else 24):
        yield ("zeros", "xwide", rng.randrange(2 ** 31))
    for kind, s in rfq.cases(rng, tier, 40):
        yield (rng.choice(["units", "loop"]), kind, s)


def sci(x):
    """<<m, e>> with four significant digits."""
    x = float(x)
    if x == 0:
        return [0, 0]
    if not math.isfinite(x) or x < 0 or x > 1e30 or x < 1e-30:
        return [-1, 0]
    e = math.floor(math.log10(x)) - 3
    m = round(x / 10.0 ** e)
    if m >= 10000:
        m, e = round(m / 10), e + 1
    if m < 1000:
        m, e = round(x / 10.0 ** (e - 1)), e - 1
    return [int(m), int(e)]


def rsci(x):
    """A value of a result: solvers write zero as -1e-17 at times."""
    return sci(0 if -1e-7 < float(x) <= 0 else x)


def wlist(obj):
    return [[int(g)] + sci(w) for g, w in obj]


def clist(cons):
    return [{"t": sorted([int(v)] + sci(c) for v, c in lhs), "sense": str(s), "rhs": lib.as_int(r)} for lhs, s, r in cons]


def run(case, log):
    rng = random.Random(case[2])
    f = form(rng, log, case[1])
    if f is None:
        return
    sc, groups = f
    for mode in rng.sample(["min", "max"], 2):
        try:
            if sc.value(mode, sc.all())[1] is None or sc.value("min", sc.all())[1] is None:
                continue
        except ZeroDivisionError:
            return
        t = top(sc, mode)
        thr = pick_thr(rng, [t], t)
        if thr is None:
            continue
        if case[0] == "zeros":
            # many groups the first round leaves out
            thr = max(1, min(thr, int(t * rng.choice([.2, .5, .7]))))
            loop(rng, log, sc, mode, thr, None, True)
            continue
        labels = rng.choice([None, None, groups, rng.sample(groups, rng.randint(1, len(groups))), groups + ["everything", "rf_target"]])
        (units if case[0] == "units" else loop)(rng, log, sc, mode, thr, labels)


def units(rng, log, sc, mode, thr, labels):
    from switss import problem as p
    from switss.problem.formulations import construct_MILP
    from switss.utils import InvertibleDict
    rf, h = sc.rf, sc.h
    model, ind = construct_MILP(rf, thr / 100, mode, labels=labels, relaxed=True)
    gs = [[int(g), sorted(int(v) for v in ind[g])] for g in ind.keys()]
    if not gs:
        return
    hmin = minim.ext(sc.reward, "min")
    sm = sc.am
    hq = values.rfhint(log, sm, h, hmin, "uh") if not sc.reward else None
    if sc.reward:
        hq = values.hint(log, sm, h, hmin, [sc.n], sc.all(), "uh")
    if hq is None or hq[0] > 10 ** 7:
        name = sc.hint("min", sc.all())
    else:
        name = "uh"
        if sc.D * max([hq[0]] + hq[1]) * max(len(g[1]) for g in gs) > 2 * 10 ** 9:
            name = sc.hint("min", sc.all())
    if name is None:
        return
    # the flow the frequency weights refer to
    ext = minim.ext(sc.reward, "max")
    if values.hint(log, sm, h, ext, [sc.n], sc.all(), "umax") is None:
        return
    values.flow(log, rf, sm, h, "umax", "cbc", to="uflow")
    if log.events[-1]["x"]:
        return
    base = {"h": h, "mode": mode, "groups": gs, "hint": name, "flow": "uflow", "wt": [], "sig": []}
    W = lambda o: {"w": wlist(o)}
    users = {g: rng.choice([1, 1, 2, 3, 5]) for g, _ in gs}
    for kind, mk in (("InverseReachability", lambda: p.InverseReachabilityInitializer(rf, mode, ind)),
                     ("InverseFrequency", lambda: p.InverseFrequencyInitializer(rf, mode, ind)),
                     ("InverseCombined", lambda: p.InverseCombinedInitializer(rf, mode, ind))):
        ob = log.call("weights", dict(base, kind=kind), lambda: mk().initialize(), W)
    log.call("weights", dict(base, kind="AllOnes"), lambda: p.AllOnesInitializer(reachability_form=rf, mode=mode, indicator_to_group=ind).initialize(), W)
    log.call("weights", dict(base, kind="AllOnes", wt=[[g, w] for g, w in users.items()]), lambda: p.AllOnesInitializer(ind, weights=users).initialize(), W)
    size = max(g for g, _ in gs) + 1
    for cls, kind in ((p.InverseResultUpdater, "InverseResult"), (p.InverseResultFixedZerosUpdater, "InverseResultFixedZeros")):
        for _ in range(3):
            res = np.array([rng.random() for _ in range(size)])
            style = rng.choice(["mid", "zeros", "tiny", "allzero", "noise"])
            for g, _v in gs:
                res[g] = {"mid": lambda: rng.choice([1.0, .5, .25, rng.random() + 1e-4]),
                          "zeros": lambda: rng.choice([0.0, 0.0, 1.0, rng.random() + 1e-4]),
                          "tiny": lambda: rng.choice([0.0, 1e-3, 2.5e-6, 4e-7, 3e-8, 4e-9, 7e-10, 1e-12, 1.0]),
                          "noise": lambda: rng.choice([0.0, -0.0, -1e-17, -3e-12, 1.0, .5]),
                          "allzero": lambda: 0.0}[style]()
            if kind == "InverseResultFixedZeros":
                res[(res > 0) & (res < 1e-7)] = 0
            use = rng.random() < .3
            a = dict(base, kind=kind, sig=[[g] + rsci(res[g]) for g, _v in gs], wt=[[g, w] for g, w in users.items()] if use else [])
            up = cls(rf, mode, ind, weights=dict(users)) if use else cls(reachability_form=rf, mode=mode, indicator_to_group=ind)
            keep = res.copy()
            log.call("weights", a, lambda: up.update(res), W)
            log.call("cons", a, lambda: up.constraints(res), lambda o: {"c": clist(o)})
            if not np.array_equal(keep, res):
                log.note("driver", {"what": "updater changed the result vector"}, {"z": 0})


def loop(rng, log, sc, mode, thr, labels, fixing=False):
    import pulp
    from switss import problem as p
    iters = rng.choice([1, 2, 3, 4, 6, 8])
    ini = rng.choice([p.AllOnesInitializer, p.AllOnesInitializer, p.InverseReachabilityInitializer, p.InverseFrequencyInitializer, p.InverseCombinedInitializer])
    upd = rng.choice([p.InverseResultUpdater, p.InverseResultFixedZerosUpdater])
    if fixing:
        iters, upd = max(2, iters), p.InverseResultFixedZerosUpdater
    elif rng.random() < .08 and not sc.reward:
        thr = 100 if top(sc, mode) < 99 else thr
    rec = {"on": False, "prod": [], "rounds": []}
    own = rng.random() < .25

    class Ini(ini):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self._ind = k.get("indicator_to_group")

        def initialize(self):
            o = super().initialize()
            rec["gs"] = [int(g) for g in self.groups]
            rec["prod"].append({"obj": wlist(o), "cons": [], "given": []})
            rec["on"] = True
            return o

    class Upd(upd):
        def update(self, last):
            rec["given"] = [[g] + rsci(last[g]) for g in rec["gs"]]
            o = super().update(last)
            rec["prod"].append({"obj": wlist(o), "cons": [], "given": rec["given"]})
            return o

        def constraints(self, last):
            c = list(super().constraints(last))
            if own and rec["gs"]:
                # an updater of the user adds (loose) constraints of its own in every round
                c.append(([(rec["gs"][len(rec["prod"]) % len(rec["gs"])], 1)], "<=", 10 ** 6 + len(rec["prod"])))
            rec["prod"][-1]["cons"] = clist(c)
            return c

    num = re.compile(r"(\d+)$")
    vidx = lambda v: int(num.search(v.name).group(1))
    SENSE = {pulp.LpConstraintLE: "<=", pulp.LpConstraintEQ: "=", pulp.LpConstraintGE: ">="}

    def canon(c):
        return (tuple(sorted((vidx(v), float(k)) for v, k in c.items() if k != 0)), SENSE[c.sense], float(-c.constant))

    old = pulp.LpProblem.solve

    def solve(self, *a, **k):
        if not rec["on"]:
            return old(self, *a, **k)
        cons = [canon(c) for c in self.constraints.values()]
        obj = [[vidx(v)] + sci(c) for v, c in (self.objective or {}).items() if c != 0]
        if "base" not in rec:
            rec["base"] = list(cons)
        rest, miss = list(cons), 0
        for c in rec["base"]:
            if c in rest:
                rest.remove(c)
            else:
                miss += 1
        extra = [{"t": [[v] + sci(k) for v, k in c[0]], "sense": c[1], "rhs": lib.as_int(c[2])} for c in rest]
        r = {"obj": obj, "miss": miss, "extra": extra, "st": "?", "sig": []}
        rec["rounds"].append(r)
        try:
            return old(self, *a, **k)
        finally:
            val = {vidx(v): v.value() for v in self.variables()}
            r["sig"] = [[g] + rsci(val.get(g) or 0.0) for g in rec["gs"]]

    def go():
        pulp.LpProblem.solve = solve
        try:
            q = p.QSHeur(iterations=iters, initializertype=Ini, updatertype=Upd)
            out = []
            for x in q.solveiter(sc.rf, thr / 100, mode, labels=labels):
                out.append(x)
            return out
        finally:
            pulp.LpProblem.solve = old
            rec["on"] = False

    def proj(out):
        for x, r in zip(out, rec["rounds"]):
            r["st"] = x.status
            if x.status != "success":
                r["sig"] = []
        if not rec["rounds"] and len(out) == 1 and out[0].status == "infeasible":
            # found out before the first round
            return {"rounds": [{"obj": [], "miss": 0, "extra": [], "st": "infeasible", "sig": []}], "prod": [{"obj": [], "cons": [], "given": []}], "vals": [0]}
        return {"rounds": rec["rounds"], "prod": rec["prod"], "vals": [int(x.value) if x.status == "success" else 0 for x in out]}
    log.call("loop", {"h": sc.h, "mode": mode, "thr": thr, "iters": iters, "init": ini.__name__, "updater": upd.__name__, "labels": list(labels or [])}, go, proj)
