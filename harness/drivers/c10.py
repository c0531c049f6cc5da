"""C10: the gate accepts exactly well-formed reachability forms."""
import copy, random
import gen, lib, work
from drivers import rfq


def cases(seed, tier):
    rng = random.Random(seed * 503 + 10)
    for i in range(2500 if tier == "thorough" else 420):
        yield ("rand", rng.randrange(2 ** 31))
    for i in range(60 if tier == "thorough" else 16):
        yield ("large", rng.randrange(2 ** 31))
    for i in range(30 if tier == "thorough" else 12):
        yield ("tiny", rng.randrange(2 ** 31), i % 2 + 2)


def wellformed(rng, n, eps=False):
    """A random system in reachability form, built directly."""
    for _ in range(500):
        kind = rng.choice(["mdp", "mdp", "dtmc"])
        am = gen.random_model(rng, n, kind=kind, maxact=rng.choice([1, 2, 3]), maxsucc=3, sure=rng.choice([0, .3, .6]), permute=True,
                              D=rng.choice([None, None, gen.eps_denominator(rng)]) if eps else None)
        goal, fail = n - 2, n - 1
        if rng.random() < .6:
            gen.leak(rng, am, {goal, fail} if rng.random() < .6 else {fail}, rng.choice([.3, .6, 1]))
        rows = [r for r in am["rows"] if r["s"] < n - 2]
        rows += [{"s": goal, "a": 0, "t": [[goal, am["D"]]]}, {"s": fail, "a": 0, "t": [[fail, am["D"]]]}]
        am["rows"] = rows
        used = {(r["s"], r["a"]) for r in rows}
        am["alab"] = [{"l": x["l"], "sa": [p for p in x["sa"] if tuple(p) in used]} for x in am["alab"]]
        init = rng.randrange(max(1, n - 2))
        if gen.reach(am, {init}) | {fail} == set(range(n)) and gen.reach(am, {goal}, back=True) == set(range(n)) - {fail}:
            gen.setlab(am, "init", [init])
            gen.setlab(am, "rf_target", [goal])
            gen.setlab(am, "rf_fail", [fail])
            rng.shuffle(am["lab"])
            return am
    return None


def swap_rows(am, i, j):
    am["rows"][i], am["rows"][j] = am["rows"][j], am["rows"][i]


def swap_states(am, a, b):
    f = {a: b, b: a}
    g = lambda s: f.get(s, s)
    for r in am["rows"]:
        r["s"] = g(r["s"])
        r["t"] = sorted([g(d), k] for d, k in r["t"])
    for r in am["lab"]:
        r["s"] = sorted(g(s) for s in r["s"])
    for r in am["alab"]:
        r["sa"] = sorted([g(s), a_] for s, a_ in r["sa"])


HOWS = ["none", "two-init", "no-init", "two-target", "no-target", "two-fail", "no-fail", "init-is-target-label", "goal-leaves", "fail-leaves", "fail-to-goal",
        "goal-two-actions", "fail-two-actions", "swap-gf", "swap-rows", "goal-early", "fail-early", "unreachable", "dead-state", "target-elsewhere", "fail-elsewhere", "swap-row-inner"]


def break_(rng, am, how):
    am = copy.deepcopy(am)
    n, D, rows = am["n"], am["D"], am["rows"]
    g, f = n - 2, n - 1
    lab = {r["l"]: r for r in am["lab"]}
    args = ["init", "rf_target", "rf_fail"]
    inner = list(range(n - 2))
    if how == "two-init":
        lab["init"]["s"] = sorted(set(lab["init"]["s"]) | {rng.randrange(n)} | {0})
    elif how == "no-init":
        lab["init"]["s"] = []
    elif how == "two-target":
        lab["rf_target"]["s"] = sorted({g, rng.randrange(n)} | ({0} if inner else {f}))
    elif how == "no-target":
        am["lab"] = [r for r in am["lab"] if r["l"] != "rf_target"]
    elif how == "two-fail":
        lab["rf_fail"]["s"] = sorted({f, rng.randrange(n), 0})
    elif how == "no-fail":
        lab["rf_fail"]["s"] = []
    elif how == "init-is-target-label":
        args = rng.choice([["init", "init", "rf_fail"], ["init", "rf_target", "rf_target"], ["init", "rf_target", "init"], ["rf_target", "rf_target", "rf_fail"]])
    elif how == "goal-leaves" and inner:
        rows[-2]["t"] = sorted([[g, D - 1], [rng.choice(inner), 1]]) if D > 1 else [[inner[0], D]]
    elif how == "fail-leaves" and inner:
        rows[-1]["t"] = sorted([[f, D - 1], [rng.choice(inner), 1]])
    elif how == "fail-to-goal":
        rows[-1]["t"] = [[g, D]]
    elif how == "goal-two-actions":
        rows.insert(rng.randrange(len(rows) - 1), {"s": g, "a": 3, "t": [[g, D]]})
    elif how == "fail-two-actions":
        rows.insert(rng.randrange(len(rows) - 1), {"s": f, "a": 3, "t": [[f, D]]})
    elif how == "swap-gf":
        swap_states(am, g, f)
        if rng.random() < .5:
            swap_rows(am, -1, -2)
    elif how == "swap-rows":
        swap_rows(am, -1, -2)
    elif how == "swap-row-inner" and inner:
        swap_rows(am, rng.choice([-1, -2]), rng.randrange(len(rows) - 2))
    elif how == "goal-early" and inner:
        swap_states(am, g, rng.choice(inner))
    elif how == "fail-early" and inner:
        swap_states(am, f, rng.choice(inner))
    elif how == "unreachable" and len(inner) > 1:
        # cut one inner state off (redirect its incoming transitions to goal)
        init = lab["init"]["s"][0]
        x = rng.choice([s for s in inner if s != init])
        for r in rows:
            if r["s"] == x:
                continue
            acc = {}
            for d, k in r["t"]:
                d = g if d == x else d
                acc[d] = acc.get(d, 0) + k
            r["t"] = sorted([d, k] for d, k in acc.items())
    elif how == "dead-state" and inner:
        x = rng.choice(inner)
        for r in rows:
            if r["s"] == x:
                r["t"] = [[rng.choice([x, f]), D]]
    elif how == "target-elsewhere" and inner:
        lab["rf_target"]["s"] = [rng.choice(inner)]
    elif how == "fail-elsewhere" and inner:
        lab["rf_fail"]["s"] = [rng.choice(inner)]
    if am["kind"] == "dtmc" and any(r["a"] != 0 for r in rows):
        return None, args
    return am, args


def run(case, log):
    rng = random.Random(case[1])
    n = case[2] if case[0] == "tiny" else rng.choice([3, 3, 4, 4, 5, 6, 8, 11])
    if case[0] == "large":
        base = rfq.big_form(rng)
    elif n == 2:
        base = {"n": 2, "D": 2, "rows": [{"s": 0, "a": 0, "t": [[0, 2]]}, {"s": 1, "a": 0, "t": [[1, 2]]}], "lab": [], "alab": [], "rew": [], "kind": rng.choice(["mdp", "dtmc"])}
        gen.setlab(base, "init", [0])
        gen.setlab(base, "rf_target", [0])
        gen.setlab(base, "rf_fail", [1])
    else:
        base = wellformed(rng, n, True)
    if base is None:
        return
    for j, how in enumerate(["none"] + (rng.sample(HOWS[1:], 8 if case[0] == "rand" else 4) if case[0] != "tiny" else HOWS[1:] + ["init-is-target-label"] * 5)):
        am, args = break_(rng, base, how)
        if am is None:
            continue
        h = "m%d" % j
        m = work.new(log, am, h)
        if m is None:
            continue
        rf = work.rfgate(log, m, am, *args, h=h, to="rf" + h, defaults=(args == ["init", "rf_target", "rf_fail"] and rng.random() < .5))
        if rf is not None and how == "none":
            work.rfsnap(log, rf, am["D"], "rf" + h)
            work.snap(log, m, am["D"], h)
