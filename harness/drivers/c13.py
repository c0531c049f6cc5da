"""C13: reward forms are built exactly from almost surely terminating systems."""
import copy, random
import gen, lib, work
from drivers import rfq
from drivers.c10 import wellformed


def cases(seed, tier):
    rng = random.Random(seed * 607 + 13)
    for i in range(2500 if tier == "thorough" else 420):
        yield (rng.choice(["red", "red", "red", "sys", "sys"]), rng.randrange(2 ** 31))
    for i in range(100 if tier == "thorough" else 24):
        yield (rng.choice(["lred", "lsys"]), rng.randrange(2 ** 31))


def terminating(rng, n, **kw):
    """A model from which the target is reached almost surely under every scheduler."""
    for _ in range(400):
        am = rfq.rand_reducible(rng, n=n, rewards=True, **kw)
        if rfq.has_proper_ec(am):
            continue
        K, init, T = rfq.kept(am)
        if gen.reach(am, init, blocked=T) == K:
            return am
    return None


def spoil(rng, am):
    am = copy.deepcopy(am)
    how = rng.choice(["norew", "ec", "fail", "none"])
    if how == "norew":
        am["rew"] = []
    elif how == "ec" and am["kind"] == "mdp":
        s = rng.randrange(am["n"])
        am["rows"].append({"s": s, "a": 9, "t": [[s, am["D"]]]})
        am["rew"].append(4)
    elif how == "fail":
        am["n"] += 1
        x = am["n"] - 1
        am["rows"].append({"s": x, "a": 0, "t": [[x, am["D"]]]})
        am["rew"].append(0)
        r = rng.choice(am["rows"][:-1])
        r["t"][0][1] -= 1
        r["t"].append([x, 1])
        r["t"] = [t for t in r["t"] if t[1] > 0]
    return am


def large(rng):
    """A big terminating model."""
    am = rfq.wide(rng, rng.choice([40, 90, 150, 280]), ec=False, rewards=True)
    if rng.random() < .3:
        x = rng.randrange(len(am["rew"]))
        am["rew"][x] = rng.choice([4000, 10 ** 5])
    return am


def ready(rng, eps=False, am=None):
    """A system in the form fromsystem expects (goal last)."""
    while am is None:
        am = wellformed(rng, rng.choice([3, 4, 5, 6, 8]), eps)
    if am:
        f = am["n"] - 1
        g = f - 1
        for r in am["rows"][:-1]:
            acc = {}
            for d, k in r["t"]:
                d = g if d == f else d
                acc[d] = acc.get(d, 0) + k
            r["t"] = sorted([d, k] for d, k in acc.items())
        am["rows"].pop()
        am["n"] = f
        am["lab"] = [{"l": x["l"], "s": [s for s in x["s"] if s != f]} for x in am["lab"] if x["l"] != "rf_fail"]
        for x in am["lab"]:
            if x["l"] == "rf_target":
                x["l"] = "rrf_target"
        used = {(r["s"], r["a"]) for r in am["rows"]}
        am["alab"] = [{"l": x["l"], "sa": [p for p in x["sa"] if tuple(p) in used]} for x in am["alab"]]
        am["rew"] = [rng.choice([0, 4, 2, 8, 12]) for _ in am["rows"]]
        am["rewform"] = rng.choice(["array", "list"])
    return am


def break_sys(rng, am):
    am = copy.deepcopy(am)
    n, D, rows = am["n"], am["D"], am["rows"]
    g = n - 1
    lab = {r["l"]: r for r in am["lab"]}
    how = rng.choice(["none", "none", "norew", "ec", "goal-leaves", "two-goal", "no-goal", "two-init", "no-init", "goal-early", "goal-row-early", "unreachable", "two-actions", "goal-reward", "trap", "trap2", "goal-moves"])
    if how == "norew":
        am["rew"] = []
    elif how == "ec" and am["kind"] == "mdp" and n > 1:
        s = rng.randrange(n - 1)
        rows.insert(0, {"s": s, "a": 9, "t": [[s, D]]})
        am["rew"].insert(0, 4)
    elif how == "goal-leaves":
        rows[-1]["t"] = sorted([[g, D - 1], [0, 1]])
    elif how == "goal-moves":
        rows[-1]["t"] = [[0, D]]
    elif how in ("trap", "trap2") and n > 1:
        # states without a way to goal
        k = 1 if how == "trap" else 2
        x = rng.randrange(len(rows) - 1)
        if isinstance(D, gen.Eps) and any(c == 1 for d, c in rows[x]["t"]):
            return am
        for j in range(k):
            rows.insert(x + 1, {"s": n + j, "a": 0, "t": [[n + (j + 1) % k, D]]})
            am["rew"].insert(x + 1, rng.choice([0, 4]))
        t = rng.choice(rows[x]["t"])
        rows[x]["t"] = sorted([[d, c] if d != t[0] else [d, c - 1] for d, c in rows[x]["t"]] + [[n, 1]])
        rows[x]["t"] = [y for y in rows[x]["t"] if y[1] > 0]
        am["n"] = n + k
        from drivers.c10 import swap_states
        swap_states(am, n + k - 1, g)
    elif how == "two-goal":
        lab["rrf_target"]["s"] = sorted({0, g})
    elif how == "no-goal":
        lab["rrf_target"]["s"] = []
    elif how == "two-init":
        lab["init"]["s"] = sorted({0, n - 2})
    elif how == "no-init":
        lab["init"]["s"] = []
    elif how == "goal-early":
        from drivers.c10 import swap_states
        swap_states(am, g, 0)
    elif how == "goal-row-early":
        rows.insert(0, rows.pop())
        am["rew"].insert(0, am["rew"].pop())
    elif how == "unreachable" and am["kind"] == "mdp":
        rows.insert(0, {"s": n, "a": 0, "t": [[g, D]]})
        am["rew"].insert(0, 4)
        am["n"] = n + 1
        from drivers.c10 import swap_states
        swap_states(am, n, g)
    elif how == "two-actions" and am["kind"] == "mdp":
        rows.insert(0, {"s": g, "a": 5, "t": [[g, D]]})
        am["rew"].insert(0, 0)
    elif how == "goal-reward":
        am["rew"][-1] = 8
    return am


def noise(rng, am):
    if rng.random() < .4:
        am["noise"] = [(x, rng.choice([-1e-12, 1e-12, 1e-11])) for x, r in enumerate(am["rows"]) if len(r["t"]) > 1]


def run(case, log):
    rng = random.Random(case[1])
    if case[0] in ("red", "lred"):
        if case[0] == "lred":
            am = large(rng)
            if rng.random() < .5:
                am = spoil(rng, am)
        elif rng.random() < .65:
            am = terminating(rng, rng.choice([2, 3, 4, 5, 6, 8]), D=rng.choice([None, 10, 3, 7]))
            if am is None:
                return
            if rng.random() < .4:
                am = spoil(rng, am)
        else:
            am = rfq.rand_reducible(rng, rewards=rng.random() < .8)
        noise(rng, am)
        m = work.new(log, am, "m")
        if m is None:
            return
        tl = rng.choice([None, None, "G", "goal!"])
        res = work.rreduce(log, m, am, tl=tl)
        log.call("rsnap", {"h": "m"}, lambda: m, lambda o: lib.proj_model(o, am["D"]))
        if res is not None:
            work.rrfsnap(log, res[0], am["D"], "rrf")
        return
    am = break_sys(rng, ready(rng, am=rfq.as_form(large(rng), rng)) if case[0] == "lsys" else ready(rng, True))
    noise(rng, am)
    m = work.new(log, am, "m")
    if m is None:
        return
    il, tl = rng.choice([("init", None), ("init", None), ("init", "rrf_target"), ("init", "init")])
    rf = work.rsystem(log, m, am, il=il, tl=tl)
    log.call("rsnap", {"h": "m"}, lambda: m, lambda o: lib.proj_model(o, am["D"]))
    if rf is not None:
        # again from the same system
        work.rsystem(log, m, am, to="rrf2", il=il, tl=tl)
        work.rrfsnap(log, rf, am["D"], "rrf")
