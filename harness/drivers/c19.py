"""C19: label-based minimisation counts the fewest labels of any witness."""
import itertools, random
import gen, lib, work, minim
from drivers.c17 import pick_thr, rfq_ec, top, wide_thr
from drivers.c18 import heuristic
from drivers import rfq
from drivers.c13 import terminating, ready
from drivers.c10 import wellformed


def cases(seed, tier):
    rng = random.Random(seed * 1039 + 19)
    for i in range(1800 if tier == "thorough" else 260):
        yield (rng.choice(["red", "ecfree", "direct", "direct", "rew", "sys"]), rng.randrange(2 ** 31))
    for i in range(500 if tier == "thorough" else 80):
        yield ("big", rng.randrange(2 ** 31))
    for i in range(200 if tier == "thorough" else 30):
        yield (rng.choice(["wide", "rwide"]), rng.randrange(2 ** 31))


NAMES = ["g0", "g1", "g2", "g3", "everything", "nothing"]


def relabel(rng, am, goalstates=(), most=5):
    """Group labels: partitions, overlaps, labels that also mark goal, fail or nothing."""
    n = am["n"]
    how = rng.choice(["partition", "overlap", "partial"])
    k = rng.randint(1, most) if most < 6 else most
    sets = [set() for _ in range(k)]
    for s in range(n):
        if how == "partition":
            sets[rng.randrange(k)].add(s)
        elif how == "overlap":
            for x in sets:
                if rng.random() < .4:
                    x.add(s)
        elif rng.random() < .6:
            sets[rng.randrange(k)].add(s)
    for i, x in enumerate(sets):
        gen.setlab(am, "g%d" % i, x)
    gen.setlab(am, "everything", range(n))
    if rng.random() < .5:
        gen.setlab(am, "nothing", [])
    return ["g%d" % i for i in range(k)]


def grouped(rng, log, rf, h, groups):
    """The groups of the programs for various sets of labels."""
    from switss.problem import construct_MILP
    for _ in range(4):
        labels = None
        if rng.random() < .8:
            pool = groups + ["everything", "nothing", "rf_target", "unknown", "init"]
            labels = rng.sample(pool, rng.randint(1, min(5, len(pool))))
        mode, relaxed = rng.choice(["min", "max"]), rng.random() < .6
        if mode == "max" and not relaxed and not rf.is_ec_free:
            continue
        log.call("groups", {"h": h, "mode": mode, "labels": labels or [], "bylabel": labels is not None, "relaxed": relaxed},
                 lambda: construct_MILP(rf, 0, mode, labels=labels, relaxed=relaxed)[1],
                 lambda o: {"groups": [sorted(lib.as_int(x) for x in g) for _, g in o.items()]})


def big(rng, log):
    am = rfq.rand_reducible(rng, n=rng.choice([9, 12, 16, 24]), D=rng.choice([2, 3, 10]), labels=False)
    groups = relabel(rng, am)
    m = work.new(log, am, "m")
    res = m is not None and work.reduce(log, m, am)
    if res:
        grouped(rng, log, res[0], "rf", groups)


def wide(rng, log, kind):
    """Many states and labels."""
    from switss.problem import MILPExact
    am = rfq.wide(rng, n=rng.choice([10, 14, 18, 24]), ec=kind == "wide" and rng.random() < .4, rewards=kind == "rwide")
    groups = relabel(rng, am, most=rng.choice([6, 8, 11, 14]))
    m = work.new(log, am, "m")
    res = m is not None and (work.reduce if kind == "wide" else work.rreduce)(log, m, am)
    if not res:
        return
    h = "rf" if kind == "wide" else "rrf"
    grouped(rng, log, res[0], h, groups)
    sc = minim.Scene(log, res[0], h, am["D"])
    if not sc.ok:
        return
    for mode in rng.sample(["min", "max"], 2):
        ec = mode == "max" and not sc.reward and rfq_ec(sc)
        for _ in range(2):
            thr = wide_thr(rng, sc, mode)
            if thr is None:
                continue
            labels = rng.sample(groups, rng.randint(len(groups) // 2, len(groups)))
            if not ec:
                res = minim.minimise(sc, MILPExact(), mode, thr, labels=labels, exact=True)
                if res:
                    minim.judge(sc, res, mode)
                    minim.judge_branching(sc, res, mode, thr, labels=labels)
            method, iters = heuristic(rng)
            res = minim.minimise(sc, method, mode, thr, labels=labels, iters=iters)
            if res:
                minim.judge(sc, res, mode)


def form(rng, log, kind):
    n = rng.choice([2, 3, 4, 5, 6, 7])
    D = rng.choice([2, 3, 4, 5])
    if kind.startswith("enum:"):
        am = rfq.enumerated(int(kind[5:]))
        groups = relabel(rng, am)
        m = work.new(log, am, "m")
        rf = m is not None and work.rfgate(log, m, am, "init", "rf_target", "rf_fail")
        sc = rf and minim.Scene(log, rf, "rf", am["D"])
        return (sc, groups) if sc and sc.ok else None
    if kind in ("wide", "rwide", "xwide"):
        am = rfq.wide(rng, n=rng.choice([8, 12, 16] if kind != "xwide" else [20, 30, 40]), ec=kind == "wide" and rng.random() < .4, rewards=kind == "rwide")
        groups = relabel(rng, am)
        m = work.new(log, am, "m")
        res = m is not None and (work.rreduce if kind == "rwide" else work.reduce)(log, m, am)
        sc = res and minim.Scene(log, res[0], "rrf" if kind == "rwide" else "rf", am["D"])
        return (sc, groups) if sc and sc.ok else None
    if kind in ("direct", "sys"):
        am = None
        while am is None or am["D"] > 6:
            am = wellformed(rng, rng.choice([3, 4, 5, 6, 7])) if kind == "direct" else ready(rng)
    elif kind == "rew":
        am = terminating(rng, n, D=D)
        if am is None:
            return None
    else:
        am = (rfq.ec_free if kind == "ecfree" else rfq.rand_reducible)(rng, n=n, D=D)
    if am["D"] > 6:
        return None
    groups = relabel(rng, am)
    m = work.new(log, am, "m")
    if m is None:
        return None
    if kind == "direct":
        rf, h = work.rfgate(log, m, am, "init", "rf_target", "rf_fail"), "rf"
    elif kind == "sys":
        rf, h = work.rsystem(log, m, am), "rrf"
    else:
        res = work.rreduce(log, m, am) if kind == "rew" else work.reduce(log, m, am)
        rf, h = res and res[0], "rrf" if kind == "rew" else "rf"
    if not rf:
        return None
    sc = minim.Scene(log, rf, h, am["D"])
    return (sc, groups) if sc.ok else None


def run(case, log):
    from switss.problem import MILPExact
    rng = random.Random(case[1])
    if case[0] in ("wide", "rwide"):
        return wide(rng, log, case[0])
    if case[0] == "big":
        return big(rng, log)
    f = form(rng, log, case[0])
    if f is not None and rng.random() < .3:
        grouped(rng, log, f[0].rf, f[0].h, f[1])
    if f is None or f[0].n > 8:
        return
    sc, groups = f
    for mode in rng.sample(["min", "max"], 2):
        ec = mode == "max" and not sc.reward and rfq_ec(sc)
        try:
            if sc.value(mode, sc.all())[1] is None:
                continue
        except ZeroDivisionError:
            return
        for _ in range(3):
            pool = groups + (["everything", "nothing", "rf_target", "rf_fail", "unknown", "init", "target"] if rng.random() < .4 else [])
            labels = rng.sample(pool, rng.randint(1, len(pool)) if len(pool) <= 6 else rng.randint(1, 6))
            vals = set()
            carried = [l for l in labels if any(r["l"] == l and any(s < sc.n for s in r["s"]) for r in sc.am["lab"])]
            fits = True
            for k in range(len(carried) + 1):
                for live in minim.allowed_sets(sc, labels, k):
                    v, s = sc.value(mode, live)
                    fits = fits and s is not None
                    vals.add(float(v[sc.init]) * 100)
            if not fits:
                continue
            hi = max(vals)
            thr = pick_thr(rng, sorted(vals), hi + 3 if rng.random() < .1 else hi)
            if thr is None or (not sc.reward and thr > 100):
                continue
            if not ec:
                res = minim.minimise(sc, MILPExact(), mode, thr, labels=labels, exact=True)
                if res:
                    minim.judge(sc, res, mode)
                    minim.judge_minimal(sc, res, mode, labels=labels)
            if rng.random() < .6:
                method, iters = heuristic(rng)
                res = minim.minimise(sc, method, mode, thr, labels=labels, iters=iters)
                if res:
                    minim.judge(sc, res, mode)
    snap = work.rrfsnap if sc.reward else work.rfsnap
    snap(log, sc.rf, sc.D, sc.h)
