"""C14: Farkas systems are exact and do not depend on the queries before or after."""
import random
import numpy as np
import gen, lib, work
from drivers import rfq
from drivers.c13 import terminating, ready


def cases(seed, tier):
    rng = random.Random(seed * 1013 + 14)
    for i in range(2500 if tier == "thorough" else 350):
        yield (rng.choice(["rf", "rf", "rew", "sys"]), rng.randrange(2 ** 31))
    for i in range(100 if tier == "thorough" else 16):
        yield (rng.choice(["wide", "rwide"]), rng.randrange(2 ** 31))
    for i in range(60 if tier == "thorough" else 12):
        yield ("large", rng.randrange(2 ** 31))
    yield from rfq.cases(rng, tier, 60)
    yield from rfq.cases(rng, tier, 40, "renum:", term=True)


def get_form(rng, log, kind, n=None):
    """(form, handle, denominators) built through recorded operations."""
    n = n or rng.choice([2, 3, 4, 5, 6, 8, 10])
    if kind.startswith("enum:"):
        am = rfq.enumerated(int(kind[5:]))
        m = work.new(log, am, "m")
        rf = m is not None and work.rfgate(log, m, am, "init", "rf_target", "rf_fail")
        return (rf, "rf", am["D"]) if rf else None
    if kind.startswith("renum:"):
        am = rfq.enumerated_rew(rng, int(kind[6:]))
        m = work.new(log, am, "m")
        rf = m is not None and work.rsystem(log, m, am)
        return (rf, "rrf", am["D"]) if rf else None
    if kind in ("wide", "rwide", "wide-lazy", "rwide-lazy"):
        lazy, kind = kind.endswith("-lazy"), kind.split("-")[0]
        am = rfq.wide(rng, n=rng.choice([8, 12, 16]) if lazy else None, ec=kind == "wide" and (not lazy or rng.random() < .2), rewards=kind == "rwide")
        am = rfq.lazy(rng, am) if lazy else am
        m = work.new(log, am, "m")
        res = m is not None and (work.reduce if kind == "wide" else work.rreduce)(log, m, am)
        return (res[0], "rf" if kind == "wide" else "rrf", am["D"]) if res else None
    if kind == "large":
        am = rfq.big_form(rng)
        m = work.new(log, am, "m")
        rf = m is not None and work.rfgate(log, m, am, "init", "rf_target", "rf_fail")
        return (rf, "rf", am["D"]) if rf else None
    if kind == "rf":
        am = rfq.rand_reducible(rng, n=n, rewards=rng.random() < .3, D=rng.choice([None, 2, 5, 10]))
        m = work.new(log, am, "m")
        res = m is not None and work.reduce(log, m, am)
        return (res[0], "rf", am["D"]) if res else None
    if kind == "sys":
        am = ready(rng)
        m = work.new(log, am, "m")
        rf = m is not None and work.rsystem(log, m, am)
        return (rf, "rrf", am["D"]) if rf else None
    am = terminating(rng, n)
    if am is None:
        return None
    m = work.new(log, am, "m")
    res = m is not None and work.rreduce(log, m, am)
    return (res[0], "rrf", am["D"]) if res else None


def proj(D, td=100):
    def f(o):
        M, rhs = o
        return {"M": lib.sparse_rows(M, 4 * D), "shape": [int(x) for x in M.shape], "rhs": [lib.enc(x, 4 * td * D) for x in np.asarray(rhs, dtype=float).ravel()]}
    return f


def fark(log, rf, h, mode, thr, D, to, td=100):
    t = thr / td
    fn = {"min": lambda: rf.fark_constraints(t, "min"), "max": lambda: rf.fark_constraints(t, "max"),
          "z": lambda: rf.fark_z_constraints(t), "y": lambda: rf.fark_y_constraints(t)}.get(mode) or (lambda: rf.fark_constraints(t, mode))
    return log.call("fark", {"h": h, "mode": mode, "thr": thr, "td": td, "to": to}, fn, proj(D, td))


def run(case, log):
    rng = random.Random(case[1])
    f = get_form(rng, log, case[0])
    if not f:
        return
    rf, h, D = f
    top = 100 if h == "rf" else 700
    kept = []
    for k in range(rng.randint(3, 7)):
        mode = rng.choice(["min", "max", "min", "max", "z", "y"])
        thr = rng.choice([0, 1, 50, 100, rng.randint(0, top), rng.randint(0, top)])
        td, most = 100, max([1] + [abs(x) for x in np.asarray(rf.reward_vector, dtype=float).ravel()] if h == "rrf" else [1])
        if rng.random() < .5 and not isinstance(D, gen.Eps):
            # thresholds of more digits, tiny ones among them
            fine = [d for d in (1000, 10 ** 4, 10 ** 5, 10 ** 6, 10 ** 7) if 4 * d * D * max(top // 100, most) < 9 * 10 ** 8]
            if fine:
                td = rng.choice(fine)
                thr = rng.choice([1, 3, td - 1, rng.randint(0, td), rng.randint(0, td * top // 100)])
        o = fark(log, rf, h, mode, thr, D, "s%d" % k, td)
        if o is not None:
            kept.append(("s%d" % k, o, td))
        r = rng.random()
        if r < .15:
            fark(log, rf, h, rng.choice(["avg", "MIN", ""]), 50, D, "x")
        elif r < .45 and h == "rf":
            rng.choice([lambda: rf.pr_min(), lambda: rf.pr_max(), lambda: rf.max_y_state_action(), lambda: rf.max_z_state_action()])()
        elif r < .45:
            rng.choice([lambda: rf.rew_min(), lambda: rf.rew_max(), lambda: rf.max_y_state_action()])()
        for name, o, td in rng.sample(kept, min(len(kept), 2)):
            log.call("farkagain", {"of": name}, lambda: o, proj(D, td))
    for name, o, td in kept:
        log.call("farkagain", {"of": name}, lambda: o, proj(D, td))
    (work.rfsnap if h == "rf" else work.rrfsnap)(log, rf, D, h)
