"""C18: every reported subsystem is a witness, infeasible means none exists."""
import random
import lib, work, minim
from drivers import rfq
from drivers.c17 import scene_of, pick_thr, rfq_ec, top


def cases(seed, tier):
    rng = random.Random(seed * 1033 + 18)
    for i in range(1800 if tier == "thorough" else 260):
        yield (rng.choice(["red", "red", "ecfree", "direct", "rew", "sys", "slow"]), rng.randrange(2 ** 31))
    for i in range(200 if tier == "thorough" else 24):
        yield (rng.choice(["wide", "rwide"]), rng.randrange(2 ** 31))
    for i in range(200 if tier == "thorough" else 24):
        yield (rng.choice(["wide-lazy", "rwide-lazy"]), rng.randrange(2 ** 31))
    yield from rfq.cases(rng, tier, 60)
    yield from rfq.cases(rng, tier, 20, "renum:", term=True)


def heuristic(rng, iters=None):
    from switss import problem as p
    iters = iters or rng.choice([1, 2, 3, 3, 5])
    kw = {"iterations": iters}
    ini = rng.choice([None, p.AllOnesInitializer, p.InverseReachabilityInitializer, p.InverseFrequencyInitializer, p.InverseCombinedInitializer])
    upd = rng.choice([None, p.InverseResultUpdater, p.InverseResultFixedZerosUpdater])
    if ini:
        kw["initializertype"] = ini
    if upd:
        kw["updatertype"] = upd
    return p.QSHeur(**kw), iters


def brief(xs):
    out = []
    for x in xs:
        ok = x.status == "success"
        none = x.subsystem is None and x.value is None and x.farkas_cert is None
        mask = x.subsystem.subsystem_mask if ok else []
        out.append({"st": str(x.status), "none": none, "k": lib.fix(x.value, 1000) if ok else 0, "mask": [i for i in range(len(mask)) if mask[i]]})
    return out


def agree(log, sc, make, mode, thr):
    log.call("solveagree", {"h": sc.h, "mode": mode, "thr": thr},
             lambda: (list(make().solveiter(sc.rf, thr / 100, mode)), make().solve(sc.rf, thr / 100, mode)),
             lambda o: {"res": brief(o[0]), "last": brief([o[1]])[0]})


def faulted(rng, log, sc, mode, thr, exact):
    """A minimisation whose at-th program is not solved to optimality."""
    import pulp
    from switss import problem as p
    h = sc.hint(mode, sc.all())
    if h is None:
        return
    status, (code, sol) = rng.choice([("notsolved", (0, 0)), ("undefined", (-3, 0)), ("notsolved", (1, 2)), ("notsolved", (0, 2)), ("infeasible", (-1, -1)), ("unbounded", (-2, -2))])
    iters = 1 if exact else rng.choice([1, 2, 3, 4])
    at = rng.randint(1, iters)
    old = pulp.LpProblem.solve
    state = {"k": 0}

    def solve(self, *a, **k):
        # programs for bounds and weights are linear without indicators; those of interest have a row per indicator
        if exact and not self.isMIP():
            return old(self, *a, **k)
        state["k"] += 1
        r = old(self, *a, **k)
        if state["k"] >= at:
            self.assignStatus(code, sol)
            if sol != 2:
                self.assignVarsVals({v.name: None for v in self.variables()})
        return self.status

    def go(f):
        state["k"] = 0
        pulp.LpProblem.solve = solve
        try:
            m = p.MILPExact() if exact else p.QSHeur(iterations=iters)
            return f(m)
        finally:
            pulp.LpProblem.solve = old
    log.call("faulted", {"h": sc.h, "mode": mode, "thr": thr, "hint": h, "exact": exact, "iters": iters, "at": at, "status": status},
             lambda: (go(lambda m: list(m.solveiter(sc.rf, thr / 100, mode))), go(lambda m: m.solve(sc.rf, thr / 100, mode))),
             lambda o: {"res": brief(o[0]), "last": brief([o[1]])[0]})


def run(case, log):
    from switss.problem import MILPExact
    rng = random.Random(case[1])
    sc = scene_of(rng, log, case[0], (2, 3, 4, 5, 6, 8, 10))
    if sc is None or sc.n > (36 if "wide" in case[0] else 12):
        return
    for mode in rng.sample(["min", "max"], 2):
        try:
            sc.value(mode, sc.all())
        except ZeroDivisionError:
            return
        if sc.value(mode, sc.all())[1] is None:
            continue
        t = top(sc, mode)
        lim = 100 if not sc.reward else t + 20
        for k in range(4):
            thr = pick_thr(rng, [t], t if rng.random() < .6 else lim)
            if thr is None:
                continue
            if rng.random() < .03:
                thr = -5 if sc.reward or rng.random() < .5 else 105
            exact = rng.random() < .2 and not (mode == "max" and not sc.reward and rfq_ec(sc)) and sc.n <= 8
            if exact:
                method, iters = MILPExact(), 1
            else:
                method, iters = heuristic(rng)
            res = minim.minimise(sc, method, mode, thr, exact=exact, iters=iters)
            if res:
                minim.judge(sc, res, mode)
            if thr < 0 or thr > 100 and not sc.reward:
                continue
            # reward forms and max-forms need a bound on the certificates
            if (sc.reward or mode == "max" and not rfq_ec(sc)) and rng.random() < .3:
                ex = rng.random() < .6 and sc.n <= 8
                me, it = (MILPExact(), 1) if ex else heuristic(rng, 1)
                if ex or me.initializertype.__name__ == "AllOnesInitializer":
                    minim.bound_stopped(sc, me, mode, thr, ex, it, rng.random() < .5)
            if rng.random() < .2 and not exact:
                seed = rng.random()
                agree(log, sc, lambda: heuristic(random.Random(seed), iters=iters)[0], mode, thr)
            # forms whose bounds are known without solving a program
            if rng.random() < .25 and thr + 1 < t and mode == "min" and not sc.reward:
                faulted(rng, log, sc, mode, thr, sc.n <= 8 and rng.random() < .4)
    snap = work.rrfsnap if sc.reward else work.rfsnap
    snap(log, sc.rf, sc.D, sc.h)
