"""C31: the Gurobi back end means what the other back ends mean."""
import os, random, sys
import lib, work, minim, linprog, gen
from linprog import num
from drivers import rfq, c22, c23
from drivers.c17 import scene_of, pick_thr, rfq_ec, subset_values, top
from drivers.c18 import brief
from drivers.c19 import relabel

# the stand-in for the Gurobi interface is found before switss looks for it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fakes"))


def cases(seed, tier):
    rng = random.Random(seed * 1301 + 31)
    big = tier == "thorough"
    for i in range(3000 if big else 260):
        yield ("build", rng.randrange(2 ** 31))
    for i in range(3000 if big else 260):
        yield ("coef", rng.randrange(2 ** 31))
    for i in range(1600 if big else 200):
        yield ("mini", rng.choice(["red", "red", "red", "ecfree", "direct", "direct", "rew", "sys"]), rng.randrange(2 ** 31))
    for i in range(600 if big else 80):
        yield ("label", "", rng.randrange(2 ** 31))


class GBuilder(c22.Builder):
    def __init__(self, log, h, sense):
        self.log, self.h, self.P, self.lp = log, h, linprog.Prog(sense), False
        from switss.solver import GurobiMILP
        self.solved = 0
        self.start(GurobiMILP, p="C31")

    def solve(self, rng, **kw):
        if super().solve(rng, ("gurobi",), **kw):
            self.solved = len(self.P.cons)


def build(rng, log):
    Bs = [GBuilder(log, h, rng.choice(["min", "max"])) for h in (["p"] if rng.random() < .85 else ["p", "q"])]
    if any(B.m is None for B in Bs):
        return
    maxv = rng.choice([1, 2, 3, 3, 4])
    for _ in range(rng.choice([5, 9, 14])):
        B = rng.choice(Bs)
        n, r = len(B.P.vars), rng.random()
        if n == 0 or r < .14 and n < maxv:
            vs = [c22.rvar(rng, False) for _ in range(rng.randint(1, max(1, maxv - n)))]
            if rng.random() < .3:
                for v in vs:
                    v.update(lo=[], hi=[])
                B.vars(vs, "domains")
            else:
                B.vars(vs)
        elif r < .55:
            B.con(c22.expr(rng, n), rng.choice(["<=", "<=", ">=", ">=", "="]), 4 * rng.randint(-6, 12) if rng.random() < .8 else rng.randint(-20, 30))
        elif r < .64:
            # the interface lets constraints go that it has processed
            on = [i for i in range(B.solved) if B.P.cons[i]["on"]]
            if on:
                B.rem(rng.choice(on))
        elif r < .8:
            B.obj(c22.expr(rng, n))
        elif r < .85:
            q, w = c22.expr(rng, n, 0), rng.randrange(3)
            if w == 0:
                B.con(q + [(n + rng.randrange(3), 4)], "<=", 4)
            elif w == 1:
                B.obj([(-1 - rng.randrange(2), 4)] + q)
            else:
                B.con(q, rng.choice(["<", "==", ">", ""]), 4)
        else:
            B.solve(rng)
    for B in Bs:
        for v in range(len(B.P.vars)):
            if rng.random() < .5:
                B.con([(v, 4)], "<=", 4 * rng.randint(0, 6))
                B.con([(v, 4)], ">=", 4 * rng.randint(-5, 0))
        B.solve(rng, **rng.choice([{}, {}, {"timeout": 30}]))


def heuristic(rng):
    from switss import problem as p
    iters = rng.choice([1, 2, 3])
    kw = {"iterations": iters, "solver": "gurobi"}
    if rng.random() < .5:
        kw["updatertype"] = rng.choice([p.InverseResultUpdater, p.InverseResultFixedZerosUpdater])
    return p.QSHeur(**kw), iters


def stopped(rng, log, sc, mode, thr, exact):
    """The program of interest is stopped early."""
    import gurobipy as gp
    from switss import problem as p
    h = sc.hint(mode, sc.all())
    if h is None:
        return
    st, code = rng.choice([("undefined", gp.GRB.TIME_LIMIT), ("undefined", gp.GRB.INF_OR_UNBD), ("notsolved", gp.GRB.LOADED)])

    def go(f):
        gp.Model.STOP = code
        try:
            return f(p.MILPExact(solver="gurobi") if exact else p.QSHeur(iterations=2, solver="gurobi"))
        finally:
            gp.Model.STOP = None
    log.call("faulted", {"h": sc.h, "mode": mode, "thr": thr, "hint": h, "exact": exact, "iters": 1 if exact else 2, "at": 1, "status": st},
             lambda: (go(lambda m: list(m.solveiter(sc.rf, thr / 100, mode))), go(lambda m: m.solve(sc.rf, thr / 100, mode))),
             lambda o: {"res": brief(o[0]), "last": brief([o[1]])[0]})


def mini(rng, log, kind):
    from switss.problem import MILPExact
    sc = scene_of(rng, log, kind, (2, 3, 4, 5, 6))
    if sc is None or sc.n > 7:
        return
    for mode in rng.sample(["min", "max"], 2):
        try:
            vals = subset_values(sc, mode)
        except ZeroDivisionError:
            return
        if vals is None:
            continue
        for _ in range(3):
            thr = pick_thr(rng, vals, max(vals) + 3 if rng.random() < .15 else max(vals))
            if thr is None or not sc.reward and thr > 100:
                continue
            if rng.random() < .7:
                res = minim.minimise(sc, MILPExact(solver="gurobi"), mode, thr, exact=True)
                if res:
                    minim.judge(sc, res, mode)
                    minim.judge_minimal(sc, res, mode)
            else:
                method, iters = heuristic(rng)
                res = minim.minimise(sc, method, mode, thr, iters=iters)
                if res:
                    minim.judge(sc, res, mode)
            if rng.random() < .15 and (sc.reward or mode == "max" and not rfq_ec(sc)):
                # without the bounds on the certificates the indicators still decide
                minim.bound_stopped(sc, MILPExact(solver="gurobi"), mode, thr, True, 1, rng.random() < .5)
            if rng.random() < .2 and thr + 1 < top(sc, mode):
                stopped(rng, log, sc, mode, thr, rng.random() < .5)


def label(rng, log):
    from switss.problem import MILPExact
    am = rfq.rand_reducible(rng, n=rng.choice([3, 4, 5, 6]), D=rng.choice([2, 3, 4]), labels=False)
    groups = relabel(rng, am, most=4)
    m = work.new(log, am, "m")
    res = m is not None and work.reduce(log, m, am)
    if not res or res[0].system.N > 9:
        return
    sc = minim.Scene(log, res[0], "rf", am["D"])
    if not sc.ok:
        return
    for mode in ("min", "max"):
        vals = subset_values(sc, mode)
        if vals is None:
            continue
        for _ in range(2):
            thr = pick_thr(rng, vals, max(vals))
            if thr is None:
                continue
            labels = rng.sample(groups, rng.randint(1, len(groups)))
            res = minim.minimise(sc, MILPExact(solver="gurobi"), mode, thr, labels=labels, exact=True)
            if res:
                minim.judge(sc, res, mode)
                minim.judge_minimal(sc, res, mode, labels=labels)


def run(case, log):
    import gurobipy
    from switss.solver import milp
    assert milp.gp is gurobipy and hasattr(gurobipy.Model, "STOP")
    rng = random.Random(case[-1])
    if case[0] == "build":
        build(rng, log)
    elif case[0] == "coef":
        c23.run((case[1],), log, gurobi=True)
    elif case[0] == "mini":
        mini(rng, log, case[1])
    else:
        label(rng, log)
