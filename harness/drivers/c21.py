"""C21: subsystems are the reachability forms induced by their positive states."""
import itertools, random
import numpy as np
import gen, lib, work
from drivers import rfq
from drivers.c13 import terminating


def cases(seed, tier):
    rng = random.Random(seed * 709 + 21)
    for i in range(1500 if tier == "thorough" else 300):
        yield ("rf", rng.randrange(2 ** 31))
    for i in range(300 if tier == "thorough" else 60):
        yield ("rew", rng.randrange(2 ** 31))
    for i in range(60 if tier == "thorough" else 16):
        yield ("large", rng.randrange(2 ** 31))
    for i in range(100 if tier == "thorough" else 16):
        yield (rng.choice(["wide", "rwide", "fan", "rfan"]), rng.randrange(2 ** 31))
    yield from rfq.cases(rng, tier, 60)


def vec(rng, size, pos):
    """A certificate with the given positive entries."""
    return np.array([rng.choice([1.0, 0.25, 1e-9, 1e-300, 7.5]) if p else rng.choice([0.0, 0.0, 0.0, -0.0, -1e-9, -0.5]) for p in pos])


def run(case, log):
    from switss.problem import Subsystem
    rng = random.Random(case[1])
    if case[0].startswith("enum:"):
        am = rfq.enumerated(int(case[0][5:]))
        m = work.new(log, am, "m")
        res = m is not None and [work.rfgate(log, m, am, "init", "rf_target", "rf_fail")]
        if not res or res[0] is None:
            return
        case = ("rf",)
    elif case[0] in ("large", "wide", "fan"):
        am = {"large": rfq.large, "wide": rfq.wide, "fan": lambda rng: rfq.fan(rng, rewards=rng.random() < .5)}[case[0]](rng)
        m = work.new(log, am, "m")
        res = m is not None and work.reduce(log, m, am)
        case = ("rf",)
    elif case[0] in ("rwide", "rfan"):
        am = rfq.wide(rng, ec=False, rewards=True) if case[0] == "rwide" else rfq.fan(rng)
        m = work.new(log, am, "m")
        res = m is not None and work.rreduce(log, m, am)
    elif case[0] == "rf":
        am = rfq.rand_reducible(rng, n=rng.choice([3, 4, 5, 6, 7, 9]), rewards=rng.random() < .3, D=rng.choice([None, 10, 7, gen.eps_denominator(rng)]))
        if rng.random() < .25:
            gen.many_labels(rng, am)
        m = work.new(log, am, "m")
        res = m is not None and work.reduce(log, m, am, **rng.choice([{}, {"tl": "G", "fl": "F"}]))
    else:
        am = terminating(rng, rng.choice([3, 4, 5, 6]))
        if am is None:
            return
        m = work.new(log, am, "m")
        res = m is not None and work.rreduce(log, m, am)
    if not res:
        return
    rf, D = res[0], am["D"]
    h = "rf" if case[0] == "rf" else "rrf"
    C, N = rf.system.C - 2, rf.system.N - 2
    snap = work.rfsnap if case[0] == "rf" else work.rrfsnap
    for mode, size in (("min", N), ("max", C)):
        if 2 ** size <= 8:
            pats = list(itertools.product([0, 1], repeat=size))
        else:
            pats = [[rng.random() < p for _ in range(size)] for p in ((.3, .6, .8, .9, .95) if size < 40 else (.8, .95, .99))]
            pats += [[1] * size, [0] * size, [int(i == rf.initial) for i in range(size)]]
            # all but one
            for _ in range(3):
                z = rng.randrange(size)
                pats.append([int(i != z) for i in range(size)])
        for pat in pats:
            c = vec(rng, size, pat)
            a = {"h": h, "mode": mode, "cert": work.signs(c)}
            ss = log.call("mask", a, lambda: Subsystem(rf, c, mode), lambda o: {"len": len(o.subsystem_mask), "on": [i for i in range(len(o.subsystem_mask)) if o.subsystem_mask[i]]})
            if ss is None:
                continue
            s1 = log.call("subsys", dict(a, to="s1"), lambda: ss.subsys, lambda o: lib.proj_rf(o, D, view=False))
            if s1 is not None and rng.random() < .4:
                # repeatable, and a subsystem of the subsystem
                log.call("subsys", dict(a, to="s1"), lambda: ss.subsys, lambda o: lib.proj_rf(o, D, view=False))
                log.call("subsys", dict(a, to="s1"), lambda: Subsystem(rf, c, mode).subsys, lambda o: lib.proj_rf(o, D, view=False))
                n2 = s1.system.N - 2
                c2 = vec(rng, n2, [rng.random() < .7 for _ in range(n2)])
                a2 = {"h": "s1", "mode": "min", "cert": work.signs(c2), "to": "s2"}
                log.call("subsys", a2, lambda: Subsystem(s1, c2, "min").subsys, lambda o: lib.proj_rf(o, D, view=False))
            log.call("mask", a, lambda: ss, lambda o: {"len": len(o.subsystem_mask), "on": [i for i in range(len(o.subsystem_mask)) if o.subsystem_mask[i]]})
        for wrong in (size + 1, size - 1, size + 2):
            c = np.ones(max(0, wrong))
            log.call("mask", {"h": h, "mode": mode, "cert": work.signs(c)}, lambda: Subsystem(rf, c, mode), lambda o: {"len": len(o.subsystem_mask), "on": []})
    snap(log, rf, D, h)
    work.snap(log, m, D, "m")
