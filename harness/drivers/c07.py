"""C07: saving and loading a model preserves it."""
import random
import numpy as np
import gen, lib, work
from drivers import rfq


def cases(seed, tier):
    rng = random.Random(seed * 307 + 7)
    for i in range(2500 if tier == "thorough" else 420):
        yield (i, rng.randrange(2 ** 31))
    for i in range(100 if tier == "thorough" else 20):
        yield ("large", rng.randrange(2 ** 31))
    for i in range(12 if tier == "thorough" else 2):
        yield ("huge", rng.randrange(2 ** 31))
    for i in range(300 if tier == "thorough" else 80):
        yield ("stored", rng.randrange(2 ** 31))


def stored(rng, log):
    """Forms and subsystems of forms, stored and wrapped again."""
    from switss.problem import Subsystem
    D = rng.choice([None, 7, 10, 97, 1000, gen.eps_denominator(rng)])
    am = rfq.rand_reducible(rng, n=rng.choice([3, 4, 6, 9, 14]), D=D) if rng.random() < .8 else rfq.wide(rng)
    m = work.new(log, am, "m")
    res = m is not None and work.reduce(log, m, am, **rng.choice([{}, {"tl": "G", "fl": "F"}]))
    if not res:
        return
    rf = res[0]
    work.rfstore(log, rf, am, "rf")
    for k in range(3):
        mode = rng.choice(["min", "max"])
        size = (rf.system.N if mode == "min" else rf.system.C) - 2
        cert = np.array([float(rng.random() < rng.choice([.7, .9, 1])) for _ in range(size)])
        a = {"h": "rf", "mode": mode, "cert": work.signs(cert)}
        s = log.call("subsys", dict(a, to="s"), lambda: Subsystem(rf, cert, mode).subsys, lambda o: lib.proj_rf(o, am["D"], view=False))
        if s is not None:
            work.rfstore(log, s, am, "s")


def run(case, log):
    i, s = case
    rng = random.Random(s)
    if i == "stored":
        return stored(rng, log)
    kind = rng.choice(["mdp", "dtmc"])
    n = rng.choice([1, 2, 3, 4, 6, 9, 12, 25])
    D = rng.choice([None, 3, 7, 9, 11, 13, 17, 19, 97, 1000, 99991, 10 ** 8, gen.eps_denominator(rng), gen.eps_denominator(rng, True)])
    am = gen.random_model(rng, n, kind=kind, D=D, maxsucc=rng.choice([3, 4, 6, 12]), rewards=rng.random() < .2, sure=.15)
    if i == "large":
        am = gen.large(rng, kind=kind)
        n = am["n"]
    if i == "huge":
        # numbers of four digits for states, of three for labels
        am = gen.large(rng, rng.choice([1010, 1100]), kind=kind, labels=False)
        n = am["n"]
        for j in range(rng.choice([101, 105, 120])):
            gen.setlab(am, "h%d" % j, sorted({rng.randrange(n) for _ in range(rng.choice([1, 2, 5]))} | ({n - 1 - j % 7} if rng.random() < .3 else set())))
    # many and overlapping labels, labels of no state
    if rng.random() < .4:
        for j in range(rng.choice([5, 11, 14])):
            gen.setlab(am, "l%d" % j, rng.sample(range(n), rng.randint(0, n)))
    if rng.random() < .2:
        gen.setlab(am, "init", [rng.randrange(n)])
    if rng.random() < .15:
        am["lab"] = []
    if kind == "dtmc":
        am["explicit_index"] = rng.random() < .5
        if not am["explicit_index"]:
            am["rows"].sort(key=lambda r: r["s"])
    m = work.new(log, am, "m", rng.choice(["dok", "csr0", "csr", "list"]))
    if m is None:
        return
    for j in range(rng.choice([0, 0, 1, 2])):
        s, l = rng.randrange(n), rng.choice(gen.LABELS + ["later"])
        log.call("addlabel", {"h": "m", "s": s, "l": l}, lambda: m.add_label(s, l))
    m2 = work.save_load(log, m, am, "m", "m2")
    work.snap(log, m, am["D"], "m")
    if m2 is not None:
        # once more from the loaded model
        work.save_load(log, m2, am, "m2", "m3")
