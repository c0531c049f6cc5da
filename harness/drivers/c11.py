"""C11: reported reachability probabilities are the true ones."""
import random
import gen, lib, work, values
from drivers import rfq
from drivers.c10 import wellformed


def cases(seed, tier):
    rng = random.Random(seed * 907 + 11)
    for i in range(1600 if tier == "thorough" else 190):
        yield (rng.choice(["red", "red", "ecfree", "direct"]), rng.randrange(2 ** 31))
    for i in range(800 if tier == "thorough" else 100):
        yield (("wide", "wide", "decay", "lazy")[i % 4], rng.randrange(2 ** 31))
    yield from rfq.cases(rng, tier, 120)


def queries(rng, log, rf, h, solver=None, reps=1):
    """All value queries on a form, in random order."""
    # the form as it presents itself
    am = lib.proj_model(rf.system, DOF[0])
    if lib.bad(am):
        return
    hs = {k: values.rfhint(log, am, h, k, k) for k in ("prmin", "prmax")}
    todo = []
    if hs["prmin"]:
        todo += [("value", "prmin", "pr_min"), ("value", "prmin", "max_z_state"), ("step",)]
    if hs["prmax"]:
        todo += [("value", "prmax", "pr_max"), ("flow",)]
    todo = todo * reps
    rng.shuffle(todo)
    for t in todo:
        s = solver or rng.choice(["cbc", "cbc", "glpk"])
        if t[0] == "value":
            values.value(log, rf, h, t[1], hs[t[1]], t[1], t[2], s)
        elif t[0] == "step":
            values.step(log, rf, h, hs["prmin"], "prmin", s)
        else:
            values.flow(log, rf, am, h, "prmax", s)


DOF = [1]


def run(case, log):
    rng = random.Random(case[1])
    if case[0] == "direct" or case[0].startswith("enum:"):
        am = rfq.enumerated(int(case[0][5:])) if case[0] != "direct" else None
        while am is None:
            am = wellformed(rng, rng.choice([3, 4, 5, 6, 8]))
        m = work.new(log, am, "m")
        rf = m is not None and work.rfgate(log, m, am, "init", "rf_target", "rf_fail")
        if not rf:
            return
    else:
        f = {"ecfree": rfq.ec_free, "wide": lambda rng, n, D: rfq.wide(rng), "decay": lambda rng, n, D: rfq.decay(rng),
             "lazy": lambda rng, n, D: rfq.lazy(rng, rfq.wide(rng, n=rng.choice([8, 12, 20]), ec=rng.random() < .3))}.get(case[0], rfq.rand_reducible)
        am = f(rng, n=rng.choice([2, 3, 4, 5, 6, 7, 8]), D=rng.choice([2, 3, 4, 5, 10]))
        if case[0] in ("wide", "decay", "lazy") and rng.random() < .5:
            # in any numbering, not the one reduction gives
            am = rfq.as_form(am, rng)
            m = work.new(log, am, "m")
            rf = m is not None and work.rfgate(log, m, am, "init", "rf_target", "rf_fail")
        else:
            m = work.new(log, am, "m")
            res = m is not None and work.reduce(log, m, am)
            rf = res and res[0]
        if not rf:
            return
    DOF[0] = am["D"]
    queries(rng, log, rf, "rf", reps=rng.choice([1, 1, 2]))
    work.rfsnap(log, rf, am["D"], "rf")
