"""C12: reported expected rewards are the true ones."""
import random
import gen, lib, work, values
from drivers import rfq
from drivers.c13 import terminating, ready


def cases(seed, tier):
    rng = random.Random(seed * 911 + 12)
    for i in range(1600 if tier == "thorough" else 210):
        yield (rng.choice(["red", "red", "sys"]), rng.randrange(2 ** 31))
    for i in range(400 if tier == "thorough" else 60):
        yield ("wide", rng.randrange(2 ** 31))
    for i in range(150 if tier == "thorough" else 20):
        yield ("fan", rng.randrange(2 ** 31))
    yield from rfq.cases(rng, tier, 120, "renum:", term=True)


def run(case, log):
    rng = random.Random(case[1])
    if case[0] == "sys" or case[0].startswith("renum:"):
        am = ready(rng) if case[0] == "sys" else rfq.enumerated_rew(rng, int(case[0][6:]))
        m = work.new(log, am, "m")
        rf = m is not None and work.rsystem(log, m, am, il="init")
    else:
        am = rfq.wide(rng, ec=False, rewards=True) if case[0] == "wide" else rfq.fan(rng) if case[0] == "fan" else terminating(rng, rng.choice([2, 3, 4, 5, 6, 7, 8]), D=rng.choice([2, 3, 4, 5, 10]))
        if am is None:
            return
        m = work.new(log, am, "m")
        res = m is not None and work.rreduce(log, m, am)
        rf = res and res[0]
    if not rf:
        return
    D = am["D"]
    sm = lib.proj_model(rf.system, D)
    if lib.bad(sm):
        return
    try:
        hs = {k: values.rfhint(log, sm, "rrf", k, k) for k in ("rewmin", "rewmax")}
    except ZeroDivisionError:
        return      # not terminating: the gate is at fault (C13)
    todo = []
    if hs["rewmin"]:
        todo += [("value", "rewmin", "rew_min"), ("value", "rewmin", "max_z_state"), ("step",)]
    if hs["rewmax"]:
        todo += [("value", "rewmax", "rew_max"), ("flow",)]
    todo *= rng.choice([1, 2])
    rng.shuffle(todo)
    for t in todo:
        s = rng.choice(["cbc", "cbc", "glpk"])
        if t[0] == "value":
            values.value(log, rf, "rrf", t[1], hs[t[1]], t[1], t[2], s)
        elif t[0] == "step":
            values.step(log, rf, "rrf", hs["rewmin"], "rewmin", s)
        else:
            values.flow(log, rf, sm, "rrf", "rewmax", s)
    work.rrfsnap(log, rf, D, "rrf")
