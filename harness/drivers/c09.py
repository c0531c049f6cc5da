"""C09: reduction preserves extremal reachability probabilities."""
import random
import gen, lib, work, values
from drivers import rfq
from drivers.c08 import noise


def cases(seed, tier):
    rng = random.Random(seed * 811 + 9)
    for i in range(3000 if tier == "thorough" else 420):
        yield ("rand", rng.randrange(2 ** 31))
    for i in range(200 if tier == "thorough" else 40):
        yield ("wide", rng.randrange(2 ** 31))
    sup = list(gen.all_supports(3, 2, 2))
    pick = sup if tier == "thorough" else rng.sample(sup, 240)
    for j in range(0, len(pick), 12):
        yield ("small", pick[j:j + 12], rng.randrange(2 ** 31))


def one(log, am, target="target", s="", **kw):
    m = work.new(log, am, "m" + s)
    if m is None:
        return
    lab = {r["l"]: r["s"] for r in am["lab"]}
    T = lab[target]
    live = [x for x in range(am["n"]) if x not in T]
    res = work.reduce(log, m, am, h="m" + s, to="rf" + s, target=target, **kw)
    if res is None:
        return
    for kind in ("prmin", "prmax"):
        if values.hint(log, am, "m" + s, kind, T, live, kind + s) is None:
            continue
        log.note("preserve", {"hint": kind + s, "h": "rf" + s, "orig": "m" + s, "target": target, "init": "init"}, {"z": 0})
    return res


def run(case, log):
    if case[0] == "small":
        rng = random.Random(case[2])
        for j, sup in enumerate(case[1]):
            am = gen.from_supports(sup, D=rng.choice([4, 10]))
            gen.setlab(am, "init", [rng.randrange(3)])
            gen.setlab(am, "target", rng.sample(range(3), rng.choice([1, 1, 2])))
            one(log, am, s=str(j))
        return
    rng = random.Random(case[1])
    if case[0] == "wide":
        am = rfq.wide(rng)
        if rng.random() < .4:
            gen.setlab(am, "target", [s for r in am["lab"] if r["l"] == "target" for s in r["s"]] + rng.sample(range(am["n"]), 2))
        if set(rfq.kept(am)[1]) & rfq.kept(am)[0]:
            one(log, noise(rng, am))
        return
    am = noise(rng, rfq.rand_reducible(rng, n=rng.choice([3, 4, 5, 5, 6, 7, 8]), D=rng.choice([2, 3, 4, 5, 10])))
    one(log, am, **rng.choice([{}, {}, {"tl": "G", "fl": "F"}]))
