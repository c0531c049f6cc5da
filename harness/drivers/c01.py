"""C01: construction accepts exactly the probabilistic models and keeps them."""
import random, copy
import numpy as np
import gen, lib, work


def cases(seed, tier):
    rng = random.Random(seed * 101 + 1)
    n = 2500 if tier == "thorough" else 420
    for i in range(n):
        yield (i, rng.randrange(2 ** 31))
    for i in range(100 if tier == "thorough" else 24):
        yield ("large", rng.randrange(2 ** 31))


def mutate(rng, am, how):
    am = copy.deepcopy(am)
    D = am["D"]
    rows = am["rows"]
    r = rng.choice(rows)
    if how == "sum+":
        r["t"][rng.randrange(len(r["t"]))][1] += rng.choice([1, 1, 2])
    elif how == "sum-":
        t = r["t"][rng.randrange(len(r["t"]))]
        t[1] -= 1
    elif how == "empty":
        r["t"] = []
    elif how == "negative":
        # sums to one with an entry below zero (and, with two entries, one above one)
        a, b = rng.sample(range(am["n"]), 2)
        k = rng.choice([1, D, 2 * D])
        r["t"] = sorted([[a, -k], [b, D + k]])
    elif how == "negative3":
        a, b, c = rng.sample(range(am["n"]), 3)
        r["t"] = sorted([[a, -1], [b, D // 2 + 1], [c, D - D // 2]])
    elif how == "big":
        r["t"] = [[rng.randrange(am["n"]), 2 * D]]
    elif how == "reward":
        am["rew"] = [4] * len(rows)
        am["rew"][rng.randrange(len(rows))] = rng.choice([-1, -4, -400])
        am["rewform"] = rng.choice(["array", "list"])
    elif how == "action":
        r["a"] = rng.choice([1, 2, 7])
        am["explicit_index"] = True
    elif how == "small":
        # a deviation of 1e-7: far beyond nine decimals
        am["D"] = 10 ** 8
        for q in rows:
            for t in q["t"]:
                t[1] = t[1] * (10 ** 8 // D)
        for q in rows:
            q["t"][0][1] += 10 ** 8 - sum(t[1] for t in q["t"])
        r["t"][0][1] += rng.choice([-10, 10])
    elif how == "nonsquare":
        extra = copy.deepcopy(rows[0])
        extra["s"] = am["n"]
        rows.append(extra)
        if am["rew"]:
            am["rew"].append(4)
    elif how == "nonsquare-":
        rows.pop()
        if am["rew"]:
            am["rew"].pop()
    return am


def run(case, log):
    i, s = case
    rng = random.Random(s)
    kind = rng.choice(["mdp", "mdp", "dtmc"])
    am = gen.random_model(rng, rng.choice([1, 2, 3, 4, 5, 6, 9]), kind=kind, rewards=rng.random() < .4, sure=rng.choice([.1, .5]),
                          D=rng.choice([None, 3, 7, 10, 12, 1000]))
    if i == "large":
        am = gen.large(rng, rng.choice([20, 64, 130, 300]), kind)
        if rng.random() < .5:
            am["rew"] = [rng.choice([0, 4, 1, 4000, 10 ** 6]) for _ in am["rows"]]
        for x in range(rng.choice([0, 12])):
            gen.setlab(am, "L%d" % x, rng.sample(range(am["n"]), 3))
    am["rewform"] = rng.choice(["array", "list", "dict"])
    if kind == "dtmc":
        am["explicit_index"] = rng.random() < .6
        if not am["explicit_index"]:
            am["rows"].sort(key=lambda r: r["s"])
    # every container holds the same model
    for j, cont in enumerate(lib.CONTAINERS if i != "large" else rng.sample(lib.CONTAINERS, 2)):
        work.new(log, am, "m%d" % j, cont)
    # rounding noise is no deviation
    if any(len(r["t"]) > 1 for r in am["rows"]):
        nm = copy.deepcopy(am)
        nm["noise"] = [(x, rng.choice([-1e-12, 1e-12, 3e-11, -1e-10])) for x, r in enumerate(am["rows"]) if len(r["t"]) > 1]
        work.new(log, nm, "n", rng.choice(lib.CONTAINERS))
    hows = ["sum+", "sum-", "empty", "big", "reward", "small"]
    if am["n"] > 1:
        hows.append("negative")
    if am["n"] > 2:
        hows.append("negative3")
    if kind == "dtmc":
        hows += ["action", "nonsquare"] + (["nonsquare-"] if am["n"] > 1 else [])
    for j, how in enumerate(rng.sample(hows, min(len(hows), 5))):
        work.new(log, mutate(rng, am, how), "b%d" % j, rng.choice(["list", "array", "dok", "csr", "csc", "coo", "lil"]))
    m = work.new(log, am, "k", "dok")
    if m is not None:
        work.labviews(log, m, am, "k", extra=["no such label"])
        work.snap(log, m, am["D"], "k")
