"""C08: reduction builds exactly the reachability form of the model."""
import random
import gen, lib, work
from drivers import rfq


def cases(seed, tier):
    rng = random.Random(seed * 401 + 8)
    for i in range(3000 if tier == "thorough" else 450):
        yield ("rand", rng.randrange(2 ** 31))
    for i in range(400 if tier == "thorough" else 60):
        yield ("bad", rng.randrange(2 ** 31))
    for i in range(60 if tier == "thorough" else 16):
        yield ("large", rng.randrange(2 ** 31))
    for i in range(60 if tier == "thorough" else 12):
        yield ("fan", rng.randrange(2 ** 31))
    sup = list(gen.all_supports(3, 2, 2))
    pick = sup if tier == "thorough" else rng.sample(sup, 260)
    for j in range(0, len(pick), 20):
        yield ("small", pick[j:j + 20], rng.randrange(2 ** 31))


def noise(rng, am):
    if rng.random() < .5 and not isinstance(am["D"], gen.Eps):
        am["noise"] = [(x, rng.choice([-1e-12, 1e-12, 1e-11])) for x, r in enumerate(am["rows"]) if len(r["t"]) > 1]
    return am


def run(case, log):
    if case[0] == "small":
        rng = random.Random(case[2])
        for j, sup in enumerate(case[1]):
            am = gen.from_supports(sup, D=4)
            init = rng.randrange(3)
            gen.setlab(am, "init", [init])
            gen.setlab(am, "target", rng.sample(range(3), rng.choice([1, 1, 2])))
            h = "m%d" % j
            m = work.new(log, am, h)
            if m is not None:
                work.reduce(log, m, am, h, "r" + h)
        return
    rng = random.Random(case[1])
    am = rfq.large(rng, rewards=rng.random() < .4) if case[0] == "large" else rfq.fan(rng, rewards=rng.random() < .7) if case[0] == "fan" else noise(rng, rfq.rand_reducible(rng, big=True, rewards=rng.random() < .4, D=rng.choice([None, 3, 7, 10, 12, gen.eps_denominator(rng)])))
    if case[0] not in ("large", "bad") and rng.random() < .2:
        gen.many_labels(rng, am)
    if case[0] == "bad":
        how = rng.choice(["noinit", "twoinit", "notarget", "clash-t", "clash-f", "unreachable", "missing"])
        n = am["n"]
        if how == "noinit":
            gen.setlab(am, "init", [])
        elif how == "twoinit":
            gen.setlab(am, "init", list(range(min(2, n))) if n > 1 else [])
        elif how == "notarget":
            gen.setlab(am, "target", [])
        elif how == "clash-t":
            gen.setlab(am, "rf_target", [rng.randrange(n)])
        elif how == "clash-f":
            gen.setlab(am, "rf_fail", [rng.randrange(n)])
        elif how == "missing":
            am["lab"] = [r for r in am["lab"] if r["l"] != "target"]
        elif how == "unreachable":
            # an isolated target
            am["rows"].append({"s": n, "a": 0, "t": [[n, am["D"]]]})
            if am["rew"]:
                am["rew"].append(4)
            am["n"] = n + 1
            am.pop("noise", None)
            gen.setlab(am, "target", [n])
        m = work.new(log, am, "m")
        if m is not None:
            work.reduce(log, m, am)
            work.snap(log, m, am["D"], "m")
        return
    names = rng.choice([{}, {}, {"tl": "GOAL"}, {"fl": "dead"}, {"tl": "g", "fl": "f"}])
    m = work.new(log, am, "m", rng.choice(["dok", "csr", "csr0", "array"]))
    if m is None:
        return
    res = work.reduce(log, m, am, **names)
    work.snap(log, m, am["D"], "m")
    if res is None:
        return
    rf = res[0]
    work.rfsnap(log, rf, am["D"], "rf")
    # another target label, and the reduction of a reduction
    others = [r["l"] for r in am["lab"] if r["s"] and r["l"] not in ("init",)]
    t2 = rng.choice(others)
    work.reduce(log, m, am, to="rf2", target=t2, **names)
    if rng.random() < .4:
        work.reduce(log, rf.system, am, h="rfsys", to="rf3", init="init", target=names.get("tl", "rf_target"), tl="t3", fl="f3") if sysnew(log, rf, am) else None


def sysnew(log, rf, am):
    """The system of a form as a model of its own."""
    p = lib.proj_model(rf.system, am["D"])
    p.pop("shape")
    if lib.bad(p):
        return False
    log.call("new", {"h": "rfsys", "m": p, "kind": am["kind"], "cont": "system"}, lambda: rf.system, lambda o: lib.proj_model(o, am["D"]))
    return True
