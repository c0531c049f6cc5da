"""C15: certificate checking accepts exactly the valid Farkas certificates."""
import random
from fractions import Fraction as F
from math import lcm
import numpy as np
import gen, lib, work, oracle
from drivers import rfq
from drivers.c10 import wellformed


def cases(seed, tier):
    rng = random.Random(seed * 1019 + 15)
    for i in range(2500 if tier == "thorough" else 330):
        yield (rng.choice(["red", "red", "ecfree", "direct"]), rng.randrange(2 ** 31))
    for i in range(200 if tier == "thorough" else 30):
        yield ("wide", rng.randrange(2 ** 31))
    yield from rfq.cases(rng, tier, 150)


def frequencies(am, init, pol):
    """Expected number of visits of every row under a deterministic scheduler."""
    n = am["n"] - 2
    inner = list(range(n))
    A = [[F(int(i == j)) for j in inner] for i in inner]
    for s in inner:
        for d, k in am["rows"][pol[s]]["t"]:
            if d < n:
                A[d][s] -= F(k, am["D"])
    x = oracle.solve(A, [F(int(s == init)) for s in inner])
    y = [F(0)] * (len(am["rows"]) - 2)
    for s in inner:
        y[pol[s]] += x[s]
    return y


def get_rf(rng, log, kind, Ds=(2, 3, 4, 5, 10), sizes=(2, 3, 4, 5, 6)):
    if kind.startswith("enum:"):
        am = rfq.enumerated(int(kind[5:]))
        m = work.new(log, am, "m")
        rf = m is not None and work.rfgate(log, m, am, "init", "rf_target", "rf_fail")
    elif kind == "direct":
        am = None
        while am is None or am["D"] > 20:
            am = wellformed(rng, rng.choice([3, 4, 5, 6]))
        m = work.new(log, am, "m")
        rf = m is not None and work.rfgate(log, m, am, "init", "rf_target", "rf_fail")
    else:
        f = {"ecfree": rfq.ec_free, "slow": rfq.slow, "wide": lambda rng, n, D: rfq.wide(rng)}.get(kind, rfq.rand_reducible)
        am = f(rng, n=rng.choice(sizes), D=rng.choice(Ds))
        m = work.new(log, am, "m")
        res = m is not None and work.reduce(log, m, am)
        rf = res and res[0]
    return (rf, am) if rf else None


def by_rows(am):
    out = {}
    for i, r in enumerate(am["rows"]):
        out.setdefault(r["s"], []).append(i)
    return out


def random_freq(rng, am, init):
    by = by_rows(am)
    for _ in range(3):
        try:
            return frequencies(am, init, {s: rng.choice(by[s]) for s in range(am["n"] - 2)})
        except ZeroDivisionError:
            pass
    return None


def run(case, log):
    from switss.certification import check_farkas_certificate
    rng = random.Random(case[1])
    f = get_rf(rng, log, case[0])
    if not f:
        return
    rf, am0 = f
    D = am0["D"]
    am = lib.proj_model(rf.system, D)
    if lib.bad(am):
        return
    n, C = am["n"] - 2, len(am["rows"]) - 2
    goal, live = [n], list(range(n))
    init = rf.initial
    prmin = oracle.pr(am, goal, live, "min")[:n]
    prmax = oracle.pr(am, goal, live, "max")[:n]
    cand = {"z": [prmin, prmax, [F(1)] * n, [F(0)] * n], "y": [[F(0)] * C]}
    for _ in range(4):
        y = random_freq(rng, am, init)
        if y is not None:
            cand["y"].append(y)
    combos = [(m, s) for m in ("min", "max") for s in ("<=", "<", ">=", ">")]
    for k in range(26):
        mode, sense = rng.choice(combos)
        form = "z" if (mode == "min") == (sense in (">=", ">")) else "y"
        base = rng.choice(cand[form])
        if form == "y" and rng.random() < .3 and len(cand["y"]) > 2:
            a, b = rng.sample(cand["y"], 2)
            base = [(p + q) / 2 for p, q in zip(a, b)]
        W = 1
        for x in base:
            W = lcm(W, x.denominator)
        W *= rng.choice([1, 2, 3, 4, 10])
        td = rng.choice([20, 100, 1000, 10 ** 5]) if rng.random() < .35 else 0
        if td:
            # perturbations of about the tolerance
            W *= -(-8 * td // W)
        if W * D > 5 * 10 ** 6 or max(base) * W * D > 3 * 10 ** 8 or max(base) > 1000 or (W * D > 10 ** 6 and not td):
            continue
        vec = [int(x * W) for x in base]
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            i = rng.randrange(len(vec))
            how = rng.choice(["up", "down", "neg", "zero", "rand", "half"])
            if td and rng.random() < .8:
                vec[i] += rng.choice([1, -1]) * int(W / td * rng.choice([.1, .3, .5, .7, .9, 1.1, 1.4, 2, 4]))
                continue
            vec[i] = {"up": vec[i] + 1, "down": vec[i] - 1, "neg": -max(1, vec[i]), "zero": 0,
                      "rand": rng.randint(0, W), "half": vec[i] // 2}[how]
        # the claimed value as threshold, and its neighbourhood
        if form == "z":
            c = F(vec[init])
        else:
            c = sum((F(dict(map(tuple, r["t"])).get(n, 0), D) * y for r, y in zip(am["rows"], vec)), F(0))
        up, down = int(np.ceil(float(c))), int(np.floor(float(c)))
        thr = rng.choice([up, down, up + 1, down - 1, rng.randint(0, W), int(prmin[init] * W), int(prmax[init] * W)])
        if td and rng.random() < .7:
            thr = int(float(c)) + rng.choice([1, -1]) * int(W / td * rng.choice([0, .1, .3, .5, .7, 1.4, 2, 4]))
        thr = max(0, min(W, thr))
        r = rng.random()
        if r < .03:
            thr = rng.choice([-1, W + 1])
        elif r < .06:
            vec = vec + [0] if rng.random() < .5 else vec[:-1]
            if not vec:
                continue
        tol = rng.choice([None, None, 1e-8, 1e-10] + ([1e-6] if W * D <= 10 ** 4 else []))
        if td:
            tol = 1 / td
        elif tol == 1e-6 and W * D * 100 > 10 ** 6:
            tol = None
        arr = np.array([x / W for x in vec])
        if W == 1 and rng.random() < .5:
            arr = np.array(vec)
        a = {"h": "rf", "mode": mode, "sense": sense, "thr": thr, "vec": vec, "w": W, "tl": td}
        kw = {} if tol is None else {"tol": tol}
        log.call("check", a, lambda: check_farkas_certificate(rf, mode, sense, thr / W, arr, **kw), lambda o: {"ok": bool(o)})
        if rng.random() < .15:
            rng.choice([lambda: rf.pr_min(), lambda: rf.pr_max(), lambda: rf.fark_constraints(.3, "max"), lambda: rf.fark_constraints(.9, "min")])()
            log.call("check", a, lambda: check_farkas_certificate(rf, mode, sense, thr / W, arr, **kw), lambda o: {"ok": bool(o)})
    work.rfsnap(log, rf, D, "rf")
