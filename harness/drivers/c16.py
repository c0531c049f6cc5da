"""C16: certificates are generated exactly when the property holds."""
import itertools, random
from fractions import Fraction as F
from math import lcm
import numpy as np
import gen, lib, work, oracle, values
from drivers import rfq
from drivers.c15 import get_rf


def cases(seed, tier):
    rng = random.Random(seed * 1021 + 16)
    for i in range(1600 if tier == "thorough" else 230):
        yield (rng.choice(["red", "red", "ecfree", "direct"]), rng.randrange(2 ** 31))
    for i in range(100 if tier == "thorough" else 16):
        yield ("wide", rng.randrange(2 ** 31))
    yield from rfq.cases(rng, tier, 120)


def avoid(am, n, init):
    """Certificates of deterministic schedulers that never enter a proper end component: (value, vector)."""
    B = set(range(n))
    rows = [r for r in am["rows"] if r["s"] < n]
    sup = [{d for d, k in r["t"]} for r in rows]
    ec = set()
    # states of end components: greatest sets closed under rows from which each other is reached
    for s in range(n):
        X = set(range(n))
        while True:
            ok = [i for i, r in enumerate(rows) if r["s"] in X and sup[i] <= X]
            fwd, back = {s}, {s}
            for Z, f in ((fwd, lambda i: ({rows[i]["s"]}, sup[i])), (back, lambda i: (sup[i], {rows[i]["s"]}))):
                while True:
                    new = set(Z)
                    for i in ok:
                        a, b = f(i)
                        if a & Z:
                            new |= b
                    if new == Z:
                        break
                    Z |= new
            Y = {x for x in X & fwd & back if any(rows[i]["s"] == x for i in ok)}
            if Y == X or s not in Y:
                X = Y
                break
            X = Y
        if s in X:
            ec |= X
    safe = set(range(n)) - ec
    while True:
        use = [i for i, r in enumerate(rows) if r["s"] in safe and sup[i] <= safe | {n, n + 1}]
        keep = {rows[i]["s"] for i in use}
        if keep == safe:
            break
        safe = keep
    if init not in safe:
        return []
    out = []
    order = sorted(safe)
    by = {s: [i for i in use if rows[i]["s"] == s] for s in order}
    for pol in itertools.islice(itertools.product(*[by[s] for s in order]), 60):
        A = [[F(int(a == b)) for b in order] for a in order]
        for j, s in enumerate(order):
            for d, k in rows[pol[j]]["t"]:
                if d in safe:
                    A[order.index(d)][j] -= F(k, am["D"])
        x = oracle.solve(A, [F(int(s == init)) for s in order])
        W = 1
        for v in x:
            W = lcm(W, v.denominator)
        if W * am["D"] > 10 ** 6 or max(x) * W * am["D"] > 10 ** 7:
            continue
        vec = [0] * len(rows)
        for j in range(len(order)):
            vec[pol[j]] = int(x[j] * W)
        val = sum((F(dict(map(tuple, r["t"])).get(n, 0), am["D"]) * v / W for r, v in zip(rows, vec)), F(0))
        out.append((val, {"v": vec, "w": W}))
    return out


def closed(am, n):
    """Can some scheduler stay among the states below n?"""
    B = set(range(n))
    while True:
        keep = {r["s"] for r in am["rows"] if r["s"] in B and {d for d, k in r["t"]} <= B}
        if keep == B:
            return bool(B)
        B = keep


def run(case, log):
    from switss.certification import check_farkas_certificate, generate_farkas_certificate
    rng = random.Random(case[1])
    f = get_rf(rng, log, case[0], Ds=(2, 3, 4, 5), sizes=(2, 3, 4, 5, 6, 7))
    if not f:
        return
    rf, am0 = f
    D = am0["D"]
    if D > 6:
        return
    am = lib.proj_model(rf.system, D)
    if lib.bad(am):
        return
    n = am["n"] - 2
    hs = {}
    for k in ("prmin", "prmax"):
        vals = oracle.pr(am, [n], range(n), k[2:])
        sc = oracle.scale(vals, D, want=10 ** 6, top=10 ** 7 * D)
        if sc is None:
            return
        log.note("hint", {"h": "rf", "kind": k, "goal": [n], "live": list(range(n)), "q": sc[0], "v": sc[1], "to": k}, {"z": 0})
        hs[k] = vals[rf.initial]
    avoiding = None
    for k in range(8):
        mode = rng.choice(["min", "max"])
        sense = rng.choice(["<=", "<", ">=", ">"])
        p = float(hs["pr" + mode]) * 100
        ok = [t for t in range(0, 101) if abs(t - p) >= 1.01]
        near = [t for t in ok if abs(t - p) <= rng.choice([3, 6])] or ok
        thr = rng.choice(near if rng.random() < .6 else ok)
        if rng.random() < .03:
            thr = rng.choice([-5, 105])
        if rng.random() < .15:
            # constraints every model satisfies
            sense, thr = rng.choice([(">=", 0), ("<=", 100)])
        tol = rng.choice([None, None, 1e-5, 1e-6])
        exact = hs["pr" + mode] * 100
        if exact.denominator == 1 and rng.random() < .2 and not closed(am, n):
            # the value itself (unless the region is unbounded and flat)
            sense, thr, tol = ">=" if mode == "min" else rng.choice([">=", "<="]), int(exact), None
        kw = {} if tol is None else {"tol": tol}
        solver = rng.choice([None, None, "cbc"])
        if solver:
            kw["solver"] = solver

        def go():
            v = generate_farkas_certificate(rf, mode, sense, thr / 100, **kw)
            ok = v is not None and bool(check_farkas_certificate(rf, mode, sense, thr / 100, v, tol=tol or 1e-5))
            return v, ok

        def proj(o):
            v, ok = o
            if v is None:
                return {"none": True, "q": 1, "v": [], "checked": ok}
            q = values.qy_for(v, D)
            return {"none": False, "q": q, "v": lib.fixv(v, q), "checked": ok}
        wit = {"v": [], "w": 1}
        if mode == "min" and sense in ("<=", "<"):
            if avoiding is None:
                avoiding = avoid(am, n, rf.initial)
            fits = [x for x in avoiding if x[0] * 100 <= thr - 4]
            if fits:
                wit = rng.choice(fits)[1]
        log.call("gen", {"wit": wit, "h": "rf", "mode": mode, "sense": sense, "thr": thr, "hint": "pr" + mode}, go, proj)
    work.rfsnap(log, rf, D, "rf")
