"""C17: exact minimisation returns a minimum witnessing subsystem."""
import itertools, random
import lib, work, minim
from drivers.c15 import get_rf
from drivers.c14 import get_form
from drivers import rfq


def cases(seed, tier):
    rng = random.Random(seed * 1031 + 17)
    for i in range(1800 if tier == "thorough" else 260):
        yield (rng.choice(["red", "ecfree", "ecfree", "direct", "rew", "sys", "slow"]), rng.randrange(2 ** 31))
    for i in range(300 if tier == "thorough" else 40):
        yield (rng.choice(["wide", "rwide"]), rng.randrange(2 ** 31))
    for i in range(200 if tier == "thorough" else 24):
        yield (rng.choice(["wide-lazy", "rwide-lazy"]), rng.randrange(2 ** 31))
    yield from rfq.cases(rng, tier, 90)
    yield from rfq.cases(rng, tier, 30, "renum:", term=True)


def scene_of(rng, log, kind, sizes, Ds=(2, 3, 4, 5)):
    if kind in ("rew", "sys", "rwide", "wide-lazy", "rwide-lazy") or kind.startswith("renum:"):
        f = get_form(rng, log, kind, n=rng.choice(sizes))
        if not f or f[2] > 6 and "wide" not in kind:
            return None
        rf, h, D = f
    else:
        f = get_rf(rng, log, kind, Ds=Ds if kind != "slow" else (4, 5, 6), sizes=sizes if kind != "slow" else (2, 2, 3, 4))
        if not f or f[1]["D"] > 6:
            return None
        rf, D, h = f[0], f[1]["D"], "rf"
    sc = minim.Scene(log, rf, h, D)
    return sc if sc.ok else None


def top(sc, mode):
    return float(sc.init_value(mode, sc.all())) * 100


def pick_thr(rng, values, hi, gap=.31):
    """A threshold (hundredths) clearly away from the given values."""
    ok = [t for t in range(0, int(min(hi, 2000)) + 1) if all(abs(t - v) >= gap for v in values)]
    if not ok:
        return None
    if rng.random() < .5:
        v = rng.choice(values)
        near = [t for t in ok if abs(t - v) <= 4]
        if near:
            return rng.choice(near)
    return rng.choice(ok)


def subset_values(sc, mode):
    rest = [s for s in sc.all() if s != sc.init]
    out = {0.0}
    for k in range(len(rest) + 1):
        for c in itertools.combinations(rest, k):
            vals, s = sc.value(mode, set(c) | {sc.init})
            if s is None:
                return None
            out.add(float(vals[sc.init]) * 100)
    return sorted(out)


def wide_thr(rng, sc, mode):
    """A threshold away from every value a subsystem of a wide form can have (multiples of 1/64, or of 1/4 of that for rewards)."""
    hi = float(sc.init_value(mode, sc.all())) * 100
    step = 100 / (64 * (4 if sc.reward else 1))
    ok = [t for t in range(1, int(min(hi, 4000)) + 2) if abs(t / step - round(t / step)) * step >= (.16 if sc.reward else .31) and abs(t - hi) >= .31]
    if not sc.reward:
        ok = [t for t in ok if t <= 100]
    near = [t for t in ok if hi - 6 <= t <= hi]
    return rng.choice(near if near and rng.random() < .7 else ok) if ok else None


def wide(rng, log, kind):
    from switss.problem import MILPExact
    lazy, kind = kind.endswith("-lazy"), kind.split("-")[0]
    am = rfq.wide(rng, n=rng.choice([8, 10, 12, 14] if lazy else [8, 10, 12, 14, 18, 24]), ec=kind == "wide" and rng.random() < (.1 if lazy else .4), rewards=kind == "rwide")
    if lazy:
        am = rfq.lazy(rng, am)
    m = work.new(log, am, "m")
    res = m is not None and (work.reduce if kind == "wide" else work.rreduce)(log, m, am)
    if not res:
        return
    sc = minim.Scene(log, res[0], "rf" if kind == "wide" else "rrf", am["D"])
    if not sc.ok:
        return
    for mode in ("min", "max"):
        if mode == "max" and not sc.reward and rfq_ec(sc):
            continue
        for _ in range(3):
            thr = wide_thr(rng, sc, mode)
            if thr is None:
                continue
            res = minim.minimise(sc, MILPExact(), mode, thr, exact=True)
            if res:
                minim.judge(sc, res, mode)
                minim.judge_branching(sc, res, mode, thr)


def run(case, log):
    from switss.problem import MILPExact
    rng = random.Random(case[1])
    if case[0].split("-")[0] in ("wide", "rwide"):
        return wide(rng, log, case[0])
    sc = scene_of(rng, log, case[0], (2, 3, 4, 5, 6))
    if sc is None or sc.n > 7:
        return
    modes = ["min", "max"]
    rng.shuffle(modes)
    for mode in modes:
        if mode == "max" and not sc.reward and rfq_ec(sc):
            continue
        try:
            vals = subset_values(sc, mode)
        except ZeroDivisionError:
            return
        if vals is None:
            continue
        method = MILPExact(**rng.choice([{}, {"solver": "cbc"}]))
        for k in range(4):
            thr = pick_thr(rng, vals, max(vals) + 3 if rng.random() < .15 else max(vals))
            if thr is None or (not sc.reward and thr > 100):
                continue
            res = minim.minimise(sc, method, mode, thr, exact=True)
            if res:
                minim.judge(sc, res, mode)
                minim.judge_minimal(sc, res, mode)
    snap = work.rrfsnap if sc.reward else work.rfsnap
    snap(log, sc.rf, sc.D, sc.h)


def rfq_ec(sc):
    """Does the form have an end component besides goal and fail?"""
    B = set(sc.all())
    while True:
        keep = {s for s in B if any(r["s"] == s and {d for d, k in r["t"]} <= B for r in sc.am["rows"])}
        if keep == B:
            return bool(B)
        B = keep
