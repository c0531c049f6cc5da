"""C22: the program builder solves exactly the program that was built."""
import json, os, random
import numpy as np
import lib, linprog
from linprog import Prog, num, q4


def behaviours():
    path = os.path.join(os.environ["VERIF_SCRATCH"], "gen-C22.ndjson")
    if os.path.exists(path):
        for line in open(path):
            yield json.loads(line)


def cases(seed, tier):
    rng = random.Random(seed * 1153 + 22)
    batch = []
    for b in behaviours():
        batch.append(b)
        if len(batch) == 20:
            yield ("spec", batch)
            batch = []
    if batch:
        yield ("spec", batch)
    for i in range(6000 if tier == "thorough" else 480):
        yield ("rand", rng.randrange(2 ** 31))
    for i in range(16 if tier == "thorough" else 8):
        yield ("timed", rng.randrange(2 ** 31))
    for i in range(600 if tier == "thorough" else 60):
        yield ("many", rng.randrange(2 ** 31))


class Builder:
    """Recorded operations on one program and its abstract copy."""

    def __init__(self, log, h, sense, lp=False):
        from switss.solver import MILP, LP
        self.log, self.h, self.P, self.lp = log, h, Prog(sense), lp
        self.start(LP if lp else MILP)

    def start(self, cls, **a):
        sense = self.P.sense
        self.m = self.log.call("pnew", dict(a, h=self.h, sense=sense), lambda: cls(objective=sense))

    def vars(self, vs, how="bounds"):
        m = self.m
        if how == "count":
            fn = lambda: m.add_variables(len(vs))
        elif how == "domains":
            fn = (lambda: m.add_variables(*[[v["d"] for v in vs]]))
        else:
            fn = lambda: m.add_variables_w_bounds([(v["d"], num(v["lo"][0]) if v["lo"] else None, num(v["hi"][0]) if v["hi"] else None) for v in vs])
        proj = lambda r: {"ids": [int(i) for i in r] if isinstance(r, (list, tuple)) else [int(r)]}
        self.log.call("pvars", {"h": self.h, "v": vs}, fn, proj)
        if all(v["d"] in ("real", "integer", "binary") for v in vs):
            self.P.vars += vs

    def ok(self, q):
        return all(0 <= v < len(self.P.vars) for v, _ in q)

    def obj(self, q, conv=lambda q: [(v, num(c)) for v, c in q], nan=False):
        self.log.call("pobj", {"h": self.h, "e": q, "nan": nan}, lambda: self.m.set_objective_function(conv(q)))
        if self.ok(q) and not nan:
            self.P.obj = q

    def con(self, q, s, b, conv=lambda q: [(v, num(c)) for v, c in q], nan=False, rhs=None):
        self.log.call("pcon", {"h": self.h, "e": q, "s": s, "b": b, "nan": nan}, lambda: self.m.add_constraint(conv(q), s, num(b) if rhs is None else rhs), lambda r: int(r))
        if self.ok(q) and not nan and s in ("<=", "=", ">="):
            self.P.cons.append({"t": q, "s": s, "b": b, "on": True})

    def rem(self, i):
        self.log.call("prem", {"h": self.h, "i": i}, lambda: self.m.remove_constraint(i))
        if 0 <= i < len(self.P.cons):
            self.P.cons[i]["on"] = False

    def solve(self, rng, solvers=("cbc",), **kw):
        if not self.P.tractable():
            return False
        for s in solvers:
            linprog.solve(self.log, self.m, self.h, self.P, s, **kw)
        return True


def run(case, log):
    if case[0] == "spec":
        for j, b in enumerate(case[1]):
            spec(log, "p%d" % j, b)
        return
    rng = random.Random(case[1])
    if case[0] == "timed":
        return timed(rng, log)
    if case[0] == "many":
        return many(rng, log)
    build(rng, log)


def spec(log, h, b):
    """A behaviour enumerated by TLC from spec/GenSolver.tla."""
    B = Builder(log, h, b["sense"])
    for o in b["ops"]:
        if o["op"] == "vars":
            B.vars(o["v"])
        elif o["op"] == "con":
            B.con([tuple(x) for x in o["e"]], o["s"], o["b"])
        elif o["op"] == "rem":
            B.rem(o["i"])
        elif o["op"] == "obj":
            B.obj([tuple(x) for x in o["e"]])
        elif o["op"] == "solve":
            linprog.solve(log, B.m, h, B.P, "cbc")
    linprog.solve(log, B.m, h, B.P, "cbc")


def rvar(rng, lp):
    if lp:
        return {"d": "real", "lo": [], "hi": []}
    d = rng.choice(["real", "real", "integer", "binary"])
    lo, hi = [], []
    if d == "real":
        lo = rng.choice([[], [], [0], [4 * rng.randint(-4, 1)], [rng.randint(-9, 3)]])
        hi = rng.choice([[], [], [4 * rng.randint(3, 8)], [rng.randint(6, 19)]])
    elif d == "integer":
        lo = rng.choice([[], [0], [4 * rng.randint(-3, 1)]])
        hi = rng.choice([[], [4 * rng.randint(1, 5)], [4 * rng.randint(1, 3)]])
    elif rng.random() < .4:
        lo = rng.choice([[], [0], [4], [-8], [2]])
        hi = rng.choice([[], [4], [8], [0] if not lo or lo[0] <= 0 else [4], [2] if not lo or lo[0] <= 2 else [4]])
        if lo == [2] and hi == [2]:
            hi = []
    return {"d": d, "lo": lo, "hi": hi}


def expr(rng, n, dup=.15):
    k = rng.randint(0 if rng.random() < .1 else 1, n) if n else 0
    q = [(v, q4(rng)) for v in rng.sample(range(n), k)]
    if q and rng.random() < dup:
        v = rng.choice(q)[0]
        q.append((v, q4(rng)))
    if q and rng.random() < .08:
        v, c = rng.choice(q)
        q.append((v, -coefsum(q, v)))
    rng.shuffle(q)
    return q


def coefsum(q, v):
    return sum(c for w, c in q if w == v)


def build(rng, log):
    lp = rng.random() < .2
    B = Builder(log, "p", rng.choice(["min", "max"]), lp)
    if B.m is None:
        return
    others = []
    if rng.random() < .15:
        # a second program in the same process
        others.append(Builder(log, "q", rng.choice(["min", "max"]), False))
    maxv = rng.choice([1, 2, 3, 3, 4])
    conv = [lambda q: [(v, num(c)) for v, c in q],
            lambda q: [[v, float(num(c))] for v, c in q],
            lambda q: [(np.int64(v), np.float64(num(c))) for v, c in q],
            lambda q: [(np.int32(v), num(c)) for v, c in q]]

    def addv(B):
        k = rng.randint(0 if rng.random() < .05 else 1, max(1, maxv - len(B.P.vars)))
        vs = [rvar(rng, B.lp) for _ in range(k)]
        if B.lp:
            return B.vars(vs, "count") if vs else None
        if rng.random() < .25:
            for v in vs:
                v.update(lo=[], hi=[])
            return B.vars(vs, "domains")
        B.vars(vs, "bounds")

    def step(B):
        n = len(B.P.vars)
        r = rng.random()
        if n == 0 or (r < .12 and n < maxv):
            return addv(B)
        if r < .5:
            # mostly binding boxes, sometimes equations
            s = rng.choice(["<=", "<=", ">=", ">=", "="])
            q = expr(rng, n)
            b = 4 * rng.randint(-6, 12) if rng.random() < .8 else rng.randint(-20, 30)
            return B.con(q, s, b, rng.choice(conv))
        if r < .62 and B.P.cons:
            return B.rem(rng.randrange(len(B.P.cons) + (rng.random() < .1)))
        if r < .78:
            return B.obj(expr(rng, n), rng.choice(conv))
        if r < .86:
            # rejected
            w = rng.randrange(6)
            q = expr(rng, n, 0)
            if w == 0:
                B.con(q + [(n + rng.randrange(3), 4)], "<=", 4)
            elif w == 1:
                B.obj([(-1 - rng.randrange(2), 4)] + q)
            elif w == 2:
                B.con(q, rng.choice(["<", "==", ">", "=<", ""]), 4)
            elif w == 3:
                B.con(q or [(0, 4)], "<=", 4, lambda q: [(v, float("nan")) for v, c in q], nan=True)
            elif w == 4:
                B.con(q, "<=", 0, nan=True, rhs=float("nan"))
            else:
                B.obj(q or [(0, 4)], lambda q: [(v, rng.choice([None, "a"])) for v, c in q], nan=True)
            return
        if r < .88 and not B.lp:
            return B.vars([{"d": rng.choice(["int", "float", "", "Binary"]), "lo": [], "hi": []}])
        go(B)

    def go(B):
        kw = {}
        if rng.random() < .15:
            kw["timeout"] = rng.choice([30, 60])
        B.solve(rng, rng.choice([("cbc",), ("cbc",), ("glpk",), ("cbc", "glpk"), ("cbc", "cbc")]), **kw)

    addv(B)
    for _ in range(rng.choice([4, 8, 14])):
        step(rng.choice([B] + others))
    for X in [B] + others:
        go(X)
    # bounding everything, then solving again: the changes since the last solve count
    if rng.random() < .5:
        n = len(B.P.vars)
        for v in range(n):
            if rng.random() < .8:
                B.con([(v, 4)], rng.choice(["<=", "<="]), 4 * rng.randint(0, 6))
            if rng.random() < .8:
                B.con([(v, 4)], ">=", 4 * rng.randint(-5, 0))
        go(B)
        if B.P.cons:
            B.rem(rng.randrange(len(B.P.cons)))
            go(B)
    if rng.random() < .1:
        linprog.solve(log, B.m, "p", B.P, rng.choice(["CBC", "glpsol", "", "none"]), bad=True)
        linprog.solve(log, B.m, "p", B.P, "cbc", timeout=rng.choice([1.5, "10"]), bad=True)
        from switss.solver import MILP
        log.call("pnew", {"h": "x", "sense": "maximize"}, lambda: MILP(objective="maximize"))


def many(rng, log):
    """Up to 48 variables in unconnected groups, constraints in mixed order."""
    B = Builder(log, "p", rng.choice(["min", "max"]), rng.random() < .15)
    kind = rng.choice(["mixed", "integer", "binary", "real"])
    n, groups = rng.choice([12, 14, 25, 48]), []
    vs = [rvar(rng, B.lp) for _ in range(n)]
    for v in vs:
        if not B.lp and kind != "mixed":
            v.update(d=kind, lo=[], hi=[])
    while vs[len(B.P.vars):]:
        part = vs[len(B.P.vars):][:rng.choice([1, 5, 50])]
        B.vars(part, "count" if B.lp else "bounds")
    idx = list(range(n))
    if rng.random() < .6:
        rng.shuffle(idx)
    while idx:
        k = rng.choice([1, 2, 2, 3])
        groups.append(idx[:k])
        idx = idx[k:]
    todo = []
    at, open_box, loose = {}, rng.choice([0, 0, .1]), rng.choice([0, 0, .03])
    for v in range(n):
        # mostly around a point that stays feasible
        l, u = vs[v]["lo"], vs[v]["hi"]
        at[v] = rng.randint(0, 1) if vs[v]["d"] == "binary" else rng.randint(-(-l[0] // 4) if l else -3, u[0] // 4 if u else 4)
    for g in groups:
        for v in g:
            if rng.random() >= open_box:
                todo.append(([(v, 4)], "<=", 4 * (at[v] + rng.choice([0, 1, 2]))))
            if rng.random() >= open_box:
                todo.append(([(v, 4)], ">=", 4 * (at[v] - rng.choice([0, 1, 2]))))
        for _ in range(rng.choice([0, 1, 1, 2]) if len(g) > 1 else 0):
            q = [(v, 4 * rng.choice([-3, -2, -1, 1, 1, 2])) for v in g]
            s, b = rng.choice([("<=", 1), (">=", -1)]), sum(c * at[v] for v, c in q)
            d = rng.choice([0, 1, 2, 4, 8]) if rng.random() >= loose else -4
            todo.append((q, s[0], b + s[1] * d))
    rng.shuffle(todo)
    obj = [(v, q4(rng)) for v in range(n) if rng.random() < .8]
    rng.shuffle(obj)
    first = rng.random() < .5
    if first:
        B.obj(obj)
    for q, s, b in todo:
        B.con(q, s, b)
    if not first:
        B.obj(obj)
    B.solve(rng, rng.choice([("cbc",), ("cbc",), ("glpk",)]))
    for _ in range(rng.choice([0, 3])):
        i = rng.randrange(len(todo))
        if B.P.cons[i]["on"]:
            B.rem(i)
    if rng.random() < .5:
        q = [(v, 4 * rng.choice([-1, 1, 1])) for v in rng.choice(groups)]
        B.con(q, rng.choice(["<=", ">="]), 4 * rng.randint(-2, 4))
    B.solve(rng)


def timed(rng, log):
    """Programs whose search is cut off: an odd difference to even sums."""
    from switss.solver import MILP
    k = rng.choice([30, 40, 50])
    m = MILP(objective="max")
    xs = m.add_variables(["binary"] * k)
    ws = [2 * rng.randint(10 ** 5, 10 ** 6) for _ in range(k)]
    y = m.add_variables(["real"])
    t = sum(ws) // 4 * 2 + 1
    # maximise the sum below an odd number: the optimum is t - 1 when some subset
    # meets it, which is planted
    plant = rng.sample(range(k), k // 2)
    t = sum(ws[i] for i in plant)
    m.add_constraint([(x, w) for x, w in zip(xs, ws)] + [(y, -1)], "=", 0)
    m.add_constraint([(y, 1)], "<=", t)
    m.add_constraint([(y, 1)], ">=", t - rng.choice([50, 1000]))
    m.set_objective_function([(y, 1)])
    log.call("ptimed", {"best": 0}, lambda: m.solve("cbc", timeout=1), lambda r: {"st": str(r.status), "val": lib.fix((r.value or 0) - t, 1000)})
