"""Programs for Solver.tla: generation, recorded building and solving, and the
size estimate that keeps the elimination of the specification within its integer
range (this estimate decides nothing about the code under test)."""
import math
from itertools import product
import numpy as np
import lib

S = 1000
LIM = 5 * 10 ** 5


class TooBig(Exception):
    pass


def norm(a, b):
    g = abs(b)
    for x in a:
        g = math.gcd(g, abs(x))
    if max([abs(b)] + [abs(x) for x in a]) > min(10 ** 9, LIM * max(1, g)):
        raise TooBig()
    return (tuple(x // g for x in a), b // g) if g > 1 else (tuple(a), b)


def prune(R):
    best = {}
    for a, b in R:
        if b >= 0 and not any(a):
            continue
        best[a] = min(best.get(a, b), b)
    if len(best) > 120:
        raise TooBig()
    return set(best.items())


def elim(R, k):
    neg = lambda r: (tuple(-x for x in r[0]), -r[1])
    comb = lambda r, m, q, f: norm([m * x + f * y for x, y in zip(r[0], q[0])], m * r[1] + f * q[1])
    eqs = [r for r in R if r[0][k] > 0 and neg(r) in R]
    if eqs:
        r = min(eqs, key=lambda x: x[0][k])
        # the specification may choose another equation of the same size
        out = None
        for r in [x for x in eqs if x[0][k] == r[0][k]]:
            o = prune([comb(q, r[0][k], r, -q[0][k]) for q in R if q not in (r, neg(r))])
            out = out or o
        return out
    pos, ng = [r for r in R if r[0][k] > 0], [r for r in R if r[0][k] < 0]
    if len(pos) * len(ng) > 400:
        raise TooBig()
    return prune([r for r in R if r[0][k] == 0] + [comb(p, -q[0][k], q, p[0][k]) for p in pos for q in ng])


def coef(q, v):
    return sum(c for w, c in q if w == v)


class Prog:
    """The program as the specification sees it."""

    def __init__(self, sense):
        self.sense, self.vars, self.cons, self.obj = sense, [], [], []

    def rows(self):
        n = len(self.vars)
        R = []

        def row(q, b, sg):
            R.append(norm([sg * coef(q, i) for i in range(n)] + [0], sg * b))
        for c in self.cons:
            if c["on"]:
                if c["s"] in ("<=", "="):
                    row(c["t"], c["b"], 1)
                if c["s"] in (">=", "="):
                    row(c["t"], c["b"], -1)
        for i, x in enumerate(self.vars):
            lo, hi = self.box(x)
            if lo:
                row([(i, 4)], lo[0], -1)
            if hi:
                row([(i, 4)], hi[0], 1)
        for sg in (1, -1):
            R.append(norm([-sg * coef(self.obj, i) for i in range(n)] + [sg], 0))
        return prune(R)

    def box(self, x):
        if x["d"] == "binary":
            return [max(0, x["lo"][0]) if x["lo"] else 0], [min(4, x["hi"][0]) if x["hi"] else 4]
        return x["lo"], x["hi"]

    def blocks(self):
        """The programs of variables that are connected by constraints."""
        vs = lambda c: {v for v, _ in c["t"] if coef(c["t"], v)}
        cons = [c for c in self.cons if c["on"] and vs(c)]
        left = set(range(len(self.vars)))
        while left:
            B = {min(left)}
            while True:
                C = B.union(*[vs(c) for c in cons if B & vs(c)])
                if C == B:
                    break
                B = C
            left -= B
            pos = {v: k for k, v in enumerate(sorted(B))}
            P = Prog(self.sense)
            P.vars = [self.vars[v] for v in sorted(B)]
            P.cons = [dict(c, t=[(pos[v], x) for v, x in c["t"] if v in B]) for c in cons if vs(c) <= B]
            P.obj = [(pos[v], x) for v, x in self.obj if v in B]
            yield P

    def tractable(self):
        return all(P.block_tractable() for P in self.blocks())

    def block_tractable(self):
        """Does the elimination stay small, and is the enumeration complete?"""
        n = len(self.vars)
        try:
            R1 = self.rows()
            ints = [i for i in range(n) if self.vars[i]["d"] != "real"]
            for i in range(n):
                if i not in ints:
                    R1 = elim(R1, i)
            cons = lambda R: all(b >= 0 for a, b in R if not any(a))
            known, size, rng = True, 1, {}
            for i in ints:
                Q = R1
                for k in range(n + 1):
                    if k != i:
                        Q = elim(Q, k)
                lo = [-(-(-b) // -a[i]) for a, b in Q if a[i] < 0]
                lo = [-((b) // (-a[i])) for a, b in Q if a[i] < 0]
                hi = [b // a[i] for a, b in Q if a[i] > 0]
                if not lo or not hi or max(lo) < -8 or min(hi) > 8:
                    known = False
                    rng[i] = range(max(-8, max(lo)), min(8, min(hi)) + 1) if lo and hi else range(-2, 3)
                else:
                    rng[i] = range(max(lo), min(hi) + 1)
                size *= max(1, len(rng[i]))
            if size > 400:
                return False
            R2 = elim(R1, n)
            R3, R4 = R2, R1
            for k in range(n):
                R3, R4 = elim(R3, k), elim(R4, k)
            if not cons(R1) or not cons(R3):
                return True
            feas = any(all(sum(a[i] * x for i, x in zip(ints, p)) <= b for a, b in R2) for p in product(*[rng[i] for i in ints]))
            bounded = any((a[n] < 0) == (self.sense == "min") and a[n] != 0 for a, b in R4)
            return known or (feas and not bounded)
        except TooBig:
            return False


def q4(rng, frac=.2, big=5):
    """4 * a coefficient."""
    if rng.random() < frac:
        return rng.randint(-10, 10)
    return 4 * rng.randint(-big, big)


def num(k4):
    return k4 / 4 if k4 % 4 else k4 // 4


def projsol(r):
    f = lambda v: lib.fix(0 if v is None else max(-1e9, min(1e9, v)), S, 10 ** 6)
    return {"st": str(r.status), "x": [f(v) for v in r.result_vector] if r.result_vector is not None else [], "val": f(r.value)}


def reference(P, solver):
    """What the solver itself answers on an independent copy of the program."""
    if solver == "gurobi":
        return standin(P)
    import pulp
    m = pulp.LpProblem("ref", pulp.LpMinimize if P.sense == "min" else pulp.LpMaximize)
    xs = []
    for i, v in enumerate(P.vars):
        lo, hi = P.box(v)
        xs.append(pulp.LpVariable("x%d" % i, lo[0] / 4 if lo else None, hi[0] / 4 if hi else None, pulp.LpContinuous if v["d"] == "real" else pulp.LpInteger))
    m.setObjective(pulp.LpAffineExpression([(x, coef(P.obj, i) / 4) for i, x in enumerate(xs)]))
    for j, c in enumerate(P.cons):
        if c["on"]:
            vs = sorted({v for v, _ in c["t"]}) or [0]
            m.addConstraint(pulp.LpConstraint(pulp.LpAffineExpression([(xs[v], coef(c["t"], v) / 4) for v in vs]),
                                              {"<=": pulp.LpConstraintLE, "=": pulp.LpConstraintEQ, ">=": pulp.LpConstraintGE}[c["s"]], "c%d" % j, c["b"] / 4))
    try:
        m.solve(pulp.PULP_CBC_CMD(gapRel=1e-9, msg=False) if solver == "cbc" else pulp.GLPK_CMD(msg=False))
    except pulp.PulpSolverError:
        return {"st": "error", "val": 0}
    st = {1: "optimal", 0: "notsolved", -1: "infeasible", -2: "unbounded", -3: "undefined"}[m.status]
    if st == "optimal" and m.sol_status != pulp.LpSolutionOptimal:
        st = "notsolved"
    v = m.objective.value()
    return {"st": st, "val": lib.fix(0 if v is None else max(-1e9, min(1e9, v)), S, 10 ** 6)}


def standin(P):
    """The same for the stand-in of the Gurobi interface."""
    import gurobipy as gp
    m = gp.Model()
    xs = []
    for v in P.vars:
        lo, hi = P.box(v)
        xs.append(m.addVar(lb=lo[0] / 4 if lo else -gp.GRB.INFINITY, ub=hi[0] / 4 if hi else gp.GRB.INFINITY, vtype="C" if v["d"] == "real" else "I"))
    m.setObjective(gp.LinExpr([(coef(P.obj, i) / 4, x) for i, x in enumerate(xs)]), gp.GRB.MINIMIZE if P.sense == "min" else gp.GRB.MAXIMIZE)
    for c in P.cons:
        if c["on"]:
            m.addConstr(gp.TempConstr(gp.LinExpr([(k / 4, xs[v]) for v, k in c["t"]]) - c["b"] / 4, {"<=": "<", "=": "=", ">=": ">"}[c["s"]]))
    m.optimize()
    st = {gp.GRB.OPTIMAL: "optimal", gp.GRB.INFEASIBLE: "infeasible", gp.GRB.UNBOUNDED: "unbounded"}[m.status]
    return {"st": st, "val": lib.fix(m.objVal if st == "optimal" else 0, S, 10 ** 6)}


def solve(log, m, h, P, solver="cbc", timeout=None, bad=False, **kw):
    k = dict(kw)
    if solver is not None:
        k["solver"] = solver
    if timeout is not None:
        k["timeout"] = timeout
    ref = {"st": "none", "val": 0} if bad else reference(P, solver or "cbc")
    return log.call("psolve", {"h": h, "solver": str(solver or "cbc"), "bad": bad, "ref": ref}, lambda: m.solve(**k), projsol)
