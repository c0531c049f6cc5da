"""C23: programs built from coefficients mean the stated optimisation problem."""
import random
import numpy as np
from scipy.sparse import dok_matrix, csr_matrix, csc_matrix, coo_matrix, lil_matrix
import lib, linprog
from linprog import Prog, num, q4


def cases(seed, tier):
    rng = random.Random(seed * 1171 + 23)
    for i in range(8000 if tier == "thorough" else 640):
        yield (rng.randrange(2 ** 31),)


def matrix(rng, A, n):
    D = np.array([[x / 4 for x in r] for r in A], dtype=float).reshape(len(A), n)
    c = rng.choice(["list", "array", "array", "int", "matrix", "dok", "csr", "csc", "coo", "lil", "zeros", "tuple"])
    if c == "int" and all(x % 4 == 0 for r in A for x in r):
        return c, np.array([[x // 4 for x in r] for r in A]).reshape(len(A), n)
    if c == "list":
        return c, D.tolist()
    if c == "tuple":
        return c, tuple(tuple(r) for r in D.tolist())
    if c == "matrix":
        return c, np.matrix(D)
    if c == "zeros":
        # stored zeros
        i, j = np.indices(D.shape)
        return c, csr_matrix((D.ravel(), (i.ravel(), j.ravel())), shape=D.shape)
    if c in ("dok", "csr", "csc", "coo", "lil"):
        return c, {"dok": dok_matrix, "csr": csr_matrix, "csc": csc_matrix, "coo": coo_matrix, "lil": lil_matrix}[c](D)
    return "array", D


def vector(rng, b):
    D = np.array([x / 4 for x in b], dtype=float)
    c = rng.choice(["list", "array", "array", "int", "column", "matrix", "dok", "csr", "csc"])
    if c == "int" and all(x % 4 == 0 for x in b):
        return c, [x // 4 for x in b]
    if c == "list":
        return c, D.tolist()
    if c == "column":
        return c, D.reshape(-1, 1)
    if c == "matrix":
        return c, np.matrix(D).T
    if c in ("dok", "csr", "csc"):
        return c, {"dok": dok_matrix, "csr": csr_matrix, "csc": csc_matrix}[c](D.reshape(-1, 1))
    return "array", D


def same(x, y):
    """Were the caller's data left alone?"""
    f = lambda o: np.asarray(o.todense() if hasattr(o, "todense") else o)
    return type(x) is type(y) and f(x).shape == f(y).shape and bool((f(x) == f(y)).all())


def run(case, log, gurobi=False):
    import copy
    from switss.solver import MILP, LP, GurobiMILP
    rng = random.Random(case[0])
    for h in ["p"] if rng.random() < .8 else ["p", "q"]:
        n = rng.choice([1, 2, 2, 3, 3, 4])
        m = rng.choice([1, 2, 3, 4, 5])
        lp = rng.random() < .4 and not gurobi
        doms = ["real"] * n if lp else [rng.choice(["real", "integer", "binary"]) for _ in range(n)]
        dens = rng.choice([.3, .6, 1])
        A = [[q4(rng) if rng.random() < dens else 0 for _ in range(n)] for _ in range(m)]
        s = rng.choice(["<=", "<=", ">="])
        b = [4 * rng.randint(-6, 12) if rng.random() < .8 else rng.randint(-20, 30) for _ in range(m)]
        sense = rng.choice(["min", "max"])
        c = [q4(rng) for _ in range(n)] if rng.random() < .9 else ([] if rng.random() < .7 else [0] * n)
        # rows that bound the variables
        if rng.random() < .6:
            for v in range(n):
                lo, hi = rng.randint(-4, 0), rng.randint(1, 5)
                for k, r in ((4, hi), (-4, -lo)):
                    if rng.random() < .85:
                        sg = 1 if s == "<=" else -1
                        A.append([sg * k if j == v else 0 for j in range(n)])
                        b.append(sg * 4 * r)
            if rng.random() < .5:
                o = list(range(len(A)))
                rng.shuffle(o)
                A, b = [A[i] for i in o], [b[i] for i in o]
        bnd = []
        if not lp and rng.random() < .5:
            for v in range(n):
                if doms[v] == "real":
                    bnd.append([rng.choice([[], [0], [-4], [rng.randint(-9, 3)]]), rng.choice([[], [12], [rng.randint(6, 19)]])])
                elif doms[v] == "integer":
                    bnd.append([rng.choice([[], [0], [-8]]), rng.choice([[], [4], [12]])])
                else:
                    bnd.append(rng.choice([[[], []], [[0], [4]], [[4], [4]], [[0], [0]], [[-4], [8]]]))
        ca, Am = matrix(rng, A, n)
        cb, bv = vector(rng, b)
        cc, cv = vector(rng, c) if c else ("none", None)
        kw = {}
        if s != "<=" or rng.random() < .5:
            kw["sense"] = s
        if sense != "min" or rng.random() < .5:
            kw["objective"] = sense
        if bnd:
            kw["bounds"] = [tuple(num(x[0]) if x else None for x in p) for p in bnd]
        keep = copy.deepcopy((Am, bv, cv))
        P = Prog(sense)
        P.vars = [{"d": doms[i], "lo": bnd[i][0] if bnd else [], "hi": bnd[i][1] if bnd else []} for i in range(n)]
        P.cons = [{"t": [(j, A[i][j]) for j in range(n)], "s": s, "b": b[i], "on": True} for i in range(len(A))]
        P.obj = list(enumerate(c))
        a = {"h": h, "n": n, "A": A, "b": b, "c": c, "doms": doms, "s": s, "sense": sense, "bnd": bnd, "cont": [ca, cb, cc]}
        if gurobi:
            a["p"] = "C31"
            p = log.call("pcoef", a, lambda: GurobiMILP.from_coefficients(Am, bv, cv, doms, **kw))
        elif lp:
            p = log.call("pcoef", a, lambda: LP.from_coefficients(Am, bv, cv, **kw))
        else:
            dd = rng.choice([list, tuple])(doms)
            p = log.call("pcoef", a, lambda: MILP.from_coefficients(Am, bv, cv, dd, **kw))
        if p is None:
            continue
        log.call("pgiven", {"h": h}, lambda: all((x is None and y is None) or same(x, y) for x, y in zip(keep, (Am, bv, cv))), bool)
        if rng.random() < .3 and isinstance(Am, np.ndarray):
            # the program was built: what happens to the data afterwards does not matter
            Am[:] = 77
        if P.tractable():
            for sv in ("gurobi",) if gurobi else rng.choice([("cbc",), ("glpk",), ("cbc", "glpk")]):
                linprog.solve(log, p, h, P, sv)
        # building on
        from drivers.c22 import Builder, expr
        if rng.random() < .4:
            B = Builder.__new__(Builder)
            B.log, B.h, B.P, B.m, B.lp = log, h, P, p, lp
            for _ in range(rng.randint(1, 3)):
                w = rng.randrange(4)
                if w == 0:
                    B.con(expr(rng, n), rng.choice(["<=", ">=", "="]), 4 * rng.randint(-4, 8))
                elif w == 1:
                    B.obj(expr(rng, n))
                elif w == 2:
                    B.rem(rng.randrange(len(P.cons)))
                else:
                    B.con([(v, 4) for v in range(n)], "<=", 4 * rng.randint(0, 8))
            B.solve(rng, *[("gurobi",)] * gurobi)
