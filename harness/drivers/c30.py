"""C30: the search for a point inside a polyhedron."""
import copy, random
import numpy as np
from scipy.sparse import dok_matrix, csr_matrix
import lib
from linprog import Prog, num, q4

S = 100000


def cases(seed, tier):
    rng = random.Random(seed * 1409 + 30)
    for i in range(6000 if tier == "thorough" else 600):
        yield ("rand", rng.randrange(2 ** 31))


def polyhedron(rng, n):
    """Rows around a region of some size, or cutting each other off."""
    m = rng.choice([0, 1, 1, 2, 3])
    A, b = [], []
    p = [rng.randint(-8, 12) for _ in range(n)]
    for _ in range(m):
        r = [q4(rng) if rng.random() < .7 else 0 for _ in range(n)]
        # through the neighbourhood of p
        at = sum(x * y for x, y in zip(r, p)) // 4
        A.append(r)
        b.append(at + rng.choice([0, 0, 1, 2, 4, 8, 16, -1, -2, -4, -12]))
    for j in range(n):
        for sg in (1, -1):
            if rng.random() < .85:
                A.append([4 * sg if i == j else 0 for i in range(n)])
                b.append(sg * p[j] + rng.choice([0, 1, 2, 4, 4, 8, 12, -1, -4]))
    o = list(range(len(A)))
    rng.shuffle(o)
    return [A[i] for i in o], [b[i] for i in o]


def box(rng, n):
    """Bounds of many variables."""
    A, b = [], []
    tight = rng.random() < .5
    for j in range(n):
        p = rng.choice([0, 0, 1, 4, 9, -5])
        for sg in (1, -1):
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                A.append([4 * sg if i == j else 0 for i in range(n)])
                b.append(sg * p + rng.choice([1, 2, 4, 4, 8, 12] + ([0, -1, -4] if tight else [])))
    o = list(range(len(A)))
    rng.shuffle(o)
    return [A[i] for i in o], [b[i] for i in o]


def run(case, log):
    from switss.certification.certificates import find_interior_point
    rng = random.Random(case[1])
    for _ in range(4):
        many = rng.random() < .2
        n = rng.choice([1, 2, 3, 5, 8, 12, 24]) if many else rng.choice([1, 2, 2, 3])
        A, b = box(rng, n) if many else polyhedron(rng, n)
        if not A:
            continue
        nn = rng.random() < .5
        zero = sorted(rng.sample(range(n), rng.randint(0, n))) if rng.random() < .4 else []
        P = Prog("min")
        P.vars = [{"d": "real", "lo": [], "hi": []} for _ in range(n + 1)]
        P.cons = [{"t": [(j, c) for j, c in enumerate(r)] + [(n, -4)], "s": "<=", "b": x, "on": True} for r, x in zip(A, b)]
        P.cons += [{"t": [(j, 4), (n, 4)], "s": ">=", "b": 0, "on": True} for j in range(n)] if nn else []
        P.cons += [{"t": [(j, 4)], "s": "=", "b": 0, "on": True} for j in zero]
        P.obj = [(n, 4)]
        if (not many or n < 4) and not P.tractable():
            continue
        M = np.array([[x / 4 for x in r] for r in A])
        cont = rng.choice([dok_matrix, dok_matrix, csr_matrix, np.array])
        Am, bv = cont(M), np.array([x / 4 for x in b])
        keep = copy.deepcopy((Am, bv))
        kw = {}
        if nn or rng.random() < .5:
            kw["xgeq0"] = nn
        if zero or rng.random() < .3:
            kw["zero_vars"] = list(zero)
        solver = rng.choice(["cbc", "cbc", "glpk"])
        if solver != "cbc" or rng.random() < .3:
            kw["solver"] = solver

        def proj(r):
            dense = lambda x: x.toarray() if hasattr(x, "toarray") else x
            x, o, s = r
            same = bool((dense(Am) == dense(keep[0])).all() and (bv == keep[1]).all()) and ("zero_vars" not in kw or kw["zero_vars"] == zero)
            big = any(v is None or abs(float(v)) > 200 for v in x)
            return {"big": big, "x": [0 if big else lib.fix(v, S) for v in x], "optimal": bool(o), "strict": bool(s), "same": same}
        log.call("ipoint", {"n": n, "A": A, "b": b, "nn": nn, "zero": zero, "solver": solver, "cont": cont.__name__},
                 lambda: find_interior_point(Am, bv, **kw), proj)
