"""Event log, projection of real objects to the vocabulary of the specification,
builders that turn abstract models into real ones."""
import json, math, os, random, shutil, sys
import numpy as np
from scipy.sparse import dok_matrix, csr_matrix, csc_matrix, coo_matrix, lil_matrix

BAD = -1000003          # a number that is not on the expected grid
RSCALE = 4              # rewards are multiples of 1/4


class Timeout(Exception):
    pass


class Log:
    def __init__(self, prog, workdir):
        self.events = []
        self.prog = prog
        self.workdir = workdir

    def fresh_dir(self):
        shutil.rmtree(self.workdir, ignore_errors=True)
        os.makedirs(self.workdir)
        return self.workdir

    def call(self, op, a, fn, proj=None, **extra):
        """Record one public operation: its arguments, outcome and projected result."""
        ev = {"op": op, "a": a}
        ev.update(extra)
        self.prog.write(json.dumps(ev) + "\n")
        self.prog.flush()
        obj = None
        try:
            obj = fn()
            x = ""
        except (Exception, SystemExit) as e:
            x = type(e).__name__
            if os.environ.get("VERIF_DEBUG"):
                import traceback
                traceback.print_exc()
        r = {"z": 0}
        if x == "" and proj is not None:
            try:
                r = proj(obj)
            except Exception as e:
                if os.environ.get("VERIF_DEBUG"):
                    import traceback
                    traceback.print_exc()
                x = "BadResult:" + type(e).__name__
        ev = dict(ev, x=x, r=r)
        json.dumps(ev)
        self.prog.write(json.dumps(ev) + "\n")
        self.prog.flush()
        self.events.append(ev)
        return obj if x == "" else None

    def note(self, op, a, r):
        """Record a fact the harness supplies (hints and scenario data)."""
        self.events.append({"op": op, "a": a, "x": "", "r": r})


# ---------------------------------------------------------------- numbers
def enc(p, D, tol=1e-9):
    """A number as integer numerator over D, BAD when it is not on that grid."""
    p = float(p)
    if not math.isfinite(p):
        return BAD
    if hasattr(D, "eps"):
        return enc_eps(p, D, tol)
    k = int(round(p * D))
    if abs(p * D - k) > tol * D or abs(k) > 10**9:
        return BAD
    return k


def enc_eps(p, D, tol):
    """The weight of a probability (or a sum of entries of one row) of a model with denominator gen.Eps."""
    a, e, sg = abs(p), D.eps, (1 if p > 0 else -1)
    if a == 0:
        return 0
    if abs(a - e) <= 1e-6 * e:
        return sg
    tl = tol if tol > 1e-8 else max(2e-15, e / 8)
    if abs(a - 1) <= tl:
        return sg * int(D)
    for tiny, off in ((1, 0), (0, 0), (1, 1)):
        B = D - tiny
        f = (1 - e) if tiny else 1.0
        m = int(round((a - off * e) / f * B))
        if abs(a - (off * e + m * f / B)) <= tl:
            return sg * (m + off)
    return BAD


def fix(v, S, lim=10**9):
    """A number as fixed point with S units; out of range numbers saturate."""
    v = float(v)
    if v != v:
        return BAD
    if math.isinf(v):
        return lim if v > 0 else -lim
    k = v * S
    return int(max(-lim, min(lim, round(k))))


def fixv(vec, S):
    return [fix(x, S) for x in np.asarray(vec, dtype=float).ravel()]


def as_int(x):
    k = int(x)
    if k != x:
        return BAD
    return k


# ---------------------------------------------------------------- models
def proj_model(m, D):
    """Observable content of a model through its public interface."""
    rows = []
    ent = {}
    for (i, d), p in m.P.items():
        k = enc(p, D)
        if k != 0:
            ent.setdefault(int(i), []).append([int(d), k])
    for i in range(m.C):
        s, a = m.index_by_state_action.inv[i]
        rows.append({"s": as_int(s), "a": as_int(a), "t": sorted(ent.get(i, []))})
    rew = [] if m.reward_vector is None else [enc(m.reward_vector[i], RSCALE) for i in range(m.C)]
    return {"n": int(m.N), "D": D, "rows": rows,
            "lab": sorted(({"l": str(l), "s": sorted(as_int(s) for s in ss)} for l, ss in m.states_by_label.items()), key=lambda r: r["l"]),
            "alab": sorted(({"l": str(l), "sa": sorted([as_int(s), as_int(a)] for s, a in ss)} for l, ss in m.actions_by_label.items()), key=lambda r: r["l"]),
            "rew": rew, "kind": type(m).__name__.lower(),
            "shape": [int(m.C), int(m.P.shape[0]), int(m.P.shape[1]), len(m.index_by_state_action)]}


CONTAINERS = ["list", "array", "matrix", "dok", "csr", "csc", "coo", "lil", "csr0"]


def matrix_of(am, container="dok"):
    """The transition matrix of an abstract model in the given container type."""
    C, N, D = len(am["rows"]), am["n"], am["D"]
    P = dok_matrix((C, N))
    for i, r in enumerate(am["rows"]):
        tiny = hasattr(D, "eps") and any(k == 1 for d, k in r["t"])
        for d, k in r["t"]:
            if tiny:
                P[i, d] = D.eps if k == 1 else k * (1 - D.eps) / 100
            elif k != 0:
                P[i, d] = k / D
    for i, eps in am.get("noise", []):
        d = am["rows"][i]["t"][0][0]
        P[i, d] = P[i, d] + eps
    if container == "dok":
        return P
    if container == "list":
        return P.toarray().tolist()
    if container == "array":
        return P.toarray()
    if container == "matrix":
        return np.matrix(P.toarray())
    if container == "csr":
        return P.tocsr()
    if container == "csc":
        return P.tocsc()
    if container == "coo":
        return P.tocoo()
    if container == "lil":
        return P.tolil()
    if container == "csr0":
        # stored zeros
        rows, cols, vals = [], [], []
        for (i, d), p in P.items():
            rows.append(i); cols.append(d); vals.append(p)
        for i in range(C):
            for d in range(N):
                if (i + 2 * d) % 3 == 0 and P[i, d] == 0:
                    rows.append(i); cols.append(d); vals.append(0.0)
        order = sorted(range(len(rows)), key=lambda t: (rows[t], cols[t]))
        indptr = [0]
        for i in range(C):
            indptr.append(indptr[-1] + sum(1 for t in rows if t == i))
        return csr_matrix((np.array([vals[t] for t in order], dtype=float), np.array([cols[t] for t in order]), np.array(indptr)), shape=(C, N))
    raise ValueError(container)


def build_args(am, container="dok"):
    lab = {r["l"]: set(r["s"]) for r in am["lab"]}
    alab = {r["l"]: {(s, a) for s, a in r["sa"]} for r in am["alab"]}
    idx = {(r["s"], r["a"]): i for i, r in enumerate(am["rows"])}
    rew = None
    if am["rew"]:
        rew = np.array([x / RSCALE for x in am["rew"]])
        if am.get("rewform") == "list":
            rew = list(rew)
        elif am.get("rewform") == "dict":
            rew = dict(enumerate(rew))
    kw = dict(P=matrix_of(am, container), label_to_states=lab, reward_vector=rew)
    if am["kind"] == "mdp":
        kw.update(index_by_state_action=idx, label_to_actions=alab)
    elif am.get("explicit_index", True):
        kw.update(index_by_state_action=idx)
    return kw


def build(am, container="dok"):
    from switss.model import MDP, DTMC
    cls = MDP if am["kind"] == "mdp" else DTMC
    return cls(**build_args(am, container))


def clean(am):
    """The abstract model as the specification reads it."""
    return {k: am[k] for k in ("n", "D", "rows", "lab", "alab", "rew", "kind")}


def rf_of(log, am, init="init", target="target", **kw):
    """Build and reduce without logging."""
    from switss.model import ReachabilityForm
    return ReachabilityForm.reduce(build(am), init, target, **kw)


def rewards_of(rv, C):
    return [enc(rv[i], RSCALE) for i in range(C)]


def proj_view(rf, D):
    """The matrices a reachability form exposes."""
    P, A = rf.P, rf.A
    ix = rf.index_by_state_action
    return {"P": sparse_rows(P, D), "Pshape": [int(x) for x in P.shape], "A": sparse_rows(A, D), "Ashape": [int(x) for x in A.shape],
            "b": [enc(x, D) for x in np.asarray(rf.to_target, dtype=float).ravel()],
            "idx": [[as_int(ix.inv[i][0]), as_int(ix.inv[i][1])] for i in range(len(ix))]}


def proj_rf(rf, D, view=True):
    """A reachability form through its public interface."""
    r = {"m": proj_model(rf.system, D), "init": as_int(rf.initial), "il": str(rf.initial_label), "tl": str(rf.target_label), "fl": str(rf.fail_label)}
    if view:
        r["v"] = proj_view(rf, D)
    return r


def proj_rrf(rf, D):
    r = proj_rf(rf, D, view=False)
    r["rv"] = [enc(x, RSCALE) for x in np.asarray(rf.reward_vector, dtype=float).ravel()]
    return r


def sparse_rows(M, D):
    """A matrix as sequence of rows of <<col, k>>."""
    M = coo_matrix(M)
    acc = {}
    for i, j, v in zip(M.row, M.col, M.data):
        acc[(int(i), int(j))] = acc.get((int(i), int(j)), 0.0) + v
    out = [[] for _ in range(M.shape[0])]
    for (i, j), v in acc.items():
        k = enc(v, D)
        if k != 0:
            out[i].append([j, k])
    return [sorted(r) for r in out]


def keyname(x):
    return "%s:%r" % (type(x).__name__, x)


def bad(o):
    """Does a projection contain numbers off the grid?"""
    if isinstance(o, dict):
        return any(bad(v) for v in o.values())
    if isinstance(o, (list, tuple)):
        return any(bad(v) for v in o)
    return o == BAD
