"""Recorded operations on models and reachability forms."""
import os
import numpy as np
import lib
from drivers.graphq import new, snap  # noqa: F401


def dictrel(d):
    return [[str(k), sorted([x if not isinstance(x, tuple) else list(x) for x in _py(v)])] for k, v in d.items()]


def _py(v):
    return [(int(x[0]), int(x[1])) if isinstance(x, tuple) else int(x) for x in v]


def labviews(log, m, am, h, extra=()):
    pairs = [(r["s"], r["a"]) for r in am["rows"]]

    def q():
        return {"sbl": dictrel(m.states_by_label), "abl": dictrel(m.actions_by_label),
                "lbs": [sorted(str(l) for l in m.labels_by_state[s]) for s in range(am["n"])],
                "lba": [sorted(str(l) for l in m.labels_by_action[sa]) for sa in pairs],
                "get": [[l, sorted(int(s) for s in m.states_by_label[l])] for l in extra]}
    log.call("labviews", {"h": h}, q, lambda r: r)


def save_load(log, m, am, h, to, name="m"):
    base = os.path.join(log.fresh_dir(), name)
    D = am["D"]

    def do():
        m.save(base)
        tra = [l.split() for l in open(base + ".tra").read().split("\n")]
        tra = [l for l in tra if l]
        w = 4 if am["kind"] == "mdp" else 3
        trans = []
        for l in tra[1:]:
            k = lib.enc(float(l[w - 1]), D)
            trans.append([int(l[0]), int(l[1]) if w == 4 else 0, int(l[w - 2]), k])
        return {"hdr": [int(x) for x in tra[0]], "lines": len(tra) - 1, "trans": trans}
    log.call("save", {"h": h}, do, lambda r: r)
    cls = type(m)
    return log.call("load", {"h": h, "to": to}, lambda: cls.from_file(base + ".lab", base + ".tra"), lambda o: lib.proj_model(o, D))


def rfstore(log, rf, am, h="rf"):
    """Stores the system of a form and wraps what is loaded again."""
    from switss.model import ReachabilityForm
    base = os.path.join(log.fresh_dir(), "form")

    def do():
        rf.system.save(base)
        m = type(rf.system).from_file(base + ".lab", base + ".tra")
        return ReachabilityForm(m, rf.initial_label, rf.target_label, rf.fail_label)
    return log.call("rfstore", {"h": h}, do, lambda o: lib.proj_rf(o, am["D"], view=False))


def proj_red(D, rew=False):
    def f(res):
        rf, smap, amap = res
        r = lib.proj_rrf(rf, D) if rew else lib.proj_rf(rf, D)
        r["smap"] = sorted([lib.as_int(a), lib.as_int(b)] for a, b in smap.items())
        r["amap"] = sorted([[lib.as_int(x) for x in a], [lib.as_int(x) for x in b]] for a, b in amap.items())
        return r
    return f


def chatty(am):
    """Diagnostic output is asked for now and then."""
    return {"debug": True} if sum(len(r["t"]) for r in am["rows"]) % 5 == 0 else {}


def reduce(log, m, am, h="m", to="rf", init="init", target="target", tl=None, fl=None):
    from switss.model import ReachabilityForm
    kw = {}
    if tl is not None:
        kw["new_target_label"] = tl
    if fl is not None:
        kw["new_fail_label"] = fl
    kw.update(chatty(am))
    a = {"h": h, "to": to, "init": init, "target": target, "tl": tl or "rf_target", "fl": fl or "rf_fail"}
    return log.call("reduce", a, lambda: ReachabilityForm.reduce(m, init, target, **kw), proj_red(am["D"]))


def rreduce(log, m, am, h="m", to="rrf", init="init", target="target", tl=None):
    from switss.model import RewardReachabilityForm
    kw = {} if tl is None else {"new_target_label": tl}
    kw.update(chatty(am))
    a = {"h": h, "to": to, "init": init, "target": target, "tl": tl or "rrf_target"}
    return log.call("rreduce", a, lambda: RewardReachabilityForm.reduce(m, init, target, **kw), proj_red(am["D"], True))


def rsystem(log, m, am, h="m", to="rrf", il="init", tl=None):
    from switss.model import RewardReachabilityForm
    a = {"h": h, "to": to, "il": il, "tl": tl or "rrf_target"}
    args = (m, il) if tl is None else (m, il, tl)
    return log.call("rsystem", a, lambda: RewardReachabilityForm.fromsystem(*args), lambda o: lib.proj_rrf(o, am["D"]))


def rfgate(log, m, am, il, tl, fl, h="m", to="rf", defaults=False):
    from switss.model import ReachabilityForm
    a = {"h": h, "to": to, "il": il, "tl": tl, "fl": fl}
    fn = (lambda: ReachabilityForm(m, il)) if defaults else (lambda: ReachabilityForm(m, il, tl, fl))
    return log.call("rfgate", a, fn, lambda o: lib.proj_rf(o, am["D"]))


def rfsnap(log, rf, D, h):
    log.call("rfsnap", {"h": h}, lambda: rf, lambda o: lib.proj_rf(o, D))


def rrfsnap(log, rf, D, h):
    log.call("rfsnap", {"h": h}, lambda: rf, lambda o: lib.proj_rrf(o, D))


def abstract(rf, D):
    """Abstract model of a reachability form's system (for planning and hints)."""
    m = lib.proj_model(rf.system, D)
    return m


def signs(vec):
    return [1 if x > 0 else (-1 if x < 0 else 0) for x in vec]
