"""C28: renderings contain every state and transition once, styled by the given maps."""
import copy, random, re
import numpy as np
import gen, lib, work
from drivers import c10, rfq
from drivers.c13 import terminating

W = 10 ** 5


def cases(seed, tier):
    rng = random.Random(seed * 1319 + 28)
    big = tier == "thorough"
    for i in range(2400 if big else 260):
        yield ("model", rng.randrange(2 ** 31))
    for i in range(60 if big else 12):
        yield ("large", rng.randrange(2 ** 31))
    for i in range(200 if big else 20):
        yield ("wide", rng.randrange(2 ** 31))
    for i in range(3000 if big else 300):
        yield ("rf", rng.randrange(2 ** 31))
    for i in range(300 if big else 40):
        yield ("rew", rng.randrange(2 ** 31))
    for i in range(1000 if big else 100):
        yield ("gate", rng.randrange(2 ** 31))


# ---------------------------------------------------------------- the drawing
TOKEN = re.compile(r'\s*("(?:[^"\\]|\\.)*"|->|[\[\]=;{}]|[^\s\[\]=;{},"]+|,)', re.S)


def tokens(text):
    pos, out = 0, []
    text = text.rstrip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise ValueError("cannot read drawing at %r" % text[pos:pos + 30])
        t = m.group(1)
        out.append((t[1:-1].replace('\\"', '"'), True) if t.startswith('"') else (t, False))
        pos = m.end()
    return out


def read(source):
    """Nodes, edges and other statements of a drawing in the dot language."""
    t = tokens(source)
    i = 0

    def sym(s):
        return i < len(t) and t[i] == (s, False)
    assert t[0][0] in ("digraph",), t[0]
    i = 1
    if not sym("{"):
        i += 1
    assert sym("{")
    i += 1
    nodes, edges, stray = [], [], []

    def attrs():
        nonlocal i
        at = []
        if sym("["):
            i += 1
            while not sym("]"):
                if sym(","):
                    i += 1
                    continue
                k = t[i][0]
                assert t[i + 1] == ("=", False)
                at.append([k, t[i + 2][0]])
                i += 3
            i += 1
        return sorted(at)
    while not sym("}"):
        if sym(";"):
            i += 1
            continue
        first, quoted = t[i]
        i += 1
        if not quoted and first in ("graph", "node", "edge"):
            stray.append([first, attrs()])
        elif sym("="):
            stray.append([first, t[i + 1][0]])
            i += 2
        elif sym("->"):
            second = t[i + 1][0]
            i += 2
            edges.append({"from": first, "to": second, "at": attrs()})
        else:
            nodes.append({"id": first, "at": attrs()})
    assert i == len(t) - 1, "text after the drawing"
    return nodes, edges, stray


WEIGHT = re.compile(r"(?:^|\n)c\[(\d+)\]=(-?\d+\.\d+)$")


def project(dg, D, std_trans, small, dirty):
    nodes, edges, stray = read(dg.source)
    if small:
        stray = [x for x in stray if x != ["graph", [["size", "4,6"]]]]
    for n in nodes:
        lab = [x for x in n["at"] if x[0] == "label"]
        m = WEIGHT.search(lab[0][1]) if lab else None
        if m:
            lab[0][1] = lab[0][1][:m.start()]
            n["at"].append(["weight", "%s=%d" % (m.group(1), round(float(m.group(2)) * W))])
    if std_trans:
        for e in edges:
            for x in e["at"]:
                if x[0] == "label":
                    try:
                        v = float(x[1])
                        k = lib.enc(v, D) if hasattr(D, "eps") else round(v * D)
                        # ten digits after the point
                        if k != lib.BAD and (hasattr(D, "eps") or abs(v - k / D) <= 6e-11):
                            x[1] = "%d" % k
                    except ValueError:
                        pass
    return {"nodes": nodes, "edges": edges, "stray": [str(s) for s in stray], "dirty": dirty()}


# ---------------------------------------------------------------- styles
class Styles:
    """Style functions that write their arguments into attributes."""

    def __init__(self, D, kind):
        self.D, self.kind = D, kind
        self.shared = {}
        self.origin = {}

    def constant(self, f):
        if f not in self.shared:
            self.shared[f] = {"color": "pink", "label": f}
            self.origin[f] = copy.deepcopy(self.shared[f])
        return self.shared[f]

    def dirty(self):
        return sorted(k for k in self.shared if self.shared[k] != self.origin[k])

    def attr(self, f, tag, tail):
        if tag == "fixed":
            return self.constant(f)
        at = {"comment": "%s:%s:%s" % (f, tag, tail), "color": "blue"}
        if tag != "plain":
            at["label"] = tag + f
        return at

    def state(self, tag):
        return lambda s, labels: self.attr("S", tag, "%d:%s" % (s, ",".join(labels)))

    def trans(self, tag):
        def p_(p):
            return lib.enc(p, self.D)
        if self.kind == "mdp":
            return lambda s, a, d, p: self.attr("T", tag, "%d:%d:%d:%d" % (s, a, d, p_(p)))
        return lambda s, d, p: self.attr("T", tag, "%d:%d:%d" % (s, d, p_(p)))

    def action(self, tag):
        if tag == "fixed":
            both = self.shared.get("AE")
            if both is None:
                both = self.shared["AE"] = {"node": self.constant("A"), "edge": self.constant("E")}
                self.origin["AE"] = copy.deepcopy(both)
            return lambda s, a, labels: both
        return lambda s, a, labels: {"node": self.attr("A", tag, "%d:%d:%s" % (s, a, ",".join(labels))),
                                     "edge": self.attr("E", tag, "%d:%d:%s" % (s, a, ",".join(labels)))}

    def config(self, st, tr, ac):
        from switss.utils import VisualizationConfig, DTMCVisualizationConfig
        kw = {}
        if st != "std":
            kw["state_map"] = self.state(st)
        if tr != "std":
            kw["trans_map"] = self.trans(tr)
        if self.kind == "dtmc":
            return DTMCVisualizationConfig(**kw)
        if ac != "std":
            kw["action_map"] = self.action(ac)
        return VisualizationConfig(**kw)


TAGS = ["std", "one", "plain", "fixed"]


def tags(rng):
    return [rng.choice(TAGS) for _ in range(3)]


def minute(rng):
    """Some probabilities are tiny, but not lost in the ten digits of a drawing."""
    return gen.Eps(rng.choice([1e-6, 1e-8, 1e-9]), True)


def trim(am):
    """At most three labels per state (their order in a drawing is open)."""
    cnt = {}
    for r in am["lab"]:
        keep = []
        for s in r["s"]:
            cnt[s] = cnt.get(s, 0) + 1
            if cnt[s] <= 3 or r["l"] in ("init", "target"):
                keep.append(s)
        r["s"] = keep
    cnt = {}
    for r in am["alab"]:
        keep = []
        for sa in r["sa"]:
            k = tuple(sa)
            cnt[k] = cnt.get(k, 0) + 1
            if cnt[k] <= 3:
                keep.append(sa)
        r["sa"] = keep
    return am


def make(log, am, sty, conf):
    """A model with configured styles."""
    from switss.model import MDP, DTMC
    cls = MDP if am["kind"] == "mdp" else DTMC
    vis = None if conf is None else sty.config(*conf)
    return log.call("new", {"h": "m", "m": lib.clean(am), "kind": am["kind"], "cont": "dok"},
                    lambda: cls(**lib.build_args(am), vis_config=vis), lambda o: lib.proj_model(o, am["D"]))


def draw(log, m, am, sty, conf, rng, h="m", op="draw", extra=None, maps=True):
    kw, use = {}, list(conf or ["std"] * 3)
    if maps:
        for k, (name, fn) in enumerate([("state_map", sty.state), ("trans_map", sty.trans), ("action_map", sty.action)]):
            if rng.random() < .35 and not (name == "action_map" and am["kind"] == "dtmc"):
                use[k] = rng.choice(["two", "plain", "fixed"])
                kw[name] = fn(use[k])
    small = rng.random() < .2
    if small:
        kw["small"] = True
    a = dict({"h": h, "st": use[0], "tr": use[1], "ac": use[2]}, **(extra or {}))
    for _ in range(rng.choice([1, 1, 2])):
        # the default style of goal and fail concerns states, not transitions
        stdt = use[1] == "std" or "std" in ((extra or {}).get("goal"), (extra or {}).get("fail"))
        log.call(op, a, lambda: m.digraph(**kw), lambda g: project(g, am["D"], stdt, small and am["kind"] == "mdp", sty.dirty))


def run(case, log):
    rng = random.Random(case[1])
    from switss.problem import Subsystem
    if case[0] == "large":
        am = trim(gen.large(rng, rng.choice([20, 64, 130])))
        case = ("model",)
    elif case[0] == "wide":
        am = trim(rfq.wide(rng, rng.choice([8, 14, 26])))
        case = ("rf",)
    elif case[0] == "model":
        n = rng.choice([1, 2, 3, 4, 5, 7])
        am = trim(gen.random_model(rng, n, kind=rng.choice(["mdp", "mdp", "dtmc"]), D=rng.choice([None, 3, 7, 10, 100, minute(rng)]), rewards=rng.random() < .2))
    elif case[0] == "rf":
        am = trim(rfq.rand_reducible(rng, n=rng.choice([2, 3, 4, 5, 6]), rewards=rng.random() < .2, D=rng.choice([None, 3, 7, 10, minute(rng)])))
    elif case[0] == "gate":
        am = c10.wellformed(rng, rng.choice([3, 4, 5, 6]))
        if am is None:
            return
        trim(am)
    else:
        am = terminating(rng, rng.choice([3, 4, 5]))
        if am is None:
            return
        trim(am)
    D = am["D"]
    sty = Styles(D, am["kind"])
    conf = None if rng.random() < .3 else tags(rng)
    m = make(log, am, sty, conf)
    if m is None:
        return
    if case[0] == "model":
        for _ in range(3):
            draw(log, m, am, sty, conf, rng)
        work.snap(log, m, D, "m")
        return
    rew = case[0] == "rew"
    h = "rrf" if rew else "rf"
    sp = {"goal": "std", "fail": "std"}
    base = conf or ["std"] * 3
    if case[0] == "gate":
        rf = work.rfgate(log, m, am, "init", "rf_target", "rf_fail")
        if rf is None:
            return
    else:
        kw = {} if rew else rng.choice([{}, {"tl": "Goal state", "fl": "F"}])
        res = (work.rreduce if rew else work.reduce)(log, m, am, **kw)
        if not res:
            return
        rf = res[0]
    if case[0] == "rf":
        for k, fn in (("goal", rf.set_target_visualization_style), ("fail", rf.set_fail_visualization_style)):
            if rng.random() < .4:
                t = rng.choice(["one", "two", "plain", "fixed"])
                cfg = sty.config(t, t, t)
                try:
                    fn(cfg)
                    sp[k] = t
                except AssertionError:
                    pass
    # maps given to digraph itself get the numbers of the form
    draw(log, rf.system, am, sty, conf, rng, h=h, op="drawrf", extra=sp, maps=False)
    C, N = rf.system.C - 2, rf.system.N - 2
    for mode, size in (("min", N), ("max", C)):
        for p in rng.sample([0, .3, .6, .9, 1], 2):
            c = np.array([rng.choice([1.0, .25, 7.5, rng.randint(1, 4 * W) / W, 1e-9]) if rng.random() < p else 0.0 for _ in range(size)])
            a = {"mode": mode, "cert": [int(round(x * W)) for x in c], "pos": [i + 1 if mode == "max" else i + 1 for i in range(size) if c[i] > 0]}
            ss = Subsystem(rf, c, mode)
            for weights in rng.sample([True, False, None], 2):
                kw = {} if weights is None else {"show_weights": weights}
                small = rng.random() < .2
                if small:
                    kw["small"] = True
                ev = dict(a, h=h, st=base[0], tr=base[1], ac=base[2], weights=weights is not False, **sp)
                stdt = base[1] == "std" or "std" in sp.values()
                log.call("drawsub", ev, lambda: ss.digraph(**kw), lambda g: project(g, D, stdt, small and am["kind"] == "mdp", sty.dirty))
    draw(log, rf.system, am, sty, conf, rng, h=h, op="drawrf", extra=sp, maps=False)
    draw(log, m, am, sty, conf, rng)
    (work.rrfsnap if rew else work.rfsnap)(log, rf, D, h)
    work.snap(log, m, D, "m")
