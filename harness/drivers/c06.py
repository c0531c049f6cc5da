"""C06: invertible mappings and label views under any history of updates."""
import json, os, random
import gen, lib, work


def behaviours():
    path = os.path.join(os.environ["VERIF_SCRATCH"], "gen-C06.ndjson")
    if os.path.exists(path):
        for line in open(path):
            yield json.loads(line)


def cases(seed, tier):
    rng = random.Random(seed * 211 + 6)
    batch = []
    for b in behaviours():
        batch.append(b)
        if len(batch) == 40:
            yield ("spec", batch)
            batch = []
    if batch:
        yield ("spec", batch)
    for i in range(1500 if tier == "thorough" else 240):
        yield ("rand", rng.randrange(2 ** 31))
    for i in range(800 if tier == "thorough" else 160):
        yield ("model", rng.randrange(2 ** 31))


class Dicts:
    def __init__(self, log, pre=""):
        self.log = log
        self.obj = {}
        self.src = {}
        self.pre = pre

    def new(self, h, rel, dflt, keys):
        """rel: list of [key name, [value names]]; keys: name -> python object."""
        from switss.utils import InvertibleDict
        src = {keys[k]: {keys[v] for v in vs} for k, vs in rel}
        o = self.log.call("idnew", {"h": self.pre + h, "rel": rel, "dflt": dflt, "wellformed": True},
                          lambda: InvertibleDict(src, is_default=dflt) if dflt else InvertibleDict(src))
        self.obj[h] = o
        self.src[h] = (src, sorted([k, sorted(vs)] for k, vs in rel))
        self.keys = keys
        self.names = {(type(v), v): k for k, v in keys.items()}
        return o

    def nm(self, x):
        return self.names.get((type(x), x), "?" + repr(x))

    def step(self, op, h, k=None, v=None, to=None):
        d, K = self.obj[h], self.keys
        hh = self.pre + h
        if op == "add":
            self.log.call("idadd", {"h": hh, "k": k, "v": v}, lambda: d.add(K[k], K[v]))
        elif op == "rem":
            self.log.call("idrem", {"h": hh, "k": k, "v": v}, lambda: d.remove(K[k], K[v]))
        elif op == "get":
            self.log.call("idget", {"h": hh, "k": k}, lambda: d[K[k]], lambda r: sorted(self.nm(x) for x in r))
        elif op == "has":
            self.log.call("idhas", {"h": hh, "k": k}, lambda: K[k] in d, lambda r: bool(r))
        elif op == "items":
            self.log.call("iditems", {"h": hh}, lambda: list(d.items()), lambda r: sorted([self.nm(a), sorted(self.nm(x) for x in b)] for a, b in r))
        elif op == "keys":
            self.log.call("idkeys", {"h": hh}, lambda: list(d.keys()), lambda r: sorted(self.nm(a) for a in r))
        elif op == "inv":
            self.obj[to] = self.log.call("idinv", {"h": hh, "to": self.pre + to}, lambda: d.inv, lambda r: {"back": r.inv is d})

    def source(self, h):
        src, was = self.src[h]
        self.log.call("idsource", {"h": self.pre + h, "was": was}, lambda: src, lambda r: sorted([self.nm(a), sorted(self.nm(x) for x in b)] for a, b in r.items()))


def run(case, log):
    if case[0] == "spec":
        # behaviours enumerated by TLC from spec/GenDict.tla, replayed step by step
        for j, b in enumerate(case[1]):
            keys = {"k1": "alpha", "k2": ("b", 2), "v1": 1, "v2": 2}
            D = Dicts(log, "s%d" % j)
            if D.new("d", b["init"], b["dflt"], keys) is None:
                continue
            for st in b["ops"]:
                D.step(st["op"], st["h"], st.get("k"), st.get("v"), st.get("to"))
            for h in list(D.obj):
                if D.obj[h] is not None:
                    D.step("items", h)
                    for k in (["k1", "k2"] if h == "d" else ["v1", "v2"]):
                        D.step("get", h, k)
            D.source("d")
        return
    rng = random.Random(case[1])
    if case[0] == "rand":
        overlap = rng.random() < .3
        many = rng.random() < .12
        ks = list(range(40)) if many else rng.choice([["a", "b", "c", "zz"], [1, 2, 3, 0], [(0, 0), (1, 0), (0, 1)], ["a", 1, (1, 1)]])
        vs = ks if overlap else ["v%d" % x for x in range(25)] if many else rng.choice([[10, 11, 12, 13], ["p", "q", "r"], [(5, 0), (6, 1)], [0, "x", (2, 2)]])
        keys = {lib.keyname(x): x for x in list(ks) + list(vs)}
        K, V = [lib.keyname(x) for x in ks], [lib.keyname(x) for x in vs]
        rel = [[k, sorted(rng.sample(V, rng.randint(0, len(V))))] for k in rng.sample(K, rng.randint(0, len(K)))]
        D = Dicts(log)
        if D.new("d", rel, rng.random() < .5, keys) is None:
            return
        hs = {"d": (K, V)}
        for i in range(rng.randint(5, 30) * (4 if many else 1)):
            h = rng.choice(list(hs))
            kk, vv = hs[h]
            op = rng.choice(["add", "add", "rem", "rem", "get", "get", "has", "items", "keys", "inv"])
            if op == "inv":
                to = "h%d" % len(hs)
                D.step("inv", h, to=to)
                if D.obj[to] is None:
                    return
                hs[to] = (vv, kk)
            else:
                D.step(op, h, rng.choice(kk), rng.choice(vv))
        for h in hs:
            D.step("items", h)
        D.source("d")
        # ill-formed sources
        from switss.utils import InvertibleDict
        for badv in ([1], {"x": [1]}, {"x": {1}, "y": (2,)}, {"x": None}):
            log.call("idnew", {"h": "bad", "rel": [], "dflt": False, "wellformed": False}, lambda: InvertibleDict(badv))
        return
    # label views of models
    am = gen.random_model(rng, rng.choice([2, 3, 5, 8]), kind=rng.choice(["mdp", "mdp", "dtmc"]))
    kw = lib.build_args(am, "dok")
    from switss.model import MDP, DTMC
    cls = MDP if am["kind"] == "mdp" else DTMC
    m = log.call("new", {"h": "m", "m": lib.clean(am), "kind": am["kind"], "cont": "dok"}, lambda: cls(**kw), lambda o: lib.proj_model(o, am["D"]))
    if m is None:
        return
    names = gen.LABELS + ["fresh"]
    for i in range(rng.randint(2, 6)):
        if rng.random() < .5:
            work.labviews(log, m, am, "m", extra=rng.sample(names, 2))
        s, l = rng.randrange(am["n"]), rng.choice(names)
        log.call("addlabel", {"h": "m", "s": s, "l": l}, lambda: m.add_label(s, l))
    work.labviews(log, m, am, "m", extra=["missing"])
    log.call("given", {"h": "m", "m": lib.clean(am)}, lambda: kw,
             lambda k: {"lab": work.dictrel(k["label_to_states"]), "alab": work.dictrel(k.get("label_to_actions", {}))})
    # a second model built from the label views of the first
    kw2 = dict(kw, label_to_states=m.states_by_label)
    if am["kind"] == "mdp":
        kw2["label_to_actions"] = m.actions_by_label
    lab = [{"l": str(l), "s": sorted(int(x) for x in v)} for l, v in m.states_by_label.items()]
    am2 = dict(lib.clean(am), lab=lab)
    m2 = log.call("new", {"h": "m2", "m": am2, "kind": am["kind"], "cont": "dok"}, lambda: cls(**kw2), lambda o: lib.proj_model(o, am["D"]))
    if m2 is not None:
        log.call("addlabel", {"h": "m2", "s": 0, "l": "only2"}, lambda: m2.add_label(0, "only2"))
        work.labviews(log, m2, am, "m2")
        work.labviews(log, m, am, "m")
