"""C24: queries on shared objects do not interfere."""
import json, os, random, zlib
import numpy as np
import gen, lib, work
from drivers import rfq
from drivers.c13 import terminating, ready
from drivers.c10 import wellformed


def behaviours():
    path = os.path.join(os.environ["VERIF_SCRATCH"], "gen-C24.ndjson")
    if os.path.exists(path):
        for line in open(path):
            yield json.loads(line)["ops"]


def cases(seed, tier):
    rng = random.Random(seed * 1409 + 24)
    for i, b in enumerate(behaviours()):
        yield ("spec", rng.randrange(2 ** 31), b)
    for i in range(700 if tier == "thorough" else 120):
        yield ("rand", rng.randrange(2 ** 31), None)


# ---------------------------------------------------------------- answers as numbers
def canon(o):
    """Any answer as a flat list of integers."""
    out = []

    def tag(s):
        out.append(zlib.crc32(s.encode()) % 10 ** 8 * 10)

    def go(x):
        if x is None:
            tag("none")
        elif isinstance(x, (bool, np.bool_)):
            out.append(10 if x else 0)
        elif isinstance(x, (int, np.integer)):
            out.append(max(-10 ** 8, min(10 ** 8, int(x))) * 10)
        elif isinstance(x, (float, np.floating)):
            out.append(lib.fix(x, 10 ** 6))
        elif isinstance(x, str):
            tag(x)
        elif isinstance(x, dict):
            go(sorted((repr(k), v) for k, v in x.items()))
        elif isinstance(x, (set, frozenset)):
            go(sorted(x, key=repr))
        elif isinstance(x, (list, tuple)):
            out.append(len(x) * 10)
            for y in x:
                go(y)
        elif hasattr(x, "tocoo"):
            c = x.tocoo()
            go([list(c.shape), sorted([int(i), int(j), float(v)] for i, j, v in zip(c.row, c.col, c.data) if v != 0)])
        elif isinstance(x, np.ndarray):
            go([int(k) for k in x.shape])
            for y in x.ravel().tolist():
                go(y)
        else:
            tag(type(x).__name__ + ":" + repr(x) if type(x).__repr__ is not object.__repr__ else type(x).__name__)
    go(o)
    return out


def form_of(rf):
    r = lib.proj_rrf(rf, 1000) if hasattr(rf, "reward_vector") else lib.proj_rf(rf, 1000)
    return r


def sub_of(ss):
    return [ss.certform, ss.certificate, ss.subsystem_mask]


def result_of(x):
    return [x.status, x.value, x.farkas_cert, None if x.subsystem is None else sub_of(x.subsystem)]


# ---------------------------------------------------------------- queries
class Queries:
    """The public queries on a form; the same names mean the same question on every copy."""

    def __init__(self, rng, am, reward):
        self.reward = reward
        self.top = 30 if not reward else 150
        self.am = am
        self.groups = rng.sample([r["l"] for r in am["lab"]], min(len(am["lab"]), rng.randint(1, 3)))
        self.pool = []
        add = self.pool.append
        for a in ("A", "to_target", "idx", "is_ec_free", "in_proper_ec", "repr", "system", "reach", "mec", "dot", "lists", "saved"):
            add((a,))
        if not reward:
            for a in ("P", "mecs", "target"):
                add((a,))
        else:
            add(("rewards",))
        for m in ("min", "max"):
            for k in range(3):
                add(("fark", m, rng.choice([rng.randint(0, 100), rng.randint(0, 100), rng.choice([0, 1, 95, 100])]) / 100))
            add(("val", m))
            add(("val", m))
            for k in range(2):
                add(("gen", m, rng.choice(["<", ">="]), rng.randint(0, 100) / 100))
                add(("check", m, rng.choice(["<", ">="]), rng.randint(0, 100) / 100, rng.randrange(10 ** 6)))
            add(("subsystem", m, rng.randrange(10 ** 6)))
            add(("subdot", m, rng.randrange(10 ** 6)))
        for a in ("max_z_state", "max_z_state_action", "max_y_state", "max_y_state_action"):
            add((a,))
        self.rng = rng
        self.methods = {}

    def pick(self):
        return self.rng.choice(self.pool)

    def pick_min(self):
        rng = self.rng
        mode = rng.choice(["min", "max"])
        labels = rng.random() < .3
        exact = rng.random() < .15
        ini = rng.choice([0, 0, 1, 2, 3, 4])
        upd = rng.choice([0, 1, 2])
        return (mode, rng.randint(1, self.top) / 100, labels, exact, ini, upd, rng.choice([1, 2, 3, 4]))

    def method(self, k, shared):
        """The method object: one per configuration on the shared side."""
        from switss import problem as p
        if shared and k[3:] in self.methods:
            return self.methods[k[3:]]
        if k[3]:
            m = p.MILPExact()
        else:
            kw = {"iterations": k[6]}
            ini = [None, p.AllOnesInitializer, p.InverseReachabilityInitializer, p.InverseFrequencyInitializer, p.InverseCombinedInitializer][k[4]]
            upd = [None, p.InverseResultUpdater, p.InverseResultFixedZerosUpdater][k[5]]
            if ini:
                kw["initializertype"] = ini
            if upd:
                kw["updatertype"] = upd
            m = p.QSHeur(**kw)
        if shared:
            self.methods[k[3:]] = m
        return m

    def start(self, rf, k, shared):
        return self.method(k, shared).solveiter(rf, k[1], k[0], labels=list(self.groups) if k[2] else None)

    def vector(self, rf, q):
        size = rf.system.N - 2 if q[1] == "min" else rf.system.C - 2
        r = np.random.RandomState(q[-1])
        return r.rand(size) * (r.rand(size) < .7) * r.choice([1, 1, 1, 1e-3, 1e-4], size)

    def ask(self, rf, q, dirname):
        """(the object handed out, its answer)."""
        from switss.certification import generate_farkas_certificate, check_farkas_certificate
        from switss.problem import Subsystem
        n = q[0]
        N, C = rf.system.N - 2, rf.system.C - 2
        if n in ("A", "P", "to_target", "is_ec_free"):
            o = getattr(rf, n)
            return o, lambda: o
        if n == "idx":
            o = rf.index_by_state_action
            return o, lambda: [[list(k), v] for k, v in sorted(o.items())]
        if n == "in_proper_ec":
            return None, lambda: [bool(rf.in_proper_ec(s)) for s in range(N)]
        if n == "repr":
            return None, lambda: repr(rf.system)
        if n == "system":
            return rf.system, lambda: canon_model(rf.system)
        if n == "rewards":
            o = rf.reward_vector
            return o, lambda: np.asarray(o, dtype=float)
        if n == "mecs":
            return None, lambda: [rf.nr_of_mecs, rf.nr_of_proper_mecs, partition(rf.state_to_mec), len(rf.proper_mecs)]
        if n == "target":
            return None, lambda: [rf.target_sap_idx, rf.target_state_idx, rf.fail_sap_idx, rf.fail_state_idx]
        if n == "reach":
            return None, lambda: [rf.system.reachable_mask({rf.initial}, "forward"), rf.system.reachable_mask({N}, "backward"), rf.system.reachable_mask({N}, "backward", {rf.initial})]
        if n == "mec":
            return None, lambda: partition(rf.system.maximal_end_components()[0])
        if n == "lists":
            m = rf.system
            return None, lambda: [[sorted(int(t[0]) for t in m.successors(s)) for s in range(m.N)], [sorted(int(t[0]) for t in m.predecessors(s)) for s in range(m.N)],
                                  [sorted(int(a) for a in m.actions_by_state[s]) for s in range(m.N)], [sorted(m.labels_by_state[s]) for s in range(m.N)]]
        if n == "dot":
            src = rf.system.digraph().source
            return None, lambda: "\n".join(sorted(src.split("\n")))
        if n == "saved":
            base = os.path.join(dirname, "q")
            rf.system.save(base)
            return None, lambda: [sorted(open(base + x).read().split("\n")) for x in (".tra", ".lab")]
        if n == "fark":
            o = rf.fark_constraints(q[2], q[1])
            return o, lambda: list(o)
        if n == "val":
            o = getattr(rf, ("rew_" if self.reward else "pr_") + q[1])()
            return o, lambda: np.asarray(o)
        if n in ("max_z_state", "max_z_state_action", "max_y_state", "max_y_state_action"):
            o = getattr(rf, n)()
            return o, lambda: np.asarray(o)
        if n == "gen":
            o = generate_farkas_certificate(rf, q[1], q[2], q[3])
            return o, lambda: o
        v = self.vec = self.vector(rf, q)
        if n == "check":
            return None, lambda: bool(check_farkas_certificate(rf, q[1], q[2], q[3], v))
        ss = Subsystem(rf, v, q[1])
        if n == "subsystem":
            sub = ss.subsys
            return [ss, sub], lambda: [sub_of(ss), form_of(sub)]
        src = ss.digraph().source
        return ss, lambda: ["\n".join(sorted(src.split("\n"))), sub_of(ss)]


def canon_model(m):
    return lib.proj_model(m, 1000)


def partition(x):
    """Component numbers up to renaming."""
    ren = {}
    return [ren.setdefault(int(c), len(ren)) for c in np.asarray(x).ravel()]


class Held:
    """Objects handed out, looked at again later."""

    def __init__(self, log):
        self.log, self.items = log, []

    def add(self, show):
        self.items.append(("o%d" % len(self.items), show))
        self.look(self.items[-1:])

    def look(self, items=None):
        for i, show in (self.items if items is None else items):
            self.log.call("look", {"id": i}, lambda: canon(show()), lambda v: {"v": v})


def recorded(log, h, q, fresh, fn):
    """One question and its answer, an exception being an answer too."""
    def do():
        try:
            return {"err": "", "v": canon(fn())}
        except (Exception, SystemExit) as e:
            return {"err": type(e).__name__, "v": []}
    log.call("ask", {"h": h, "q": q, "fresh": fresh}, do, lambda r: r)


def scene(rng):
    """A function that builds (model, form) anew, its abstract model and what it is."""
    from switss.model import ReachabilityForm, RewardReachabilityForm
    kind = rng.choice(["red", "red", "ecfree", "direct", "rew", "sys"])
    n = rng.choice([2, 3, 4, 5, 6, 8])
    D = rng.choice([2, 4, 5, 10])
    if kind in ("direct", "sys"):
        am = wellformed(rng, rng.choice([3, 4, 5, 6, 7])) if kind == "direct" else ready(rng)
    elif kind == "rew":
        am = terminating(rng, n, D=D)
    else:
        am = (rfq.ec_free if kind == "ecfree" else rfq.rand_reducible)(rng, n=n, D=D)
    if am is None:
        return None
    for i in range(rng.randint(1, 3)):
        gen.setlab(am, "g%d" % i, [s for s in range(am["n"] - (2 if kind in ("direct", "sys") else 0)) if rng.random() < .5])
    make = {"red": lambda m: ReachabilityForm.reduce(m, "init", "target")[0], "ecfree": lambda m: ReachabilityForm.reduce(m, "init", "target")[0],
            "direct": lambda m: ReachabilityForm(m, "init"), "rew": lambda m: RewardReachabilityForm.reduce(m, "init", "target")[0],
            "sys": lambda m: RewardReachabilityForm.fromsystem(m, "init")}[kind]

    def build():
        m = lib.build(am)
        return m, make(m)
    return am, build, kind in ("rew", "sys")


def run(case, log):
    rng = random.Random(case[1])
    sc = scene(rng)
    if sc is None:
        return
    am, build, reward = sc
    try:
        m, rf = build()
    except Exception:
        return
    hs = ["rf"]
    forms = {"rf": (m, rf)}
    held = Held(log)
    held.add(lambda: form_of(rf))
    held.add(lambda: canon_model(m))
    qs = Queries(rng, am, reward)
    dirname = log.fresh_dir()
    todo = []           # questions whose answer on a fresh copy is still open

    def ask(q, shared):
        f = rf if shared else build()[1]

        def fn():
            o, show = qs.ask(f, q, dirname)
            if shared and o is not None:
                held.add(show)
            return show()
        vec = q[0] in ("check", "subsystem", "subdot")
        if vec:
            # the vector given is still the same afterwards
            qs.vec = None
            recorded(log, "rf", "v" + repr(q), not shared, lambda: qs.vector(f, q))
        recorded(log, "rf", "q" + repr(q), not shared, fn)
        if vec and qs.vec is not None:
            recorded(log, "rf", "v" + repr(q), not shared, lambda: qs.vec)

    its = {}

    def start(i, k):
        its[i] = [qs.start(rf, k, True), k, 0, False]

    def step(i):
        it, k, j, over = its[i]
        if over:
            return
        got = []

        def fn():
            try:
                x = next(it)
            except StopIteration:
                its[i][3] = True
                return "end"
            except Exception:
                its[i][3] = True
                raise
            got.append(x)
            return result_of(x)
        recorded(log, "rf", "m%r#%d" % (k, j), False, fn)
        its[i][2] += 1
        for x in got:
            held.add(lambda x=x: result_of(x))
            if x.subsystem is not None and rng.random() < .4:
                recorded(log, "rf", "s%r#%d" % (k, j), False, lambda: form_of(x.subsystem.subsys))

    def fresh_min(k):
        f = build()[1]
        it = qs.start(f, k, False)
        for j in range(8):
            got = []

            def fn():
                try:
                    x = next(it)
                except StopIteration:
                    return "end"
                got.append(x)
                return result_of(x)
            recorded(log, "rf", "m%r#%d" % (k, j), True, fn)
            if not got:
                return
            x = got[0]
            if x.subsystem is not None:
                recorded(log, "rf", "s%r#%d" % (k, j), True, lambda: form_of(x.subsystem.subsys))

    if case[0] == "spec":
        ops = case[2]
        same = rng.random() < .3
        mins = {}
        asks = {i: qs.pick() for i in {o["i"] for o in ops if o["op"] == "ask"}}
        for i in {o["i"] for o in ops if o["op"] != "ask"}:
            mins[i] = mins[min(mins)] if same and mins else qs.pick_min()
    else:
        ops, mins, asks = [], {i: qs.pick_min() for i in range(3)}, {i: qs.pick() for i in range(10)}
        begun = set()
        for _ in range(rng.randint(10, 22)):
            k = rng.random()
            i = rng.choice(list(mins))
            if k < .35:
                ops.append({"op": "next" if i in begun else "start", "i": i})
                begun.add(i)
            else:
                ops.append({"op": "ask", "i": rng.choice(list(asks))})
    first = [("ask", q) for q in asks.values() if rng.random() < .5] + [("min", k) for k in mins.values() if rng.random() < .5]
    later = [x for x in [("ask", q) for q in asks.values()] + [("min", k) for k in mins.values()] if x not in first]

    def fresh(x):
        ask(x[1], False) if x[0] == "ask" else fresh_min(x[1])
    for x in first:
        fresh(x)
    for o in ops:
        if o["op"] == "start":
            start(o["i"], mins[o["i"]])
        elif o["op"] == "next":
            step(o["i"])
        else:
            ask(asks[o["i"]], True)
        if rng.random() < .15 and later:
            # a fresh copy asked in the middle
            fresh(later.pop())
        if rng.random() < .3:
            held.look()
    for x in later:
        fresh(x)
    held.look()
