"""Recorded minimisations and the hints that judge them."""
import itertools
import numpy as np
import lib, oracle, values


def ext(reward, mode):
    return ("rew" if reward else "pr") + mode


class Scene:
    """A form with the exact values of its subsystems, computed on demand."""

    def __init__(self, log, rf, h, D):
        self.log, self.rf, self.h, self.D = log, rf, h, D
        self.reward = h.startswith("rrf")
        self.am = lib.proj_model(rf.system, D)
        self.n = self.am["n"] - 2
        self.init = rf.initial
        self.cache = {}
        self.done = {}
        self.ok = not lib.bad(self.am)

    def value(self, mode, live):
        """(exact values, (q, v)) of the system restricted to live states."""
        key = (mode, frozenset(live))
        if key not in self.cache:
            if self.reward:
                vals = oracle.rew(self.am, live, mode)
                sc = oracle.scale(vals, self.D, base=4, want=10 ** 6, top=2 * 10 ** 7, extra=max([4] + self.am["rew"]) // 4 + 1)
            else:
                vals = oracle.pr(self.am, [self.n], live, mode)
                sc = oracle.scale(vals, self.D, want=10 ** 6, top=10 ** 7 * self.D)
            self.cache[key] = (vals, sc)
        return self.cache[key]

    def init_value(self, mode, live):
        v = self.value(mode, live)
        return v[0][self.init]

    def hint(self, mode, live):
        """Name of a recorded hint, None when the exact denominators do not fit."""
        key = (mode, frozenset(live))
        if key in self.done:
            return self.done[key]
        vals, sc = self.value(mode, live)
        if sc is None:
            return None
        name = "%s:%d" % (ext(self.reward, mode), len(self.done))
        self.log.note("hint", {"h": self.h, "kind": ext(self.reward, mode), "goal": [self.n], "live": sorted(live), "q": sc[0], "v": sc[1], "to": name}, {"z": 0})
        self.done[key] = name
        return name

    def all(self):
        return range(self.n)


def proj_results(D, mult, mode):
    def f(results):
        out = []
        for x in results:
            if x.status != "success":
                none = x.subsystem is None and x.value is None and x.farkas_cert is None
                out.append({"st": str(x.status), "none": none, "k": 0, "mask": [], "q": 1, "v": []})
                continue
            q = values.qy_for(x.farkas_cert, D, mult)
            mask = x.subsystem.subsystem_mask
            out.append({"st": "success", "none": False, "k": lib.fix(x.value, 1000), "mask": [i for i in range(len(mask)) if mask[i]],
                        "q": q, "v": lib.fixv(x.farkas_cert, q)})
        return {"res": out}
    return f


def minimise(scene, method, mode, thr, labels=None, exact=False, iters=1, to="min", **kw):
    """Record one minimisation; thr in hundredths.  Returns the projected results."""
    h = scene.hint(mode, scene.all()) if mode in ("min", "max") else None
    a = {"h": scene.h, "mode": mode, "thr": thr, "labels": list(labels or []), "bylabel": labels is not None, "hint": h, "exact": exact,
         "iters": iters, "what": repr(method), "to": to}
    if h is None:
        if mode in ("min", "max"):
            return None
        a["hint"] = "-"
    mult = 4 if not scene.reward else max([4] + scene.am["rew"])
    scene.log.call("minimise", a, lambda: list(method.solveiter(scene.rf, thr / 100, mode, labels=labels, **kw)), proj_results(scene.D, mult, mode))
    ev = scene.log.events[-1]
    return ev["r"]["res"] if ev["x"] == "" else None


class early_bound:
    """While active, the first program to be solved is stopped early: the one bounding the certificates."""

    def __init__(self, found):
        self.found = found

    def __enter__(self):
        import pulp
        self.old = old = pulp.LpProblem.solve
        first = [True]
        found = self.found

        def solve(lp, *a, **k):
            r = old(lp, *a, **k)
            if first[0]:
                first[0] = False
                lp.assignStatus(pulp.LpStatusNotSolved, 2 if found else 0)
                if not found:
                    lp.assignVarsVals({v.name: None for v in lp.variables()})
            return lp.status
        pulp.LpProblem.solve = solve

    def __exit__(self, *a):
        import pulp
        pulp.LpProblem.solve = self.old


def bound_stopped(scene, method, mode, thr, exact, iters, found):
    """A minimisation during which the bounding program is stopped early, with or without a solution."""
    h = scene.hint(mode, scene.all())
    if h is None:
        return
    a = {"h": scene.h, "mode": mode, "thr": thr, "labels": [], "bylabel": False, "hint": h, "exact": exact, "iters": iters, "what": repr(method), "to": "bs"}
    mult = 4 if not scene.reward else max([4] + scene.am["rew"])

    def go():
        with early_bound(found):
            return list(method.solveiter(scene.rf, thr / 100, mode))
    scene.log.call("boundstopped", a, go, proj_results(scene.D, mult, mode))


def judge(scene, res, mode, to="min"):
    """Add the witness clauses of every successful result."""
    for i, x in enumerate(res):
        if x["st"] != "success":
            continue
        h = scene.hint(mode, x["mask"])
        if h is not None:
            scene.log.note("witness", {"of": to, "i": i + 1, "hint": h}, {"z": 0})


def judge_minimal(scene, res, mode, labels=None, to="min"):
    if len(res) != 1 or res[0]["st"] != "success":
        return
    k = int((res[0]["k"] + 500) // 1000)
    n = scene.n
    if labels is None:
        rest = [s for s in scene.all() if s != scene.init]
        live = [set(c) | {scene.init} for c in itertools.combinations(rest, k - 2)] if 2 <= k <= n + 1 else ([set()] if k == 1 else [])
    else:
        live = allowed_sets(scene, labels, k - 1)
    hs = []
    for L in live:
        h = scene.hint(mode, L)
        if h is None:
            return
        hs.append(h)
    scene.log.note("minimal", {"of": to, "hints": hs}, {"z": 0})


def judge_branching(scene, res, mode, thr, labels=None, to="min", budget=600):
    """Minimality on forms too big for enumeration: a smaller witness, or a tree that refutes all of them."""
    if len(res) != 1 or res[0]["st"] != "success":
        return
    k = int((res[0]["k"] + 500) // 1000)
    by = {r["l"]: {s for s in r["s"] if s < scene.n} for r in scene.am["lab"]}
    items = list(scene.all()) if labels is None else [l for l in labels if by.get(l)]
    rows = {}
    for r in scene.am["rows"]:
        rows.setdefault(r["s"], []).append(r)

    def without(out):
        L = set(scene.all())
        for x in out:
            L -= {x} if labels is None else by[x]
        return L

    def meets(live):
        return scene.init_value(mode, live) * 100 >= thr

    def split(live, inc, out):
        """An undecided item the value depends on: on the way of a scheduler that attains it."""
        vals = scene.value(mode, live)[0]
        gain = lambda r: sum(kk * vals[d] for d, kk in r["t"] if d < len(vals))
        seen, todo = set(), [scene.init]
        while todo:
            s = todo.pop(0)
            if s in seen or s not in live:
                continue
            seen.add(s)
            its = [s] if labels is None else [l for l in items if s in by[l]]
            for x in its:
                if x not in inc and x not in out:
                    return x
            pick = (max if mode == "max" else min)(rows[s], key=gain)
            todo += [d for d, _ in sorted(pick["t"], key=lambda t: -t[1]) if d < scene.n]
        rest = [x for x in items if x not in inc and x not in out]
        return rest[0] if rest else None

    tree, todo = [None], [(0, frozenset(), frozenset())]
    while todo:
        i, inc, out = todo.pop()
        if len(tree) > budget:
            return
        if len(inc) >= k:
            tree[i] = {"t": "full"}
            continue
        live = without(out)
        if not meets(live):
            h = scene.hint(mode, live)
            if h is None:
                return
            tree[i] = {"t": "weak", "hint": h}
            continue
        x = split(live, inc, out)
        few = without(set(items) - inc)
        if x is None or meets(few):
            h = scene.hint(mode, few)
            if h is not None:
                scene.log.note("minrefuted", {"of": to, "items": sorted(inc), "hint": h}, {"z": 0})
            return
        tree[i] = {"t": "split", "x": x, "no": len(tree) + 1, "yes": len(tree) + 2}
        tree += [None, None]
        todo += [(len(tree) - 1, inc | {x}, out), (len(tree) - 2, inc, out | {x})]
    scene.log.note("mincover", {"of": to, "tree": tree}, {"z": 0})


def allowed_sets(scene, labels, size):
    by = {r["l"]: {s for s in r["s"] if s < scene.n} for r in scene.am["lab"]}
    carried = [l for l in labels if by.get(l)]
    if size < 0:
        return []
    out = []
    for c in itertools.combinations(carried, size):
        L = set(scene.all())
        for l in carried:
            if l not in c:
                L -= by[l]
        out.append(L)
    return out
