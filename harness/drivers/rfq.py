"""Scenario corpora for reachability forms."""
import copy, itertools, json, os, random
import gen, lib


def rand_reducible(rng, big=False, **kw):
    kind = kw.pop("kind", None) or rng.choice(["mdp", "mdp", "mdp", "dtmc"])
    n = kw.pop("n", None) or rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8] + ([10, 14, 20] if big else []))
    am, init, tgt = gen.reducible(rng, n, kind=kind, **dict({"maxact": rng.choice([1, 2, 2, 3])}, **{k: kw.pop(k) for k in list(kw) if k == "maxact"}), maxsucc=rng.choice([1, 2, 3]),
                                  selfloop=rng.choice([0, .2, .8]), leaky=.1 if kw.get("rewards") else .6, local=rng.choice([None, None, 2]), sure=rng.choice([0, .2, .6]), **kw)
    return am


def ec_free(rng, n=None, **kw):
    """A model whose only end components are absorbing targets and sinks."""
    while True:
        am = rand_reducible(rng, n=n, **kw)
        if not has_proper_ec(am):
            return am


def slow(rng, n=None, D=6, **kw):
    """A model that stays long in its states before it moves on."""
    n = n or rng.choice([2, 3, 4])
    rows, extra = [], rng.randrange(n)
    for s in range(n):
        for a in range(1 + (s == extra or rng.random() < .25)):
            k = rng.choice([D - 1, D - 1, D - 1, D - 2, D - 2])
            acc = {s: k}
            for _ in range(D - k):
                d = rng.choice([s + 1, s + 1, s + 1, rng.randint(s + 1, n + 1)])
                acc[d] = acc.get(d, 0) + 1
            rows.append({"s": s, "a": a, "t": sorted([d, x] for d, x in acc.items())})
    rows += [{"s": n, "a": 0, "t": [[n, D]]}, {"s": n + 1, "a": 0, "t": [[n + 1, D]]}]
    am = {"n": n + 2, "D": D, "rows": rows, "lab": [], "alab": [], "rew": [], "kind": "mdp"}
    gen.setlab(am, "init", [0])
    gen.setlab(am, "target", [n])
    return am


def fan(rng, D=None, rewards=True):
    """A form with states of many actions (up to 20), each with a reward of its own."""
    n, D = rng.choice([2, 3, 4]), D or rng.choice([2, 3, 5])
    rows = []
    for s in range(n):
        acts = []
        for _ in range(rng.choice([1, 2, 9, 12, 20]) if s else rng.choice([9, 11, 16, 20])):
            d = rng.randint(s + 1, n)
            k = rng.choice([0, 0] + list(range(1, D)))
            acts.append(sorted([[n, k], [d, D - k]]) if k and d != n else [[d, D]])
        rows += [{"s": s, "a": i, "t": sorted(x)} for i, x in enumerate(acts)]
    rows.append({"s": n, "a": 0, "t": [[n, D]]})
    if rng.random() < .5:
        rng.shuffle(rows)
    am = {"n": n + 1, "D": D, "rows": rows, "lab": [], "alab": [], "rew": [4 * rng.randint(0, 40) for _ in rows] if rewards else [], "kind": "mdp"}
    for s in range(n):
        gen.setlab(am, "g%d" % s, [s])
    for l in ("x", "y", "z"):
        am["alab"].append({"l": l, "sa": sorted([r["s"], r["a"]] for r in rows if rng.random() < .3)})
    am["alab"] = [r for r in am["alab"] if r["sa"]]
    gen.setlab(am, "init", [0])
    gen.setlab(am, "target", [n])
    return am


def wide(rng, n=None, ec=True, rewards=False):
    """A form of many states whose exact values stay simple: forward moves, few of them random, and (ec) moves back
    that make many small end components."""
    n = n or rng.choice([14, 18, 22, 26, 32])
    D = 2
    rows = []
    halves = set(rng.sample(range(n), min(n, rng.choice([2, 4, 6]))))
    goal, sink = n, n + 1
    for s in range(n):
        ahead = lambda: min(n, s + rng.choice([1, 1, 1, 2, 3, 5]))
        if s in halves:
            a, b = ahead(), (sink if rng.random() < .3 and not rewards else ahead())
            t = [[a, D]] if a == b else sorted([[a, 1], [b, 1]])
        else:
            t = [[s + 1, D]]
        acts = [t]
        if rng.random() < .35:
            acts.append([[ahead(), D]])
        if ec and rng.random() < .5:
            acts.append([[max(0, s - rng.choice([0, 0, 1, 1, 2])), D]])
        rng.shuffle(acts)
        rows += [{"s": s, "a": i, "t": x} for i, x in enumerate(acts)]
    rows += [{"s": goal, "a": 0, "t": [[goal, D]]}, {"s": sink, "a": 0, "t": [[sink, D]]}]
    # another numbering
    f = list(range(n + 2))
    rng.shuffle(f)
    rows = [{"s": f[r["s"]], "a": r["a"], "t": sorted([f[d], k] for d, k in r["t"])} for r in rows]
    rng.shuffle(rows)
    am = {"n": n + 2, "D": D, "rows": rows, "lab": [], "alab": [], "rew": [], "kind": "mdp"}
    if rewards:
        am["rew"] = [rng.choice([0, 4, 4, 8, 2, 12]) if rng.random() < .9 else rng.choice([200, 404, 1000]) for _ in rows]
        am["rewform"] = rng.choice(["array", "list"])
    gen.setlab(am, "init", [f[0]])
    gen.setlab(am, "target", [f[goal]])
    gen.setlab(am, "a", sorted(rng.sample(range(n + 2), n // 2)))
    return am


def lazy(rng, am):
    """The same model staying long in some of its states: equal probabilities, large frequencies."""
    D = rng.choice([100, 100, 400])
    s = D // am["D"]
    out = dict(am, D=D, rows=[])
    for r in am["rows"]:
        k = rng.choice([s, s // 5, 1, 1])
        acc = {d: x * k for d, x in r["t"]}
        if sum(acc.values()) < D and r["s"] not in acc:
            acc[r["s"]] = D - sum(acc.values())
        else:
            acc = {d: x * s for d, x in r["t"]}
        out["rows"].append(dict(r, t=sorted([d, x] for d, x in acc.items())))
    if am["rew"]:
        out["rew"] = [rng.choice([0, 4, 4, 2]) for _ in am["rew"]]
    return out


def decay(rng, n=None):
    """A form whose probabilities become small: half of the moves of a chain are lost."""
    n = n or rng.choice([14, 16, 20, 26])
    lossy = set(rng.sample(range(n), rng.randint(6, min(n, 18))))
    rows = []
    for s in range(n):
        acts = [[[s + 1, 1], [n + 1, 1]] if s in lossy else [[s + 1, 2]]]
        if rng.random() < .2:
            acts.append([[s + 1, 1], [n + 1, 1]])
        rng.shuffle(acts)
        rows += [{"s": s, "a": i, "t": x} for i, x in enumerate(acts)]
    rows += [{"s": n, "a": 0, "t": [[n, 2]]}, {"s": n + 1, "a": 0, "t": [[n + 1, 2]]}]
    f = list(range(n + 2))
    if rng.random() < .7:
        rng.shuffle(f)
    rows = [{"s": f[r["s"]], "a": r["a"], "t": sorted([f[d], k] for d, k in r["t"])} for r in rows]
    am = {"n": n + 2, "D": 2, "rows": rows, "lab": [], "alab": [], "rew": [], "kind": "mdp"}
    gen.setlab(am, "init", [f[0]])
    gen.setlab(am, "target", [f[n]])
    return am


def large(rng, rewards=False, n=None):
    """A big model (gen.large) with initial and target states, many of whose states are kept by reduction."""
    best = None
    for _ in range(12):
        am = gen.large(rng, n)
        for _ in range(3):
            i = rng.randrange(am["n"])
            fw = sorted(gen.reach(am, {i}))
            T = set(rng.sample(fw, min(len(fw), rng.choice([1, 1, 2, 20]))))
            K = gen.reach(am, {i}, blocked=T) & gen.reach(am, T, back=True)
            if i not in T and (best is None or len(K) > best[0]):
                best = (len(K), am, i, T)
        if best and best[0] > 60:
            break
    _, am, i, T = best
    gen.setlab(am, "init", [i])
    gen.setlab(am, "target", T)
    if rewards:
        am["rew"] = [rng.choice([0, 4, 1, 8, 400, 4000]) for _ in am["rows"]]
        am["rewform"] = "array"
    return am


def as_form(am, rng=None):
    """The form of a model with labels init and target, as a model in the format of the harness."""
    K, init, T = kept(am)
    order = sorted(K)
    if rng:
        rng.shuffle(order)
    f = {s: i for i, s in enumerate(order)}
    goal, fail = len(order), len(order) + 1
    rows, rew = [], []
    for j, r in enumerate(am["rows"]):
        if r["s"] not in K:
            continue
        if r["s"] in T:
            t = [[goal, am["D"]]]
        else:
            acc = {}
            for d, k in r["t"]:
                x = f.get(d, fail)
                acc[x] = acc.get(x, 0) + k
            t = sorted([x, k] for x, k in acc.items())
        rows.append({"s": f[r["s"]], "a": r["a"], "t": t})
        if am["rew"]:
            rew.append(am["rew"][j])
    rows += [{"s": goal, "a": 0, "t": [[goal, am["D"]]]}, {"s": fail, "a": 0, "t": [[fail, am["D"]]]}]
    used = {(r["s"], r["a"]) for r in rows}
    return {"n": fail + 1, "D": am["D"], "rows": rows, "kind": am["kind"], "rew": rew + [0, 0] if rew else [],
            "lab": [{"l": "init", "s": [f[s] for s in init]}, {"l": "rf_target", "s": [goal]}, {"l": "rf_fail", "s": [fail]}]
                   + [{"l": x["l"], "s": sorted(f[s] for s in x["s"] if s in K)} for x in am["lab"] if x["l"] not in ("init", "target")],
            "alab": [{"l": x["l"], "sa": sorted([f[s], a] for s, a in x["sa"] if s in K and (f[s], a) in used)} for x in am["alab"]]}


def big_form(rng):
    am = as_form(large(rng), rng)
    if am["kind"] == "dtmc":
        am["explicit_index"] = True
    return am


_forms = None


def forms():
    """The reachability forms TLC enumerated (spec/GenForm.tla), in the model format of the harness."""
    global _forms
    if _forms is None:
        path = os.path.join(os.environ["VERIF_SCRATCH"], "gen-forms.ndjson")
        _forms = []
        for line in open(path) if os.path.exists(path) else ():
            x = json.loads(line)
            n, D = x["n"], x["D"]
            rows = [{"s": r["s"], "a": r["a"], "t": [list(t) for t in r["t"]]} for r in x["rows"]]
            rows += [{"s": n - 2, "a": 0, "t": [[n - 2, D]]}, {"s": n - 1, "a": 0, "t": [[n - 1, D]]}]
            _forms.append(({"n": n, "D": D, "rows": rows, "alab": [], "rew": [], "kind": "mdp",
                            "lab": [{"l": "init", "s": [0]}, {"l": "rf_target", "s": [n - 2]}, {"l": "rf_fail", "s": [n - 1]}]}, x["ec"], x["term"]))
    return _forms


def enumerated(k):
    return copy.deepcopy(forms()[k][0])


def enumerated_rew(rng, k):
    """The k-th form as a system with rewards that has no fail state."""
    am = enumerated(k)
    am["rows"].pop()
    am["n"] -= 1
    am["lab"] = [{"l": "init", "s": [0]}, {"l": "rrf_target", "s": [am["n"] - 1]}]
    am["rew"] = [rng.choice([0, 4, 2, 8, 12, 400]) for _ in am["rows"]]
    am["rewform"] = "list"
    return am


def cases(rng, tier, quick, kind="enum:", **kw):
    """A sample of the enumerated forms (quick) or all of them, as cases of a driver."""
    ks = which(**kw)
    if tier != "thorough" and len(ks) > quick:
        ks = rng.sample(ks, quick)
    return [(kind + str(k), rng.randrange(2 ** 31)) for k in ks]


def which(term=False, ecfree=False):
    return [k for k, f in enumerate(forms()) if (f[2] or not term) and not (ecfree and f[1])]


def _rows(am):
    return {(r["s"], r["a"]): {d for d, k in r["t"] if k > 0} for r in am["rows"]}


def kept(am):
    lab = {r["l"]: set(r["s"]) for r in am["lab"]}
    init, T = lab["init"], lab["target"]
    return gen.reach(am, init, blocked=T) & gen.reach(am, T, back=True), init, T


def has_proper_ec(am):
    """Does reduction leave a proper end component among non-target states?"""
    K, init, T = kept(am)
    B = set(K) - T
    rows = _rows(am)
    # greatest set closed under some action
    while True:
        keep = {s for s in B if any(q == s and sup <= B for (q, a), sup in rows.items())}
        if keep == B:
            break
        B = keep
    return bool(B)
