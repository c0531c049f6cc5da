"""Random and exhaustive scenario models (abstract form: see spec/MDPCore.tla)."""
import itertools, random

LABELS = ["init", "target", "a", "b", "c", "group1", "group 2", "x_y", "L10", "ok?", "é", "1", "deadlock", "state=3", "A:B"]


class Eps(int):
    """The denominator 101 of models with negligible probabilities: a row <<d,1>>, <<d1,k1>>, ... stands for the
    probabilities eps, k1 (1-eps) / 100, ...; rows without weight 1 stand for k / 101 as usual."""
    def __new__(cls, eps, single=False):
        o = int.__new__(cls, 101)
        o.eps, o.single = eps, single
        return o


def split(rng, D, parts):
    """D as a sum of `parts` positive integers."""
    if isinstance(D, Eps):
        if parts == 1:
            return [int(D)]
        if (parts > 2 or D.single) and rng.random() < .75:
            return [1] + [x + 1 for x in split(rng, 100 - (parts - 1), parts - 1)]
        return [x + 1 for x in split(rng, int(D) - parts, parts)]
    if parts >= D:
        parts = D
    cuts = sorted(rng.sample(range(1, D), parts - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [D])]


def eps_denominator(rng, view=False):
    """view: probabilities are only seen in single precision"""
    if view:
        return Eps(rng.choice([1e-6, 1e-9, 1e-12, 1e-13, 1e-15, 1e-20, 1e-30]))
    return Eps(rng.choice([1e-6, 1e-7, 1e-9, 1e-9]), True)


def random_model(rng, n, kind="mdp", D=None, maxact=3, maxsucc=3, selfloop=0.2, sparse_actions=True,
                 labels=True, rewards=False, local=None, permute=True, sure=0.25):
    D = D or rng.choice([2, 3, 4, 5, 6, 7, 8, 10, 10, 20])
    rows = []
    for s in range(n):
        na = 1 if kind == "dtmc" else rng.randint(1, maxact)
        pool = range(0, 8) if sparse_actions else range(na)
        acts = [0] if kind == "dtmc" else rng.sample(list(pool), na)
        for a in acts:
            if rng.random() < sure:
                k = 1
            else:
                k = rng.randint(1, min(maxsucc, n, D))
            if local:
                cand = [x for x in range(max(0, s - local), min(n, s + local + 1))]
            else:
                cand = list(range(n))
            if rng.random() > selfloop and len(cand) > 1 and s in cand:
                cand.remove(s)
            k = min(k, len(cand))
            dest = rng.sample(cand, k)
            ks = split(rng, D, k)
            rows.append({"s": s, "a": a, "t": sorted([d, x] for d, x in zip(dest, ks))})
    if permute:
        rng.shuffle(rows)
    am = {"n": n, "D": D, "rows": rows, "lab": [], "alab": [], "rew": [], "kind": kind}
    if labels:
        for l in rng.sample(LABELS[2:], rng.randint(0, 5)):
            am["lab"].append({"l": l, "s": sorted(rng.sample(range(n), rng.randint(0, n)))})
        if kind == "mdp":
            pairs = [[r["s"], r["a"]] for r in rows]
            for l in rng.sample(["go", "stay", "act 3", "tau", "x"], rng.randint(0, 3)):
                am["alab"].append({"l": l, "sa": sorted(rng.sample(pairs, rng.randint(0, len(pairs))))})
    if rewards:
        am["rew"] = [rng.choice([0, 4, 4, 8, 2, 1, 12, 20]) for _ in rows]
        am["rewform"] = rng.choice(["array", "list"])
    return am


def many_labels(rng, am):
    """Pairs and states that carry more labels than a few."""
    k = rng.choice([4, 6, 9])
    am["alab"] = [r for r in am["alab"] if not r["l"].startswith("k")] if am["kind"] == "mdp" else []
    if am["kind"] == "mdp":
        pairs = sorted([r["s"], r["a"]] for r in am["rows"])
        for i in range(k):
            am["alab"].append({"l": "k%d" % i, "sa": [p for p in pairs if rng.random() < .7]})
    for i in range(k):
        am["lab"].append({"l": "many%d" % i, "s": [s for s in range(am["n"]) if rng.random() < .7]})
    return am


def setlab(am, l, states):
    am["lab"] = [r for r in am["lab"] if r["l"] != l] + [{"l": l, "s": sorted(states)}]
    return am


def post(am):
    p = {s: set() for s in range(am["n"])}
    for r in am["rows"]:
        for d, k in r["t"]:
            if k > 0:
                p[r["s"]].add(d)
    return p


def reach(am, src, blocked=(), back=False):
    p = post(am)
    if back:
        q = {s: set() for s in p}
        for s, ds in p.items():
            for d in ds:
                q[d].add(s)
        p = q
    seen = set(src)
    todo = list(src)
    while todo:
        s = todo.pop()
        if s in blocked:
            continue
        for d in p[s]:
            if d not in seen:
                seen.add(d)
                todo.append(d)
    return seen


def leak(rng, am, dests, p):
    """Move a unit of probability of some rows to one of dests."""
    for r in am["rows"]:
        t = max(r["t"], key=lambda x: x[1])
        if isinstance(am["D"], Eps):
            acc = {d: k for d, k in r["t"]}
            d = rng.choice(sorted(dests))
            if r["s"] in dests or d in acc or rng.random() > p or not (len(acc) > 1 or am["D"].single):
                continue
            if 1 in acc.values():
                acc = {(d if k == 1 else x): k for x, k in acc.items()}
            else:
                acc[t[0]] -= 1
                acc[d] = 1
            if list(acc.values()).count(1) == 1:
                r["t"] = sorted([x, k] for x, k in acc.items())
            continue
        if r["s"] in dests or t[1] < 2 or rng.random() > p:
            continue
        acc = {d: k for d, k in r["t"]}
        amount = rng.choice([1, 1, 1, t[1] // 2]) or 1
        acc[t[0]] -= amount
        d = rng.choice(sorted(dests))
        acc[d] = acc.get(d, 0) + amount
        r["t"] = sorted([d, k] for d, k in acc.items() if k > 0)


def reducible(rng, n, ntarget=None, leaky=0.5, **kw):
    """A model with one initial state and targets, at least one reachable."""
    for _ in range(400):
        am = random_model(rng, n, **kw)
        if n > 2 and rng.random() < leaky:
            # a sink (possibly a target) that many rows leave some mass to
            sinks = set(rng.sample(range(n), rng.choice([1, 2])))
            for r in am["rows"]:
                if r["s"] in sinks:
                    r["t"] = [[r["s"], am["D"]]]
            leak(rng, am, sinks, rng.choice([.4, .8, 1]))
            if len(sinks) == 2 and rng.random() < .8:
                ntarget = -min(sinks) - 1
        init = rng.randrange(n)
        nt = ntarget if ntarget is not None and ntarget > 0 else rng.choice([1, 1, 1, 2, 2, 3])
        nt = max(1, min(nt, n))
        tgt = set(rng.sample(range(n), nt))
        if ntarget is not None and ntarget < 0:
            tgt = {-ntarget - 1}
            ntarget = None
        fw = reach(am, {init}, blocked=tgt)
        if n > 2 and init in tgt and rng.random() < .8:
            continue
        if fw & tgt:
            setlab(am, "init", [init])
            setlab(am, "target", tgt)
            rng.shuffle(am["lab"])
            return am, init, tgt
    raise RuntimeError("no reducible model found")


def all_supports(n, maxact, maxsupp=None):
    """All action-support structures on n states with 1..maxact actions per state."""
    subs = [c for k in range(1, (maxsupp or n) + 1) for c in itertools.combinations(range(n), k)]
    per = []
    for k in range(1, maxact + 1):
        per += list(itertools.combinations(subs, k))
    return itertools.product(per, repeat=n)


def from_supports(sup, kind="mdp", D=12):
    n = len(sup)
    rows = []
    for s, acts in enumerate(sup):
        for a, c in enumerate(acts):
            base = D // len(c)
            ks = [base] * len(c)
            ks[0] += D - base * len(c)
            rows.append({"s": s, "a": a, "t": sorted([d, k] for d, k in zip(c, ks))})
    return {"n": n, "D": D, "rows": rows, "lab": [], "alab": [], "rew": [], "kind": kind}


def large(rng, n=None, kind=None, labels=True):
    """A model with many states, actions or successors and few coincidences: rings, chains with ways back, stars, combs."""
    n = n or rng.choice([64, 130, 200, 270, 300])
    kind = kind or rng.choice(["mdp", "mdp", "dtmc"])
    shape = rng.choice(["rings", "rings", "chain", "star", "sparse", "actions"])
    D = 1024 if shape == "star" else rng.choice([2, 4, 10])
    f = list(range(n))
    rng.shuffle(f)
    per = {s: [] for s in range(n)}
    if shape == "rings":
        s = 0
        while s < n:
            k = min(n - s, rng.choice([1, 1, 2, 3, 5, 9, 20]))
            for j in range(k):
                t = [[s + (j + 1) % k, D]]
                if j == 0 and s + k < n and (kind == "dtmc") == (rng.random() < .5):
                    t = [[s, D - 1], [rng.randrange(s + k, n), 1]] if k == 1 else [[s + 1, D - 1], [rng.randrange(s + k, n), 1]]
                per[s + j].append(t)
                if kind == "mdp" and rng.random() < .2:
                    per[s + j].append([[min(n - 1, s + j + rng.choice([0, 1, 7])), D]])
            s += k
    elif shape == "chain":
        for s in range(n):
            per[s].append([[min(s + 1, n - 1), D]])
            if kind == "mdp" and rng.random() < .1:
                per[s].append([[max(0, s - rng.choice([0, 1, 2, 30])), D]])
    elif shape == "star":
        k = min(n - 1, rng.choice([20, 60, 260]))
        hubs = rng.sample(range(n), 2)
        for s in range(n):
            if s in hubs:
                ds = rng.sample(range(n), k)
                per[s].append(sorted([d, x] for d, x in zip(ds, split(rng, D, k))))
            else:
                per[s].append([[rng.choice(hubs + [s]), D]])
    elif shape == "actions":
        busy = set(rng.sample(range(n), 2))
        for s in range(n):
            for _ in range(rng.choice([12, 40]) if s in busy and kind == "mdp" else 1):
                d = rng.sample(range(n), 2)
                per[s].append(sorted([[d[0], 1], [d[1], D - 1]]) if rng.random() < .5 else [[d[0], D]])
    else:
        for s in range(n):
            for _ in range(1 if kind == "dtmc" else rng.choice([1, 1, 2])):
                d = [min(n - 1, max(0, s + x)) for x in rng.sample([-9, -2, -1, 1, 2, 3, 8], 2)]
                per[s].append(sorted([[d[0], 1], [d[1], D - 1]]) if rng.random() < .5 and d[0] != d[1] else [[d[0], D]])
    rows = []
    for s in range(n):
        nums = [0] if kind == "dtmc" else rng.sample(range(len(per[s]) + rng.choice([0, 0, 5, 300])), len(per[s]))
        rows += [{"s": f[s], "a": a, "t": sorted([f[d], x] for d, x in t)} for a, t in zip(nums, per[s])]
    rng.shuffle(rows)
    am = {"n": n, "D": D, "rows": rows, "lab": [], "alab": [], "rew": [], "kind": kind}
    if kind == "dtmc":
        am["explicit_index"] = True
    if labels:
        for l in rng.sample(LABELS[2:], 3):
            am["lab"].append({"l": l, "s": sorted(rng.sample(range(n), rng.choice([1, 3, n // 2])))})
        if kind == "mdp":
            am["alab"].append({"l": "go", "sa": sorted([r["s"], r["a"]] for r in rng.sample(rows, len(rows) // 3))})
    return am
