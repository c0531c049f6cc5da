"""Shared corpus and operations for the graph queries C01-C05."""
import random, itertools
import gen, lib


def models(seed, tier, which):
    rng = random.Random(seed * 1009 + hash_(which))
    big = tier == "thorough"
    # small exhaustive structures (sampled in quick)
    allsup = list(gen.all_supports(3, 2))
    pick = allsup if big else rng.sample(allsup, 500)
    batch = []
    for sup in pick:
        am = gen.from_supports(sup, D=12)
        batch.append(am)
        if len(batch) == 25:
            yield batch
            batch = []
    if batch:
        yield batch
    for sup in (gen.all_supports(2, 3)):
        batch = [gen.from_supports(sup, D=4)]
        yield batch
    # random ones
    n_rand = 1500 if big else 260
    for i in range(n_rand):
        n = rng.choice([1, 2, 3, 4, 5, 5, 6, 6, 7, 8, 9, 10, 12])
        yield [gen.random_model(rng, n, kind=rng.choice(["mdp", "mdp", "dtmc"]), maxact=rng.choice([1, 2, 3, 4]),
                                maxsucc=rng.choice([1, 2, 3, 4]), selfloop=rng.choice([0, .2, .8]),
                                local=rng.choice([None, None, 1, 2]), rewards=rng.random() < .3,
                                sure=rng.choice([0, .25, .7]))]
    # negligible probabilities are transitions all the same
    for i in range(700 if big else 130):
        n = rng.choice([3, 4, 5, 6, 7, 9, 12])
        yield [gen.random_model(rng, n, kind=rng.choice(["mdp", "mdp", "dtmc"]), D=gen.eps_denominator(rng, True), maxact=rng.choice([1, 2, 3]),
                                maxsucc=rng.choice([3, 3, 4]), selfloop=rng.choice([0, .2, .8]), sure=rng.choice([.3, .6, .8]))]
    for i in range(60 if big else 10):
        n = rng.choice([20, 30, 40] + ([80, 120] if big else []))
        yield [gen.random_model(rng, n, kind=rng.choice(["mdp", "dtmc"]), maxact=2, maxsucc=2,
                                local=rng.choice([None, 2, 3]), labels=False, sure=.6)]
    for i in range(48 if big else 16):
        yield [gen.large(rng)]


def hash_(s):
    return sum(ord(c) * 31 ** i for i, c in enumerate(s)) % 100003


def new(log, am, h="m", container="dok"):
    m = log.call("new", {"h": h, "m": lib.clean(am), "kind": am["kind"], "cont": container},
                 lambda: lib.build(am, container), lambda o: lib.proj_model(o, am["D"]))
    return m


def q_views(log, m, am, h="m"):
    D = am["D"]

    def succ():
        return [sorted([lib.as_int(d), lib.as_int(a), lib.enc(p, D, 2e-7)] for d, a, p in m.successors(s)) for s in range(am["n"])]

    def pred():
        return [sorted([lib.as_int(s), lib.as_int(a), lib.enc(p, D, 2e-7)] for s, a, p in m.predecessors(d)) for d in range(am["n"])]

    def acts():
        return [sorted(lib.as_int(a) for a in m.actions_by_state[s]) for s in range(am["n"])]
    log.call("succ", {"h": h}, succ, lambda r: r)
    log.call("pred", {"h": h}, pred, lambda r: r)
    log.call("acts", {"h": h}, acts, lambda r: r)


def q_graph(log, am, h="m", container="dok"):
    """The graph object by itself, asked for single actions (also unused ones)."""
    from switss.utils import Graph
    from bidict import bidict
    D = am["D"]
    acts = {r["a"] for r in am["rows"]}
    acts = sorted((acts if am["n"] < 50 else set(sorted(acts)[:2] + sorted(acts)[-2:])) | {0, 1, 9})

    def ask():
        g = Graph(lib.matrix_of(am, "dok"), bidict({(r["s"], r["a"]): i for i, r in enumerate(am["rows"])}))
        f = lambda q: [[sorted([lib.as_int(x), lib.as_int(b), lib.enc(p, D, 2e-7)] for x, b, p in q(s, a)) for s in range(am["n"])] for a in acts]
        return {"n": g.get_nodecount(), "succ": f(g.successors), "pred": f(g.predecessors)}
    log.call("gviews", {"h": h, "acts": acts}, ask, lambda r: r)


def q_reach(log, m, frm, mode, block, h="m", explicit=True):
    fn = (lambda: m.reachable_mask(set(frm), mode, set(block))) if explicit else (lambda: m.reachable_mask(set(frm), mode))
    log.call("reach", {"h": h, "from": sorted(frm), "dir": mode, "block": sorted(block)}, fn,
             lambda r: {"len": len(r), "on": [i for i in range(len(r)) if r[i]]})


def q_mec(log, m, h="m"):
    log.call("mec", {"h": h}, lambda: m.maximal_end_components(),
             lambda r: {"ix": [lib.as_int(x) for x in r[0]], "proper": [lib.as_int(x) for x in r[1]], "cnt": lib.as_int(r[2])})


def q_scc(log, m, h="m"):
    log.call("scc", {"h": h}, lambda: m.strongly_connected_components(),
             lambda r: {"ix": [lib.as_int(x) for x in r[0]], "cnt": lib.as_int(r[1])})


def snap(log, m, D, h="m"):
    log.call("snap", {"h": h}, lambda: m, lambda o: lib.proj_model(o, D))
