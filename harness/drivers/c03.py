import random
from drivers import graphq as g
def cases(seed, tier):
    for i, b in enumerate(g.models(seed, tier, "c03")):
        yield (i, seed, b)
def run(case, log):
    i, seed, b = case
    rng = random.Random(seed * 7919 + i)
    for j, am in enumerate(b):
        h = "m%d" % j
        m = g.new(log, am, h)
        if m is None:
            continue
        n = am["n"]
        for mode in ("forward", "backward"):
            g.q_reach(log, m, {rng.randrange(n)}, mode, set(), h, explicit=False)
            for _ in range(4):
                frm = set(rng.sample(range(n), rng.randint(1, min(n, 3))))
                block = set(rng.sample(range(n), rng.randint(0, n)))
                g.q_reach(log, m, frm, mode, block, h)
            for frm in range(min(n, 4)):
                g.q_reach(log, m, {frm}, mode, {rng.randrange(n)}, h)
                g.q_reach(log, m, {frm}, mode, {frm}, h)
            log.call("reach", {"h": h, "from": [], "dir": mode, "block": []}, lambda: m.reachable_mask(set(), mode), lambda r: 0)
        log.call("reach", {"h": h, "from": [0], "dir": "sideways", "block": []}, lambda: m.reachable_mask({0}, "sideways"), lambda r: 0)
