"""C29: the treap as a set with an exact size."""
import json, os, random
import lib


def behaviours():
    path = os.path.join(os.environ["VERIF_SCRATCH"], "gen-C29.ndjson")
    if os.path.exists(path):
        for line in open(path):
            yield json.loads(line)["keys"]


def cases(seed, tier):
    rng = random.Random(seed * 1201 + 29)
    batch = []
    for b in behaviours():
        batch.append(b)
        if len(batch) == 16:
            yield ("spec", batch, rng.randrange(2 ** 31))
            batch = []
    if batch:
        yield ("spec", batch, rng.randrange(2 ** 31))
    for i in range(3000 if tier == "thorough" else 300):
        yield ("rand", [], rng.randrange(2 ** 31))


def keyset(rng):
    w = rng.choice(["small", "small", "dense", "wide", "neg", "asc", "desc", "dups"])
    n = rng.choice([1, 2, 3, 5, 8, 13, 30, 60] if rng.random() < .9 else [150, 400])
    if w == "small":
        return [rng.randrange(n) for _ in range(n + (n if n > 60 else 0))]
    if w == "dense":
        ks = list(range(n))
        rng.shuffle(ks)
        return ks
    if w == "wide":
        return [rng.randrange(2 ** 31 - 1) for _ in range(n)]
    if w == "neg":
        return [rng.randint(-n, n) for _ in range(n)] + [-2 ** 31, 2 ** 31 - 1][:rng.randint(0, 2)]
    if w == "asc":
        return list(range(n))
    if w == "desc":
        return list(range(n, 0, -1))
    return [rng.choice([3, 7, 7, 9, 1]) for _ in range(n)]


def run(case, log):
    import sys
    sys.path.insert(0, os.path.join(os.environ["VERIF_SCRATCH"], "probe"))
    import treap_probe
    rng = random.Random(case[2])
    seqs = case[1] if case[0] == "spec" else [keyset(rng) for _ in range(2)]
    for j, ks in enumerate(seqs):
        h = "t%d" % j
        p = treap_probe.Probe()
        p.seed(rng.randrange(2 ** 31))
        clamp = lambda k: max(-2 ** 31 + 1, min(2 ** 31 - 2, k))
        probes = sorted({clamp(k + d) for k in ks for d in (-1, 0, 1)})
        probes = sorted(rng.sample(probes, min(80, len(probes))))

        def look(full):
            log.call("tsize", {"h": h}, p.size, int)
            if full:
                log.call("thas", {"h": h, "ks": probes}, lambda: [p.has(k) for k in probes], lambda r: [x == 1 for x in r])
                log.call("tarr", {"h": h}, lambda: p.arr(rng.choice([0, 3])), lambda r: [int(x) for x in r])
        ks = [clamp(k) for k in ks]
        if case[0] == "rand" and rng.random() < .4:
            log.call("tnew", {"h": h, "keys": ks}, lambda: p.build(ks))
            look(True)
            ks = keyset(rng)[:10]
            ks = [clamp(k) for k in ks]
        else:
            log.call("tnew", {"h": h, "keys": []}, lambda: p.build([]) if rng.random() < .5 else None)
            look(True)
        for k in ks:
            log.call("tadd", {"h": h, "k": k}, lambda: p.add(k))
            look(case[0] == "spec" or rng.random() < (.3 if len(ks) <= 60 else .02))
        look(True)
        log.call("tdrop", {"h": h}, p.drop)
        look(True)
