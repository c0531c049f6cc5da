from drivers import graphq as g
def cases(seed, tier):
    return g.models(seed, tier, "c02")
def run(case, log):
    import lib
    for j, am in enumerate(case):
        h = "m%d" % j
        m = g.new(log, am, h, lib.CONTAINERS[(am["n"] + len(am["rows"])) % len(lib.CONTAINERS)])
        if m is None:
            continue
        g.q_views(log, m, am, h)
        g.q_views(log, m, am, h)
        if j % 3 == 0:
            g.q_graph(log, am, h)
        g.snap(log, m, am["D"], h)
