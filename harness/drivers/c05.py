from drivers import graphq as g
def cases(seed, tier):
    return g.models(seed, tier, "c05")
def run(case, log):
    for j, am in enumerate(case):
        h = "m%d" % j
        m = g.new(log, am, h)
        if m is None:
            continue
        g.q_scc(log, m, h)
        g.q_mec(log, m, h)
        g.q_scc(log, m, h)
