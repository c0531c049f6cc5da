from drivers import graphq as g
def cases(seed, tier):
    return g.models(seed, tier, "c04")
def run(case, log):
    for j, am in enumerate(case):
        h = "m%d" % j
        m = g.new(log, am, h)
        if m is None:
            continue
        g.q_mec(log, m, h)
        g.q_reach(log, m, {0}, "forward", set(), h)
        g.q_mec(log, m, h)
