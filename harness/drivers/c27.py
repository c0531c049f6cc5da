"""C27: benchmark runs record what each method returned for each threshold."""
import json, os, random, time
import numpy as np
import gen, lib

U = 10000


def cases(seed, tier):
    rng = random.Random(seed * 1217 + 27)
    for k in ("beyond", "above-one", "mode-string"):
        yield (k, 1)
    for i in range(6000 if tier == "thorough" else 480):
        yield ("stub", rng.randrange(2 ** 31))
    for i in range(240 if tier == "thorough" else 24):
        yield ("real", rng.randrange(2 ** 31))


def small_rf(rng, log):
    am = {"n": 4, "D": 4, "rows": [{"s": 0, "a": 0, "t": [[1, 2], [2, 1], [3, 1]]}, {"s": 1, "a": 0, "t": [[2, 3], [3, 1]]},
                                    {"s": 2, "a": 0, "t": [[2, 4]]}, {"s": 3, "a": 0, "t": [[3, 4]]}],
          "lab": [{"l": "init", "s": [0]}, {"l": "target", "s": [2]}], "alab": [], "rew": [], "kind": "dtmc"}
    return lib.rf_of(log, am)[0]


def rng_range(rng):
    step = rng.choice([100, 500, 900, 1000, 1250, 2000, 2500, 3000, 700, 1])
    if step == 1:
        f = rng.randint(1, 9990)
        return f, min(U, f + rng.randint(0, 12)), 1
    f = rng.choice([step, step, rng.randint(1, 9999), 100, 1900])
    t = rng.choice([U, f, min(U, f + step * rng.randint(0, 6)), min(U, f + step * rng.randint(0, 6)), rng.randint(f, U)])
    if (t - f) // step > 60:
        t = f + step * 60
    return f, t, step


def run(case, log):
    rng = random.Random(case[1])
    if case[0] in ("beyond", "above-one", "mode-string"):
        return stub(rng, log, case[0])
    (stub if case[0] == "stub" else real)(rng, log)


def known_input(f, t, s):
    """Inputs whose rounding gives one threshold too many (known-findings.json)."""
    got = np.arange(f / U, min(1, t / U + s / U), s / U)
    if len(got) and got[-1] > 1:
        return "above-one"
    exact = numgrid(f, t, s)
    return "beyond" if len(got) > exact else ""


def numgrid(f, t, s):
    return len(range(f, t + 1, s))


def perform(rng, log, rf, mets, modes, outs, f, t, s, stop, single, kw, calls, args, waits, data_names, known=None):
    from switss import benchmarks
    d = log.fresh_dir()
    js = rng.random() < .4
    call = dict(kw)
    if js:
        call["json_dir"] = rng.choice([str, lambda x: __import__("pathlib").Path(x)])(d)
    if not stop or rng.random() < .3:
        call["stop_on_timeout"] = stop
    if f != 10 or rng.random() < .5:
        call["from_thr"] = f / U
    if t != U or rng.random() < .5:
        call["to_thr"] = t / U
    if rng.random() < .2:
        call["debug"] = True
    call["step"] = s / U
    combos = [[m.name, mo] for m in mets for mo in modes]
    a = {"from": f, "to": t, "step": s, "stop": stop, "list": not single, "combos": combos, "outs": outs, "json": [],
         "labels": str(kw.get("labels")), "timeout": str(kw.get("timeout"))}
    if js:
        a["json"] = ["equal"] * len(combos)
    me = mets[0] if single else rng.choice([list, tuple])(mets)
    mo = modes[0] if (single or known == "mode-string" or (len(modes) == 1 and rng.random() < .5)) else rng.choice([list, tuple])(modes)
    tag = known_input(f, t, s)
    if not single and isinstance(mo, str):
        tag = "mode-string"
    if tag:
        a["tag"] = tag

    def proj(ret):
        runs = [ret] if isinstance(ret, dict) else list(ret)
        o = {"runs": [], "calls": [[lib.enc(x, U) for x in c] for c in calls], "args": args, "list": not isinstance(ret, dict), "json": []}
        o["calls"] += [[]] * (len(runs) - len(calls))
        o["args"] = o["args"] + [[]] * (len(runs) - len(args))
        for j, r in enumerate(runs):
            rows = [{"thr": lib.enc(x["threshold"], U), "vals": [lib.as_int(v) for v in x["value"]], "wall": [lib.fix(v, 10 ** 6) for v in x["wall_times"]],
                     "proc": [lib.fix(v, 10 ** 6) for v in x["proc_times"]]} for x in r["run"]]
            # the stub slept: waits[j] = {(row, iteration): microseconds}
            wait = [[w, rows[i]["wall"][q]] for (i, q), w in (waits[j] if j < len(waits) else {}).items() if i < len(rows) and q < len(rows[i]["wall"])]
            o["runs"].append({"rows": rows, "mode": str(r["mode"]), "method": data_names(r["method"]), "wait": wait})
            if js:
                m = mets[j // len(modes)]
                p = os.path.join(d, "%s-%s.json" % (m, r["mode"]))
                try:
                    same = json.load(open(p)) == json.loads(json.dumps(r))
                    o["json"].append("equal" if same else "differs")
                except Exception as e:
                    o["json"].append(type(e).__name__)
        return o
    return log.call("bench", a, lambda: benchmarks.run(rf, me, mo, **call), proj)


def stub(rng, log, known=None):
    from switss.problem import ProblemFormulation, ProblemResult
    rf = small_rf(rng, log)
    single = rng.random() < .6 if known is None else known != "mode-string"
    f, t, s = rng_range(rng) if known is None else {"beyond": (1900, 9100, 900), "above-one": (1000, U, 3000)}.get(known, (2000, 6000, 1000))
    n = numgrid(f, t, s)
    if n > 30:
        t = f + 30 * s
        n = 31
    stop = rng.random() < .6
    calls, args, waits = [], [], []
    fails = rng.choice([0, .05, .2]) if known is None else 0
    style = rng.choice(["fixed", "fixed", "varying"])
    k0 = rng.choice([1, 1, 2, 3, 5])

    def script():
        out = []
        for _ in range(n + 1):
            k = k0 if style == "fixed" else rng.randint(1, 4)
            row = []
            for _ in range(k):
                r = rng.random()
                if r < fails:
                    row.append({"s": rng.choice(["notsolved", "undefined", "unbounded", "infeasible", "infeasible"]), "v": 0})
                else:
                    row.append({"s": "success", "v": rng.randint(0, 5000)})
            out.append(row)
        return out

    class Stub(ProblemFormulation):
        def __init__(self, name):
            super().__init__()
            self.name = name

        @property
        def details(self):
            return {"type": self.name, "solver": "none"}

        def _solveiter(self, reach_form, threshold, mode, labels, timeout=None):
            j = names.index([self.name, mode])
            while len(calls) <= j:
                calls.append([]); args.append([]); waits.append({})
            i = len(calls[j])
            calls[j].append(float(threshold))
            args[j].append([str(mode), str(labels), str(timeout)])
            if reach_form is not rf:
                args[j].append(["other form", "", ""])
            started = time.perf_counter()
            for q, o in enumerate(outs[j][i] if i < len(outs[j]) else []):
                if rng.random() < .02:
                    time.sleep(.002)
                waits[j][(i, q)] = int((time.perf_counter() - started) * 10 ** 6)
                yield ProblemResult(o["s"], None, o["v"] if o["s"] == "success" else None, None)

    mets = [Stub("A")] if single else [Stub(c) for c in rng.sample(["A", "B", "C"], rng.randint(1, 3))]
    modes = [rng.choice(["min", "max"])] if single else rng.choice([["min"], ["max"], ["min", "max"], ["max", "min"]])
    names = [[m.name, mo] for m in mets for mo in modes]
    outs = [script() for _ in names]
    kw = {}
    if rng.random() < .3:
        kw["labels"] = rng.choice([["x"], ["a", "b"]])
    if rng.random() < .3:
        kw["timeout"] = rng.choice([1, 60])
    data = perform(rng, log, rf, mets, modes, outs, f, t, s, stop, single, kw, calls, args, waits, lambda m: str(m["type"]), known)
    if data is None:
        return
    for r in ([data] if single else data)[:1]:
        if r["run"] and len({len(x["value"]) for x in r["run"]}) == 1:
            plot(rng, log, r)


def plot(rng, log, r):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from switss import benchmarks
    import copy
    n = len(r["run"][0]["value"])
    mode = rng.choice(["states-thr", "laststates-thr", None, "wall_time-thr", "proc_time-thr"])
    timed = mode is not None and "time" in mode
    if timed:
        # times that can be told apart: thousandths of seconds, -1 for none
        r = copy.deepcopy(r)
        for x in r["run"]:
            for k in ("wall_times", "proc_times"):
                x[k] = [rng.choice([-1, 0, 1, .5, 1.001, rng.randrange(1000) / 1000, rng.randrange(10 ** 6) / 1000]) for _ in range(n)]
    of = "proc_times" if mode == "proc_time-thr" else "wall_times"
    rows = [{"thr": lib.enc(x["threshold"], U), "vals": [int(v) for v in x["value"]], "times": [round(t * 1000) for t in x[of]] if timed else []} for x in r["run"]]
    norm = rng.random() < .5
    sol = rng.choice([[], [], sorted(rng.sample(range(n), rng.randint(1, n)))])
    tv = rng.choice([[], [7777]])
    kw = {"normalize": norm}
    if mode:
        kw["mode"] = mode
    if sol:
        kw["sol_range"] = sol
    if tv:
        kw["timeout_val"] = tv[0]
    name, title = str(r["method"]["type"]), ""
    if rng.random() < .5:
        kw["custom_label"] = name = rng.choice(["mine", "a b"])
    if rng.random() < .3:
        kw["title"] = title = "the title"
    cap = True
    if rng.random() < .5:
        kw["cap_times_below_onesec"] = cap = rng.random() < .5
    kw.update(rng.choice([{}, {}, {"plot_no": rng.randint(1, 3)}, {"e_mode": True}, {"markers": ["o"]}, {"markersize": 3, "linewidth": 2}]))
    fig, ax = plt.subplots()
    own = rng.random() < .8
    if own:
        kw["ax"] = ax
    before = copy.deepcopy(r)
    log.call("plot", {"rows": rows, "mode": mode or "laststates-thr", "norm": norm, "sol": sol, "tv": tv, "cap": cap, "name": name},
             lambda: benchmarks.render(r, **kw),
             lambda x: {"lines": [[[lib.enc(p, U), lib.enc(q, 1000)] for p, q in zip(l.get_xdata(), l.get_ydata())] for l in x.get_lines()],
                        "labels": [[name in str(l.get_label()), str(l.get_label())] for l in x.get_lines()],
                        "kept": r == before, "ax": x is ax or not own, "title": title == "" or x.get_title() == title})
    plt.close("all")


def real(rng, log):
    """Real methods: the recorded values are those the method returned."""
    from switss.problem import QSHeur, MILPExact
    from switss import problem as p
    from drivers import rfq
    am = rfq.rand_reducible(rng, n=rng.choice([3, 4, 5, 6]))
    rf = lib.rf_of(log, am)[0]
    if rf is None:
        return
    f, t, s = rng.choice([(1000, 9000, 2000), (2500, U, 2500), (500, 3000, 500), (3000, U, 3000)])
    outs, calls, args = [], [], []

    def recording(cls):
        class Rec(cls):
            name = cls.__name__

            def solveiter(self, rf_, threshold, mode, labels=None, timeout=None):
                key = [self.name, mode]
                if not seen or seen[-1] != key:
                    seen.append(key); outs.append([]); calls.append([]); args.append([])
                calls[-1].append(float(threshold))
                args[-1].append([str(mode), str(labels), str(timeout)])
                outs[-1].append([])
                for x in super().solveiter(rf_, threshold, mode, labels=labels, timeout=timeout):
                    outs[-1][-1].append({"s": x.status, "v": int(x.value) if x.status == "success" else 0})
                    yield x
        Rec.__name__ = cls.__name__
        return Rec
    seen = []
    mets = []
    for cls in rng.choice([[QSHeur], [MILPExact], [QSHeur, MILPExact]]):
        mets.append(recording(cls)(iterations=rng.choice([1, 2, 3]), initializertype=rng.choice([p.AllOnesInitializer, p.InverseReachabilityInitializer]),
                                   updatertype=rng.choice([p.InverseResultUpdater, p.InverseResultFixedZerosUpdater])) if cls is QSHeur else recording(cls)())
    modes = rng.choice([["min"], ["min", "max"]]) if all(m.name == "QSHeur" for m in mets) else ["min"]
    single = len(mets) == 1 and len(modes) == 1 and rng.random() < .5
    kw = {"labels": rng.choice([["init", "target", "rf_target"], None])}
    if kw["labels"] is None:
        kw = {}
    n = numgrid(f, t, s)

    class Outs(list):
        pass
    data = perform(rng, log, rf, mets, modes, outs, f, t, s, True, single, kw, calls, args, [], lambda m: str(m["type"]))
    # thresholds that were not run have no outcomes
    for o in log.events[-1]["a"]["outs"]:
        o += [[] for _ in range(n + 1 - len(o))]
    while len(outs) < len(mets) * len(modes):
        outs.append([[] for _ in range(n + 1)])
    if data is not None and single and data["run"] and len({len(x["value"]) for x in data["run"]}) == 1:
        plot(rng, log, data)
