"""C25: the command line pipeline is faithful to the library."""
import contextlib, hashlib, io, json, os, random, re, runpy, subprocess, sys
from fractions import Fraction as F
from math import lcm
import numpy as np
import gen, lib, work, oracle, minim, values
from drivers import rfq
from drivers.c15 import random_freq
from drivers.c17 import pick_thr, rfq_ec


def cases(seed, tier):
    rng = random.Random(seed * 1327 + 25)
    for i in range(1500 if tier == "thorough" else 170):
        yield ("pipe", rng.randrange(2 ** 31))


def script():
    return os.path.join(os.environ["VERIF_REPO"], "bin", "switss")


class Failed(Exception):
    pass


def cli(args, outside=False):
    """Run the command line tool; returns what it printed."""
    args = [str(a) for a in args]
    if outside:
        r = subprocess.run([sys.executable, "-W", "ignore", script()] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=100)
        if r.returncode != 0:
            raise Failed("exit %d" % r.returncode)
        return r.stdout
    out = io.StringIO()
    old = sys.argv
    sys.argv = [script()] + args
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(script(), run_name="__main__")
    except SystemExit as e:
        if e.code not in (None, 0):
            raise Failed("exit %s" % e.code)
    finally:
        sys.argv = old
    return out.getvalue()


def digest(base):
    return [hashlib.sha256(open(base + x, "rb").read()).hexdigest() for x in (".tra", ".lab")]


def run(case, log):
    from switss.model import MDP, DTMC, ReachabilityForm
    rng = random.Random(case[1])
    outside = rng.random() < .04
    am = rfq.wide(rng, rng.choice([8, 12, 16, 24])) if rng.random() < .12 else rfq.rand_reducible(rng, n=rng.choice([2, 3, 4, 5, 6, 8]), D=rng.choice([2, 3, 4, 5, 6]), **({"kind": "mdp", "maxact": 1} if rng.random() < .15 else {}))
    kind = am["kind"]
    D = am["D"]
    cls = MDP if kind == "mdp" else DTMC
    il, tl = "init", "target"
    if rng.random() < .3:
        il, tl = "start here", "goal!"
        for r in am["lab"]:
            r["l"] = {"init": il, "target": tl}.get(r["l"], r["l"])
    m = work.new(log, am, "m0")
    if m is None:
        return
    loaded = work.save_load(log, m, am, "m0", "m", name="model")
    if loaded is None:
        return
    d = log.workdir
    base = os.path.join(d, "model")
    inputs = digest(base)

    # info and render
    bad = rng.random() < .1
    if rng.random() < .3:
        what = [kind, base + "-missing"] if bad else [kind, base]
        log.call("cliinfo", {"h": "m", "bad": bad}, lambda: cli(["info"] + what, outside), lambda o: {"inputs": digest(base) == inputs})
    if rng.random() < .5:
        render(rng, log, kind, base, am, "m", inputs, outside)

    # rf
    rtl, rfl = rng.choice([("rf_target", "rf_fail"), ("rf_target", "rf_fail"), ("T", "F"), ("goal state", "sink")])
    args = ["rf", kind, base]
    if il != "init" or rng.random() < .3:
        args += ["-i", il]
    if tl != "target" or rng.random() < .3:
        args += [rng.choice(["-t", "--target-label"]), tl]
    if rtl != "rf_target":
        args += ["-trf", rtl, "-frf", rfl]
    out = base + "-rf"
    if rng.random() < .5:
        out = os.path.join(d, "other")
        args += ["-o", out]
    a = {"h": "m", "to": "rf", "init": il, "target": tl, "tl": rtl, "fl": rfl}
    if rng.random() < .06:
        how = rng.choice(["nosuch", "nolabel", "collide"])
        b = dict(a, to="bad")
        x = list(args)
        if how == "nosuch":
            b["target"] = "no such label"
            x += ["-t", "no such label"]
        elif how == "nolabel":
            b["init"] = "no such label"
            x += ["-i", "no such label"]
        else:
            b["tl"] = il
            x += ["-trf", il]
        log.call("clirf", b, lambda: cli(x, outside), None)

    def rfproj(_):
        sys_ = cls.from_file(out + ".lab", out + ".tra")
        rf_ = ReachabilityForm(sys_, il, rtl, rfl)
        r = lib.proj_rf(rf_, D)
        mp = json.load(open(out + ".mapping.json"))
        if sorted(mp) != ["actions", "rfactions", "rfstates", "states"] or len({len(v) for v in mp.values()}) != 1:
            raise ValueError("mapping file")
        r["smap"] = sorted({(lib.as_int(p), lib.as_int(q)) for p, q in zip(mp["states"], mp["rfstates"])})
        r["smap"] = [list(x) for x in r["smap"]]
        r["amap"] = sorted([[lib.as_int(p), lib.as_int(q)], [lib.as_int(u), lib.as_int(v)]] for p, q, u, v in zip(mp["states"], mp["actions"], mp["rfstates"], mp["rfactions"]))
        r["inputs"] = digest(base) == inputs
        return r
    if log.call("clirf", a, lambda: cli(args, outside), rfproj) is None:
        return
    system = cls.from_file(out + ".lab", out + ".tra")
    rf = ReachabilityForm(system, il, rtl, rfl)
    if kind == "mdp" and rng.random() < .5:
        # the same form, its state-action pairs in another order
        rf = reorder(rng, log, out, cls, D, il, rtl, rfl)
        if rf is None:
            return
    rfin = digest(out)
    common = ["-i", il] if il != "init" else []
    common += ["-trf", rtl, "-frf", rfl] if rtl != "rf_target" else []
    if rng.random() < .3:
        render(rng, log, kind, out, lib.proj_model(system, D), "rfm", rfin, outside, bind=True)
    sc = minim.Scene(log, rf, "rf", D)
    if not sc.ok:
        return
    stored = []
    for mode in rng.sample(["min", "max"], 2):
        minimise(rng, log, sc, kind, out, common, mode, rfin, outside, stored, base)
    certify(rng, log, sc, kind, out, common, rfin, outside, stored)
    subsystem(rng, log, sc, kind, out, common, rfin, outside, stored, cls)


def reorder(rng, log, out, cls, D, il, rtl, rfl):
    blocks = {}
    header, *lines = open(out + ".tra").readlines()
    for line in lines:
        blocks.setdefault(tuple(line.split()[:2]), []).append(line)
    pairs = list(blocks)
    head = pairs[:-2]
    rng.shuffle(head)
    with open(out + ".tra", "w") as f:
        f.write(header)
        for p in head + pairs[-2:]:
            f.writelines(blocks[p])
    system = cls.from_file(out + ".lab", out + ".tra")
    am = lib.proj_model(system, D)
    log.note("new", {"h": "rfs", "m": lib.clean(am), "kind": "mdp", "cont": "file"}, dict(am))
    return work.rfgate(log, system, am, il, rtl, rfl, "rfs")


COLOURS = None


def render(rng, log, kind, base, am, h, inputs, outside, bind=False):
    from switss.utils import color_from_hash
    if bind:
        # the model in the file of the form
        log.note("new", {"h": h, "m": lib.clean(am), "kind": am["kind"], "cont": "file"}, dict(am))
    out = os.path.join(os.path.dirname(base), "picture")
    args = ["render", kind, base, "-o", out]
    n = am["n"]
    by = {}
    for r in am["lab"]:
        for s in r["s"]:
            by.setdefault(s, set()).add(r["l"])
    names = sorted({r["l"] for r in am["lab"] if r["s"]})
    cols, col = [], []
    if rng.random() < .6 and names:
        col = rng.sample(names, rng.randint(1, min(3, len(names))))
        args += ["-col", ",".join(col)]
        cols = [color_from_hash(tuple(sorted(by.get(s, set()) & set(col)))) for s in range(n)]
        # names of the same colour
        cols = [re.sub("1$", "", c).replace("grey", "gray") for c in cols]

    def proj(_):
        svg = open(out + ".svg", encoding="utf-8").read()
        fills = []
        for g in re.split(r'<g id="node', svg)[1:]:
            t = re.search(r"<title>(.*?)</title>", g, re.S).group(1)
            t = t.replace("&#45;", "-")
            if "-" not in t:
                fills.append([int(t), re.search(r'<ellipse fill="([^"]*)"', g).group(1)])
        return {"nodes": svg.count('class="node"'), "edges": svg.count('class="edge"'), "fills": sorted(fills), "inputs": digest(base) == inputs}
    log.call("clirender", {"h": h, "col": col, "cols": cols}, lambda: cli(args, outside), proj)


def minimise(rng, log, sc, kind, out, common, mode, inputs, outside, stored, base):
    from switss import problem as p
    rf, D = sc.rf, sc.D
    try:
        v = sc.init_value(mode, sc.all())
    except ZeroDivisionError:
        return
    h = sc.hint(mode, sc.all())
    if h is None:
        return
    for k in range(2):
        thr = pick_thr(rng, [float(v) * 100], float(v) * 100 if rng.random() < .8 else 100)
        if thr is None or thr > 100:
            continue
        exact = rng.random() < .3 and not (mode == "max" and rfq_ec(sc)) and sc.n <= 8
        par, kw = [], {}
        if not exact:
            it = rng.choice([None, 1, 2, 4, 4, rng.choice([10, 12, 20])])
            if it:
                par.append("iterations=%d" % it)
                kw["iterations"] = it
            ini = rng.choice([None, "AllOnesInitializer", "InverseFrequencyInitializer", "InverseReachabilityInitializer"])
            if ini:
                par.append("initializertype=" + ini)
                kw["initializertype"] = getattr(p, ini)
            if rng.random() < .3:
                par.append("updatertype=InverseResultUpdater")
                kw["updatertype"] = p.InverseResultUpdater
        if rng.random() < .2:
            par.append("solver=cbc")
            kw["solver"] = "cbc"
        par.append("mode=" + mode)
        rng.shuffle(par)
        t = str(thr / 100)
        sp, skw = ["threshold=" + t], {}
        names = sorted(r["l"] for r in sc.am["lab"] if "," not in r["l"] and "=" not in r["l"] and any(s < sc.n for s in r["s"]))
        bylabel = rng.random() < .2 and names
        if bylabel:
            skw["labels"] = rng.sample(names, rng.randint(1, min(3, len(names))))
            sp.append("labels=" + ",".join(skw["labels"]))
        if rng.random() < .1:
            sp.append("timeout=120")
            skw["timeout"] = 120
        rng.shuffle(sp)
        it = rng.random() < .6
        bad = False
        args = ["minimize", kind, out] + common
        if rng.random() < .08:
            bad = True
            how = rng.choice(["mode", "nothr", "method", "init", "nosolve", "nomethod"])
            if how == "mode":
                par = [x for x in par if not x.startswith("mode")] + rng.choice([[], ["mode=both"]])
            elif how == "nothr":
                sp = []
            elif how == "method":
                exact = None
            else:
                args += ["-i", "no such label"]
        if not bad or how != "nomethod":
            args += ["-m", {True: "MILPExact", False: "QSHeur", None: "Guess"}[exact]] + par
        if not bad or how != "nosolve":
            args += [rng.choice(["-si", "--solve-iter"]) if it else rng.choice(["-s", "--solve"])] + sp
        cert = out + ".certificates.json"
        if rng.random() < .5:
            cert = os.path.join(log.workdir, "cert-%s-%d.json" % (mode, k))
            args += ["-c", cert]
        if rng.random() < .2:
            args += ["-tol", "1e-4"]
        ref = []
        if not bad:
            method = (p.MILPExact if exact else p.QSHeur)(**kw)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    for x in method.solveiter(rf, float(t), mode, **skw):
                        ok = x.status == "success"
                        ref.append({"ok": ok, "mask": [i for i in range(sc.n) if x.subsystem.subsystem_mask[i]] if ok else []})
            except AssertionError:
                # not a request the library serves
                bad = True

        def proj(text):
            info = json.load(open(cert))
            res = []
            for x in info["instances"]:
                vec = np.array(x["certificate"], dtype=float)
                q = values.qy_for(vec, D, 4)
                if mode == "min":
                    mask = [i for i in range(len(vec)) if vec[i] > 0]
                else:
                    ix = rf.system.index_by_state_action.inv
                    mask = sorted({lib.as_int(ix[i][0]) for i in range(len(vec)) if vec[i] > 0})
                res.append({"it": lib.as_int(x["iteration"]), "thr": lib.enc(x["threshold"], 100), "q": q, "v": lib.fixv(vec, q), "mask": mask})
            return {"res": res, "mode": str(info["method"]["mode"]), "said": said(text), "inputs": digest(out) == inputs}
        a = {"h": "rf", "mode": mode, "thr": thr, "iter": it, "hint": h, "bad": bad, "ref": ref, "cmd": args[3:]}
        if log.call("climin", a, lambda: cli(args, outside), proj) is not None:
            stored.append((mode, cert, thr))
        elif bad:
            pass


def said(text):
    return [w == "VALID" for w in re.findall(r"\b(VALID|INVALID)\b", text)]


def certify(rng, log, sc, kind, out, common, inputs, outside, stored):
    am, n, D = sc.am, sc.n, sc.D
    C = len(am["rows"]) - 2
    init = sc.init
    prmin = oracle.pr(am, [n], list(range(n)), "min")[:n]
    for mode in rng.sample(["min", "max"], 2):
        cand = [prmin, [F(0)] * n] if mode == "min" else [[F(0)] * C]
        if mode == "max":
            for _ in range(3):
                y = random_freq(rng, am, init)
                if y is not None:
                    cand.append(y)
        insts = []
        td = rng.choice([100000, 100000, 10 ** 7, 1000, 100])
        fine = rng.choice([0, min(td, 10 ** 5)])
        for _ in range(rng.choice([0, 1, 2, 4, 12])):
            b = rng.choice(cand)
            W = 1
            for x in b:
                W = lcm(W, x.denominator)
            W *= rng.choice([1, 2, 4])
            if fine:
                W *= -(-8 * fine // W)
            if W * D > (5 * 10 ** 6 if fine else 5000) or max(b) * W * D > 3 * 10 ** 8 or max(b) > 100:
                continue
            vec = [int(x * W) for x in b]
            for _ in range(rng.choice([0, 0, 1])):
                i = rng.randrange(len(vec))
                vec[i] += rng.choice([1, -1, W, max(1, 2 * W // td)])
            if mode == "min":
                c = F(vec[init])
            else:
                c = sum((F(dict(map(tuple, r["t"])).get(n, 0), D) * y for r, y in zip(am["rows"], vec)), F(0))
            thr = max(0, min(W, int(np.floor(float(c))) + rng.choice([0, 0, 0, 1, -1])))
            insts.append({"vec": vec, "w": W, "thr": thr, "tl": td})
        bad = False
        if insts and rng.random() < .08:
            bad = True
            insts = insts[:1]
            insts[0]["vec"] = insts[0]["vec"] + [0]
        path = os.path.join(log.workdir, "given.json")
        with open(path, "w") as f:
            json.dump({"method": {"type": "QSHeur", "mode": mode},
                       "instances": [{"iteration": i, "threshold": x["thr"] / x["w"], "certificate": [v / x["w"] for v in x["vec"]]} for i, x in enumerate(insts)]}, f)
        args = ["certify", kind, out] + common + ["-c", path]
        if td != 100000 or rng.random() < .2:
            args += [rng.choice(["-tol", "--tolerance"]), {100000: "1e-5", 10 ** 7: "1e-7", 1000: "0.001", 100: "1e-2"}[td]]
        log.call("clicert", {"h": "rf", "mode": mode, "insts": insts, "bad": bad}, lambda: cli(args, outside),
                 lambda t: {"said": said(t), "inputs": digest(out) == inputs})


def subsystem(rng, log, sc, kind, out, common, inputs, outside, stored, cls):
    am, n, D = sc.am, sc.n, sc.D
    C = len(am["rows"]) - 2
    for mode in rng.sample(["min", "max"], 2):
        size = n if mode == "min" else C
        k = rng.choice([0, 1, 2, 3, 3, 12])
        pats = [[rng.random() < q for _ in range(size)] for q in [rng.choice([0, .3, .6, .9, 1]) for _ in range(k)]]
        # numbers of iterations need not be consecutive
        its = sorted(rng.sample(range(8 if k < 8 else 30), k))
        path = os.path.join(log.workdir, "chosen.json")
        with open(path, "w") as f:
            json.dump({"method": {"type": "QSHeur", "mode": mode}, "instances": [
                {"iteration": i, "threshold": rng.choice([.25, 1, 0.5, 0]), "certificate": [rng.choice([1.0, 1e-9, .5]) if p else 0.0 for p in pat]} for i, pat in zip(its, pats)]}, f)
        args = ["subsystem", kind, out] + common + ["-c", path]
        label = "subsystem"
        if rng.random() < .4:
            label = rng.choice(["in it", "sub", am["lab"][0]["l"]])
            args += [rng.choice(["-sl", "--subsys-label"]), label]
        dest = out + "-subsys"
        if rng.random() < .5:
            dest = os.path.join(log.workdir, "result")
            args += ["-o", dest]
        bad = False
        if rng.random() < .05:
            bad = True
            args = [a for a in args if a not in ("-c", path)]
        for f in os.listdir(log.workdir):
            if f.startswith(os.path.basename(dest) + "-"):
                os.remove(os.path.join(log.workdir, f))

        def proj(_):
            return {"ms": [lib.proj_model(cls.from_file("%s-%d.lab" % (dest, i), "%s-%d.tra" % (dest, i)), D) for i in its],
                    "inputs": digest(out) == inputs}
        log.call("clisub", {"h": "rf", "mode": mode, "pos": [[i + 1 for i in range(size) if pat[i]] for pat in pats], "label": label, "bad": bad},
                 lambda: cli(args, outside), proj)
