"""C26: imported PRISM and stormpy models equal their source."""
import copy, json, os, random, re, shutil
import gen, lib, work

NAMES = ["deadlock", "init", "goal", "a", "x_1", "L10", "safe", "b2"]
TEXTS = ["mdp\n\nconst int N;\nmodule m\n  s : [0..9] init 0;\n  [go] s<9 -> 0.5:(s'=s+1) + 0.5:(s'=0);\nendmodule\n",
         "dtmc\n// a comment: \"quoted\"\nconst double p;\nmodule m\n\tx:bool init false;\n\t[] !x -> p:(x'=true) + 1-p:true;\nendmodule\nlabel \"done\" = x;\n",
         "mdp // caf\u00e9\nmodule m\n a : [0..3];\n [] true -> (a'=0);\nendmodule\nrewards \"r\"\n true : 1;\nendrewards\n"]


def cases(seed, tier):
    rng = random.Random(seed * 1409 + 26)
    for i in range(2500 if tier == "thorough" else 300):
        yield ("prism", rng.randrange(2 ** 31))
    for i in range(2500 if tier == "thorough" else 300):
        yield ("storm", rng.randrange(2 ** 31))


def model(rng, storm):
    """A model as the other tool has it: actions numbered from 0 per state, choices in order."""
    kind = rng.choice(["mdp", "mdp", "dtmc"])
    n = rng.choice([1, 2, 3, 4, 6, 9, 13])
    am = gen.random_model(rng, n, kind=kind, D=rng.choice([None, 3, 7, 97, 1000, gen.eps_denominator(rng)]), sparse_actions=False, permute=False, labels=False)
    if rng.random() < .08:
        am = gen.large(rng, rng.choice([30, 64, 130]), kind, labels=False)
        n = am["n"]
    names_, many = NAMES, rng.random() < .1
    if many:
        names_ = NAMES + ["l%d" % i for i in range(12)]
    k = {}
    for r in sorted(am["rows"], key=lambda r: (r["s"], r["a"])):
        r["a"] = k.get(r["s"], 0)
        k[r["s"]] = r["a"] + 1
    am["rows"].sort(key=lambda r: (r["s"], r["a"]))
    for l in rng.sample(names_, 15 if many else rng.randint(1 if not storm else 0, 6)):
        gen.setlab(am, l, rng.sample(range(n), rng.randint(1 if storm else 0, n)))
    if storm and rng.random() < .2:
        gen.setlab(am, rng.choice(["state", "choice"]), rng.sample(range(n), rng.randint(1, n)))
    if kind == "mdp":
        pairs = [[r["s"], r["a"]] for r in am["rows"]]
        if storm:
            for l in rng.sample(["go", "stay", "a", "tau x", "goal", "choice"], rng.randint(0, 4)):
                am["alab"].append({"l": l, "sa": sorted(rng.sample(pairs, rng.randint(1, len(pairs))))})
        else:
            names = rng.sample(["go", "stay", "a_1", "tau"], rng.randint(1, 4)) + [None]
            by = {}
            for p in pairs:
                l = rng.choice(names)
                if l:
                    by.setdefault(l, []).append(p)
            am["alab"] = [{"l": l, "sa": sorted(ps)} for l, ps in sorted(by.items())]
    return am


# ---------------------------------------------------------------- PRISM
def export(rng, am):
    """The explicit files PRISM writes for the model."""
    D = am["D"]
    spell = rng.choice(["%.17g".__mod__, repr, "%.15g".__mod__])
    P = lib.matrix_of(am)
    num = lambda i, d: spell(float(P[i, d]))
    act = {tuple(p): r["l"] for r in am["alab"] for p in r["sa"]}
    nt = sum(len(r["t"]) for r in am["rows"])
    if am["kind"] == "mdp":
        tra = ["%d %d %d" % (am["n"], len(am["rows"]), nt)]
        for i, r in enumerate(am["rows"]):
            l = act.get((r["s"], r["a"]))
            tra += ["%d %d %d %s%s" % (r["s"], r["a"], d, num(i, d), " " + l if l else "") for d, k in r["t"]]
    else:
        tra = ["%d %d" % (am["n"], nt)] + ["%d %d %s" % (r["s"], d, num(i, d)) for i, r in enumerate(am["rows"]) for d, k in r["t"]]
    names = [r["l"] for r in am["lab"]]
    lab = [" ".join('%d="%s"' % (i, l) for i, l in enumerate(names))]
    for s in range(am["n"]):
        ids = [i for i, r in enumerate(am["lab"]) if s in r["s"]]
        if ids:
            lab.append("%d: %s" % (s, " ".join(map(str, ids))))
    sta = ["(s)"] + ["%d:(%d)" % (s, s) for s in range(am["n"])]
    end = lambda x: "\n".join(x) + "\n"
    return {"tra": end(tra), "lab": end(lab), "sta": end(sta)}


def lines(text):
    return [l.rstrip() for l in re.split(r"\r?\n", text) if l.strip()]


DECL = re.compile(r'^\s*label\s+"(.*?)"\s*=\s*(.*?)\s*;\s*$')


def number(text):
    """One text for all spellings of a number."""
    try:
        return str(int(text))
    except ValueError:
        try:
            return repr(float(text))
        except ValueError:
            return text


def handed(path, extra):
    """What each call handed to PRISM, in the terms of the specification."""
    out = []
    if not os.path.exists(path):
        return out
    for l in open(path):
        rec = json.loads(l)
        ls = lines(rec["model"] or "")
        tail = []
        while ls and len(tail) < extra and DECL.match(ls[-1]):
            tail.insert(0, list(DECL.match(ls.pop()).groups()))
        out.append({"text": ls, "labels": tail, "consts": [[x[0], number(x[1])] for x in (c.replace(" ", "").split("=", 1) for c in rec["consts"])],
                    "export": "tra" in rec["out"] and "lab" in rec["out"]})
    return out


def prism(rng, log):
    from switss.model import MDP, DTMC
    from switss.prism.prism import prism_to_tra, parse_label_file
    am = model(rng, False)
    cls = MDP if am["kind"] == "mdp" else DTMC
    work_dir = log.fresh_dir()
    base = os.path.join(work_dir, rng.choice(["a", "with space", "\u00e9", "x,y"]))
    bindir = os.path.join(work_dir, "bin")
    os.makedirs(base)
    os.makedirs(bindir)
    fault = rng.choice(["", "", "", "", "", "exit", "noisy", "signal", "nothing", "partial", "late", "missing"])
    files = export(rng, am)
    json.dump(dict(files, fault=fault, code=rng.choice([1, 1, 2, 127, 255])), open(os.path.join(bindir, "plan.json"), "w"))
    shutil.copy(os.path.join(os.path.dirname(os.path.abspath(lib.__file__)), "fakeprism.py"), bindir)
    if fault != "missing":
        exe = os.path.join(bindir, "prism")
        open(exe, "w").write("#!/bin/sh\nexec /usr/bin/python3 -S -E \"$(dirname \"$0\")/fakeprism.py\" \"$@\"\n")
        os.chmod(exe, 0o755)
    text = rng.choice(TEXTS)
    how = rng.random()
    if how < .2:
        text = text.rstrip("\n")
    elif how < .4:
        text = text.rstrip("\n") + rng.choice(["\n// the end", " // the end", "\n\n", "\r\n"])
    if rng.random() < .15:
        text = text.replace("\n", "\r\n")
    path = os.path.join(base, rng.choice(["m.pm", "m.nm", "model"]))
    with open(path, "w", newline="", encoding="utf-8") as f:
        f.write(text)
    cs = [("N", 4), ("p", "0.25"), ("K", 0), ("eps", 0.125), ("flag", "true"), ("N2", 12), ("delta", 0.1234567890123), ("tiny", 1e-7), ("big", 12345678901)]
    cs += [("c%d" % i, i) for i in range(8)]
    consts = rng.sample(cs, rng.choice([0, 0, 1, 1, 2, 3, 9, 17]))
    ls = [("lx", "s=1"), ("ly", "s>0 & (x | !y)"), ("done2", "a=3|a=2"), ("l_3", "true"), ("l4", "s=N-1")]
    ls += [("m%d" % i, "s=%d" % i) for i in range(9)]
    extra = rng.sample(ls, rng.choice([0, 0, 1, 2, 3, 5, 8, 14]))
    form = rng.choice([dict, list])
    pc, el = form(consts), form(extra)
    args = [path] if not consts and not extra and rng.random() < .5 else [path, pc] if not extra and rng.random() < .5 else [path, pc, el]
    tra_dest = None
    if rng.random() < .25:
        tra_dest = os.path.join(base, rng.choice(["out", "out.v1"]))
    seen = open(path, "rb").read()
    before = copy.deepcopy((pc, el))
    old = os.environ["PATH"]
    calls = os.path.join(bindir, "calls.ndjson")

    def go():
        err, got, said, cover = "", [], False, False
        os.environ["PATH"] = bindir + os.pathsep + old
        try:
            if tra_dest is None:
                got = [lib.proj_model(cls.from_prism_model(*args), am["D"])]
            else:
                said = bool(prism_to_tra(args[0], tra_dest, *args[1:]))
                cover = all(os.path.exists(tra_dest + x) for x in (".tra", ".lab"))
        except (Exception, SystemExit) as e:
            err = type(e).__name__
        finally:
            os.environ["PATH"] = old
        return {"err": err, "got": got, "said": said, "files": cover, "calls": handed(calls, len(extra)),
                "kept": open(path, "rb").read() == seen and (pc, el) == before}
    a = {"text": lines(text), "labels": [list(x) for x in extra], "consts": [[c, number(str(v))] for c, v in consts], "m": lib.clean(am), "fault": fault, "to": "p"}
    log.call("prism" if tra_dest is None else "prtra", a, go, lambda r: r)
    # the label file on its own
    labpath = os.path.join(base, "alone.lab")
    open(labpath, "w").write(files["lab"])
    log.call("prlab", {"m": lib.clean(am), "names": [r["l"] for r in am["lab"]]}, lambda: parse_label_file(labpath),
             lambda r: {"bylab": [[str(l), sorted(int(s) for s in ss)] for l, ss in r[0].items()],
                        "bystate": [[int(s), sorted(str(l) for l in x)] for s, x in r[1].items()],
                        "byid": [[int(i), str(l)] for i, l in r[2].items()]})


# ---------------------------------------------------------------- stormpy
class Thing:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Seq:
    """A collection that can be walked, measured and indexed."""
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)

    def __len__(self):
        return len(self.xs)

    def __getitem__(self, i):
        return self.xs[i]


class Trans:
    def __init__(self, column, v):
        self.column, self.v = column, v

    def value(self):
        return self.v


def stub(rng, am):
    """A model with the interface of stormpy's sparse models."""
    D = am["D"]
    first, states, c = {}, [], 0
    P = lib.matrix_of(am)
    for s in range(am["n"]):
        first[s] = c
        acts = []
        for r in [r for r in am["rows"] if r["s"] == s]:
            acts.append(Thing(id=r["a"], transitions=Seq([Trans(d, float(P[c, d])) for d, k in r["t"]])))
            c += 1
        states.append(Thing(id=s, actions=Seq(acts)))
    row = {(r["s"], r["a"]): i for i, r in enumerate(am["rows"])}
    sl = lambda s: {r["l"] for r in am["lab"] if s in r["s"]}
    pair = {i: [r["s"], r["a"]] for i, r in enumerate(am["rows"])}
    cl = lambda i: {r["l"] for r in am["alab"] if pair[i] in r["sa"]}
    return Thing(nr_states=am["n"], nr_choices=len(am["rows"]), nr_transitions=sum(len(r["t"]) for r in am["rows"]), states=Seq(states),
                 labeling=Thing(get_labels_of_state=sl, get_labels=lambda: {r["l"] for r in am["lab"]}),
                 choice_labeling=Thing(get_labels_of_choice=cl, get_labels=lambda: {r["l"] for r in am["alab"]}),
                 has_choice_labeling=lambda: True, get_choice_index=lambda s, a: row[(int(s), int(a))],
                 initial_states=[0], get_nr_available_actions=lambda s: len(states[s].actions))


def storm(rng, log):
    from switss.model import MDP, DTMC
    am = model(rng, True)
    cls = MDP if am["kind"] == "mdp" else DTMC
    sm = stub(rng, am)
    for choice in ([False, True] if rng.random() < .5 else [True, False]):
        a = {"m": lib.clean(am), "choice": choice, "to": "s"}
        kw = {"choice_model": True} if choice else rng.choice([{}, {"choice_model": False}])
        m = log.call("storm", a, lambda: cls.from_stormpy(sm, **kw), lambda o: lib.proj_model(o, am["D"]))
    # once more: no state is carried from one import to the next
    log.call("storm", {"m": lib.clean(am), "choice": False, "to": "s2"}, lambda: cls.from_stormpy(sm), lambda o: lib.proj_model(o, am["D"]))


def run(case, log):
    rng = random.Random(case[1])
    (prism if case[0] == "prism" else storm)(rng, log)
