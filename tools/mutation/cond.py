"""python3 tools/mutation/cond.py [-j N] [-n COUNT] [-s SEED] [-f FILE-PART] [-t T1,T2..]: like auto.py, but the change
only shows when something is large, at the k-th execution, or for one residue of a local value.
Finds out how deep into sizes and histories the checks look."""
import ast, concurrent.futures as cf, os, random, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import auto
HELP = '''
def _G(kind, t, f, _c=[0]):
    try:
        v = f()
    except Exception:
        return False
    if kind == "cnt":
        _c[0] += 1
        return _c[0] > t
    if hasattr(v, "system"):
        v = v.system
    if hasattr(v, "N") and hasattr(v, "C"):
        v = v.N
    if hasattr(v, "shape"):
        if len(v.shape) == 0:
            v = float(v)
        else:
            v = v.shape[0]
    elif hasattr(v, "__len__"):
        v = len(v)
    if isinstance(v, bool):
        return v
    try:
        v = float(v)
    except Exception:
        return False
    return v > t if kind == "big" else (0 < v < 1 and t % 2 == 0 and v < .3) or (v == int(v) and v > 1 and int(v) % 5 == t % 5)
'''
COMP = (ast.If, ast.While, ast.For)
def hdr(s):
    return ast.dump(s.iter) + ast.dump(s.target) if isinstance(s, ast.For) else ast.dump(s.test)
def merge(a, b, guard, fn=None):
    """Statement list a changed so that it behaves like b where the guard holds; None if impossible."""
    if len(a) != len(b): return None
    diff = [i for i in range(len(a)) if ast.dump(a[i]) != ast.dump(b[i])]
    if not diff: return None
    i, j = diff[0], diff[-1]
    if i == j:
        x, y = a[i], b[i]
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.With)) and type(x) == type(y):
            if isinstance(x, ast.FunctionDef) and (ast.dump(x.args) != ast.dump(y.args)): return None
            r = merge(x.body, y.body, guard, x if isinstance(x, ast.FunctionDef) else fn)
            if r is None: return None
            x.body = r; return a
        if isinstance(x, COMP) and type(x) == type(y):
            same = hdr(x) == hdr(y)
            if same:
                for f in ("body", "orelse"):
                    u, v = getattr(x, f), getattr(y, f)
                    if [ast.dump(s) for s in u] != [ast.dump(s) for s in v]:
                        r = merge(u, v, guard, fn)
                        if r is None: return None
                        setattr(x, f, r)
                return a
            if fn is None: return None
            g = guard([x.iter if isinstance(x, ast.For) else x.test], fn)
            if isinstance(x, ast.For):
                if ast.dump(x.target) != ast.dump(y.target): return None
                x.iter = ast.IfExp(g, y.iter, x.iter)
            else: x.test = ast.IfExp(g, y.test, x.test)
            return a
    if fn is None: return None
    g = guard(a[i:j + 1], fn)
    return a[:i] + [ast.If(g, b[i:j + 1], a[i:j + 1])] + a[j + 1:]

SKIP = {"self", "cls", "np", "pulp", "len", "range", "print", "set", "list", "dict", "max", "min", "sum", "float", "int", "str", "isinstance", "True", "False", "enumerate", "zip"}
def mutate(src, idx, rng, ts):
    a, b = ast.parse(src), ast.parse(src)
    ln, what, f = auto.sites(b)[idx]; f(); ast.fix_missing_locations(b)
    info = []
    def guard(nodes, fn):
        names = sorted({n.id for x in nodes for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} | {p.arg for p in fn.args.args})
        own = {p.arg for p in fn.args.args} | {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        names = [n for n in names if n in own and n not in SKIP]
        kind = rng.choice(["big", "big", "big", "cnt", "mod"]); t = rng.choice(ts if kind == "big" else [1, 2, 4, 9] if kind == "cnt" else [0, 1, 2, 3, 4])
        name = rng.choice(names) if names else "0"
        if name == "0": kind = "cnt"
        info.append("%s(%s,%d)" % (kind, name, t))
        return ast.Call(ast.Name("_G", ast.Load()), [ast.Constant(kind), ast.Constant(t), ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.parse(name, mode="eval").body)], [])
    r = merge(a.body, b.body, guard)
    if r is None: return None
    a.body = r
    return "%d %s %s" % (ln, what, info[0] if info else ""), HELP + ast.unparse(ast.fix_missing_locations(a))

def one(fn, idx, seed, ts):
    src = open("/repo/" + fn).read()
    m = mutate(src, idx, random.Random("%d-%d-%s" % (seed, idx, fn)), ts)
    if m is None: return fn, "SAME", ""
    head, new = m
    return auto.trial(fn, idx, "%s:%s" % (fn, head), new, ast.unparse(ast.parse(src)))

if __name__ == "__main__":
    a = sys.argv[1:]; opt = {"-j": "3", "-n": "100", "-s": "1", "-f": "", "-t": "4,7,12,20"}
    for k in list(opt):
        if k in a: i = a.index(k); opt[k] = a[i + 1]; del a[i:i + 2]
    rng = random.Random(int(opt["-s"])); ts = [int(x) for x in opt["-t"].split(",")]
    todo = [(fn, i) for fn in sorted(auto.PROPS) if opt["-f"] in fn for i in range(len(auto.sites(ast.parse(open("/repo/" + fn).read()))))]
    rng.shuffle(todo); total = len(todo); todo = todo[:int(opt["-n"])]
    print("%d of %d mutants" % (len(todo), total), flush=True)
    os.makedirs(auto.WORK, exist_ok=True); count = {}
    with cf.ThreadPoolExecutor(int(opt["-j"])) as ex:
        for f in cf.as_completed([ex.submit(one, fn, i, int(opt["-s"]), ts) for fn, i in todo]):
            try: h, r, d = f.result()
            except Exception as e: h, r, d = "?", "EXC " + repr(e), ""
            count[r.split()[0]] = count.get(r.split()[0], 0) + 1
            print("%-60s %s%s" % (h, r, "\n" + d if d else ""), flush=True)
    print(count)
