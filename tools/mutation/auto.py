"""python3 tools/mutation/auto.py [-j N] [-n COUNT] [-s SEED] [-f FILE-PART]: random syntactic mutants of
the Python files of /repo.  A mutant that passes the stable tests is given to the checks of
the properties its file is about; prints one line per mutant, with the change for survivors."""
import ast, concurrent.futures as cf, copy, json, os, random, shutil, subprocess, sys, time, difflib
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE))
WORK = "/tmp/automut"; PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
BASE = "b59221d"
PROPS = {
    "switss/certification/certificates.py": "C15 C16 C25",
    "switss/model/amdp.py": "C01 C02 C06 C07 C24 C28 C26",
    "switss/model/dtmc.py": "C01 C07 C28 C26 C08",
    "switss/model/mdp.py": "C01 C07 C28 C26 C08 C05",
    "switss/model/reachability_form.py": "C10 C08 C11 C14 C09 C21 C24 C04 C03 C18 C28",
    "switss/model/reward_reachability_form.py": "C13 C12 C14 C08 C10 C19 C18 C24",
    "switss/prism/prism.py": "C26",
    "switss/problem/formulations.py": "C19 C17 C20 C18",
    "switss/problem/milpexact.py": "C17 C18 C19",
    "switss/problem/problemform.py": "C18 C17 C27",
    "switss/problem/problemresult.py": "C18",
    "switss/problem/qsheur.py": "C20 C18",
    "switss/problem/qsheurparams.py": "C20 C19 C18",
    "switss/problem/subsystem.py": "C21 C18 C28 C25",
    "switss/solver/milp.py": "C22 C23 C17",
    "switss/solver/solverresult.py": "C22",
    "switss/utils/casting.py": "C01 C10 C23 C24",
    "switss/utils/graph_utils.py": "C02 C03 C04 C28",
    "switss/utils/graphviz_utils.py": "C28",
    "switss/utils/invertible_dict.py": "C06 C02",
    "bin/switss": "C25",
}

class Mut(ast.NodeVisitor):
    """Collects (description, function producing the mutated tree)."""
    def __init__(self, tree): self.tree = tree; self.out = []; self.path = []
    def add(self, node, what, f): self.out.append((getattr(node, "lineno", 0), what, f))

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult]}

def sites(tree):
    """All mutations as (lineno, description, apply) with apply working in place."""
    out = []
    for node in ast.walk(tree):
        ln = getattr(node, "lineno", 0)
        if isinstance(node, ast.Compare):
            for k, op in enumerate(node.ops):
                for new in CMP.get(type(op), []):
                    out.append((ln, "cmp", lambda node=node, k=k, new=new: node.ops.__setitem__(k, new())))
        if isinstance(node, ast.BoolOp):
            new = ast.Or if isinstance(node.op, ast.And) else ast.And
            out.append((ln, "bool", lambda node=node, new=new: setattr(node, "op", new())))
            for k in range(len(node.values)):
                out.append((ln, "dropop", lambda node=node, k=k: node.values.pop(k) if len(node.values) > 1 else None))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            out.append((ln, "unary", lambda node=node: setattr(node, "op", ast.UAdd() if isinstance(node.op, ast.USub) else ast.Not()) if isinstance(node.op, ast.USub) else setattr(node, "operand", ast.UnaryOp(ast.Not(), node.operand))))
        if isinstance(node, ast.BinOp):
            for new in BIN.get(type(node.op), []):
                out.append((ln, "bin", lambda node=node, new=new: setattr(node, "op", new())))
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            out.append((ln, "negate", lambda node=node: setattr(node, "test", ast.UnaryOp(ast.Not(), node.test))))
            if isinstance(node, (ast.If, ast.IfExp)):
                for v in (True, False):
                    out.append((ln, "const-if", lambda node=node, v=v: setattr(node, "test", ast.Constant(v))))
        if isinstance(node, ast.comprehension):
            for k in range(len(node.ifs)):
                out.append((getattr(node.target, "lineno", 0), "dropif", lambda node=node, k=k: node.ifs.pop(k)))
        if isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                out.append((ln, "flip", lambda node=node: setattr(node, "value", not node.value)))
            elif isinstance(node.value, int):
                for d in (1, -1):
                    out.append((ln, "int%+d" % d, lambda node=node, d=d: setattr(node, "value", node.value + d)))
            elif isinstance(node.value, float):
                out.append((ln, "float", lambda node=node: setattr(node, "value", node.value * 10 + .1)))
            elif node.value is None:
                out.append((ln, "none", lambda node=node: setattr(node, "value", 0)))
        if isinstance(node, ast.Call) and len(node.args) >= 2:
            out.append((ln, "swapargs", lambda node=node: node.args.__setitem__(slice(0, 2), node.args[1::-1])))
        if isinstance(node, ast.Call) and node.keywords:
            for k in range(len(node.keywords)):
                out.append((ln, "dropkw", lambda node=node, k=k: node.keywords.pop(k)))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "copy" and not node.args:
            def f(node=node):
                v = node.func.value
                node.func = ast.Lambda(ast.arguments([], [ast.arg("x")], None, [], [], None, []), ast.Name("x", ast.Load())); node.args = [v]
            out.append((ln, "nocopy", f))
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            out.append((ln, "slice", lambda node=node: setattr(node, "slice", ast.Slice(None, None, None))))
        if isinstance(node, ast.AugAssign):
            new = ast.Sub if isinstance(node.op, ast.Add) else ast.Add
            out.append((ln, "aug", lambda node=node, new=new: setattr(node, "op", new())))
        if isinstance(node, ast.Return) and node.value is not None:
            out.append((ln, "retnone", lambda node=node: setattr(node, "value", ast.Constant(None))))
        for field in ("body", "orelse"):
            b = getattr(node, field, None)
            if isinstance(b, list):
                for k, st in enumerate(b):
                    if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Break, ast.Continue, ast.Raise, ast.Assert, ast.Return, ast.For, ast.If)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        out.append((st.lineno, "delete", lambda b=b, k=k: b.__setitem__(k, ast.Pass())))
                    if isinstance(st, (ast.Break, ast.Continue)):
                        new = ast.Continue if isinstance(st, ast.Break) else ast.Break
                        out.append((st.lineno, "jump", lambda b=b, k=k, new=new: b.__setitem__(k, new())))
                    if k + 1 < len(b) and isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(b[k + 1], (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        out.append((st.lineno, "swapstmt", lambda b=b, k=k: b.__setitem__(slice(k, k + 2), [b[k + 1], b[k]])))
    return out

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def one(fn, idx, slot):
    src = open("/repo/" + fn).read()
    tree = ast.parse(src)
    plain = ast.unparse(tree)
    ln, what, f = sites(tree)[idx]
    f()
    new = ast.unparse(ast.fix_missing_locations(tree))
    return trial(fn, idx, "%s:%d %s" % (fn, ln, what), new, plain)

def trial(fn, idx, head, new, plain):
    if new == plain: return head, "SAME", ""
    try: compile(new, fn, "exec")
    except SyntaxError: return head, "SYNTAX", ""
    root = os.path.join(WORK, "%s-%d" % (fn.replace("/", "_"), idx))
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree("/repo", root + "/repo", symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git", "docs"))
    p = os.path.join(root, "repo", fn)
    open(p, "w").write(("#!/usr/bin/env python3\n" if fn.startswith("bin") else "") + new)
    diff = "\n".join("      " + l for l in difflib.unified_diff(plain.split("\n"), new.split("\n"), lineterm="", n=1) if not l.startswith(("---", "+++")))
    env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    env.update(PYTHONPATH=root + "/repo:/opt/vp", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HOME=root)
    try:
        r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "prism_absent", "--timeout=60", "--continue-on-collection-errors",
                 "-o", "junit_family=xunit2", "--junitxml=%s/j.xml" % root] + ["switss"], cwd=root + "/repo", env=env, timeout=120)
    except subprocess.TimeoutExpired:
        shutil.rmtree(root); return head, "tests", ""
    import xml.etree.ElementTree as ET
    ok = set()
    if os.path.exists(root + "/j.xml"):
        for tc in ET.parse(root + "/j.xml").iter("testcase"):
            if not list(tc): ok.add("%s::%s" % (tc.get("classname"), tc.get("name")))
    if any(t not in ok for t in STABLE): shutil.rmtree(root); return head, "tests", ""
    v = root + "/verif"
    shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
    os.makedirs(v + "/evidence", exist_ok=True)
    c = v + "/harness/core.py"; t = open(c).read(); assert 'REPO = "/repo"' in t
    open(c, "w").write(t.replace('REPO = "/repo"', 'REPO = "%s/repo"' % root))
    res = "SURVIVED"
    for pr in PROPS[fn].split():
        try:
            r = run(["sh", v + "/check.sh", pr, "quick"], env=dict(os.environ, VERIF_SEED="1"), timeout=900)
        except subprocess.TimeoutExpired:
            res = "TIMEOUT " + pr; break
        if r.returncode == 1 and "VIOLATION" in r.stdout: res = "killed " + pr; break
        if r.returncode != 0: res = "ERROR %s rc=%d %s" % (pr, r.returncode, r.stdout[-300:].replace("\n", " | ")); break
    shutil.rmtree(root)
    return head, res, "" if res.startswith("killed") else diff

if __name__ == "__main__":
    a = sys.argv[1:]; opt = {"-j": "3", "-n": "100", "-s": "1", "-f": ""}
    for k in list(opt):
        if k in a: i = a.index(k); opt[k] = a[i + 1]; del a[i:i + 2]
    rng = random.Random(int(opt["-s"]))
    todo = []
    for fn in sorted(PROPS):
        if opt["-f"] in fn:
            tree = ast.parse(open("/repo/" + fn).read())
            todo += [(fn, i) for i in range(len(sites(tree)))]
    total = len(todo)
    rng.shuffle(todo)
    todo = todo[:int(opt["-n"])]
    print("%d of %d mutants" % (len(todo), total), flush=True)
    os.makedirs(WORK, exist_ok=True)
    count = {}
    with cf.ThreadPoolExecutor(int(opt["-j"])) as ex:
        for f in cf.as_completed([ex.submit(one, fn, i, 0) for fn, i in todo]):
            try: h, r, d = f.result()
            except Exception as e: h, r, d = "?", "EXC " + repr(e), ""
            count[r.split()[0]] = count.get(r.split()[0], 0) + 1
            print("%-60s %s%s" % (h, r, "\n" + d if d else ""), flush=True)
    print(count)
