"""python3 tools/mutation/run.py [-j N] [--tier T] [id|property ...]: apply each mutant to a copy of /repo,
run the stable tests there and then the check of its property; prints a table."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
from mutants import MUTANTS
WORK = "/tmp/mut"; PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
BASE = "b59221d"

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def one(m, tier, props=None):
    mid, prop, fn, edits = m
    root = os.path.join(WORK, mid); t0 = time.time()
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree("/repo", root + "/repo", symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    p = os.path.join(root, "repo", fn); s = open(p).read()
    orig = run(["git", "-C", "/repo", "show", "%s:%s" % (BASE, fn)]).stdout
    for old, new in edits:
        if s.count(old) != 1:
            shutil.rmtree(root); return mid, prop, "BAD-EDIT(%d)" % s.count(old), "", ""
        s = s.replace(old, new)
    open(p, "w").write(s)
    diff = run(["git", "-C", root + "/repo", "diff", "-U0"]).stdout
    removed = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
    note = "" if all(l in orig.split("\n") for l in removed) else "own-line "
    env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    env.update(PYTHONPATH=root + "/repo:/opt/vp", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HOME=root)
    if fn.endswith("pyx"):
        r = run(["bash", "-c", "rm -f switss/utils/*.so; CYTHON_FORCE_REGEN=1 %s setup.py build_ext --inplace --force" % PY], cwd=root + "/repo", env=env)
        if r.returncode: 
            shutil.rmtree(root); return mid, prop, "NO-BUILD", r.stdout[-600:], ""
    r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "prism_absent", "--timeout=300", "--continue-on-collection-errors",
             "-o", "junit_family=xunit2", "--junitxml=%s/j.xml" % root, "switss"], cwd=root + "/repo", env=env)
    import xml.etree.ElementTree as ET
    if not os.path.exists(root + "/j.xml"):
        shutil.rmtree(root); return mid, prop, note + "tests CRASH", "", ""
    ok = set()
    for tc in ET.parse(root + "/j.xml").iter("testcase"):
        if not list(tc): ok.add("%s::%s" % (tc.get("classname"), tc.get("name")))
    bad = [t for t in STABLE if t not in ok]
    tests = "pass" if not bad else "FAIL(%d)" % len(bad)
    if bad and "--all" not in sys.argv:
        shutil.rmtree(root); return mid, prop, note + "tests " + tests, "", ""
    v = root + "/verif"
    shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
    os.makedirs(v + "/evidence", exist_ok=True)
    c = v + "/harness/core.py"; t = open(c).read(); assert 'REPO = "/repo"' in t
    open(c, "w").write(t.replace('REPO = "/repo"', 'REPO = "%s/repo"' % root))
    out = []
    for pr in (props or [prop]):
        r = run(["sh", v + "/check.sh", pr, tier], env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
        vi = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        out.append("%s rc=%d %s" % (pr, r.returncode, "caught" if r.returncode == 1 and vi else "MISSED" if r.returncode == 0 else r.stdout[-400:]))
    shutil.rmtree(root)
    return mid, prop, note + "tests " + tests, "; ".join(out), "%.0fs" % (time.time() - t0)

if __name__ == "__main__":
    a = sys.argv[1:]; j = 3; tier = "quick"; props = None
    if "-j" in a: i = a.index("-j"); j = int(a[i + 1]); del a[i:i + 2]
    if "--tier" in a: i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if "--props" in a: i = a.index("--props"); props = a[i + 1].split(","); del a[i:i + 2]
    a = [x for x in a if not x.startswith("--")]
    ms = [m for m in MUTANTS if not a or m[0] in a or m[1] in a]
    os.makedirs(WORK, exist_ok=True)
    with cf.ThreadPoolExecutor(j) as ex:
        for f in cf.as_completed([ex.submit(one, m, tier, props) for m in ms]):
            try: print("%-20s %-4s %-20s %s %s" % f.result(), flush=True)
            except Exception as e: print("ERROR", repr(e), flush=True)
