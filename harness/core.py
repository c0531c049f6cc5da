"""Orchestration shared by all checks: staging and building /repo, running the
drivers against the real code, running TLC on the recorded traces and on the
design models, verdicts, evidence."""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")
NCPU = min(8, os.cpu_count() or 4)


class MachineryError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# --------------------------------------------------------------------------
# staging the code under test
def _src_stamp(root):
    files = []
    for base, dirs, names in os.walk(os.path.join(root, "switss")):
        for n in names:
            if n.endswith((".pyx", ".pxd")):
                files.append(os.path.relpath(os.path.join(base, n), root))
    out = []
    for f in sorted(files, key=lambda s: s.encode()) + ["setup.py"]:
        with open(os.path.join(root, f), "rb") as fh:
            out.append("%s  %s" % (hashlib.sha256(fh.read()).hexdigest(), f))
    return "\n".join(out) + "\n"


def stage(scratch):
    """Copy the working tree of /repo to scratch/repo; rebuild its extensions when
    the built ones do not belong to the current sources."""
    dst = os.path.join(scratch, "repo")
    shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs", "docker"),
                    symlinks=True)
    stamp = os.path.join(dst, "build", "ext.sha256")
    want = _src_stamp(dst)
    have = open(stamp).read() if os.path.exists(stamp) else None
    mods = all(glob.glob(os.path.join(dst, "switss/utils/%s.cpython-*.so" % m)) for m in ("graph", "stack", "treaps"))
    rebuilt = False
    if have != want or not mods:
        rebuilt = True
        for so in glob.glob(os.path.join(dst, "switss/**/*.so"), recursive=True):
            os.remove(so)
        env = dict(os.environ, CYTHON_FORCE_REGEN="1", PYTHONDONTWRITEBYTECODE="1", HOME=scratch)
        r = sh([PY, "setup.py", "build_ext", "--inplace", "--force"], cwd=dst, env=env, timeout=600)
        if r.returncode != 0:
            raise MachineryError("extension build failed:\n" + r.stdout[-3000:])
    return dst, rebuilt


def driver_env(repo, scratch, seed):
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
    env.update(PYTHONPATH=repo + ":" + os.path.join(VERIF, "harness"), PYTHONDONTWRITEBYTECODE="1",
               HOME=scratch, TMPDIR=scratch, VERIF_REPO=repo, VERIF_SCRATCH=scratch, VERIF_SEED=str(seed),
               PYTHONHASHSEED=str(seed % 1000), MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1")
    return env


def run_driver(prop, repo, scratch, seed, tier, shards=NCPU, case_timeout=120):
    """Run the driver of one property in `shards` processes.  A crash or hang of
    the code under test becomes an event of the trace that was being recorded;
    after a few of them, or when the time is used up, recording stops and what was
    recorded so far is judged."""
    deadline = time.time() + (420 if tier == "quick" else 3600)
    hangs = 0
    stopped = ""
    procs = {}
    outs = []
    env = driver_env(repo, scratch, seed)
    tdir = os.path.join(scratch, "traces")
    os.makedirs(tdir, exist_ok=True)

    def launch(shard, start):
        base = os.path.join(tdir, "%s-%d" % (prop, shard))
        log = open(base + ".log", "a")
        return subprocess.Popen([PY, "-W", "ignore", os.path.join(VERIF, "harness", "drive.py"), prop, tier, str(seed),
                                 str(shard), str(shards), str(start), base],
                                env=env, stdout=log, stderr=log, cwd=scratch, start_new_session=True)

    for s in range(shards):
        base = os.path.join(tdir, "%s-%d" % (prop, s))
        outs.append(base)
        open(base + ".ndjson", "w").close()
        procs[s] = launch(s, 0)
    restarts = 0
    while procs:
        time.sleep(0.02)
        if not stopped and time.time() > deadline:
            stopped = "time used up"
        if stopped:
            for pr in procs.values():
                try:
                    os.killpg(pr.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                pr.wait()
            break
        for s, pr in list(procs.items()):
            base = outs[s]
            rc = pr.poll()
            hang = False
            if rc is None:
                try:
                    idle = time.time() - os.stat(base + ".progress").st_mtime
                except FileNotFoundError:
                    idle = 0
                if idle > case_timeout:
                    hang = True
                    os.killpg(pr.pid, signal.SIGKILL)
                    pr.wait()
                    rc = -9
                else:
                    continue
            del procs[s]
            if rc == 0:
                continue
            log = open(base + ".log").read()[-3000:]
            if rc == 3 or not os.path.exists(base + ".progress"):
                raise MachineryError("driver of %s failed (shard %d, rc %d):\n%s" % (prop, s, rc, log))
            # the code under test took the process down
            prog = open(base + ".progress").read().splitlines()
            head = json.loads(prog[0])
            evs = []
            for line in prog[1:]:
                try:
                    evs.append(json.loads(line))
                except ValueError:
                    pass
            if evs and "x" not in evs[-1]:
                evs[-1].update(x="Hang" if hang else "Crash", r={"z": 0})
            else:
                raise MachineryError("driver of %s died outside the code under test (rc %d):\n%s" % (prop, rc, log))
            # events appear twice (begin, end); keep the completed ones
            done = [e for e in evs if "x" in e]
            with open(base + ".ndjson", "a") as f:
                f.write(json.dumps({"id": head["id"], "ev": done}) + "\n")
            restarts += 1
            hangs += hang
            if restarts > 24 or hangs > 1:
                stopped = "too many crashes"
                continue
            procs[s] = launch(s, head["k"] + 1)
    traces = []
    meta = {}
    for base in outs:
        with open(base + ".ndjson") as f:
            for line in f:
                try:
                    traces.append(json.loads(line))
                except ValueError:
                    if not stopped:
                        raise
        if os.path.exists(base + ".meta"):
            for k, v in json.load(open(base + ".meta")).items():
                meta[k] = meta.get(k, 0) + v if isinstance(v, (int, float)) else v
    traces.sort(key=lambda t: t["id"])
    if stopped:
        meta["stopped"] = stopped
        sys.stderr.write("recording stopped: %s\n" % stopped)
    return traces, meta


# --------------------------------------------------------------------------
# TLC
def tlc(module, cfg, scratch, env=None, workers=NCPU, timeout=800, extra=(), heap="6g"):
    md = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + md, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on %s/%s" % (module, cfg))
    return r.returncode, r.stdout


STAT = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def tlc_stats(out):
    m = None
    for m in STAT.finditer(out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


VERD = re.compile(r'^"?V (\[.*\])"?\s*$', re.M)


def _verdicts(out):
    for m in VERD.finditer(out):
        t, bad = json.loads(m.group(1).replace('\\"', '"'))
        yield t, sorted((a, b) for a, b in bad)


BATCH = 14 * 10 ** 6     # bytes of recorded traces one TLC run reads


def validate(traces, scratch, tag, timeout=800, module="Conform.tla", cfg="Conform.cfg"):
    """Check recorded traces against the specification, in batches.  Returns
    ({index of trace: [(event number, clause)]}, transitions, states)."""
    batches, size = [[]], 0
    for i, t in enumerate(traces):
        line = json.dumps(t) + "\n"
        if size and size + len(line) > BATCH:
            batches.append([])
            size = 0
        batches[-1].append((i, line))
        size += len(line)
    verdict, gen, dist = {}, 0, 0
    par = 1 if len(batches) == 1 else 3
    with concurrent.futures.ThreadPoolExecutor(par) as pool:
        jobs = [pool.submit(_validate, traces, b, scratch, "%s-b%d" % (tag, k), timeout, module, cfg, NCPU if par == 1 else 3)
                for k, b in enumerate(batches)]
        try:
            for j in jobs:
                v, g, d = j.result()
                verdict.update(v)
                gen += g
                dist += d
        except BaseException:
            for j in jobs:
                j.cancel()
            raise
    return verdict, gen, dist


def _validate(traces, batch, scratch, tag, timeout, module, cfg, workers):
    verdict = {}
    todo = [i for i, _ in batch]
    lines = dict(batch)
    gen = dist = 0
    rounds = 0
    while todo:
        rounds += 1
        path = os.path.join(scratch, "%s-%d.ndjson" % (tag, rounds))
        with open(path, "w") as f:
            for i in todo:
                f.write(lines[i])
        rc, out = tlc(module, cfg, scratch, env={"TRACE": path}, timeout=timeout, workers=workers)
        os.remove(path)
        g, d = tlc_stats(out)
        gen += g
        dist += d
        for t, bad in _verdicts(out):
            verdict[todo[t - 1]] = bad
        left = [i for i in todo if i not in verdict]
        if rc == 0:
            if left:
                raise MachineryError("TLC accepted but gave no verdict for %d traces\n%s" % (len(left), out[-2000:]))
            break
        # evaluation failed inside some trace: the recorded data lies outside the
        # vocabulary of the specification, so the trace is not one of its behaviours
        m = re.findall(r"/\\ tid = (\d+)", out)
        l = re.findall(r"/\\ l = (\d+)", out)
        if not m :
            raise MachineryError("TLC failed (rc %d):\n%s" % (rc, out[-1500:]))
        t = todo[int(m[-1]) - 1]
        last = int(l[-1]) if l else 0
        if os.environ.get("VERIF_DEBUG"):
            sys.stderr.write(out[-3000:])
        evs = traces[t]["ev"]
        op = evs[last - 1]["op"] if 0 < last <= len(evs) else "?"
        verdict[t] = verdict.get(t, []) + [(last, "*.undefined:" + op)]
        todo = [i for i in left if i != t]
        if rounds >= 12:
            # enough evidence; the rest of this batch stays unread
            verdict.update({i: [] for i in todo})
            break
    return verdict, gen, dist


# --------------------------------------------------------------------------
# behaviours generated by TLC
BEH = re.compile(r'^"?B (\{.*\})"?\s*$', re.M)


def generate(module, cfg, scratch, name, limit, seed, timeout=600, extra=()):
    """Let TLC enumerate behaviours of a specification; keep a seeded sample."""
    import random
    rc, out = tlc(module, cfg, scratch, timeout=timeout, extra=extra)
    if rc != 0:
        raise MachineryError("generation %s/%s: TLC rc %d\n%s" % (module, cfg, rc, out[-3000:]))
    beh = sorted(set(m.group(1).replace('\\"', '"') for m in BEH.finditer(out)))
    total = len(beh)
    if total == 0:
        raise MachineryError("generation %s/%s produced nothing\n%s" % (module, cfg, out[-2000:]))
    if limit and total > limit:
        beh = random.Random(seed).sample(beh, limit)
    with open(os.path.join(scratch, name), "w") as f:
        for b in beh:
            f.write(b + "\n")
    g, d = tlc_stats(out)
    return {"model": module, "config": cfg, "states": d, "transitions": g, "behaviours": total, "replayed": len(beh)}
