"""check.py PROPERTY : runs the check of one property (see DESIGN.md)."""
import importlib, json, os, sys, shutil, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import VERIF, MachineryError
import registry


def load_findings():
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path))["findings"]


def match_finding(findings, prop, trace, evno, clause):
    """A listed finding names property, clause and a scenario tag; the tag is an
    explicit part of the recorded event (argument `tag`)."""
    ev = trace["ev"][evno - 1] if 0 < evno <= len(trace["ev"]) else {}
    tag = ev.get("a", {}).get("tag") if isinstance(ev.get("a"), dict) else None
    for f in findings:
        if f["property"] == prop and f["clause"] == clause and f.get("tag") == tag and tag is not None:
            return f
    return None


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    reg = registry.CHECKS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    violations, known = [], []
    try:
        repo, rebuilt = core.stage(scratch)
        generated = []
        for g in reg.get("generate", []):
            mod, cfg, name, limit = g["thorough"] if tier == "thorough" and "thorough" in g else g["quick"]
            generated.append(core.generate(mod, cfg, scratch, name, limit, seed))
        if reg.get("prepare"):
            importlib.import_module(reg["prepare"]).prepare(repo, scratch, seed, tier)
        t1 = time.time()
        traces, meta = core.run_driver(prop, repo, scratch, seed, tier, case_timeout=reg.get("case_timeout", 120))
        t2 = time.time()
        counted = {prop, "*"} | set(reg.get("counts", []))
        verdict, gen, dist = core.validate(traces, scratch, prop)
        t3 = time.time()
        findings = load_findings()
        machinery = []
        others = {}
        nev = 0
        for i, tr in enumerate(traces):
            nev += len(tr["ev"])
            for evno, e in enumerate(tr["ev"], 1):
                if e["x"] in ("Crash", "Hang"):
                    violations.append((i, evno, "*.%s:%s" % (e["x"].lower(), e["op"])))
            for evno, clause in verdict[i]:
                if clause.startswith("HINT"):
                    machinery.append((tr["id"], evno, clause))
                elif clause.split(".")[0] in counted:
                    f = match_finding(findings, prop, tr, evno, clause)
                    if f:
                        known.append(f)
                    else:
                        violations.append((i, evno, clause))
                else:
                    others[clause] = others.get(clause, 0) + 1
        designs = list(generated)
        for mod, cfg in reg.get("design", []) + (reg.get("design_thorough", []) if tier == "thorough" else []):
            rc, out = core.tlc(mod, cfg, scratch, timeout=700)
            if rc != 0:
                raise MachineryError("design model %s/%s: TLC rc %d\n%s" % (mod, cfg, rc, out[-3000:]))
            g, d = core.tlc_stats(out)
            designs.append({"model": mod, "config": cfg, "states": d, "transitions": g})
        t4 = time.time()
        if os.environ.get("VERIF_KEEP"):
            shutil.copytree(os.path.join(scratch, "traces"), os.environ["VERIF_KEEP"], dirs_exist_ok=True)
        ops = {}
        exc = {}
        for tr in traces:
            for e in tr["ev"]:
                ops[e["op"]] = ops.get(e["op"], 0) + 1
                if e["x"]:
                    exc[e["op"] + ":" + e["x"]] = exc.get(e["op"] + ":" + e["x"], 0) + 1
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        samples = [t for t in traces[:: max(1, len(traces) // 3)]][:3]
        samples = [json.loads(json.dumps({"id": t["id"], "ev": t["ev"][:3]})) for t in samples]
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": dist + sum(d["states"] for d in designs),
                           "transitions": gen + sum(d["transitions"] for d in designs),
                           "traces_validated_against_impl": len(traces),
                           "events": nev, "events_by_operation": ops, "outcomes_with_exception": exc,
                           "design_models": designs, "extension_rebuilt": rebuilt, "driver": meta,
                           "clauses_of_other_properties_failed": others,
                           "known_findings_hit": sorted({f["id"] for f in known}),
                           "seconds": {"stage": round(t1 - t0, 2), "drive": round(t2 - t1, 2), "validate": round(t3 - t2, 2), "design": round(t4 - t3, 2)},
                           "samples": samples},
              "wall_s": round(time.time() - t0, 2)}
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        # a violation the specification found stands, whatever else could not be judged
        if machinery and not violations:
            raise MachineryError("hints rejected by the specification: %s" % machinery[:5])
        seen = set()
        for f in known:
            if f["id"] not in seen:
                seen.add(f["id"])
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        if violations:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            shown = {}
            for i, evno, clause in violations:
                if clause in shown:
                    shown[clause] += 1
                    continue
                shown[clause] = 1
                path = os.path.join(rdir, "%s-%s.json" % (traces[i]["id"], clause.replace("*", "any").replace(":", "_").replace(" ", "_")[:60]))
                with open(path, "w") as f:
                    json.dump({"property": prop, "clause": clause, "event": evno, "seed": seed, "tier": tier,
                               "failing_event": traces[i]["ev"][evno - 1] if 0 < evno <= len(traces[i]["ev"]) else None,
                               "trace": traces[i]}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("  clause %s at event %d of %s: %s" % (clause, evno, traces[i]["id"], json.dumps(traces[i]["ev"][evno - 1])[:600] if 0 < evno <= len(traces[i]["ev"]) else ""))
            print("  %d violations in total: %s" % (len(violations), shown))
            return 1
        print("OK %s: %d traces, %d events accepted by the specification; design models %s; %.1fs %s" % (
            prop, len(traces), nev, [(d["model"], d["states"]) for d in designs], time.time() - t0, ev["coverage"]["seconds"]))
        if others:
            print("  note: clauses of other properties failed here: %s" % others)
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except MachineryError as e:
        print("CHECK-ERROR %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
