"""Runs one shard of a property's driver: drive.py PROP TIER SEED SHARD SHARDS START BASE"""
import sys, os, json, random, importlib, traceback, signal, io, contextlib

prop, tier, seed, shard, shards, start, base = sys.argv[1:8]
seed, shard, shards, start = int(seed), int(shard), int(shards), int(start)


def main():
    import lib
    repo = os.path.realpath(os.environ["VERIF_REPO"])
    mod = importlib.import_module("drivers." + prop.lower())
    out = open(base + ".ndjson", "a")
    n = 0
    with open(os.devnull, "w") as null:
        for k, case in enumerate(mod.cases(seed, tier)):
            if k % shards != shard or k < start:
                continue
            tid = "%s-%05d" % (prop, k)
            prog = open(base + ".progress", "w")
            prog.write(json.dumps({"id": tid, "k": k}) + "\n")
            prog.flush()
            log = lib.Log(prog, os.path.join(os.environ["VERIF_SCRATCH"], "w%d" % shard))
            with contextlib.redirect_stdout(null):
                try:
                    mod.run(case, log)
                except Exception as e:
                    # an exception escaping from an unrecorded call into the code
                    # under test is an observation; anything else is our own fault
                    tb, inside = e.__traceback__, False
                    while tb is not None:
                        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
                        inside = inside or f.startswith(repo + os.sep)
                        tb = tb.tb_next
                    if not inside and not any(ev["x"] for ev in log.events):
                        raise
                    traceback.print_exc()
                    log.events.append({"op": "driver", "a": {"what": str(e)[:200]}, "x": type(e).__name__, "r": {"z": 0}})
            prog.close()
            out.write(json.dumps({"id": tid, "ev": log.events}) + "\n")
            out.flush()
            n += 1
    out.close()


try:
    main()
except Exception:
    traceback.print_exc()
    sys.stderr.flush()
    os._exit(3)
sys.stderr.flush()
os._exit(0)
