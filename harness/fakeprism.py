"""Stands in for PRISM: records what it is handed and answers as scripted."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
plan = json.load(open(os.path.join(here, "plan.json")))
argv = sys.argv[1:]
rec = {"argv": argv, "model": None, "consts": [], "out": {}}
i = 0
while i < len(argv):
    a = argv[i].lstrip("-")
    if argv[i].startswith("-"):
        v = argv[i + 1] if i + 1 < len(argv) else ""
        if a == "const":
            rec["consts"] += [x for x in v.split(",") if x]
            i += 1
        elif a == "exportmodel":
            base, _, ext = v.rpartition(".")
            for x in ext.split(","):
                rec["out"][{"all": "*"}.get(x, x)] = base + "." + x
            i += 1
        elif a in ("exporttrans", "exportlabels", "exportstates"):
            rec["out"][{"exporttrans": "tra", "exportlabels": "lab", "exportstates": "sta"}[a]] = v
            i += 1
    elif rec["model"] is None:
        rec["model"] = open(argv[i], encoding="utf-8", errors="surrogateescape").read()
        rec["path"] = argv[i]
    i += 1
if "*" in rec["out"]:
    base = rec["out"].pop("*")[:-4]
    rec["out"].update(tra=base + ".tra", lab=base + ".lab", sta=base + ".sta")
with open(os.path.join(here, "calls.ndjson"), "a") as f:
    f.write(json.dumps(rec) + "\n")
fault = plan["fault"]
print("PRISM\n=====\n")
sys.stdout.flush()
if fault == "exit":
    sys.exit(plan.get("code", 1))
if fault == "noisy":
    sys.stdout.buffer.write(b"Error: \xff\xfe syntax\n")
    sys.exit(1)
if fault == "signal":
    os.kill(os.getpid(), 9)
if fault == "nothing":
    sys.exit(0)
for x, path in sorted(rec["out"].items()):
    text = plan[x]
    if fault == "partial" and x != "lab":
        text = text[:len(text) // 2]
    if fault == "partial" and x == "lab":
        continue
    with open(path, "w") as f:
        f.write(text)
sys.exit(plan.get("code", 1) if fault in ("partial", "late") else 0)
