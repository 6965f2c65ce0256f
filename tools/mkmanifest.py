"""Writes /verif/MANIFEST.json from sim/meta.json (claimed checks) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
meta = json.load(open(V + "/sim/meta.json"))
NA = meta["_not_applicable"]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in meta:
        checks.append({
            "property": i, "quick_cmd": f"./check.py {i} quick", "thorough_cmd": f"./check.py {i} thorough",
            "technique": "deterministic simulation with fault injection: seeded scheduler over the real extension and polars, " + meta[i]["technique"],
            "level": "exploration", "level_note": meta[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "machinery for this property is not built yet"})
json.dump({
    "version": 1, "setup_cmd": "bash sim/build.sh", "checks": checks, "not_applicable": na,
    "hooks": {"guard": "none: /repo carries no hooks", "enable": "sim/build.sh builds /repo as it is, with compiler instrumentation (sancov edge callbacks) as the scheduling seam and LD_PRELOAD as the system-call seam", "source_commits": []},
    "notes": "See DESIGN.md. check.py --replay FILE runs a replay file again; check.py --determinism PROP N compares hashes between processes.",
}, open(V + "/MANIFEST.json", "w"), indent=1)
