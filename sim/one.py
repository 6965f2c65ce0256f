"""developer's helper: one.py PROP I [MASTER]: run one scenario with stderr shown"""
import sys, os, json, time

import host
prop, i = sys.argv[1], int(sys.argv[2])
sc = host.engine.gen(prop, int(os.environ.get("SEED", "1")), i, "quick")
for kv in sys.argv[3:]:
    k, v = kv.split("=")
    sc["sim"][k] = json.loads(v)
if os.environ.get("OPS"):
    [print(n, str(o)[:400]) for n, c in enumerate(sc["clients"]) for o in c]
print(json.dumps(sc)[:1500])
t = time.time()
r = host.one(sc)
print({k: v for k, v in r.items() if k not in ("trace",)}, round(time.time() - t, 2))
