#!/bin/bash
# developer's helper: try.sh PROP SECONDS [START] [STEP]
cd "$(dirname "$0")"; B=../.build; E=$(($(date +%s) + $2))
mkdir -p /tmp/vsim.$$; export SIM_SCRATCH=/tmp/vsim.$$
export LD_PRELOAD=$(realpath $B/libsim.so) PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MALLOC_ARENA_MAX=1 SIM_CPU=${SIM_CPU:-1} _RJEM_MALLOC_CONF=background_thread:false,dirty_decay_ms:-1,muzzy_decay_ms:-1,narenas:1
setarch -R /opt/vp/venv/bin/python host.py worker $1 ${SEED:-1} ${3:-0} ${4:-1} quick $E > /tmp/try.$$.out 2>/tmp/try.err
LD_PRELOAD= python3 - /tmp/try.$$.out <<'P'
import json,sys,collections
runs=0; seen=collections.Counter(); ex={}; tags=collections.Counter(); rep=bad=0; fh=collections.Counter(); kn=collections.Counter()
for l in open(sys.argv[1]):
    d=json.loads(l)
    if d["t"]=="s":
        runs+=d["runs"]; rep+=d["repeat"]; bad+=len(d["repeat_bad"])
        for k,v in d["tags"].items(): tags[k]+=v
        for k,v in d["fault_hit"].items(): fh[k]+=v
        for k,v in d["known"].items(): kn[k]+=v
    elif d["t"]=="v":
        for v in d["viol"]:
            k=(v.get("op"),v["kind"],v["msg"][:40] if "raised" in v["msg"] else v["msg"].split(" over ")[0] if v.get("op")=="form.call" else v["msg"].split(":")[0] if v.get("op")=="ctx.same" else ""); seen[k]+=1; ex.setdefault(k,(d["i"],v["msg"][:420]))
    elif d["t"]=="herr": k=("harness","-"," / ".join(d["err"].strip().split("\n")[-3:])); seen[k]+=1; ex.setdefault(k,d["i"])
    else: print(str(d)[:300])
print("runs",runs,"repeat",rep,"bad",bad,len(tags),"tags",sum(fh.values()),"faults",dict(kn))
for k,c in seen.most_common(int(__import__("os").environ.get("TOP","14"))): print(c,k,"\n     ",ex[k])
P
rm -rf /tmp/vsim.$$ /tmp/try.$$.out
