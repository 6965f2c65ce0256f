#!/opt/vp/venv/bin/python
"""Decides one property by seeded simulation.

  check.py PROP quick|thorough     explore, report, write evidence/PROP.json
  check.py --replay FILE           run a replay file again (exit 1 when the violation comes back)
  check.py --determinism PROP N    N scenarios in two processes each, hashes must agree

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: harness trouble; 3: build failed.
"""
import collections
import copy
import json
import os
import re
import select
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(V, "sim")
PY = "/opt/vp/venv/bin/python"
sys.dont_write_bytecode = True


def env(scratch, cpu=None):
    e = dict(os.environ)
    for k in [k for k in e if k.startswith(("POLARS_", "RAYON_", "PYTHON", "OMP_", "OPENBLAS_", "MKL_", "SIM_"))]:
        e.pop(k)
    e.update(
        LD_PRELOAD=os.path.join(V, ".build/libsim.so"), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", MALLOC_ARENA_MAX="1",
        _RJEM_MALLOC_CONF="background_thread:false,dirty_decay_ms:-1,muzzy_decay_ms:-1,narenas:1", SIM_SCRATCH=scratch, LC_ALL="C.UTF-8", TZ="UTC", HOME="/nonexistent",
        PATH="/usr/bin:/bin", LANG="C.UTF-8",
    )
    if cpu is not None:
        e["SIM_CPU"] = str(cpu)
    # the environment block is part of the stack layout: keep exactly these variables
    keep = ("LD_PRELOAD PYTHONHASHSEED PYTHONDONTWRITEBYTECODE OPENBLAS_NUM_THREADS OMP_NUM_THREADS MKL_NUM_THREADS MALLOC_ARENA_MAX _RJEM_MALLOC_CONF "
            "SIM_SCRATCH LC_ALL TZ HOME PATH LANG SIM_CPU").split()
    return {k: e[k] for k in keep if k in e}


def prefix():
    try:
        if subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0:
            return ["setarch", "-R"]
    except OSError:
        pass
    return []


PRE = prefix()


def build():
    r = subprocess.run(["bash", os.path.join(SIM, "build.sh")], capture_output=True, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-2000:] + r.stderr[-4000:])
        print("check: the build failed")
        sys.exit(3)


def cpus():
    try:
        return sorted(os.sched_getaffinity(0))
    except OSError:
        return list(range(os.cpu_count() or 1))


class Server:
    """A serving host process; restarted when it dies or hangs."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.p = None

    def start(self):
        self.p = subprocess.Popen(PRE + [PY, os.path.join(SIM, "host.py"), "serve"], env=env(self.scratch, cpus()[0]), stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=SIM)

    def ask(self, sc, trace=False, timeout=40):
        for _ in range(2):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                self.p.stdin.write(json.dumps({"sc": sc, "trace": trace, "timeout": timeout}) + "\n")
                self.p.stdin.flush()
                r, _, _ = select.select([self.p.stdout], [], [], timeout * 5 + 60)
                line = self.p.stdout.readline() if r else ""
            except OSError:
                line = ""
            if line:
                return json.loads(line)
            self.stop()
        return {"viol": [], "harness_error": "the serving process gave no answer"}

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
        self.p = None


def sig(r):
    """What failed, coarsely: a minimised run must fail in the same way."""
    if r.get("harness_error"):
        return None
    if r.get("timeout"):
        return ("hang", "", "")
    if not r.get("viol"):
        return None
    v = r["viol"][0]
    return (v["kind"], v.get("op", ""), re.sub(r"[^a-z ]", "", v["msg"].lower())[:24] if v["kind"] == "check" else "")


def sigs(r):
    if r.get("timeout"):
        return {("hang", "", "")}
    if r.get("harness_error"):
        return set()
    return {(v["kind"], v.get("op", ""), re.sub(r"[^a-z ]", "", v["msg"].lower())[:24] if v["kind"] == "check" else "") for v in r.get("viol", [])}


def fair(sc):
    sc = copy.deepcopy(sc)
    sc["sim"].update(mode=1, p_sync=3000, ns=100, faults={})
    return sc


def ddmin(items, ok, deadline):
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        step = max(1, len(items) // n)
        for i in range(0, len(items), step):
            if time.time() > deadline:
                return items
            cand = items[:i] + items[i + step:]
            if ok(cand):
                items = cand
                n = max(n - 1, 2)
                break
        else:
            if step == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(srv, sc, want, budget):
    deadline = time.time() + budget
    tried = [0]

    def ok(c):
        if time.time() > deadline:
            return False
        tried[0] += 1
        return want in sigs(srv.ask(c, timeout=20))

    sc = copy.deepcopy(sc)
    if "clients" in sc and want[0] != "hang":
        for _ in range(2):
            for ci in range(len(sc["clients"]) - 1, -1, -1):
                if len(sc["clients"]) > 1:
                    c = copy.deepcopy(sc)
                    del c["clients"][ci]
                    if ok(c):
                        sc = c
            for ci in range(len(sc["clients"])):
                for oi in range(len(sc["clients"][ci]) - 1, -1, -1):
                    if len(sc["clients"][ci]) > 1:
                        c = copy.deepcopy(sc)
                        del c["clients"][ci][oi]
                        if ok(c):
                            sc = c
        # inside the operations: histories, row counts, frames
        for ci in range(len(sc["clients"])):
            for oi in range(len(sc["clients"][ci])):
                for k in sorted(sc["clients"][ci][oi]):
                    x = sc["clients"][ci][oi][k]
                    if isinstance(x, list) and len(x) > 1 and isinstance(x[0], (dict, list)) and k in ("h", "hist", "steps", "calls", "threads"):
                        for j in range(len(x) - 1, -1, -1):
                            c = copy.deepcopy(sc)
                            y = c["clients"][ci][oi][k]
                            if len(y) > 1 and j < len(y):
                                del y[j]
                                if ok(c):
                                    sc = c
                    elif k in ("n",) and isinstance(x, int):
                        for nv in (1, 2, 3, 4, 6, 8, 12, 17, 24, 33, 50, 80):
                            if nv >= x:
                                break
                            c = copy.deepcopy(sc)
                            c["clients"][ci][oi][k] = nv
                            if ok(c):
                                sc = c
                                break
    s = sc["sim"]
    for k in list(s.get("faults", {})):
        c = copy.deepcopy(sc)
        del c["sim"]["faults"][k]
        if ok(c):
            sc = c
    for k, vals in (("mode", [3, 0]), ("nthreads", [1, 2, 3, 4]), ("trace", [0]), ("alloc_yield", [0]), ("edge_gap", [0]), ("p_sync", [300]), ("poison", [1]),
                    ("wall", [1_700_000_000 * 10**9])):
        for v in vals:
            if sc["sim"].get(k) == v:
                break
            c = copy.deepcopy(sc)
            c["sim"][k] = v
            if ok(c):
                sc = c
                break
    # fix the schedule and the faults as a trace, then thin it
    r = srv.ask(sc, trace=True)
    if want not in sigs(r) or r.get("timeout") or any(t["overflow"] for t in r["trace"]):
        return sc, tried[0], None
    seeded = copy.deepcopy(sc)
    sc["replay"] = [{"dec": t["dec"], "faults": t["faults"]} for t in r["trace"]]
    if not ok(sc):
        return seeded, tried[0], "trace replay differs; the seed replays"
    for inc in range(len(sc["replay"])):
        for what in ("dec", "faults"):
            def ok2(items, inc=inc, what=what):
                c = copy.deepcopy(sc)
                c["replay"][inc][what] = items
                return ok(c)

            if sc["replay"][inc][what]:
                if ok2([]):
                    sc["replay"][inc][what] = []
                else:
                    sc["replay"][inc][what] = ddmin(sc["replay"][inc][what], ok2, deadline)
    return sc, tried[0], None


def known(prop):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    build()
    tb = time.time() - t0
    budget = float(os.environ.get("VERIF_BUDGET_S", 0) or (45 if tier == "quick" else 600))
    scratch = tempfile.mkdtemp(prefix="vsim.")
    try:
        return explore(prop, tier, seed, budget, scratch, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(prop, tier, seed, budget, scratch, t0, tb):
    cp = cpus()[:8]
    deadline = time.time() + budget
    ws = []
    for w, cpu in enumerate(cp):
        d = os.path.join(scratch, f"w{w}")
        os.makedirs(d)
        err = open(os.path.join(d, "stderr"), "w")
        ws.append(subprocess.Popen(PRE + [PY, os.path.join(SIM, "host.py"), "worker", prop, str(seed), str(w), str(len(cp)), tier, str(deadline)],
                                   env=env(d, cpu), stdout=subprocess.PIPE, stderr=err, cwd=SIM))
    bufs = {w.stdout.fileno(): b"" for w in ws}
    agg = {"stats": collections.Counter(), "fault_hit": collections.Counter(), "fault_opp": collections.Counter(), "tags": collections.Counter(),
           "known": collections.Counter(), "modes": collections.Counter()}
    tot = collections.Counter()
    ih, shapes, cov = set(), collections.Counter(), set()
    covtotal = 0
    maxes = collections.Counter()
    viols, herr, timeouts, repbad = [], [], [], []
    open_ = set(bufs)
    stop_at = deadline + 150
    first_v = None

    def take(d):
        nonlocal covtotal, first_v
        t = d["t"]
        if t == "v":
            viols.append(d)
            if first_v is None:
                first_v = time.time()
        elif t == "herr":
            herr.append(d)
        elif t == "timeout":
            timeouts.append(d)
        else:
            for k in ("runs", "evaluations", "ops", "repeat"):
                tot[k] += d[k]
            repbad.extend(d["repeat_bad"])
            ih.update(d["ihash"])
            shapes.update(d["shapes"])
            for k in agg:
                for a, b in d[k].items():
                    if a in ("nthreads", "max_runnable"):
                        maxes[a] = max(maxes[a], b)
                    elif isinstance(b, (int, float)):
                        agg[k][a] += b
            cov.update(d.get("cov", []))
            covtotal = max(covtotal, d.get("covtotal", 0))

    while open_ and time.time() < stop_at:
        r, _, _ = select.select(list(open_), [], [], 1.0)
        for fd in r:
            b = os.read(fd, 1 << 20)
            if not b:
                open_.discard(fd)
                continue
            *lines, bufs[fd] = (bufs[fd] + b).split(b"\n")
            for l in lines:
                if l.strip():
                    take(json.loads(l))
        # enough was seen: keep looking for a moment (a smaller case may turn up), then stop
        if first_v and time.time() > first_v + 6:
            break
        if len(timeouts) >= 8 or len(herr) >= 20:
            break
    early = bool(open_)
    for w in ws:
        if w.poll() is None:
            w.kill()
        w.wait()
    dead = [i for i, w in enumerate(ws) if w.returncode not in (0, -9)]
    for i in dead:
        herr.append({"i": -1, "err": open(os.path.join(scratch, f"w{i}", "stderr")).read()[-1500:]})
    explored_s = time.time() - t0 - tb

    # ---- decide
    srv_dir = os.path.join(scratch, "serve")
    os.makedirs(srv_dir)
    srv = Server(srv_dir)
    confirmed = None
    unrepro = []
    sys.path.insert(0, SIM)
    viols.sort(key=lambda d: len(json.dumps(d["sc"])))
    for d in viols[:8]:
        if all(v["kind"] == "livelock" for v in d["viol"]):
            d["sc"] = fair(d["sc"])  # progress is promised under a fair scheduler only
        a = srv.ask(d["sc"])
        if sigs(a):
            b = srv.ask(d["sc"])
            if sigs(a) & sigs(b):
                confirmed = (d, sorted(sigs(a) & sigs(b), key=lambda x: x[0] != "check")[0], a)
                break
        unrepro.append(d["i"])
    slow = []
    if confirmed is None and timeouts:
        for d in timeouts[:3]:
            sc = fair(scenarios(prop, seed, tier, srv_dir, [d["i"]])[0])
            a = srv.ask(sc, timeout=60)
            if a.get("timeout"):
                confirmed = ({"i": d["i"], "sc": sc, "viol": [{"kind": "hang", "msg": "no end in 60 s of processor time, twice, where runs take well under a second"}]}, ("hang", "", ""), a)
                break
            if sigs(a):
                confirmed = ({"i": d["i"], "sc": sc, "viol": a["viol"]}, sorted(sigs(a))[0], a)
                break
            slow.append(d["i"])
    rc = 0
    n_viol = 0
    if confirmed:
        d, want, a = confirmed
        n_viol = len(viols) or 1
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        path = os.path.join(V, "replays", f"{prop}-{seed}-{d['i']}.json")
        mn, tried, note = minimise(srv, d["sc"], want, 100 if tier == "quick" else 200)
        r1, r2 = srv.ask(mn, timeout=60), srv.ask(mn, timeout=60)
        if want not in sigs(r1) or r1.get("hash") != r2.get("hash"):
            mn, note = d["sc"], "minimised form unstable; this is the original run"
            r1, r2 = srv.ask(mn, timeout=60), srv.ask(mn, timeout=60)
        v = (r1.get("viol") or d["viol"])
        json.dump({"property": prop, "seed": seed, "index": d["i"], "want": list(want), "violation": v[:3], "hash": r1.get("hash"),
                   "replays_exactly": r1.get("hash") == r2.get("hash") and r1.get("out") == r2.get("out"), "minimised_in_runs": tried, "note": note,
                   "schedule_decisions": [len(x["dec"]) for x in mn.get("replay", [])], "scenario": mn}, open(path, "w"), indent=1)
        for x in v[:2]:
            print("  " + x["kind"] + ": " + x["msg"][:700])
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    srv.stop()
    if not confirmed and herr:
        for h in herr[:3]:
            print("harness error:", h["i"], h["err"][-1500:])
        rc = 2
    if not confirmed and not herr and tot["evaluations"] == 0:
        print("harness error: nothing was explored")
        rc = 2
    for k in known(prop):
        print(f"KNOWN-FINDING: property={prop} {k['what']} [{k['id']}, met {agg['known'].get(k['id'], 0)} times in this run]")
    wall = time.time() - t0
    sys.path.insert(0, SIM)
    meta = json.load(open(os.path.join(SIM, "meta.json"))).get(prop, {}) if os.path.exists(os.path.join(SIM, "meta.json")) else {}
    st = agg["stats"]
    cov_ = {
        "evaluations": tot["evaluations"],
        "distinct_nontrivial": len(ih),
        "rule": "one evaluation = one seeded scenario (operations, data, contexts, schedule policy, fault mix drawn from seed:index) run in a fresh simulated process; "
                "counted as distinct and non-trivial: different hashes of the sequence of (thread, event) pairs at which the simulator moved the processor "
                "from one thread to another or injected a fault, together with the thread count",
        "samples": [json.dumps(s)[:900] for s in samples(prop, seed, tier, srv_dir)],
        "simulated_processes": tot["runs"],
        "operations": tot["ops"],
        "operations_by_kind": dict(agg["tags"]),
        "distinct_operation_shapes": len(shapes),
        "runs_per_hour": int(tot["runs"] / max(explored_s, 1) * 3600),
        "seeds_per_hour": int(tot["evaluations"] / max(explored_s, 1) * 3600),
        "simulated_time_s": round(st["vtime"] / 1e9, 3),
        "events": st["ev"], "thread_switches": st["switches"], "preemptions": st["preempts"], "schedule_decisions": st["decisions"],
        "max_threads": maxes["nthreads"], "max_runnable": maxes["max_runnable"],
        "schedule_policies": {{"0": "sticky", "1": "random", "2": "PCT", "3": "round robin"}.get(k, k): v for k, v in agg["modes"].items()},
        "faults_injected": dict(agg["fault_hit"]), "fault_opportunities": dict(agg["fault_opp"]),
        "entropy_calls": st["entropy_calls"], "clock_calls": st["clock_calls"], "poisoned_bytes": st["poison_bytes"],
        "basic_blocks_of_the_extension_reached": len(cov), "basic_blocks_of_the_extension": covtotal,
        "determinism_repeats": tot["repeat"], "determinism_mismatches": len(repbad),
        "unreproduced": unrepro, "slow_runs": slow, "stopped_early": early,
        "real_components": meta.get("real", "the extension built from /repo (every basic block reports to the scheduler), the polars_ds Python package, polars, rayon, numpy, CPython"),
        "stub_components": meta.get("stub", "kernel scheduling, futexes, clocks, timers, entropy, heap contents and, below the scratch directory, the disk are simulated"),
        "build_s": round(tb, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov_,
          "assumptions": meta.get("assumptions", []) + [
              "polars, CPython and numpy are taken as they are; interleavings at their synchronisation points and system calls are explored, not inside their instruction streams",
              "memory is sequentially consistent: one thread runs at a time",
          ], "wall_s": round(wall, 1), "violations": n_viol}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {tot['evaluations']} scenarios, {len(ih)} distinct interleavings, {tot['ops']} operations, "
          f"{sum(agg['fault_hit'].values())} faults, {round(st['vtime']/1e9,1)} s simulated, {round(wall,1)} s (build {round(tb,1)})")
    return rc


def scenarios(prop, seed, tier, scratch, idx):
    """Scenarios, generated by the same code the workers use."""
    r = subprocess.run(PRE + [PY, os.path.join(SIM, "host.py"), "gen", prop, str(seed), tier] + [str(i) for i in idx], env=env(scratch), capture_output=True, text=True, cwd=SIM)
    return [json.loads(x) for x in r.stdout.splitlines() if x.startswith("{")]


def samples(prop, seed, tier, scratch):
    try:
        return scenarios(prop, seed, tier, scratch, (100, 101))
    except Exception as e:  # noqa: BLE001
        return [f"not available: {e}"]


def replay(path):
    build()
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="vsim.")
    srv = Server(scratch)
    r = srv.ask(d["scenario"], timeout=60)
    srv.stop()
    shutil.rmtree(scratch, ignore_errors=True)
    for v in r.get("viol", []):
        print("  " + v["kind"] + ": " + v["msg"][:900])
    if tuple(d["want"]) in sigs(r):
        print("same execution as recorded" if r.get("hash") == d.get("hash") else "same violation, different execution hash (the code changed?)")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("the violation did not come back", r.get("harness_error", ""))
    return 0


def determinism(prop, n):
    """Every scenario in two different processes: hash and outputs must agree."""
    build()
    scratch = tempfile.mkdtemp(prefix="vsim.")
    bad = 0
    a, b = Server(os.path.join(scratch, "a")), Server(os.path.join(scratch, "b"))
    for i, sc in enumerate(scenarios(prop, 77, "quick", scratch, range(n))):
        x, y = a.ask(sc), b.ask(sc)
        if x.get("hash") != y.get("hash") or x.get("out") != y.get("out"):
            bad += 1
            print("differs:", i, x.get("hash"), y.get("hash"))
        if i % 7 == 0:
            a.stop()
    a.stop(), b.stop()
    shutil.rmtree(scratch, ignore_errors=True)
    print(f"{n} scenarios in two processes, {bad} differ")
    return 1 if bad else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "--determinism":
        sys.exit(determinism(sys.argv[2], int(sys.argv[3])))
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
