"""Scenario generation and execution inside a simulated process.

A scenario is a JSON object: the simulator's configuration (schedule policy, thread count, fault
rates, heap poison, clock rate) and, per client thread, a list of operations.  Families of
operations live in fam/*.py; each gives gen (from a PRNG), run (against the real code, in a client
thread) and check (against a reference model, after or during the run).
"""
import hashlib
import importlib
import json
import os
import random
import sys
import threading

import numpy as np
import polars as pl

import common
from common import Exc

PROPS = {}
FAMILIES = "knn strs lr roll online kdt ts rnd split pipe nums stat text dia context mem contain par".split()
for _f in FAMILIES:
    if os.path.exists(os.path.join(os.path.dirname(__file__), "fam", _f + ".py")):
        importlib.import_module("fam." + _f)
import props  # noqa: E402  (property table)


def sim_params(rng, spec):
    """Swarm testing: each scenario draws its own schedule policy and fault mix."""
    mode = rng.choices([1, 2, 3, 0], [50, 25, 12, 13])[0]
    s = {
        "seed": rng.getrandbits(48),
        "mode": mode,
        "p_sync": rng.choice([300, 3000, 15000, 45000]),
        "edge_gap": rng.choice([0, 40, 200, 1500, 15000]),
        "pct_depth": rng.choice([1, 2, 3, 5, 10]),
        "pct_len": rng.choice([3000, 20000, 100000]),
        "ns": rng.choice([10, 100, 1000, 20000]),
        "nthreads": rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 7, 8, 12]),
        "poison": rng.choice([1, 1, 2, 3, 4]),
        "alloc_yield": rng.choice([0, 0, 100, 3000]),
        "stall_len": rng.choice([100, 2000, 30000]),
        "wall": rng.choice([864_000, 1_700_000_000, 951_782_399, 2_147_483_646]) * 10**9,
        "switch": rng.choice([1e-6, 1e-4, 0.005]),
        "trace": rng.choice([0, 0, 0, 1]),
        "morsel": rng.choice([0, 0, 3, 7, 40]),
    }
    f = {}
    if rng.random() < 0.5:
        f["stall"] = [rng.choice([5, 50, 400]), 50]
    if rng.random() < 0.5:
        f["spurious_wakeup"] = [rng.choice([300, 3000]), 200]
    if rng.random() < 0.4:
        f["timer_jump"] = [rng.choice([5, 100]), 50]
    if rng.random() < 0.3:
        f["wallclock_jump"] = [6000, 20]
    for k, (prob, ps, mx) in spec.get("faults", {}).items():
        if rng.random() < prob:
            f[k] = [rng.choice(ps), mx]
    s["faults"] = f
    return s


ONLY = os.environ.get("SIM_ONLY")  # for development: only operations whose name starts so
BIG = float(os.environ.get("SIM_BIG", 0.04))


def gen(prop, master, i, tier):
    spec = props.PROPS[prop]
    if ONLY:
        spec = dict(spec, ops={k: w for k, w in spec["ops"].items() if k.startswith(ONLY)})
    rng = random.Random(f"{prop}:{master}:{i}")
    sc = {"prop": prop, "i": i, "sim": sim_params(rng, spec)}
    if "gen" in spec:
        sc.update(spec["gen"](rng, sc))
        return sc
    if rng.random() < BIG:
        # one operation over many more rows than usual: other paths are taken beyond some sizes
        for _ in range(20):
            nm = rng.choice(sorted(spec["ops"]))
            op = common.OPS[nm].gen(rng)
            if common.OPS[nm].enlarge(op, rng):
                op["f"] = nm
                sc["clients"] = [[op]]
                sc["sim"]["max_events"] = 400_000_000
                sc["sim"]["edge_gap"] = rng.choice([0, 1500, 15000])
                return sc
    ncl = rng.choice(spec.get("clients", [1, 1, 2, 2, 3]))
    names, weights = zip(*spec["ops"].items())
    cl = []
    for _ in range(ncl):
        ops = []
        for _ in range(rng.choice(spec.get("nops", [1, 2, 3]))):
            nm = rng.choices(names, weights)[0]
            op = common.OPS[nm].gen(rng)
            op["f"] = nm
            ops.append(op)
        cl.append(ops)
    sc["clients"] = cl
    return sc


class Ctx:
    def __init__(self, lib, sc, disk, incarnation):
        self.lib, self.sc, self.disk, self.incarnation = lib, sc, disk, incarnation
        self.known = {}
        self.shared = {}

    def preempt(self):
        self.lib.sim_yield()


def _tracer(ctx, rng):
    """Preemption inside the package's own Python code: any line of it may be where a thread stops."""
    lib = ctx.lib

    def local(frame, event, arg):
        if event == "line" and rng.random() < 0.15:
            lib.sim_yield()
        return local

    def top(frame, event, arg):
        if "polars_ds" in frame.f_code.co_filename:
            return local
        return None

    return top


def _digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


def differ(a, b, tol):
    """Where two results (as JSON) differ, or None."""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{len(a)} instead of {len(b)} values"
        for x, y in zip(a, b):
            d = differ(x, y, tol)
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return f"{sorted(a)} instead of {sorted(b)}"
        for k in a:
            d = differ(a[k], b[k], tol)
            if d:
                return f"{k}: {d}"
        return None
    if isinstance(a, float) and isinstance(b, float):
        if common.close(a, b, tol, tol) if tol else (a == b or (a != a and b != b)):
            return None
    elif a == b:
        return None
    return f"{str(a)[:80]} instead of {str(b)[:80]}"


def plain(x):
    """A result as JSON values, floats exact."""
    if isinstance(x, Exc):
        return f"error {x.type}"
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, pl.Series):
        return plain(x.to_list())
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x
    return repr(x)


def run(sc, incarnation, lib, disk):
    spec = props.PROPS[sc["prop"]]
    ctx = Ctx(lib, sc, disk, incarnation)
    ctx.known_tags = common.known_tags(sc["prop"])
    if "run" in spec:
        return spec["run"](sc, ctx)
    clients = sc["clients"]
    results = [[None] * len(c) for c in clients]
    viol = []

    def client(ci):
        if sc["sim"].get("trace"):
            sys.settrace(_tracer(ctx, random.Random(sc["sim"]["seed"] + ci)))
        try:
            for oi, op in enumerate(clients[ci]):
                lib.sim_mark(ci * 1000 + oi)
                try:
                    results[ci][oi] = common.OPS[op["f"]].run(op, ctx)
                except BaseException as e:  # a Rust panic is a BaseException
                    results[ci][oi] = Exc(e)
                lib.sim_yield()
        finally:
            sys.settrace(None)

    ts = [threading.Thread(target=client, args=(ci,), daemon=True) for ci in range(len(clients))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    lib.sim_mark(900000)
    digest = []
    tags = {}
    shapes = []
    cmp = {}
    n = 0
    for ci, ops in enumerate(clients):
        for oi, op in enumerate(ops):
            n += 1
            r = results[ci][oi]
            digest.append(_digest(r))
            O = common.OPS[op["f"]]
            tags[op["f"]] = tags.get(op["f"], 0) + 1
            shapes.append(O.shape(op))
            if "twin" in spec and getattr(O, "comparable", False):
                cmp[f"{ci}.{oi}"] = plain(O.canon(op, r))
            for m in O.check(op, r, ctx):
                if "panicked" in m and sc["sim"]["faults"].get("entropy_fail"):
                    continue  # the standard library's own hash maps cannot be had without entropy: this caller's error
                k = common.match_known(sc["prop"], op, m)
                if k:
                    ctx.known[k] = ctx.known.get(k, 0) + 1
                else:
                    viol.append({"kind": "check", "op": op["f"], "client": ci, "index": oi, "msg": m})
    return {"viol": viol, "digest": _digest(digest), "ops": n, "tags": tags, "known": ctx.known, "shapes": shapes, **({"cmp": cmp} if "twin" in spec else {})}
