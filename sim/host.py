"""The processes that run simulations.

A zygote (interpreter, polars, the extension built by build.sh and the oracles, all loaded) forks, in C,
one child per run; the child starts the simulator, executes one scenario and leaves.  Every child
starts from the same memory image, so a run is a pure function of (code, scenario).  A coordinator
generates scenarios, hands them over in shared memory and collects what came of them.

  host.py worker PROP MASTER FIRST STEP TIER DEADLINE   explore indices FIRST, FIRST+STEP, ...
  host.py serve                                         run scenarios read from stdin (replay, minimising)
  host.py gen PROP MASTER TIER INDEX...                 print scenarios
  host.py zygote CTL OUT                                internal
"""
import ctypes
import json
import os
import random
import resource
import select
import signal
import struct
import sys
import time
import warnings

warnings.simplefilter("ignore", DeprecationWarning)

HERE = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(os.path.dirname(HERE), ".build")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(B, "current"))
sys.dont_write_bytecode = True

FAULTS = (
    "stall spurious_wakeup timer_jump thread_spawn_fail entropy_eintr entropy_short entropy_fail disk_full write_eio "
    "write_short write_eintr read_eio read_short read_eintr open_fail fsync_fail close_fail crash rename_fail "
    "wallclock_jump heap_poison wake_reorder stat_fail entropy_constant"
).split()
NF = len(FAULTS)
FI = {n: i for i, n in enumerate(FAULTS)}


class Cfg(ctypes.Structure):
    _fields_ = [
        ("seed", ctypes.c_uint64), ("mode", ctypes.c_uint32), ("p_sync", ctypes.c_uint32), ("edge_gap", ctypes.c_uint32),
        ("pct_depth", ctypes.c_uint32), ("pct_len", ctypes.c_uint32), ("ns", ctypes.c_uint32), ("ncpu", ctypes.c_uint32),
        ("p_fault", ctypes.c_uint32 * NF), ("fault_max", ctypes.c_uint32 * NF), ("max_events", ctypes.c_uint64),
        ("poison", ctypes.c_uint32), ("alloc_yield", ctypes.c_uint32), ("stall_len", ctypes.c_uint32),
        ("pad", ctypes.c_uint32), ("wall", ctypes.c_int64), ("disk", ctypes.c_char * 256),
    ]


class Dec(ctypes.Structure):
    _fields_ = [("ev", ctypes.c_uint64), ("tid", ctypes.c_uint32), ("kind", ctypes.c_uint32)]


class Flt(ctypes.Structure):
    _fields_ = [("kind", ctypes.c_uint32), ("n", ctypes.c_uint32), ("arg", ctypes.c_uint64)]


COVN = 1 << 19


class Sh(ctypes.Structure):
    _fields_ = (
        [("status", ctypes.c_uint32), ("nthreads", ctypes.c_uint32), ("max_runnable", ctypes.c_uint32)]
        + [(n, ctypes.c_uint64) for n in "ev edges syncs allocs switches preempts decisions vtime hash ihash".split()]
        + [(n, ctypes.c_uint32) for n in "ndec dec_overflow nfaultlog marker".split()]
        + [("opp", ctypes.c_uint64 * NF), ("hit", ctypes.c_uint64 * NF), ("cov_edges", ctypes.c_uint64),
           ("entropy_calls", ctypes.c_uint32), ("clock_calls", ctypes.c_uint32), ("huge_refused", ctypes.c_uint32), ("poison_bytes", ctypes.c_uint64),
           ("msg", ctypes.c_char * 512), ("dec", Dec * (1 << 20)), ("faults", Flt * 65536), ("cov", ctypes.c_uint8 * COVN),
           ("req_len", ctypes.c_uint32), ("res_len", ctypes.c_uint32), ("req", ctypes.c_uint8 * (16 << 20)), ("res", ctypes.c_uint8 * (16 << 20))]
    )


ZYGOTE = sys.argv[1] == "zygote"
if not ZYGOTE:  # the coordinator makes the shared memory, before libsim is looked at
    SHM = os.memfd_create("sim", 0)
    os.ftruncate(SHM, ctypes.sizeof(Sh))
lib = ctypes.CDLL(os.path.join(B, "libsim.so"))
lib.sim_shared.restype = ctypes.c_void_p
lib.sim_allocator.restype = ctypes.c_void_p
lib.sim_shared_size.restype = ctypes.c_size_t
lib.sim_ev.restype = ctypes.c_uint64
lib.sim_vtime.restype = ctypes.c_uint64
lib.sim_note.argtypes = [ctypes.c_uint64]
lib.sim_faults.argtypes = [ctypes.c_uint32] * 3
assert lib.sim_shared_size() == ctypes.sizeof(Sh), (lib.sim_shared_size(), ctypes.sizeof(Sh))
assert lib.sim_nfault() == NF
if ZYGOTE:
    sh = Sh.from_address(lib.sim_shared())
else:
    import mmap

    _mm = mmap.mmap(SHM, ctypes.sizeof(Sh))
    sh = Sh.from_buffer(_mm)

import numpy as np  # noqa: E402
import polars as pl  # noqa: E402
import polars.polars as _pp  # noqa: E402

_new = ctypes.pythonapi.PyCapsule_New
_new.restype = ctypes.py_object
_new.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
_capname = b"polars.polars._allocator"
_pp._allocator = _new(lib.sim_allocator(), _capname, None)

import polars_ds as pds  # noqa: E402
from polars_ds import _polars_ds  # noqa: E402,F401
import engine  # noqa: E402

import gc  # noqa: E402

gc.collect()
gc.freeze()
if not ZYGOTE:
    lib.sim_settled()

STATUS = {0: "died", 1: "finished", 2: "deadlock", 3: "livelock", 4: "crash", 5: "heap", 6: "sim-misuse"}


def sim_cfg(s, disk):
    c = Cfg()
    c.seed = s["seed"]
    for a, k in (("mode", "mode"), ("p_sync", "p_sync"), ("edge_gap", "edge_gap"), ("pct_depth", "pct_depth"),
                 ("pct_len", "pct_len"), ("ns", "ns"), ("ncpu", "nthreads"), ("poison", "poison"),
                 ("alloc_yield", "alloc_yield"), ("stall_len", "stall_len"), ("wall", "wall")):
        setattr(c, a, s.get(k, 0))
    c.max_events = s.get("max_events", 20_000_000)
    for k, (p, m) in s.get("faults", {}).items():
        c.p_fault[FI[k]] = p
        c.fault_max[FI[k]] = m
    c.disk = disk.encode()
    return c


DISK = "vd/"  # below the zygote's working directory


def zygote(ctl, out):
    pylib = ctypes.PyDLL(os.path.join(B, "libsim.so"))  # called with the GIL held
    if pylib.sim_zygote(ctl, out) != 0:
        os._exit(98)
    try:
        child()
    finally:
        os._exit(99)


def child():
    sc = json.loads(ctypes.string_at(ctypes.addressof(sh) + Sh.req.offset, sh.req_len))
    incarnation = sc.get("incarnation", 0)
    s = sc["sim"]
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.environ["POLARS_MAX_THREADS"] = str(s["nthreads"])
    os.environ["RAYON_NUM_THREADS"] = str(s["nthreads"])
    if s.get("morsel"):
        os.environ["POLARS_IDEAL_MORSEL_SIZE"] = str(s["morsel"])
    sys.setswitchinterval(s.get("switch", 0.005))
    if os.environ.get("SIM_STDERR"):
        import faulthandler

        faulthandler.enable()
    else:
        devnull = os.open("/dev/null", os.O_WRONLY)
        os.dup2(devnull, 2)
        os.dup2(devnull, 1)
    s = dict(s)
    if incarnation:
        s["seed"] = s["seed"] + 7919 * incarnation
        s["faults"] = {k: v for k, v in s.get("faults", {}).items() if k != "crash"}
    rep = sc.get("replay")
    rep = rep[incarnation] if rep and incarnation < len(rep) else None
    dec = flt = None
    nd = nf = 0
    if rep is not None:
        s["mode"] = 9
        nd, nf = len(rep["dec"]), len(rep["faults"])
        dec = (Dec * max(nd, 1))(*[Dec(*x) for x in rep["dec"]])
        flt = (Flt * max(nf, 1))(*[Flt(FI[x[0]], x[1], x[2]) for x in rep["faults"]])
    c = sim_cfg(s, DISK)
    lib.sim_start(ctypes.byref(c), dec, nd, flt, nf)
    try:
        random.seed()  # from the simulated entropy source
        out = engine.run(sc, incarnation, lib, DISK)
        data = json.dumps(out, default=str).encode()
    except BaseException:
        import traceback

        data = json.dumps({"harness_error": traceback.format_exc()}).encode()
    ctypes.memmove(ctypes.addressof(sh) + Sh.res.offset, data, len(data))
    sh.res_len = len(data)
    lib.sim_finish()


SCRATCH = os.environ.get("SIM_SCRATCH", "/tmp/vsim")
_zy = None


class Zygote:
    def __init__(self):
        self.disk = os.path.join(SCRATCH, "vd")
        os.makedirs(self.disk, exist_ok=True)
        cr, self.ctl = os.pipe()
        self.out, ow = os.pipe()
        e = {k: v for k, v in os.environ.items()}
        # the same environment, whatever the coordinator's own is
        e.pop("SIM_SCRATCH", None), e.pop("SIM_CPU", None)
        for fd in (cr, ow, SHM):
            os.set_inheritable(fd, True)
        # fixed descriptors: 3 control, 4 out, 5 shared memory
        e["SIM_SHM"] = "5"
        pid = os.fork()
        if pid == 0:
            try:
                os.chdir(SCRATCH)
                for i, fd in enumerate((cr, ow, SHM)):
                    os.dup2(fd, 40 + i)
                for i in range(3):
                    os.dup2(40 + i, 3 + i)
                os.closerange(6, 200)
                dn = os.open("/dev/null", os.O_RDONLY)
                os.dup2(dn, 0)
                os.close(dn)
                os.execve(sys.executable, [sys.executable, os.path.join(HERE, "host.py"), "zygote", "3", "4"], e)
            finally:
                os._exit(97)
        os.close(cr)
        os.close(ow)
        self.pid = pid

    def read(self, n, timeout):
        r, _, _ = select.select([self.out], [], [], max(0.0, timeout))
        if not r:
            return None
        b = b""
        while len(b) < n:
            x = os.read(self.out, n - len(b))
            if not x:
                raise RuntimeError("the zygote died")
            b += x
        return b

    def run(self, data, timeout):
        """-> wait status, or None when the time ran out."""
        ctypes.memmove(ctypes.addressof(sh) + Sh.req.offset, data, len(data))
        sh.req_len = len(data)
        sh.res_len = 0
        sh.status = 0
        sh.msg = b""
        os.write(self.ctl, b"x")
        pid = struct.unpack("i", self.read(4, 600))[0]
        b = self.read(4, timeout)
        if b is None:
            os.kill(pid, signal.SIGKILL)
            self.read(4, 60)
            return None
        return struct.unpack("i", b)[0]


def one(sc, want_trace=False, timeout=40):
    """One scenario; where the property compares worlds, its twin in another world as well."""
    r = single(sc, want_trace, timeout)
    tw = engine.props.PROPS[sc["prop"]].get("twin")
    if not tw or r["viol"] or r.get("timeout") or r.get("harness_error") or r.get("cmp") is None:
        return r
    rng = random.Random(sc["sim"]["seed"] ^ 0x7717)
    t = tw(json.loads(json.dumps({k: v for k, v in sc.items() if k != "replay"})), rng)
    q = single(t, False, timeout)
    r["runs"] += q["runs"]
    for n in ("ev", "syncs", "switches", "preempts", "vtime"):
        r["stats"][n] = r["stats"].get(n, 0) + q["stats"].get(n, 0)
    r["hash"] += q["hash"]
    r["ihash"] += q["ihash"]
    if q.get("harness_error"):
        r["harness_error"] = q["harness_error"]
    elif q.get("timeout"):
        r["timeout"] = True
    elif q["viol"]:
        r["viol"] = q["viol"]
    elif q.get("cmp") is not None:
        for k, a in r["cmp"].items():
            d = engine.differ(a, q["cmp"].get(k), engine.props.PROPS[sc["prop"]].get("twin_tol", 0.0))
            if d:
                ci, oi = map(int, k.split("."))
                op = sc["clients"][ci][oi]
                r["viol"].append({"kind": "check", "op": op["f"], "client": ci, "index": oi,
                                  "msg": f"{op['f']} gives another result in another world ({t['sim']['nthreads']} instead of {sc['sim']['nthreads']} pool threads, "
                                         f"other schedule, clock, entropy and heap contents): {d}, for {engine.common.brief(op)}"})
                break
    r.pop("cmp", None)
    return r


def single(sc, want_trace=False, timeout=40):
    """Runs one scenario to its end, over as many process incarnations as its crashes ask for."""
    global _zy
    if _zy is None:
        _zy = Zygote()
    for f in os.listdir(_zy.disk):
        os.unlink(os.path.join(_zy.disk, f))
    total = {"viol": [], "runs": 0, "stats": {}, "trace": [], "hash": [], "ihash": [], "fault_hit": {}, "fault_opp": {}}
    state = None
    for inc in range(4):
        sc2 = dict(sc)
        sc2["incarnation"] = inc
        if state is not None:
            sc2["carry"] = state
        st = _zy.run(json.dumps(sc2).encode(), timeout)
        timed_out = st is None
        total["runs"] += 1
        status = STATUS.get(sh.status, "?")
        total["status"] = status
        for n in "ev edges syncs allocs switches preempts decisions entropy_calls clock_calls huge_refused poison_bytes".split():
            total["stats"][n] = total["stats"].get(n, 0) + int(getattr(sh, n))
        total["stats"]["vtime"] = total["stats"].get("vtime", 0) + max(0, int(sh.vtime) - 10**9)
        total["stats"]["nthreads"] = max(total["stats"].get("nthreads", 0), int(sh.nthreads))
        total["stats"]["max_runnable"] = max(total["stats"].get("max_runnable", 0), int(sh.max_runnable))
        for i, n in enumerate(FAULTS):
            if sh.hit[i]:
                total["fault_hit"][n] = total["fault_hit"].get(n, 0) + int(sh.hit[i])
            if sh.opp[i]:
                total["fault_opp"][n] = total["fault_opp"].get(n, 0) + int(sh.opp[i])
        total["hash"].append(int(sh.hash))
        total["ihash"].append(int(sh.ihash))
        if want_trace:
            total["trace"].append({
                "dec": [[int(d.ev), int(d.tid), int(d.kind)] for d in sh.dec[: sh.ndec]],
                "faults": [[FAULTS[f.kind], int(f.n), int(f.arg)] for f in sh.faults[: sh.nfaultlog]],
                "overflow": int(sh.dec_overflow),
            })
        if timed_out:
            total["timeout"] = True
            return total
        data = ctypes.string_at(ctypes.addressof(sh) + Sh.res.offset, sh.res_len)
        if status == "crash":
            state = {"marker": int(sh.marker)}
            continue
        if status == "finished" and data:
            out = json.loads(data)
            if "harness_error" in out:
                total["harness_error"] = out["harness_error"]
            total["viol"] += out.get("viol", [])
            total["known"] = out.get("known", {})
            total["out"] = out.get("digest")
            total["ops"] = out.get("ops", 0)
            total["tags"] = out.get("tags", {})
            total["shapes"] = out.get("shapes", [])
            if "cmp" in out:
                total["cmp"] = out["cmp"]
            return total
        what = {"deadlock": "deadlock", "livelock": "no progress", "heap": "heap corruption", "died": "process died",
                "sim-misuse": "sim"}.get(status, status)
        sig = st & 127
        msg = sh.msg.split(b"\0")[0].decode()
        total["detail"] = f"{what}: {msg} (wait status {st}, signal {sig}, at op marker {sh.marker})"
        if status == "sim-misuse" or (status == "died" and not sig):
            total["harness_error"] = total["detail"]
        else:
            total["viol"].append({"kind": status, "msg": total["detail"]})
        return total
    total["harness_error"] = "crash faults left no incarnation to finish"
    return total


def nzcov():
    a = np.frombuffer(sh.cov, dtype=np.uint8)
    return np.nonzero(a)[0]


def worker(prop, master, first, step, tier, deadline):
    """Explores until the deadline; one line of JSON per violation, a summary every second."""
    agg = None

    def fresh():
        return {"t": "s", "runs": 0, "evaluations": 0, "ops": 0, "stats": {}, "fault_hit": {}, "fault_opp": {}, "ihash": [], "tags": {},
                "shapes": [], "known": {}, "repeat": 0, "repeat_bad": [], "modes": {}, "maxthreads": 0}

    agg = fresh()
    last = time.monotonic()
    i = first
    out = sys.stdout
    while time.time() < deadline:
        sc = engine.gen(prop, master, i, tier)
        r = one(sc)
        if r.get("timeout"):
            out.write(json.dumps({"t": "timeout", "i": i}) + "\n")
            out.flush()
        if r.get("harness_error"):
            out.write(json.dumps({"t": "herr", "i": i, "err": r["harness_error"]}) + "\n")
            out.flush()
        if r["viol"]:
            out.write(json.dumps({"t": "v", "i": i, "viol": r["viol"][:5], "sc": sc}) + "\n")
            out.flush()
        if i % 97 == first % 97 and not r["viol"]:  # determinism: the same scenario once more
            q = one(sc)
            agg["repeat"] += 1
            if q["hash"] != r["hash"] or q.get("out") != r.get("out"):
                agg["repeat_bad"].append(i)
        agg["evaluations"] += 1
        agg["runs"] += r["runs"]
        agg["ops"] += r.get("ops", 0)
        agg["ihash"] += [h ^ sc["sim"]["nthreads"] for h in r["ihash"]]
        agg["shapes"] += r.get("shapes", [])
        for k in ("stats", "fault_hit", "fault_opp", "tags", "known"):
            for a, b in (r.get(k) or {}).items():
                if a in ("nthreads", "max_runnable"):
                    agg[k][a] = max(agg[k].get(a, 0), b)
                elif isinstance(b, (int, float)):
                    agg[k][a] = agg[k].get(a, 0) + b
                else:
                    agg[k][a] = b
        m = str(sc["sim"]["mode"])
        agg["modes"][m] = agg["modes"].get(m, 0) + 1
        if time.monotonic() - last > 2:
            out.write(json.dumps(agg) + "\n")
            out.flush()
            agg = fresh()
            last = time.monotonic()
        i += step
    agg["cov"] = nzcov().tolist()
    agg["covtotal"] = int(lib.sim_covtotal())
    out.write(json.dumps(agg) + "\n")
    out.flush()


def serve():
    for line in sys.stdin:
        req = json.loads(line)
        r = one(req["sc"], want_trace=req.get("trace", False), timeout=req.get("timeout", 40))
        sys.stdout.write(json.dumps(r) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    cpu = os.environ.get("SIM_CPU")
    if cpu is not None:
        try:
            os.sched_setaffinity(0, {int(cpu)})
        except OSError:
            pass
    if ZYGOTE:
        zygote(int(sys.argv[2]), int(sys.argv[3]))
    elif sys.argv[1] == "gen":
        for i in sys.argv[5:]:
            print(json.dumps(engine.gen(sys.argv[2], int(sys.argv[3]), int(i), sys.argv[4])))
    elif sys.argv[1] == "worker":
        worker(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6], float(sys.argv[7]))
    elif sys.argv[1] == "serve":
        serve()
