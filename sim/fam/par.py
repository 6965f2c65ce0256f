"""The parallel switch: each operation that has one is run with it on and off, in the same simulated
process, one after the other or from two threads at once; both results are checked against the
operation's own reference and against each other."""
import copy
import math
import random
import threading

import common
from common import OPS, Exc, Op, brief


def same(a, b, tol=1e-9):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k], tol) for k in a)
    if hasattr(a, "to_list"):
        return hasattr(b, "to_list") and same(a.to_list(), b.to_list(), tol)
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


class Par(Op):
    def __init__(self, base):
        self.base = base
        self.name = "par." + base.name

    def gen(self, rng):
        p = self.base.gen(rng)
        p["at_once"] = rng.random() < 0.4
        p["first"] = rng.random() < 0.5
        return p

    def run(self, p, ctx):
        out = {}

        def one(flag):
            q = copy.deepcopy(p)
            q["par"] = flag
            try:
                out[flag] = self.base.run(q, ctx)
            except BaseException as e:
                out[flag] = Exc(e)

        if p["at_once"]:
            t = threading.Thread(target=one, args=(p["first"],), daemon=True)
            t.start()
            one(not p["first"])
            t.join()
        else:
            one(p["first"])
            one(not p["first"])
        return [out[True], out[False]]

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"{self.name} raised {r.type}: {r.msg}"]
        on, off = r
        if isinstance(on, Exc) or isinstance(off, Exc):
            if isinstance(on, Exc) and isinstance(off, Exc):
                return []  # refused alike
            e, w = (on, "on") if isinstance(on, Exc) else (off, "off")
            return [f"{self.name}: with the switch {w} it raised {e.type}: {e.msg[:150]}, otherwise not, for {brief(p)}"]
        if not self.equal(p, on, off):
            return [f"{self.name}: on {str(on)[:200]} off {str(off)[:200]} for {brief(p)}"]
        out = []
        for flag, v in ((True, on), (False, off)):
            q = dict(p, par=flag)
            for m in self.base.check(q, v, ctx):
                out.append(f"switch {'on' if flag else 'off'}: {m}")
        return out[:1]

    def equal(self, p, on, off):
        key = lambda v: sorted(v, key=lambda t: t[0]) if isinstance(v, list) and all(isinstance(t, tuple) for t in v) else v
        return same(key(on), key(off))  # group_by gives its groups in any order

    def shape(self, p):
        return "par." + self.base.shape(p)


FAMS = ("knn.", "strs.", "ts.", "nums.")
for _b in list(OPS.values()):
    if not _b.name.startswith(FAMS):
        continue
    _p = _b.gen(random.Random(1))
    if "par" in _p:
        OPS["par." + _b.name] = Par(_b)
