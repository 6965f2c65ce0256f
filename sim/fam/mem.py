"""Memory: nothing a caller owns is written to, results do not depend on bytes nobody set, and what a
model was given or gave out is not shared with it behind the caller's back.

Heap guards and frees are watched by the simulator in every run of every family; here, in addition,
each scenario is run a second time with other bytes in all fresh memory, and must give the same.
"""
import random
import threading
import warnings

import numpy as np
import polars as pl
from polars_ds.linear_models import LR, ElasticNet, OnlineLR
from polars_ds.spatial import KDTree

from common import OPS, Exc, ExprOp, Op, brief, op
from fam.context import FRESH, SIGNLESS, plain, unlike, unsigned


def deep(df):
    """What a frame holds, value by value; also what its buffers hold beneath the nulls' places is left out."""
    return {c: repr(df[c].to_list()) for c in df.columns}


@op
class Expr(Op):
    name = "mem.expr"
    comparable = True

    def sources(self):
        if not hasattr(self, "_src"):
            self._src = dict(FRESH)
            for k, o in OPS.items():
                if isinstance(o, ExprOp) and not k.startswith("par.") and not o.known_errors:
                    self._src[k] = o
            self._names = sorted(self._src)
        return self._src

    def gen(self, rng):
        src = self.sources()
        nm = rng.choice(self._names)
        o = src[nm]
        q = o.gen(rng) if not nm.startswith("fresh.") else o.params(rng)
        allow = o.allow_for(q)
        how = ["select", "select", "sliced", "chunked", "twice", "threads"] + ([] if allow is not None and "groupby" not in allow else ["groupby"])
        return {"src": nm, "p": q, "how": rng.choice(how), "s": rng.getrandbits(30)}

    def run(self, p, ctx):
        o = self.sources()[p["src"]]
        q = p["p"]
        df = pl.DataFrame(o.columns(q), schema=o.schema(q))
        n = df.height
        r = np.random.default_rng(p["s"])
        own = [df]
        g = [int(v) for v in r.integers(0, 3, n)]
        if p["how"] == "sliced":
            a = int(r.integers(1, 6))
            big = pl.concat([df[[int(v) for v in r.integers(0, n, a)]], df, df[[int(v) for v in r.integers(0, n, 3)]]], rechunk=True) if n else df
            own.append(big)
            df = big.slice(a if n else 0, n)
            own.append(df)
        elif p["how"] == "chunked":
            cut = [0, *sorted(int(v) for v in r.integers(0, n + 1, 1 + p["s"] % 4)), n]
            df = pl.concat([df.slice(a, b - a) for a, b in zip(cut, cut[1:])], rechunk=False)
            own.append(df)
        elif p["how"] == "groupby":
            df = df.with_columns(pl.Series("__g", g, dtype=pl.Int64))
            own.append(df)
        before = [deep(x) for x in own]
        out = {}

        def go():
            e = o.expr(q).alias("out")
            if p["how"] == "groupby":
                return plain(df.group_by("__g", maintain_order=True).agg(e)["out"])
            return plain(df.select(e)["out"])

        def guarded(k):
            try:
                out[k] = go()
            except BaseException as ex:
                out[k] = f"error {type(ex).__name__}"

        t = None
        if p["how"] == "threads":
            t = threading.Thread(target=guarded, args=("b",), daemon=True)
            t.start()
        guarded("a")
        if t:
            t.join()
        elif p["how"] == "twice":
            guarded("b")
        for i, (x, b) in enumerate(zip(own, before)):
            now = deep(x)
            for c in b:
                if now[c] != b[c]:
                    out["bad"] = f"the call changed column {c} of {'the frame' if i == 0 else 'a frame it shares memory with'}: {b[c][:80]} became {now[c][:80]}"
        return out

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"harness: {r.type} {r.msg}"]
        if "bad" in r:
            return [f"{p['src']}: {r['bad']}, for {brief(p)}"]
        if "b" in r:
            d = unlike(*[unsigned(v) if p["src"] in SIGNLESS else v for v in (r["b"], r["a"])], 1e-7)
            if d:
                return [f"{p['src']}: two evaluations of the same rows disagree: {d}, for {brief(p)}"]
        return []

    def canon(self, p, r):
        if isinstance(r, Exc):
            return r
        return unsigned(r["a"]) if p["src"] in SIGNLESS else r["a"]

    def shape(self, p):
        return f"mem|{p['src']}|{p['how']}"


def inside(X, how, seed):
    """The matrix as some view of a larger array of the caller's: (view, everything the caller owns)."""
    r = np.random.default_rng(seed)
    n, k = X.shape
    if how == "plain":
        a = X.copy()
        return a, a
    if how == "fortran":
        a = np.asfortranarray(X)
        return a, a
    if how == "rows":
        big = r.normal(size=(n + 5, k))
        big[2 : n + 2] = X
        return big[2 : n + 2], big
    if how == "cols":
        big = r.normal(size=(n, k + 3))
        big[:, 1 : k + 1] = X
        return big[:, 1 : k + 1], big
    if how == "step":
        big = r.normal(size=(2 * n, k))
        big[::2] = X
        return big[::2], big
    if how == "rev":
        big = X[::-1].copy()
        return big[::-1], big
    if how == "ro":
        a = X.copy()
        a.flags.writeable = False
        return a, a
    raise ValueError(how)


VIEWS = ["plain", "fortran", "rows", "cols", "step", "rev", "ro"]


@op
class Model(Op):
    """A model or tree and the arrays that go in and come out."""

    name = "mem.model"
    comparable = True

    def gen(self, rng):
        k = rng.choice([1, 2, 3, 5])
        return {"m": rng.choice(["kdt", "kdt", "lr", "en", "online", "lrvals"]), "k": k, "n": k + rng.choice([2, 3, 8, 20, 40]), "s": rng.getrandbits(30), "view": rng.choice(VIEWS), "yview": rng.choice(["1d", "2d", "step"]),
                "qview": rng.choice(VIEWS), "bias": rng.random() < 0.5, "metric": rng.choice(["l1", "l2", "sql2", "inf"]), "par": rng.random() < 0.5, "solver": rng.choice(["qr", "svd", "choleskey"])}

    def run(self, p, ctx):
        r = np.random.default_rng(p["s"])
        X = r.normal(size=(p["n"], p["k"]))
        Q = r.normal(size=(7, p["k"]))
        y = X @ r.normal(size=p["k"]) + 0.3 * r.normal(size=p["n"])
        Xv, Xb = inside(X, p["view"], p["s"])
        Qv, Qb = inside(Q, p["qview"], p["s"] + 1)
        if p["yview"] == "step":
            yb = r.normal(size=3 * p["n"])
            yb[::3] = y
            yv = yb[::3]
        else:
            yb = y.copy() if p["yview"] == "1d" else y.reshape(-1, 1).copy()
            yv = yb
        own = {"X": Xb, "Q": Qb, "y": yb}
        before = {k: v.copy() for k, v in own.items()}
        bad = []
        accepted = {}

        def unchanged(when):
            for k, v in own.items():
                if v.tobytes() != before[k].tobytes():
                    bad.append(f"{when} changed the caller's {k}")
                    before[k] = v.copy()

        def lay(v):  # some calls want a particular layout and refuse others
            return [v, np.ascontiguousarray(v)]

        def first(f, *alts):
            for i, a in enumerate(alts):
                try:
                    return f(a)
                except (ValueError, TypeError):
                    unchanged("a refused call")
                    if i == len(alts) - 1:
                        raise

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if p["m"] == "kdt":
                m = first(lambda a: KDTree(a, distance=p["metric"]), *lay(Xv))
                unchanged("KDTree()")
    
                query = lambda: plain([first(lambda q: [np.asarray(v).tolist() for v in m.knn(q, 3, parallel=p["par"])], *lay(Qv)), first(lambda q: np.asarray(m.within_count(q, 1.1, parallel=p["par"])).tolist(), *lay(Qv))])
            else:
                if p["m"] == "lr":
                    m = LR(has_bias=p["bias"], lambda_=0.1, solver=p["solver"])
                elif p["m"] == "en":
                    m = ElasticNet(0.05, 0.1, has_bias=p["bias"])
                elif p["m"] == "online":
                    m = OnlineLR(lambda_=0.1, has_bias=p["bias"])
                if p["m"] == "lrvals":
                    cv = r.normal(size=p["k"])
                    own["coeffs"] = cv
                    before["coeffs"] = cv.copy()
                    m = LR.from_values(cv, 1.5 if p["bias"] else 0.0)
                else:
                    m.fit(Xv, yv)
                unchanged("fit")
                query = lambda: plain([np.asarray(m.predict(Qv)).ravel().tolist(), np.asarray(m.coeffs()).tolist(), m.bias()])
            a = query()
            unchanged("a query")
            if p["m"] != "kdt":
                c = m.coeffs()
                try:
                    c[...] = 777.0  # what was given out is the caller's
                except (ValueError, TypeError):
                    pass
                if p["m"] == "online":
                    try:
                        m.inv()[...] = 0.5
                    except (ValueError, TypeError):
                        pass
            if p["m"] == "online":
                m.update(Qv[0], 0.25)
                unchanged("update")
                a = query() if not bad else a
            # what was given in is the caller's as well
            for k in own:
                if k != "Q":
                    if own[k].flags.writeable:
                        own[k][...] = 1e6
                    before[k] = own[k].copy()
            keep = r.normal(size=(64, 64))  # let freed memory be used again
            b = query()
            del keep
            d = unlike(b, a, 0.0)
            if d:
                bad.append(f"the answer changed after the caller wrote to its own arrays: {d}")
        return {"a": a, "bad": bad}

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"{self.name} raised {r.type}: {r.msg} for {brief(p)}"]
        return [f"{p['m']}: {r['bad'][0]}, for {brief(p)}"] if r["bad"] else []

    def canon(self, p, r):
        return r if isinstance(r, Exc) else r["a"]

    def shape(self, p):
        return f"mem|{p['m']}|{p['view']}|{p['qview']}"


@op
class Report(Op):
    """Histories of the stateful objects, watched for heap damage and for dependence on unset bytes."""

    name = "mem.history"
    comparable = True
    PARTS = ("kdt.history", "online.history", "lr.model")

    def gen(self, rng):
        nm = rng.choice(self.PARTS)
        q = OPS[nm].gen(rng)
        if "threads" in q:
            q["threads"] = q["threads"][:1]
        return {"src": nm, "p": q}

    def run(self, p, ctx):
        o = OPS[p["src"]]
        r = o.run(p["p"], ctx)
        return {"viol": o.check(p["p"], r, ctx)}

    def check(self, p, r, ctx):
        return [f"harness: {r.type} {r.msg}"] if isinstance(r, Exc) else r["viol"]

    def canon(self, p, r):
        return 0

    def shape(self, p):
        return "mem|" + OPS[p["src"]].shape(p["p"])


def twin(sc, rng):
    """The same run with other bytes in fresh memory."""
    sc["sim"]["poison"] = rng.choice([v for v in (1, 2, 3, 4) if v != sc["sim"]["poison"]])
    return sc
