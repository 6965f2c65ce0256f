"""Blueprints and pipelines: what a fitted pipeline computes, however it is called; saving and loading it."""
import json
import math
import os
import threading

import numpy as np
import polars as pl
import polars.selectors as cs
from polars_ds.modeling.pipeline import Blueprint, Pipeline

import common
from common import Exc, Op, brief, close, op

NULL = 0.2
CATS = ["a", "b", "c", "dd", "e e", "é"]


class Refused(Exception):
    """The fitting data determine no constant: anything goes."""


# ------------------------------------------------------------------ data
BASE = [("x", "f"), ("z", "f"), ("w", "f"), ("i", "i"), ("b", "b"), ("s", "s"), ("t", "s"), ("nn", "n"), ("y", "i01")]


def data(s, n, nulls, nan=False):
    r = np.random.default_rng(s)
    d = {}
    for j, (name, k) in enumerate(BASE):
        if k in ("f", "n"):
            v = [float(x) for x in np.round(r.normal(0.5, 2, n), 3)]
        elif k == "i":
            v = [int(x) for x in r.integers(-3, 6, n)]
        elif k == "b":
            v = [bool(x) for x in r.random(n) < 0.5]
        elif k == "s":
            v = [CATS[int(x)] for x in r.integers(0, 5 if s % 2 else 6, n)]
        else:
            v = [int(x) for x in r.random(n) < 0.4]
        m = r.random(n) < (nulls if k not in ("i01",) else 0)
        if k == "n" and nan:
            v = [math.nan if q < 0.3 else x for q, x in zip(r.random(n), v)]
        d[name] = [None if b else x for b, x in zip(m, v)]
    return d


TYPES = {"f": pl.Float64, "n": pl.Float64, "i": pl.Int64, "b": pl.Boolean, "s": pl.String, "i01": pl.Int64}
SCHEMA = {n: TYPES[k] for n, k in BASE}


# ------------------------------------------------------------------ steps: generation, the call, the reference
def gen_steps(rng, n):
    """Steps over the columns there are; each keeps its own arguments."""
    F, I, B, S = ["x", "z", "w"], ["i"], ["b"], ["s", "t"]
    out = []
    kinds = ["impute", "cimpute", "scale", "robust", "center", "winsor", "ohe", "rank", "target", "woe", "iv", "poly", "filter", "sql", "bools", "nan", "i2f", "select", "drop", "rename",
             "linear", "expr", "func"]
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        k = rng.choice(kinds)
        st = {"k": k, "dict": rng.random() < 0.3}
        some = lambda L: rng.sample(L, rng.randint(1, len(L)))
        if k == "impute" and F:
            st.update(cols=some(F), m=rng.choice(["mean", "median", "mode"]))
        elif k == "cimpute" and F:
            c = rng.choice(F)
            st.update(col=c, thr=rng.choice([-1.0003, 0.0003, 1.5007]), m=rng.choice(["mean", "median", "mode"]), sql=rng.random() < 0.5)
        elif k == "scale" and F:
            st.update(cols=some(F), m=rng.choice(["standard", "min_max", "abs_max"]), sel=rng.random() < 0.25)
        elif k == "robust" and F:
            st.update(cols=some(F), q=rng.choice([[0.25, 0.75], [0.1, 0.9], [0.0, 0.5]]))
        elif k == "center" and F:
            st.update(cols=some(F))
        elif k == "winsor" and F:
            st.update(cols=some(F), q=rng.choice([[0.05, 0.95], [0.25, 0.6]]), m=rng.choice(["nearest", "linear", "lower"]))
        elif k == "ohe" and S:
            c = some(S)
            if not out and rng.random() < 0.3:
                c = ["s", "t"]
                st["dyn"] = rng.choice(["string", "strs"])
            st.update(cols=c, first=rng.random() < 0.4, drop=rng.random() < 0.7, sep=rng.choice(["_", "="]))
            if st["drop"]:
                S = [x for x in S if x not in c]
        elif k == "rank" and S:
            c = rng.choice(S)
            st.update(col=c, ranks=rng.choice([["a", "b", "c"], ["c", "a"], ["dd", "a", "e e", "b"]]), drop=rng.random() < 0.5)
            if st["drop"]:
                S = [x for x in S if x != c]
        elif k in ("target", "woe", "iv") and S:
            c = rng.choice(S)
            st.update(col=c, default=rng.choice([None, "null", "zero", "mean", 0.25]), leaf=rng.choice([1, 5, 20]), sm=rng.choice([1.0, 10.0]), **({"tgt": rng.choice(["y", "y", "expr"])} if rng.random() < 0.4 else {}))
            S = [x for x in S if x != c]
            F = F + [c]
        elif k == "poly" and len(F) > 1:
            c = rng.sample(F, 2)
            st.update(cols=c, io=rng.random() < 0.5)
        elif k == "filter" and F:
            st.update(col=rng.choice(F), thr=rng.choice([-3.0007, -1.0003, 0.0003]), s=rng.random() < 0.5)
        elif k == "sql" and F:
            st.update(col=rng.choice(F), name=f"sq{len(out)}")
        elif k == "select":
            keep = [c for c in F + I + B + S + ["y"] if rng.random() < 0.8 or c == "y"]
            st.update(cols=keep, form=rng.choice(["expr", "names", "sel"]))
            F, I, B, S = ([c for c in L if c in keep] for L in (F, I, B, S))
        elif k == "drop" and len(F) > 1:
            st.update(cols=[rng.choice(F)], form=rng.choice(["names", "expr", "sel", "list"]))
            F = [c for c in F if c not in st["cols"]]
        elif k == "rename" and F:
            c = rng.choice(F)
            if len(F) > 1 and rng.random() < 0.3:  # two columns trade names, or three go round
                c = rng.sample(F, min(len(F), rng.choice([2, 3])))
                st.update(d=dict(zip(c, c[1:] + c[:1])))
            else:
                st.update(d={c: c + "_r"})
                F = [x for x in F if x != c] + [c + "_r"]
        elif k == "linear" and len(F) >= 3:
            c = rng.sample(F, 3)
            st.update(cols=c[:2], target=c[2], bias=rng.random() < 0.5)
        elif k == "expr" and F:
            st.update(col=rng.choice(F), name=f"e{len(out)}", a=rng.choice([2.0, -0.5]), sel=False)
        elif k == "func" and F:
            st.update(cols=some(F), kw=rng.choice([1.0, 3.0]))
        elif k == "bools":
            B = []
        elif k in ("nan", "i2f"):
            pass
        else:
            continue
        if k in ("impute", "scale", "robust", "center", "winsor", "func") and not st.get("sel"):
            if not out and rng.random() < 0.3:
                st["dyn"] = rng.choice(["float", "num", "re", "type", "minus"])
                st["cols"] = ["x", "z"] if st["dyn"] == "re" else ["x", "z", "w"]
            elif rng.random() < 0.15 and all(o["k"] not in ("select", "drop") for o in out):
                st["cols"] = st["cols"] + ["y"]
        out.append(st)
    return out or [{"k": "nan", "dict": False}]


def custom(df, cols, scale=2.0):
    return [pl.col(c) + df[c].max() * scale for c in cols]


DYN = {"string": lambda: cs.string(), "strs": lambda: pl.col(pl.String), "float": lambda: cs.float() - cs.by_name("nn"), "num": lambda: cs.numeric() - cs.by_name("nn", "i"), "re": lambda: pl.col("^[xz]$"), "type": lambda: cs.by_dtype(pl.Float64) & ~cs.contains("n"),
       "minus": lambda: pl.all().exclude("i", "b", "s", "t", "nn")}


def add(bp, st):
    """The step, through the method or its dictionary form."""
    k = st["k"]
    if st.get("dyn"):
        st = {**st, "cols": DYN[st["dyn"]]()}

    def do(name, *a, **kw):
        if st["dict"]:
            return bp.append_step_from_dict({"name": name, "args": list(a), "kwargs": kw})
        return getattr(bp, name)(*a, **kw)

    if k == "impute":
        return do("impute", st["cols"], method=st["m"])
    if k == "cimpute":
        rule = f"{st['col']} > {st['thr']}" if st["sql"] else pl.col(st["col"]) > st["thr"]
        return do("conditional_impute", {st["col"]: rule}, method=st["m"])
    if k == "scale":
        return do("scale", cs.by_name(*st["cols"]) if st["sel"] else st["cols"], method=st["m"])
    if k == "robust":
        return do("robust_scale", st["cols"], st["q"][0], st["q"][1])
    if k == "center":
        return do("center", st["cols"])
    if k == "winsor":
        return do("winsorize", st["cols"], q_low=st["q"][0], q_high=st["q"][1], method=st["m"])
    if k == "ohe":
        return do("one_hot_encode", st["cols"], separator=st["sep"], drop_first=st["first"], drop_cols=st["drop"])
    if k == "rank":
        return do("rank_hot_encode", st["col"], st["ranks"], drop_cols=st["drop"])
    tg = {"target": pl.col("y") if st["tgt"] == "expr" else st["tgt"]} if st.get("tgt") else {}
    if k == "target":
        return do("target_encode", [st["col"]], **tg, min_samples_leaf=st["leaf"], smoothing=st["sm"], default=st["default"])
    if k == "woe":
        return do("woe_encode", [st["col"]], **tg, default=st["default"])
    if k == "iv":
        return do("iv_encode", [st["col"]], **tg, default=st["default"])
    if k == "poly":
        return do("polynomial_features", st["cols"], degree=2, interaction_only=st["io"])
    if k == "filter":
        return do("filter", f"{st['col']} > {st['thr']}" if st["s"] else pl.col(st["col"]) > st["thr"])
    if k == "sql":
        return do("sql_transform", f"SELECT *, {st['col']} * 2 AS {st['name']} FROM df")
    if k == "bools":
        return do("cast_bools")
    if k == "nan":
        return do("nan_to_null")
    if k == "i2f":
        return do("int_to_float", f32=False)
    if k == "select":
        return do("select", [pl.col(c) for c in st["cols"]] if st["form"] == "expr" else st["cols"] if st["form"] == "names" else cs.by_name(*st["cols"]))
    if k == "drop":
        return do("drop", {"names": st["cols"], "expr": pl.col(st["cols"]), "sel": cs.by_name(*st["cols"]), "list": [pl.col(c) for c in st["cols"]]}[st["form"]])
    if k == "rename":
        return do("rename", st["d"])
    if k == "linear":
        return do("linear_impute", st["cols"], target=st["target"], add_bias=st["bias"])
    if k == "expr":
        return bp.append_expr((pl.col(st["col"]) * st["a"] + 1.0).alias(st["name"]))
    return bp.append_fit_func(custom, st["cols"], scale=st["kw"])


def stat(v, how, *a):
    v = [x for x in v if x is not None]
    if not v:
        raise Refused
    if how == "mode":
        return min(x for x in v if v.count(x) == max(v.count(y) for y in v))
    s = pl.Series(v, dtype=pl.Float64)
    r = getattr(s, how)(*a)
    if r is None:
        raise Refused
    return r


def ar(f, *a):
    """Arithmetic the way the frame does it: null in, null out; division by zero gives inf or NaN."""
    if any(x is None for x in a):
        return None
    with np.errstate(all="ignore"):
        return float(f(*[np.float64(x) for x in a]))


def sharp(x, m):
    # a spread that is nothing or rounding noise decides nothing
    if abs(x) < 1e-7 * max(1.0, abs(m)):
        raise Refused


def fit(st, d, ctx):
    c = fit_(st, d, ctx)
    if st["k"] == "robust" or (st["k"] == "scale" and st["m"] == "min_max"):
        for lo, hi in c.values():
            sharp(hi - lo, hi)
    elif st["k"] == "scale" and st["m"] == "standard":
        for m, s in c.values():
            sharp(s, m)
    return c


def fit_(st, d, ctx):
    """What the step learns from the data it sees."""
    k = st["k"]
    ex = ctx["exclude"]
    cols = [c for c in st.get("cols", []) if c not in ex]
    if k in ("impute", "scale", "robust", "center", "winsor", "func"):
        if not cols and k != "func":
            raise Refused  # nothing to learn
        out = {}
        for c in cols:
            v = d[c]
            if k == "impute":
                out[c] = stat(v, st["m"])
            elif k == "center":
                out[c] = stat(v, "mean")
            elif k == "func":
                out[c] = stat(v, "max")
            elif k == "robust":
                out[c] = (stat(v, "quantile", st["q"][0], "midpoint"), stat(v, "quantile", st["q"][1], "midpoint"))
            elif k == "winsor":
                out[c] = (stat(v, "quantile", st["q"][0], st["m"]), stat(v, "quantile", st["q"][1], st["m"]))
            elif st["m"] == "standard":
                out[c] = (stat(v, "mean"), stat(v, "std", 0))
            elif st["m"] == "min_max":
                out[c] = (stat(v, "min"), stat(v, "max"))
            else:
                out[c] = max(abs(stat(v, "min")), abs(stat(v, "max")))
        return out
    if k == "cimpute":
        return stat([x for x in d[st["col"]] if x is not None and not x > st["thr"]], st["m"])
    if k == "ohe":
        u = {c: sorted({x for x in d[c] if x is not None}) for c in cols}
        if not any(len(v) > 1 for v in u.values()):
            raise Refused
        return u
    if k == "linear":
        f, t = [d[c] for c in cols], d[st["target"]]
        if len(cols) != len(st["cols"]) or st["target"] in cols:
            raise Refused
        ok = [i for i in range(len(t)) if t[i] is not None and all(c[i] is not None for c in f)]
        if len(ok) < len(f) + 4:
            raise Refused
        X = np.array([[c[i] for c in f] + ([1.0] if st["bias"] else []) for i in ok])
        if len(ok) < X.shape[1] + 3 or not np.isfinite(X).all() or np.linalg.cond(X) > 1e4:
            raise Refused
        y = np.array([t[i] for i in ok])
        if not np.isfinite(y).all():
            raise Refused
        return np.linalg.lstsq(X, y, rcond=None)[0]
    if k in ("target", "woe", "iv"):
        y, c = d["y"], d[st["col"]]
        if st["col"] in ex or not y:
            raise Refused
        dv = {None: None, "null": None, "zero": 0.0, "mean": sum(y) / len(y)}.get(st["default"], st["default"])
        if k == "target":
            g = {}
            for a, b in zip(c, y):
                if a is not None:
                    g.setdefault(a, []).append(b)
            m = sum(y) / len(y)
            w = {}
            for a, v in g.items():
                al = 1 / (1 + math.exp(-(len(v) - st["leaf"]) / st["sm"]))
                w[a] = al * sum(v) / len(v) + (1 - al) * m
        else:
            from fam.nums import woe_rows
            if not any(a is not None for a in c):
                raise Refused
            w = {a: v[0 if k == "woe" else 1] for a, v in woe_rows(c, y).items()}
        if not w:
            raise Refused
        return w, dv
    return None


def apply(st, c, d, ctx):
    k = st["k"]
    n = len(next(iter(d.values()))) if d else 0
    d = dict(d)
    if k == "impute":
        for a, m in c.items():
            d[a] = [m if x is None else x for x in d[a]]
    elif k == "cimpute":
        d[st["col"]] = [c if x is not None and x > st["thr"] else x for x in d[st["col"]]]
    elif k == "center":
        for a, m in c.items():
            d[a] = [ar(lambda x, y: x - y, x, m) for x in d[a]]
    elif k == "func":
        for a, m in c.items():
            d[a] = [ar(lambda x, y: x + y * st["kw"], x, m) for x in d[a]]
    elif k == "robust" or (k == "scale" and st["m"] == "min_max"):
        for a, (lo, hi) in c.items():
            d[a] = [ar(lambda x, l, h: (x - l) / (h - l), x, lo, hi) for x in d[a]]
    elif k == "scale" and st["m"] == "standard":
        for a, (m, s) in c.items():
            d[a] = [ar(lambda x, l, h: (x - l) / h, x, m, s) for x in d[a]]
    elif k == "scale":
        for a, m in c.items():
            d[a] = [ar(lambda x, l: x / l, x, m) for x in d[a]]
    elif k == "winsor":
        for a, (lo, hi) in c.items():
            d[a] = [None if x is None else min(max(x, lo), hi) for x in d[a]]
    elif k == "ohe":
        for a, u in c.items():
            if len(u) > 1:
                for v in u[int(st["first"]):]:
                    d[a + st["sep"] + v] = [int(x == v) for x in d[a]]
        if st["drop"]:
            for a in st["cols"]:
                d.pop(a)
    elif k == "rank":
        r = {v: i for i, v in enumerate(st["ranks"])}
        for i, v in enumerate(st["ranks"]):
            if i:
                d[f"{st['col']}>={v}"] = [-1 if x not in r else int(r[x] >= i) for x in d[st["col"]]]
        if st["drop"]:
            d.pop(st["col"])
    elif k in ("target", "woe", "iv"):
        w, dv = c
        d[st["col"]] = [w.get(x, dv) if x is not None else dv for x in d[st["col"]]]
    elif k == "poly":
        a, b = st["cols"]
        for p_, q_ in ((a, a), (a, b), (b, b)):
            if p_ != q_ or not st["io"]:
                d[f"{p_}*{q_}"] = [ar(lambda x, y: x * y, x, y) for x, y in zip(d[p_], d[q_])]
    elif k == "filter":
        keep = [i for i, x in enumerate(d[st["col"]]) if x is not None and x > st["thr"]]
        d = {a: [v[i] for i in keep] for a, v in d.items()}
    elif k == "sql":
        d[st["name"]] = [ar(lambda x: x * 2, x) for x in d[st["col"]]]
    elif k == "bools":
        for a, v in list(d.items()):
            if a in ("b",):
                d[a] = [None if x is None else int(x) for x in v]
    elif k == "nan":
        for a, v in list(d.items()):
            d[a] = [None if isinstance(x, float) and x != x else x for x in v]
    elif k == "select":
        d = {a: d[a] for a in st["cols"]}
    elif k == "drop":
        for a in st["cols"]:
            d.pop(a)
    elif k == "rename":
        old = dict(d)
        for a, b in st["d"].items():
            d[b] = old[a]
        for a in st["d"]:
            if a not in st["d"].values():
                d.pop(a)
    elif k == "linear":
        t = st["target"]
        f = [d[a] for a in st["cols"]]
        new = []
        for i in range(n):
            x = d[t][i]
            if x is None:
                xs = [a[i] for a in f]
                x = "?" if any(v is None for v in xs) else float(np.dot(xs + ([1.0] if st["bias"] else []), c))
            new.append(x)
        d[t] = new
    elif k == "expr":
        d[st["name"]] = [ar(lambda x: x * st["a"] + 1.0, x) for x in d[st["col"]]]
    return d


def unknown(d):
    return any(x == "?" for v in d.values() for x in v)


class Model:
    """The reference pipeline: learned constants and steps."""

    def __init__(self, steps, d, exclude):
        self.steps, self.ctx, self.const = steps, {"exclude": exclude}, []
        for st in steps:
            self.const.append(fit(st, d, self.ctx))
            d = apply(st, self.const[-1], d, self.ctx)
            if unknown(d) and st is not steps[-1]:
                raise Refused  # not defined by the documentation: how a null feature is imputed
        self.out = list(d)
        self.fitted = d

    def __call__(self, d):
        for i, (st, c) in enumerate(zip(self.steps, self.const)):
            d = apply(st, c, d, self.ctx)
            if unknown(d) and i < len(self.steps) - 1:
                raise Refused
        return d


def same_frame(cols, got, want, tol=1e-9):
    """Column names and values of a frame against the reference's."""
    if cols != list(want):
        return f"columns {cols} instead of {list(want)}"
    for c, v in zip(cols, got):
        w = want[c]
        if len(v) != len(w):
            return f"{len(v)} rows instead of {len(w)}"
        for i, (a, b) in enumerate(zip(v, w)):
            if b == "?":
                continue
            if isinstance(b, str) or isinstance(a, str):
                ok = a == b
            else:
                ok = close(a, b, tol, tol)
            if not ok:
                return f"row {i} of {c}: {a} instead of {b}"
    return None


def values(df):
    return list(df.columns), [s.to_list() for s in df.get_columns()]


def build(p, lazy=False):
    df = pl.DataFrame(data(p["s"], p["n"], p["nulls"], p["nan"]), schema=SCHEMA)
    if p.get("upper"):
        df = df.rename({c: c.upper() for c in df.columns})
    bp = Blueprint(df.lazy() if lazy else df, name="sim", target="y", exclude=p["exclude"], lowercase=bool(p.get("upper")))
    for st in p["steps"]:
        bp = add(bp, st)
    return df, bp


def gen_pipe(rng):
    n = rng.choice([6, 12, 25, 60])
    return {"s": rng.getrandbits(30), "n": n, "nulls": rng.choice([0, NULL]), "nan": rng.random() < 0.3, "steps": gen_steps(rng, n), "exclude": rng.choice([None, None, ["x"], ["z", "w"]]),
            "upper": rng.random() < 0.15}


@op
class Calls(Op):
    """A fitted pipeline, called in every way, from one or several threads."""

    name = "pipe.calls"

    def gen(self, rng):
        p = gen_pipe(rng)
        p["lazyfit"] = rng.random() < 0.3
        th = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            calls = []
            for _ in range(rng.choice([2, 3, 5])):
                calls.append({"c": rng.choice(["fit", "new", "new", "row", "slice", "empty"]), "how": rng.choice(["eager", "lazy", "chunks", "separate", "json", "dict", "refit", "ensure", "bp"]),
                              "s": rng.getrandbits(30), "n": rng.choice([1, 3, 10, 40])})
            th.append(calls)
        p["threads"] = th
        return p

    def input(self, p, c):
        if c["c"] == "fit":
            return data(p["s"], p["n"], p["nulls"], p["nan"])
        if c["c"] == "empty":
            return {k: [] for k, _ in BASE}
        if c["c"] in ("row", "slice"):
            d = data(p["s"], p["n"], p["nulls"], p["nan"])
            a = c["s"] % p["n"]
            b = a + 1 if c["c"] == "row" else a + 1 + c["n"]
            return {k: v[a:b] for k, v in d.items()}
        return data(c["s"], c["n"], NULL if c["s"] % 2 else 0, p["nan"])

    def run(self, p, ctx):
        df, bp = build(p, p["lazyfit"])
        keep = df.clone()
        text = str(bp)
        pipe = bp.materialize()
        ctx.preempt()
        log = []

        def one(c):
            src = self.input(p, c)
            f = pl.DataFrame(src, schema=SCHEMA)
            if p["upper"]:
                f = f.rename({k: k.upper() for k in f.columns})
            k2 = f.clone()
            if c["how"] == "chunks" and f.height > 1:
                f = pl.concat([f.head(f.height // 2), f.tail(f.height - f.height // 2)], rechunk=False)
            how = c["how"]
            if how == "lazy":
                o = pipe.transform(f.lazy(), return_lazy=True).collect()
            elif how == "separate":
                if "y" not in pipe.feature_names_out_:
                    return None
                a, b = pipe.transform(f, separate=True)
                if a.height != b.height or list(b.columns) != ["y"] or "y" in a.columns:
                    raise AssertionError(f"separate gave {a.columns} and {b.columns}")
                o = a.with_columns(b["y"]).select(pipe.feature_names_out_)
            elif how == "json":
                o = Pipeline.from_json_str(pipe.to_json()).transform(f)
            elif how == "dict":
                o = Pipeline.from_dict(json.loads(json.dumps(pipe.to_dict()))).transform(f)
            elif how == "refit":
                o = bp.materialize().transform(f)
            elif how == "bp":
                o = bp.transform(f)
            elif how == "ensure":
                o = Pipeline.from_dict(pipe.to_dict()).ensure_features_io().transform(f)
            else:
                o = pipe.transform(f)
            if not f.equals(k2):
                raise AssertionError("the input frame was changed")
            if list(o.columns) != list(pipe.feature_names_out_):
                raise AssertionError(f"columns {o.columns}, announced {pipe.feature_names_out_}")
            return values(o)

        def client(ti):
            for ci, c in enumerate(p["threads"][ti]):
                try:
                    r = one(c)
                except BaseException as e:
                    r = Exc(e)
                log.append((ti, ci, r))
                ctx.preempt()

        th = [threading.Thread(target=client, args=(i,), daemon=True) for i in range(1, len(p["threads"]))]
        for t in th:
            t.start()
        client(0)
        for t in th:
            t.join()
        return {"log": log, "same": df.equals(keep), "text": str(bp) == text}

    def check(self, p, r, ctx):
        m = self.judge(p, r)
        return [m] if m else []

    def judge(self, p, r):
        try:
            d = data(p["s"], p["n"], p["nulls"], p["nan"])
            M = Model(p["steps"], d, (["y"] if True else []) + (p["exclude"] or []))
        except Refused:
            return None
        if isinstance(r, Exc):
            return f"pipeline: {r.type}: {r.msg[:250]} for {brief(p)}"
        if not r["same"]:
            return f"pipeline: the caller's frame was changed, for {brief(p)}"
        if not r["text"]:
            return f"pipeline: the blueprint was changed by fitting or transforming, for {brief(p)}"
        bad = any(isinstance(x, float) and not math.isfinite(x) for x in flat(M.const))
        for ti, ci, v in sorted(r["log"], key=lambda x: x[:2]):
            c = p["threads"][ti][ci]
            if v is None:
                continue
            try:
                want = M(self.input(p, c))
            except Refused:
                continue
            if isinstance(v, Exc):
                tag = "[known:json-nonfinite] " if bad and c["how"] in ("json", "dict", "ensure") and "deserialize" in v.msg else ""
                return f"{tag}pipeline call {c}: {v.type}: {v.msg[:200]} for {brief(p)}"
            m = same_frame(v[0], v[1], want)
            if m:
                return f"pipeline call {c} (thread {ti}): {m}; steps {json.dumps(p['steps'])[:500]}, for {brief({k: x for k, x in p.items() if k != 'threads'})}"
        return None

    def shape(self, p):
        return "pipe|" + "-".join(s["k"] for s in p["steps"]) + f"|{len(p['threads'])}"


@op
class Flags(Op):
    """What a blueprint is told about names, the target and the features coming in and out."""

    name = "pipe.flags"

    def gen(self, rng):
        return {"s": rng.getrandbits(30), "n": rng.choice([4, 9, 30]), "case": rng.choice([None, "lower", "upper"]), "ein": rng.random() < 0.5, "eout": rng.random() < 0.6, "io": rng.random() < 0.6, "target": rng.random() < 0.7,
                "ex": rng.random() < 0.3, "cols": rng.choice(["float", "numeric", "names", "all"]), "ohe": rng.random() < 0.5, "drop": rng.random() < 0.5,
                "calls": [{"f": rng.choice(["same", "same", "extra", "missing", "order", "cased"]), "via": rng.choice(["self", "dict", "json"]), "lazy": rng.random() < 0.4, "sep": rng.random() < 0.3} for _ in range(rng.choice([2, 4]))]}

    def frame(self, p, k=0):
        r = np.random.default_rng(p["s"] + k)
        n = p["n"]
        return pl.DataFrame({"Xa": r.normal(3, 1, n), "zB": r.normal(-2, 1, n), "Yy": [int(v) for v in r.integers(0, 2, n)], "Ss": [CATS[int(v)] for v in list(range(min(2, n))) + list(r.integers(0, 2, n))][:n]})

    def run(self, p, ctx):
        c = {None: str, "lower": str.lower, "upper": str.upper}[p["case"]]
        df = self.frame(p)
        bp = Blueprint(df, target=c("Yy") if p["target"] else None, exclude=[c("zB")] if p["ex"] else None, lowercase=p["case"] == "lower", uppercase=p["case"] == "upper")
        cols = {"float": cs.float(), "numeric": cs.numeric(), "names": [c(x) for x in ("Xa", "zB", "Yy")], "all": pl.all().exclude(c("Ss"))}[p["cols"]]
        bp = bp.center(cols)
        if p["ohe"]:
            bp = bp.one_hot_encode([c("Ss")], drop_cols=p["drop"])
        pipe = bp.materialize()
        if p["io"]:
            pipe.ensure_features_io(p["ein"], p["eout"])
        out = []
        for k, q in enumerate(p["calls"]):
            ctx.preempt()
            f = self.frame(p, k)
            if q["f"] == "extra":
                f = f.select(pl.lit("q").alias("extra"), pl.all())
            elif q["f"] == "missing":
                f = f.drop("Xa")
            elif q["f"] == "order":
                f = f.select("Ss", "Yy", "zB", "Xa")
            elif q["f"] == "cased":
                f = f.rename({a: a.swapcase() for a in f.columns})
            g = {"self": lambda: pipe, "dict": lambda: Pipeline.from_dict(pipe.to_dict()), "json": lambda: Pipeline.from_json_str(pipe.to_json())}[q["via"]]
            try:
                r = g().transform(f.lazy() if q["lazy"] else f, separate=q["sep"], return_lazy=q["lazy"])
                r = [x.collect() if q["lazy"] else x for x in (r if q["sep"] else [r])]
                out.append([values(x) for x in r])
            except Exception as e:
                out.append(Exc(e))
        return {"out": out, "names": [list(pipe.feature_names_in_), list(pipe.feature_names_out_)]}

    def check(self, p, r, ctx):
        m = self.judge(p, r)
        return [f"{m}, for {brief(p)}"] if m else []

    def judge(self, p, r):
        if isinstance(r, Exc):
            return f"a blueprint with these flags raised {r.type}: {r.msg[:200]}"
        c = {None: str, "lower": str.lower, "upper": str.upper}[p["case"]]
        base = ["Xa", "zB", "Yy", "Ss"]
        num = [x for x in {"float": ["Xa", "zB"]}.get(p["cols"], ["Xa", "zB", "Yy"]) if not (p["target"] and x == "Yy") and not (p["ex"] and x == "zB")]
        fitted = self.frame(p)
        mean = {x: fitted[x].mean() for x in num}
        vals = sorted(fitted["Ss"].unique().to_list())
        ein, eout = (p["ein"], p["eout"]) if p["io"] else (False, True)
        final = [c(x) for x in base]
        if p["ohe"]:
            if len(vals) > 1:
                final += [c("Ss") + "_" + v for v in vals]
            if p["drop"]:
                final.remove(c("Ss"))
        if r["names"] != [[c(x) for x in base], final]:
            return f"the features are given as {r['names']} instead of {[[c(x) for x in base], final]}"
        for k, (q, got) in enumerate(zip(p["calls"], r["out"])):
            f = self.frame(p, k)
            must = q["f"] == "missing" or (q["f"] == "extra" and ein) or (q["f"] == "cased" and p["case"] is None) or (q["sep"] and not p["target"])
            if must != isinstance(got, Exc):
                return f"call {q} {'gave a frame' if must else 'raised ' + got.type + ': ' + got.msg[:150]}"
            if must:
                continue
            d = {c(x): f[x].to_list() for x in base}
            for x in num:
                d[c(x)] = [v - mean[x] for v in d[c(x)]]
            if p["ohe"] and len(vals) > 1:
                for v in vals:
                    d[c("Ss") + "_" + v] = [int(x == v) for x in f["Ss"].to_list()]
            if p["ohe"] and p["drop"]:
                d.pop(c("Ss"))
            want = [x for x in final]
            if not eout:
                lead = [c("extra")] if q["f"] == "extra" else []
                d[c("extra")] = ["q"] * f.height
                o = [c(x) for x in ("Ss", "Yy", "zB", "Xa")] if q["f"] == "order" else [c(x) for x in base]
                want = lead + [x for x in o if x in final] + [x for x in final if x not in o]
            parts = [[x for x in want if x != c("Yy")], [c("Yy")]] if q["sep"] else [want]
            if len(parts) != len(got):
                return f"call {q} gave {len(got)} frames"
            for w, g in zip(parts, got):
                m = same_frame(g[0], g[1], {x: d[x] for x in w})
                if m:
                    return f"call {q}: {m}"
        return None

    def shape(self, p):
        return f"flags|{p['case']}|{p['ein']}{p['eout']}{p['io']}{p['target']}{p['ex']}|{p['cols']}|{p['ohe']}{p['drop']}|" + "-".join(q["f"] for q in p["calls"])


def flat(x):
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple, np.ndarray)):
        for y in x:
            yield from flat(y)
    else:
        yield float(x) if isinstance(x, np.floating) else x


# ------------------------------------------------------------------ saving and loading
WF = "disk_full write_eio write_short write_eintr open_fail fsync_fail close_fail rename_fail".split()
RF = "read_eio read_short read_eintr open_fail".split()
FI = {n: i for i, n in enumerate(
    "stall spurious_wakeup timer_jump thread_spawn_fail entropy_eintr entropy_short entropy_fail disk_full write_eio write_short write_eintr read_eio read_short read_eintr open_fail fsync_fail "
    "close_fail crash rename_fail".split())}


def save_gen(rng, sc):
    pipes = []
    while len(pipes) < 2:
        q = gen_pipe(rng)
        q.update(nan=False, upper=False)
        try:
            M = Model(q["steps"], data(q["s"], q["n"], q["nulls"]), ["y"] + (q["exclude"] or []))
            if any(isinstance(x, float) and not math.isfinite(x) for x in flat(M.const)):
                continue  # C12's finding json-nonfinite
        except (Refused, KeyError, ZeroDivisionError):
            continue
        pipes.append(q)
    steps = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        k = rng.choices(["save", "load", "torn", "missing"], [5, 5, 1, 1])[0]
        st = {"k": k, "file": rng.choice(["a", "a", "b"]), "s": rng.getrandbits(30)}
        if k == "save":
            st["pipe"] = rng.choice([0, 1])
            if rng.random() < 0.5:
                st["faults"] = {f: rng.choice([4000, 20000, 65536]) for f in rng.sample(WF, rng.randint(1, 3))}
        elif k == "load" and rng.random() < 0.4:
            st["faults"] = {f: rng.choice([4000, 20000, 65536]) for f in rng.sample(RF, rng.randint(1, 2))}
        steps.append(st)
    steps.append({"k": "load", "file": "a", "s": 1})
    steps.append({"k": "load", "file": "b", "s": 1})
    f = sc["sim"]["faults"]
    if rng.random() < 0.35:
        f["crash"] = [rng.choice([1500, 6000, 20000]), 1]
    return {"pipes": pipes, "steps": steps, "clients": [[{"f": "pipe.save"}]]}


def save_run(sc, ctx):
    """Saves and loads under disk faults; after a crash, the next incarnation looks at what is left."""
    lib = ctx.lib
    root = ctx.disk
    viol, tags = [], {}
    probe = [data(5, 12, 0), data(6, 30, NULL)]
    pipes, models = [], []

    def quiet():
        for k in WF + RF:
            lib.sim_faults(FI[k], 0, 0)

    quiet()
    crash = lib_crash(sc) if not ctx.incarnation else 0
    lib.sim_faults(FI["crash"], 0, 0)
    for q in sc["pipes"]:
        _, bp = build(q)
        pipes.append(bp.materialize())
        # a pipeline loaded again is to do what the one saved does (what that is, C12 decides)
        models.append([values(pipes[-1].transform(pl.DataFrame(d, schema=SCHEMA))) for d in probe])

    def which(pipe):
        """Index of the pipeline this one transforms like, or what is wrong with it."""
        why = None
        got = []
        for d in probe:
            try:
                got.append(values(pipe.transform(pl.DataFrame(d, schema=SCHEMA))))
            except BaseException as e:
                return f"it raises {type(e).__name__}: {str(e)[:120]}"
        out = []
        for i, M in enumerate(models):
            ok = True
            for w, g in zip(M, got):
                m = same_frame(g[0], g[1], dict(zip(*w)), 1e-6)  # JSON keeps a float up to its last place
                if m:
                    why, ok = m, False
                    break
            if ok and len(pipe.transforms) == len(pipes[i].transforms):
                out.append(i)
        return out or f"it is neither of those saved: {why}"

    def path(f):
        return f"{root}{f}.json"

    # what each file may hold: set of pipeline indices; "err" = loading may raise
    st8 = {}
    for f in "ab":
        if ctx.incarnation:
            st8[f] = {0, 1, "err"} if os.path.exists(path(f)) else {"err"}
        else:
            st8[f] = {"err"}
    n = 0
    steps = sc["steps"] if not ctx.incarnation else [{"k": "load", "file": f, "s": 1} for f in "ab"] + sc["steps"]
    for si, s in enumerate(steps):
        lib.sim_mark(si)
        f = s["file"]
        n += 1
        tags[s["k"]] = tags.get(s["k"], 0) + 1
        err = None
        if s["k"] == "torn":
            if os.path.exists(path(f)):
                with open(path(f)) as h:
                    t = h.read()
                with open(path(f), "w") as h:
                    h.write(t[: s["s"] % max(1, len(t))])
                st8[f] = {"err!"}
            continue
        if s["k"] == "missing":
            if os.path.exists(path(f)):
                os.unlink(path(f))
            st8[f] = {"err!"}
            continue
        for k, pr in s.get("faults", {}).items():
            lib.sim_faults(FI[k], pr, 50)
        if s["k"] == "save":
            if crash:
                lib.sim_faults(FI["crash"], crash, 1)
            try:
                pipes[s["pipe"]].to_json(path(f))
            except Exception as e:
                err = e
            quiet()
            lib.sim_faults(FI["crash"], 0, 0)
            if err is None:
                st8[f] = {s["pipe"]}
            else:
                if not s.get("faults"):
                    viol.append({"kind": "check", "op": "pipe.save", "client": 0, "index": 0, "msg": f"saving raised {type(err).__name__}: {str(err)[:150]} with no fault, step {si} of {steps}"})
                st8[f] = set(st8[f]) | {s["pipe"], "err"}
            continue
        try:
            got = Pipeline.from_json(path(f))
        except Exception as e:
            err = e
        except BaseException as e:
            viol.append({"kind": "check", "op": "pipe.save", "client": 0, "index": 0, "msg": f"loading ended in {type(e).__name__}: {str(e)[:150]}, step {si}"})
            quiet()
            continue
        quiet()
        may = st8[f]
        faulty = bool(s.get("faults"))
        if err is not None:
            if not faulty and not (may & {"err", "err!"}):
                viol.append({"kind": "check", "op": "pipe.save", "client": 0, "index": 0, "msg": f"loading what was saved raised {type(err).__name__}: {str(err)[:150]} with no fault, step {si} of {json.dumps(steps)[:600]}"})
            continue
        w = which(got)
        if isinstance(w, str):
            viol.append({"kind": "check", "op": "pipe.save", "client": 0, "index": 0, "msg": f"the loaded pipeline is another one: {w}; step {si} of {json.dumps(steps)[:500]}, pipelines {json.dumps([q['steps'] for q in sc['pipes']])[:500]}"})
        elif not (set(w) & may):
            viol.append({"kind": "check", "op": "pipe.save", "client": 0, "index": 0, "msg": f"loading gave pipeline {w} where {sorted(map(str, may))} is due; step {si} of {json.dumps(steps)[:600]}"})
        if viol:
            break
    return {"viol": viol, "digest": common.json.dumps([len(viol), n]), "ops": n, "tags": tags, "known": {}, "shapes": ["save|" + "-".join(s["k"] for s in steps)]}


def lib_crash(sc):
    return sc["sim"]["faults"].get("crash", [0])[0]
