"""Shared by the operation families: data generation, delivery of a frame to an expression,
comparison, the registry."""
import json
import math
import os
import random
import re

import numpy as np
import polars as pl

OPS = {}


class Exc:
    """What an operation raised."""

    def __init__(self, e):
        self.type = type(e).__name__
        self.msg = str(e)[:300]
        self.e = e

    def __repr__(self):
        return f"Exc({self.type}: {self.msg})"


class Op:
    name = None

    def gen(self, rng):
        raise NotImplementedError

    def run(self, p, ctx):
        raise NotImplementedError

    def check(self, p, r, ctx):
        raise NotImplementedError

    def shape(self, p):
        return self.name

    def enlarge(self, p, rng):
        """Make p an operation over many rows; False if there is no such thing."""
        if isinstance(p.get("src"), str) and isinstance(p.get("p"), dict) and "n" in p["p"]:
            return grow(p["p"], p["src"], rng)
        return grow(p, self.name, rng)

    comparable = False  # the result is the same in every world (canon gives what to compare)

    def canon(self, p, r):
        return r


def grow(p, name, rng):
    sizes = [m for m in (260, 520, 777, 1030, 1300, 2060, 4100) if m <= BIG_CAP.get(name, 2060)]
    if not sizes or not isinstance(p.get("n"), int):
        return False
    p["n"] = rng.choice(sizes)
    return True


def op(cls):
    o = cls()
    OPS[o.name] = o
    return cls


# ------------------------------------------------------------------ known findings
_KNOWN = None


def _load_known():
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = []
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
        if os.path.exists(p):
            _KNOWN = [k for k in json.load(open(p))["findings"]]
    return _KNOWN


def known_tags(prop):
    return {k["id"] for k in _load_known() if k["property"] == prop}


def match_known(prop, op, msg):
    """A listed finding is matched by the tag the checker attached to the very input class that fails."""
    m = re.match(r"\[known:([\w-]+)\]", msg)
    if m and m.group(1) in known_tags(prop):
        return m.group(1)
    return None


# ------------------------------------------------------------------ data
def col(rng_seed, n, kind):
    """One column, as a list of Python values (None = null)."""
    r = np.random.default_rng(rng_seed)
    k = kind[0]
    if k == "normal":
        v = r.normal(kind[1] if len(kind) > 1 else 0.0, kind[2] if len(kind) > 2 else 1.0, n)
    elif k == "uniform":
        v = r.uniform(kind[1], kind[2], n)
    elif k == "grid":  # few distinct values: ties and duplicates
        v = r.integers(0, kind[1], n).astype(float)
    elif k == "const":
        v = np.full(n, float(kind[1]))
    elif k == "heavy":
        v = r.standard_t(1.5, n) * 3
    elif k == "walk":
        v = np.cumsum(r.normal(0, 1, n))
    elif k == "sin":
        v = np.sin(np.arange(n) * kind[1]) + r.normal(0, 0.05, n)
    elif k == "int":
        return [int(x) for x in r.integers(kind[1], kind[2], n)]
    elif k == "bool":
        return [bool(x) for x in r.random(n) < kind[1]]
    else:
        raise ValueError(k)
    return [float(x) for x in v]


def with_nulls(vals, seed, frac):
    if not frac:
        return vals
    r = np.random.default_rng(seed + 77)
    m = r.random(len(vals)) < frac
    return [None if b else v for v, b in zip(vals, m)]


# ------------------------------------------------------------------ delivering rows to an expression
DELIVER = {
    "select": 6, "lazy": 4, "siblings": 3, "groupby": 3, "over": 3, "filter": 2, "chunked": 3, "sliced": 2, "streaming": 1,
}


def gen_delivery(rng, allow=None, parallel_group=False):
    m = {k: v for k, v in DELIVER.items() if allow is None or k in allow}
    k = rng.choices(list(m), list(m.values()))[0]
    d = {"how": k, "s": rng.getrandbits(30)}
    if k in ("groupby", "over"):
        d["ng"] = rng.choice([1, 2, 3, 5])
    if k == "chunked":
        d["nc"] = rng.choice([2, 3, 5])
    if k in ("siblings",):
        d["ns"] = rng.choice([1, 2, 3])
    return d


def groups_of(d, n):
    r = np.random.default_rng(d["s"])
    return [int(x) for x in r.integers(0, d["ng"], n)]


def make_frame(cols, schema=None):
    return pl.DataFrame({k: v for k, v in cols.items()}, schema=schema)


def deliver(d, cols, schema, expr, n, reduce_, name="out"):
    """Evaluates `expr` over the rows in one of many ways.  Returns a list of
    (row indices, values) parts: values has one entry per row, or one per part for a reduction."""
    df = make_frame(cols, schema)
    how = d["how"]
    rows = list(range(n))
    r = np.random.default_rng(d["s"])
    e = expr.alias(name)
    if how == "select":
        return [(rows, df.select(e)[name])]
    if how == "lazy":
        return [(rows, df.lazy().select(e).collect()[name])]
    if how == "streaming":
        return [(rows, df.lazy().select(e).collect(engine="streaming")[name])]
    if how == "siblings":
        lf = df.lazy()
        out = lf.select(*([e] + [expr.alias(f"sib{i}") for i in range(d["ns"])])).collect()
        res = [(rows, out[name])]
        for i in range(d["ns"]):
            res.append((rows, out[f"sib{i}"]))
        return res
    if how == "chunked":
        cuts = sorted(set([0, n] + [int(x) for x in r.integers(0, n + 1, d["nc"] - 1)]))
        parts = [df.slice(a, b - a) for a, b in zip(cuts, cuts[1:])] or [df]
        dfc = pl.concat(parts, rechunk=False)
        return [(rows, dfc.select(e)[name])]
    if how == "sliced":
        a, b = int(r.integers(1, 9)), int(r.integers(1, 9))
        head = df.sample(a, with_replacement=True, seed=1) if n else df.clear(a)
        tail = df.sample(b, with_replacement=True, seed=2) if n else df.clear(b)
        big = pl.concat([head, df, tail], rechunk=True)
        return [(rows, big.slice(a, n).select(e)[name])]
    if how == "filter":
        m = r.random(n) < 0.7
        dff = df.with_columns(pl.Series("__keep", m))
        keep = [i for i in rows if m[i]]
        return [(keep, dff.lazy().filter(pl.col("__keep")).select(e).collect()[name])]
    g = groups_of(d, n)
    dfg = df.with_columns(pl.Series("__g", g, dtype=pl.Int64))
    if how == "groupby":
        out = dfg.lazy().group_by("__g").agg(e).collect()
        res = []
        for gi, v in zip(out["__g"].to_list(), out[name]):
            res.append(([i for i in rows if g[i] == gi], [v] if reduce_ else v))
        return res
    if how == "over":
        out = dfg.select(expr.over("__g").alias(name))[name]
        if reduce_:
            res = []
            for gi in sorted(set(g)):
                idx = [i for i in rows if g[i] == gi]
                vals = [out[i] for i in idx]
                res.append((idx, [vals[0]] if all(_same(v, vals[0]) for v in vals) else Exc(ValueError("reduction not constant over group"))))
            return res
        return [("grouped", g, out)]
    raise ValueError(how)


def _same(a, b):
    if isinstance(a, pl.Series) and isinstance(b, pl.Series):
        return a.equals(b)
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))


def parts(res, n):
    """Flattens deliver()'s output into (row indices, python list of values)."""
    out = []
    for x in res:
        if x[0] == "grouped":
            _, g, s = x
            v = s.to_list()
            for gi in sorted(set(g)):
                idx = [i for i in range(n) if g[i] == gi]
                out.append((idx, [v[i] for i in idx]))
        else:
            idx, s = x
            if isinstance(s, Exc):
                out.append((idx, s))
            else:
                out.append((idx, s.to_list() if isinstance(s, pl.Series) else list(s)))
    return out


def close(a, b, rtol=1e-8, atol=1e-10):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if not isinstance(a, (int, float, np.number)) or not isinstance(b, (int, float, np.number)):
        return False
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def diff(got, want, rtol=1e-8, atol=1e-10):
    """First difference of two lists, or None."""
    if len(got) != len(want):
        return f"length {len(got)} instead of {len(want)}"
    for i, (a, b) in enumerate(zip(got, want)):
        if isinstance(b, (list, tuple)):
            if a is None or not isinstance(a, (list, tuple, pl.Series)):
                return f"row {i}: {a!r} instead of {b!r}"
            d = diff(list(a), list(b), rtol, atol)
            if d:
                return f"row {i}: {d} (got {list(a)!r} want {list(b)!r})"
        elif isinstance(b, str) or isinstance(a, str):
            if a != b:
                return f"row {i}: {a!r} instead of {b!r}"
        elif not close(a, b, rtol, atol):
            return f"row {i}: {a!r} instead of {b!r}"
    return None


class ExprOp(Op):
    """An expression with a reference: build() gives (columns, schema, expr); ref(p, cols, idx) the
    expected values for those rows alone."""

    reduce_ = False
    allow = None
    rtol, atol = 1e-8, 1e-10

    def params(self, rng):
        raise NotImplementedError

    def gen(self, rng):
        p = self.params(rng)
        p["d"] = gen_delivery(rng, self.allow_for(p))
        return p

    def allow_for(self, p):
        return self.allow

    def columns(self, p):
        raise NotImplementedError

    def schema(self, p):
        return None

    def expr(self, p):
        raise NotImplementedError

    def ref(self, p, cols, idx):
        raise NotImplementedError

    def run(self, p, ctx):
        cols = self.columns(p)
        n = len(next(iter(cols.values())))
        e = self.expr(p)
        ctx.preempt()
        return parts(deliver(p["d"], cols, self.schema(p), e, n, self.reduce_), n)

    def shape(self, p):
        return f"{self.name}|{p['d']['how']}|{p['d'].get('ng', p['d'].get('nc', 0))}"

    def expect_error(self, p, cols):
        """A message pattern when the call is documented to be refused; None otherwise."""
        return None

    known_errors = {}  # text in the error -> id of the known finding

    def known_error(self, p, r):
        for k, v in self.known_errors.items():
            if k in r.msg and p["d"]["how"] in ("groupby", "over"):
                return f"[known:{v}] "
        return ""

    def compare(self, p, cols, idx, got):
        try:
            want = self.ref(p, cols, idx)
        except (ValueError, ZeroDivisionError, IndexError):
            if not idx:
                return None  # no definition for no rows
            raise
        return diff(got, want, self.rtol, self.atol)

    def check(self, p, r, ctx):
        cols = self.columns(p)
        ee = self.expect_error(p, cols)
        if ee == "skip":
            return []
        if isinstance(r, Exc):
            if ee:
                return []
            return [f"{self.known_error(p, r)}{self.name} raised {r.type}: {r.msg[:200]} for {brief(p)}"]
        if ee == "must":
            return [f"{self.name} gave a value where an error is due, for {brief(p)}"]
        out = []
        for idx, got in r:
            if isinstance(got, Exc):
                out.append(f"{self.name} {p['d']['how']}: {got.msg} for {brief(p)}")
                continue
            d = self.compare(p, cols, idx, got)
            if d and d.startswith("[known:"):
                tag, d = d.split("] ", 1)
                out.append(f"{tag}] {self.name}: {d} for {brief(p)}")
            elif d:
                out.append(f"{self.name} via {p['d']['how']} rows={len(idx)}: {d} for {brief(p)}")
                break
        return out


def brief(p):
    return json.dumps({k: v for k, v in p.items() if k not in ("f",)}, default=str)[:400]


# how many rows at most an operation is given in the scenarios with many rows (0: never)
BIG_CAP = {"knn.radius": 777, "par.knn.radius": 260, "stat.combinations": 0, "stat.product": 260, "split.cols": 0, "dia.session": 520, "pipe.calls": 520}


def define(name, expr, ref, params=None, columns=None, schema=None, reduce_=False, allow=None, rtol=1e-8, atol=1e-9,
           expect=None, compare=None, n=(1, 2, 3, 5, 8, 13, 21, 34, 60, 120), kinds=None, nulls=(0,), known_errors=None):
    """Registers an expression operation from functions of (p, columns)."""

    class D(ExprOp):
        def params(self, rng):
            p = {"n": rng.choice(n), "s": rng.getrandbits(30), "kind": rng.choice(kinds or CONT), "nulls": rng.choice(nulls)}
            if params:
                p.update(params(rng))
            return p

        def columns(self, p):
            if columns:
                return columns(p)
            return {"x": with_nulls(col(p["s"], p["n"], p["kind"]), p["s"], p["nulls"])}

        def schema(self, p):
            if schema:
                return schema(p) if callable(schema) else schema
            return {"x": pl.Float64} if not columns else None

        def expr(self, p):
            return expr(p)

        def ref(self, p, cols, idx):
            sub = {k: [v[i] for i in idx] for k, v in cols.items()}
            with np.errstate(all="ignore"):
                w = ref(p, sub)
            return [w] if D.reduce_ else w

        def expect_error(self, p, cols):
            return expect(p, cols, self.groups(p, cols)) if expect else None

        def groups(self, p, cols):
            """Row indices of each part the expression is evaluated on."""
            m = len(next(iter(cols.values())))
            d = p["d"]
            if d["how"] in ("groupby", "over"):
                g = groups_of(d, m)
                return [[i for i in range(m) if g[i] == gi] for gi in sorted(set(g))]
            if d["how"] == "filter":
                mk = np.random.default_rng(d["s"]).random(m) < 0.7
                return [[i for i in range(m) if mk[i]]]
            return [list(range(m))]

    if compare:
        def cmp(self, p, cols, idx, got):
            sub = {k: [v[i] for i in idx] for k, v in cols.items()}
            try:
                with np.errstate(all="ignore"):
                    return compare(p, sub, got)
            except (ValueError, ZeroDivisionError, IndexError):
                if not idx:
                    return None  # no definition for no rows
                raise
        D.compare = cmp
    D.name = name
    D.reduce_ = reduce_
    D.allow = allow
    D.rtol, D.atol = rtol, atol
    D.known_errors = known_errors or {}
    D.__name__ = name
    return op(D)


CONT = [["normal"], ["uniform", -5, 5], ["heavy"], ["sin", 0.7], ["walk"], ["normal", 100, 5]]
TIED = [["grid", 3], ["grid", 8], ["const", 1.5]]
LISTY = ("select", "lazy", "siblings", "groupby", "filter", "chunked", "sliced")
