"""Sampling, down-sampling, splitting, partitions: rows are conserved."""
import math
import threading

import numpy as np
import polars as pl
from polars_ds.sample_and_split import downsample, random_cols, sample, split_by_ratio, volume_neutral

from polars_ds.partition import partition as _partition
from polars_ds.partition.partition import PartitionHelper

from common import Exc, Op, brief, op

SCHEMA = {"id": pl.Int64, "c": pl.Int64, "k": pl.String, "x": pl.Float64, "f": pl.Boolean}


def data(p):
    n, r = p["n"], np.random.default_rng(p["s"])
    c = r.integers(0, p["nc"], n)
    null = r.random(n) < p["nulls"]
    return {"id": list(range(n)), "c": [None if b else int(v) for v, b in zip(c, null)], "k": [["a", "b", "c", None][int(v)] for v in r.integers(0, p["nk"], n)],
            "x": [float(v) for v in r.normal(0, 1, n)], "f": [bool(v) for v in r.random(n) < 0.3]}


def frame(p):
    df = pl.DataFrame(data(p), schema=SCHEMA)
    if p["via"] == "chunks" and p["n"] > 2:
        df = pl.concat([df.head(p["n"] // 3), df.tail(p["n"] - p["n"] // 3)], rechunk=False)
    elif p["via"] == "slice":
        df = pl.concat([df.head(1), df, df.head(1)], rechunk=True).slice(min(1, p["n"]), p["n"])
    return df.lazy() if p["via"] == "lazy" else df


def rows(df):
    return df.rows()


class Rows(Op):
    def gen(self, rng):
        p = {"n": rng.choice([0, 1, 2, 3, 5, 10, 11, 37, 100, 263]), "s": rng.getrandbits(30), "nc": rng.choice([1, 2, 3, 6]), "nk": rng.choice([1, 3, 4]), "nulls": rng.choice([0, 0, 0.25]),
             "via": rng.choice(["eager", "eager", "lazy", "chunks", "slice"]), "seed": rng.choice([None, None, 1, 42])}
        return self.more(p, rng)

    def run(self, p, ctx):
        df = frame(p)
        keep = df.clone()
        out = self.call(p, df)
        same = df.collect().equals(keep.collect()) if p["via"] == "lazy" else df.equals(keep)
        ctx.preempt()
        return {"out": out, "same": same}

    def existing(self, p, got):
        """Only existing rows, each at most once, unchanged, under the same columns."""
        d = data(p)
        want = list(zip(*d.values()))
        seen = set()
        for t in got:
            i = t[0]
            if i is None or not 0 <= i < len(want) or t != want[i]:
                return f"{t} is no row of the frame"
            if i in seen:
                return f"row {i} twice"
            seen.add(i)
        return None

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [] if self.refuses(p) else [f"{self.name} raised {r.type}: {r.msg[:200]} for {brief(p)}"]
        if self.refuses(p):
            return [f"{self.name} accepted {brief(p)}"]
        if not r["same"]:
            return [f"{self.name} changed the caller's frame, for {brief(p)}"]
        m = self.judge(p, r["out"])
        return [f"{self.name}: {m}, for {brief(p)}"] if m else []

    def refuses(self, p):
        return False

    def shape(self, p):
        return f"{self.name}|{p['via']}|{p['n']}|{p['nc']}"


@op
class Split(Rows):
    name = "split.ratio"

    def more(self, p, rng):
        p["v"] = rng.choice([0.5, 0.8, 0.25, 0.01, 0.99, [0.5, 0.5], [0.5, 0.25, 0.25], [0.25, 0.25, 0.25, 0.25], [0.125] * 8, [0.6, 0.4], [0.3, 0.3, 0.4], [0.0, 0.5, 0.5], [1.0], [0.5, 0.4], 1.0, 0.0])
        return p

    def refuses(self, p):
        v = p["v"]
        return (isinstance(v, list) and len(v) > 1 and abs(sum(v) - 1) > 1e-9) or v in (1.0, 0.0, [1.0])

    def call(self, p, df):
        if isinstance(p["v"], list) and len(p["v"]) > 1 and sum(p["v"]) != 1 and abs(sum(p["v"]) - 1) < 1e-9:
            return None
        o = split_by_ratio(df, p["v"], seed=p["seed"])
        return [(list(f.columns), f.rows()) for f in o]

    def judge(self, p, out):
        if out is None:
            return None
        v = p["v"] if isinstance(p["v"], list) and len(p["v"]) > 1 else [p["v"], 1 - p["v"]] if not isinstance(p["v"], list) else [p["v"][0], 1 - p["v"][0]]
        if len(out) != len(v):
            return f"{len(out)} parts for {v}"
        for c, _ in out:
            if c != list(SCHEMA):
                return f"columns {c}"
        allr = [t for _, x in out for t in x]
        m = self.existing(p, allr)
        if m:
            return m
        if len(allr) != p["n"]:
            return f"{p['n'] - len(allr)} of {p['n']} rows are in no part ({[len(x) for _, x in out]})"
        for q, (_, x) in zip(v, out):
            if abs(len(x) - q * p["n"]) > 1.0 + 1e-9:
                return f"a part of ratio {q} has {len(x)} of {p['n']} rows"
        return None


@op
class Sample(Rows):
    name = "split.sample"

    def more(self, p, rng):
        p["v"] = rng.choice([0.1, 0.5, 0.999, 1, 3, 50, 1000, 0, 1.0, 0.0, -2])
        return p

    def refuses(self, p):
        v = p["v"]
        return v <= 0 or (isinstance(v, float) and v >= 1)

    def call(self, p, df):
        f = sample(df, p["v"], seed=p["seed"])
        return list(f.columns), f.rows()

    def judge(self, p, out):
        if out[0] != list(SCHEMA):
            return f"columns {out[0]}"
        m = self.existing(p, out[1])
        if m:
            return m
        n, k, v = p["n"], len(out[1]), p["v"]
        if isinstance(v, int):
            return None if k == min(n, v) else f"{k} rows instead of {min(n, v)}"
        return None if abs(k - v * n) <= 1 + 1e-9 else f"{k} rows instead of {v} of {n}"


@op
class Down(Rows):
    name = "split.downsample"

    def more(self, p, rng):
        k = rng.choice([1, 1, 2, 3])
        p["cond"] = [[rng.choice(["c0", "c1", "c2", "flag", "pos", "kb", "none", "all"]), rng.choice([0.5, 0.2, 0.9, 1, 4, 40])] for _ in range(k)]
        return p

    def cond(self, c):
        return {"c0": pl.col("c") == 0, "c1": pl.col("c") == 1, "c2": pl.col("c") == 2, "flag": pl.col("f"), "pos": pl.col("x") > 0, "kb": pl.col("k") == "b", "none": pl.col("x") > 1e9,
                "all": pl.col("x") < 1e9}[c]

    def member(self, c, d, i):
        if c in ("c0", "c1", "c2"):
            return d["c"][i] == int(c[1])
        return {"flag": d["f"][i], "pos": d["x"][i] > 0, "kb": d["k"][i] == "b", "none": False, "all": True}[c]

    def call(self, p, df):
        f = downsample(df, *[(self.cond(c), v) for c, v in p["cond"]], seed=p["seed"])
        return list(f.columns), f.rows()

    def judge(self, p, out):
        if out[0] != list(SCHEMA):
            return f"columns {out[0]}"
        m = self.existing(p, out[1])
        if m:
            return m
        d = data(p)
        got = {t[0] for t in out[1]}
        sets = [{i for i in range(p["n"]) if self.member(c, d, i)} for c, _ in p["cond"]]
        outside = set(range(p["n"])) - set().union(*sets)
        if not outside <= got:
            return f"row {min(outside - got)} meets no condition and is gone"
        for j, ((c, v), s) in enumerate(zip(p["cond"], sets)):
            k = len(s & got)
            want = min(len(s), v) if isinstance(v, int) else v * len(s)
            slack = 0 if isinstance(v, int) else 1 + 1e-9
            if k > want + slack:
                return f"{k} of the {len(s)} rows with {c} are left, asked for {v}"
            if all(not (s & o) for i, o in enumerate(sets) if i != j) and k < want - slack:
                return f"only {k} of the {len(s)} rows with {c} are left, asked for {v}"
        ids = [t[0] for t in out[1]]
        return None if ids == sorted(ids) else "the rows changed their order"


@op
class Volume(Rows):
    name = "split.volume"

    def more(self, p, rng):
        p["ctrl"] = rng.choice([None, "k", "kf"])
        p["t"] = rng.choice([None, None, 1, 5, 100])
        return p

    def call(self, p, df):
        ctrl = {None: None, "k": pl.col("k"), "kf": [pl.col("k"), pl.col("f")]}[p["ctrl"]]
        f = volume_neutral(df, pl.col("c"), control=ctrl, target_volume=p["t"], seed=p["seed"])
        return list(f.columns), f.rows()

    def judge(self, p, out):
        if out[0] != list(SCHEMA):
            return f"columns {out[0]}"
        m = self.existing(p, out[1])
        if m:
            return m
        d = data(p)
        key = {None: lambda i: (), "k": lambda i: (d["k"][i],), "kf": lambda i: (d["k"][i], d["f"][i])}[p["ctrl"]]
        seg = {}
        for i in range(p["n"]):
            seg.setdefault(key(i), {}).setdefault(d["c"][i], set()).add(i)
        got = {t[0] for t in out[1]}
        for k, by in seg.items():
            want = min(len(s) for s in by.values())
            if p["t"] is not None:
                want = min(want, p["t"])
            for c, s in by.items():
                if len(s & got) != want:
                    return f"{len(s & got)} rows of segment {c} (control {k}) instead of {want}"
        return None


@op
class Cols(Rows):
    name = "split.cols"

    def more(self, p, rng):
        p["n"] = rng.choice([1, 2, 5, 12])
        p["k"] = rng.choice([0, 1, 2, 4])
        p["keep"] = rng.choice([None, [], ["c0"], ["c1", "c0"], ["other"]])
        return p

    def run(self, p, ctx):
        pool = [f"c{i}" for i in range(p["n"])]
        keep = None if p["keep"] is None else list(p["keep"])
        o = random_cols(pool, p["k"], keep=keep, seed=p["seed"])
        return {"out": o, "same": keep == p["keep"] and pool == [f"c{i}" for i in range(p["n"])]}

    def refuses(self, p):
        return len([f"c{i}" for i in range(p["n"]) if f"c{i}" not in (p["keep"] or [])]) < p["k"]

    def judge(self, p, out):
        kp = p["keep"] or []
        pool = [f"c{i}" for i in range(p["n"])]
        if out[: len(kp)] != kp:
            return f"the kept columns are not kept: {out}"
        rest = out[len(kp):]
        if len(rest) != p["k"] or len(set(out)) != len(out) or any(c not in pool for c in rest):
            return f"{out} for {p['k']} columns besides {kp}"
        return None


PVAL = {"plain": ["a", "b", "c"], "sep": ["a", "a|b", "b"], "none": ["a", "None", None], "bool": [True, False, None], "cat": ["u", "v", "w"], "int": [1, 2, 3]}
PTYPE = {"bool": pl.Boolean, "cat": pl.Categorical, "int": pl.Int64}


class Warned:
    """Stands in for the warnings module: what was said, per thread."""

    said = threading.local()

    def warn(self, msg, *a, **k):
        getattr(self.said, "list", []).append(str(msg))


SEEN = hasattr(_partition, "warnings")  # else the module warns in another way, and what it said is not looked at
if SEEN:
    _partition.warnings = Warned()


@op
class Partition(Op):
    """Every row in exactly one part, under the name of its keys; parts that cannot be told apart are refused."""

    name = "split.partition"

    def gen(self, rng):
        k = rng.choice([0, 1, 1, 2, 2, 3])
        return {"n": rng.choice([1, 2, 5, 20, 60]), "s": rng.getrandbits(30), "by": [rng.choice(["plain", "plain", "sep", "none", "bool", "bool", "cat", "int"]) for _ in range(k)], "sep": rng.choice(["|", "|", "-", ""]),
                "lone": rng.random() < 0.5, "via": rng.choice(["eager", "lazy", "chunks"]), "h": rng.choice([0, 1, 5]), "bad": rng.choice([None, 0, 1]), "extra": rng.random() < 0.2}

    def data(self, p):
        r = np.random.default_rng(p["s"])
        d = {"id": list(range(p["n"]))}
        for j, k in enumerate(p["by"]):
            d[f"k{j}"] = [PVAL[k][int(v)] for v in r.integers(0, len(PVAL[k]), p["n"])]
        return d

    def run(self, p, ctx):
        d = self.data(p)
        df = pl.DataFrame([pl.Series("id", d["id"], dtype=pl.Int64)] + [pl.Series(f"k{j}", d[f"k{j}"], dtype=PTYPE.get(k, pl.String)) for j, k in enumerate(p["by"])])
        if p["via"] == "chunks" and p["n"] > 1:
            df = pl.concat([df.head(p["n"] // 2), df.tail(p["n"] - p["n"] // 2)], rechunk=False)
        by = [f"k{j}" for j in range(len(p["by"]))]
        by = None if not by else by[0] if len(by) == 1 and p["lone"] else by
        try:
            ph = PartitionHelper(df.lazy() if p["via"] == "lazy" else df, by=by, separator=p["sep"], whole_df_name="all")
        except Exception as e:
            return {"refused": str(e)}
        ctx.preempt()
        names = ph.names()
        bad = None if p["bad"] is None else names[p["bad"] % len(names)]

        def f(part, x):
            if part == bad:
                raise RuntimeError("no")
            return part, x["id"].sum(), x.height

        w = Warned.said.list = []
        ap = ph.apply(f)
        return {"parts": [(k, ph.get(k).columns, ph.get(k).rows()) for k in names], "none": ph.get("no such part") is None, "head": {k: v.rows() for k, v in ph.head(p["h"]).items()}, "bad": bad, "apply": ap,
                "warn": w}

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"PartitionHelper raised {r.type}: {r.msg[:200]} for {brief(p)}"]
        d = self.data(p)
        want, keys = {}, {}
        for i in range(p["n"]):
            k = tuple(d[f"k{j}"][i] for j in range(len(p["by"])))
            nm = p["sep"].join(str(x) for x in k) if k else "all"
            want.setdefault(nm, []).append((i, *k))
            keys.setdefault(nm, set()).add(k)
        if "int" in p["by"] or any(len(v) > 1 for v in keys.values()):
            return [] if "refused" in r else [f"PartitionHelper accepted {'a column of integers' if 'int' in p['by'] else 'parts of one name'}: {[x[0] for x in r['parts']]} for {brief(p)}"]
        if "refused" in r:
            return [f"PartitionHelper refused: {r['refused'][:160]} for {brief(p)}"]
        if [x[0] for x in r["parts"]] != list(want) or any(x[1] != list(d) or x[2] != want[x[0]] for x in r["parts"]):
            return [f"the parts are {str(r['parts'])[:300]} instead of {str(want)[:300]} for {brief(p)}"]
        if not r["none"] or r["head"] != {k: v[: p["h"]] for k, v in want.items()}:
            return [f"head({p['h']}) gave {str(r['head'])[:300]} for {brief(p)}"]
        res = {k: (k, sum(x[0] for x in v), len(v)) for k, v in want.items() if k != r["bad"]}
        if r["apply"] != res:
            return [f"apply gave {r['apply']} instead of {res} for {brief(p)}"]
        if SEEN and (r["bad"] is not None) != any("omitted" in m and str(r["bad"]) in m for m in r["warn"]):
            return [f"apply warned {r['warn']} with {r['bad']!r} failing, for {brief(p)}"]
        return []

    def shape(self, p):
        return f"{self.name}|{','.join(p['by'])}|{p['via']}"
