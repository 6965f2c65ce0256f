"""The data inspection assistant: every report against a small computation over the same rows.
One operation is a session: a DIA object on a frame, and several of its reports, the same ones
from time to time again (some are cached)."""
import itertools
import math
import warnings

import numpy as np
import polars as pl
from polars_ds.eda.diagnosis import DIA

from common import Exc, Op, brief, close, op

WORDS = ["a", "b", "ab", "", "é", "日本", "zz z", "Straße", "x" * 40]


def data(p):
    r = np.random.default_rng(p["s"])
    n = p["n"]
    hole = lambda v, f=None: [None if r.random() < (p["nulls"] if f is None else f) else x for x in v]
    d = {}
    d["i"] = (pl.Int64, hole([int(v) for v in r.integers(0, p["k"], n)]))
    f = [float(v) for v in r.normal(0, 3, n)]
    if p["special"]:
        for v in (math.nan, math.inf, -math.inf):
            for j in r.integers(0, n, 2) if n else ():
                f[j] = v
    d["f"] = (pl.Float64, hole(f))
    d["g"] = (pl.Float64, [float(v) for v in r.integers(0, 6, n)])
    pr = [float(v) for v in r.random(n)]
    if p["bad"] and n:
        pr[int(r.integers(0, n))] = float(r.choice([-0.25, 1.5]))
    d["p"] = (pl.Float64, hole(pr))
    d["s"] = (pl.String, hole([WORDS[int(v)] for v in r.integers(0, min(len(WORDS), p["k"]), n)]))
    d["b"] = (pl.Boolean, hole([bool(v) for v in r.random(n) < 0.5]))
    d["o"] = (pl.Int32, hole([7] * n, 0.3 if p["onull"] else 0))
    d["dep"] = (pl.Int64, [None if v is None else v // 2 for v in d["i"][1]])
    if p["cat"]:
        d["c"] = (pl.Categorical, hole([WORDS[int(v)] for v in r.integers(0, 3, n)]))
    if p["lst"]:
        w = []
        for _ in range(n):
            a = r.integers(1, 9, 3)
            w.append([float(x) / float(sum(a)) for x in a])
        if p["lst"] == 2 and n:
            w[int(r.integers(0, n))] = [0.5, 0.25, 0.5]
        if p["lst"] == 3 and n:
            w[int(r.integers(0, n))] = [1.5, -0.25, -0.25]
        if p["lst"] == 4 and n:
            w[int(r.integers(0, n))] = [0.5, 0.5]
        d["l"] = (pl.List(pl.Float64), w)
    if p["fewer"]:
        d = {k: v for k, v in d.items() if k in p["fewer"]}
    return d


NUM = ("i", "f", "g", "p", "o", "dep")


def nearest(v, q):
    """The values the nearest-rank quantile may be (two at a tie)."""
    v = sorted(v)
    x = (len(v) - 1) * q
    lo, hi = math.floor(x), math.ceil(x)
    if abs(x - lo - 0.5) < 1e-9:
        return [v[lo], v[hi]]
    return [v[int(math.floor(x + 0.5))]]


def uniq(v):
    return len({tuple(x) if isinstance(x, list) else ("nan" if isinstance(x, float) and x != x else x) for x in v})


def pearson(a, b):
    a, b = np.array(a, float), np.array(b, float)
    if len(a) < 2 or a.std() == 0 or b.std() == 0:
        return "skip"
    return float(np.corrcoef(a, b)[0, 1])


def clean(v):
    return all(x is not None and math.isfinite(x) for x in v)


def rank(v):
    v = np.array(v, float)
    return [float((v < x).sum() + ((v == x).sum() + 1) / 2) for x in v]


def rule(c, k):
    """A row rule: expression and its value for one Python value (None = unknown)."""
    if k == "lt":
        return pl.col(c) < 2, lambda x: None if x is None else (x < 2 and x == x)
    if k == "ge":
        return pl.col(c) >= 1, lambda x: None if x is None else (x >= 1 or x != x)
    return pl.col(c).is_not_null(), lambda x: x is not None


def gen_call(rng):
    m = rng.choice(["special", "special", "profile", "profile", "strstats", "null_corr", "corr", "prob", "high_null", "discrete", "const", "binary", "k_distinct", "infer_corr", "dependency", "rows", "rows", "cols", "meta"])
    c = {"m": m}
    if m == "profile":
        c["h"], c["mul"], c["bins"] = rng.random() < 0.5, rng.choice([1.5, 0.5, 3.0]), rng.choice([4, 20])
    if m == "corr":
        c["how"] = rng.choice(["pearson", "spearman", "kendall"])
    if m == "high_null":
        c["t"] = rng.choice([0.75, 0.1, 0.3, 1.0])
    if m == "discrete":
        c["t"], c["mx"] = rng.choice([0.1, 0.5]), rng.choice([100, 2, 5])
    if m in ("const", "binary", "k_distinct"):
        c["inc"] = rng.random() < 0.5
    if m == "k_distinct":
        c["k"] = rng.choice([1, 2, 3, 5])
    if m == "rows":
        c["rules"] = [[rng.choice(["i", "f", "g", "p", "dep"]), rng.choice(["lt", "ge", "nn"])] for _ in range(rng.choice([1, 2, 3]))]
        c["all"], c["id"], c["keep"] = rng.random() < 0.5, rng.choice([None, None, "g"]), rng.choice([None, ["s"]])
    if m == "cols":
        c["rules"] = [[x, rng.choice([0, 2, 5, 100])] for x in rng.sample(["i", "g", "p", "dep"], rng.choice([1, 2, 3]))]
    return c


@op
class Session(Op):
    name = "dia.session"

    def gen(self, rng):
        p = {"n": rng.choice([1, 2, 3, 7, 20, 60, 200]), "s": rng.getrandbits(30), "nulls": rng.choice([0, 0.1, 0.4]), "k": rng.choice([1, 2, 4, 50]), "special": rng.random() < 0.3, "bad": rng.random() < 0.4,
             "onull": rng.random() < 0.4, "cat": rng.random() < 0.5, "lst": rng.choice([0, 1, 1, 2, 3, 4]), "how": rng.choice(["eager", "lazy", "chunked"]), "fewer": None}
        if rng.random() < 0.15:
            p["fewer"] = rng.choice([["i", "g", "p", "dep", "f"], ["i", "f", "g", "p", "dep", "s"], ["b", "s", "i", "f", "g", "p", "dep"]])
        p["calls"] = [gen_call(rng) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.3:
            p["calls"].append(dict(p["calls"][0]))
        return p

    def shape(self, p):
        return self.name + "|" + ",".join(sorted({c["m"] for c in p["calls"]})) + "|" + p["how"]

    def frame(self, p):
        d = data(p)
        df = pl.DataFrame({k: pl.Series(k, v, dtype=t) for k, (t, v) in d.items()})
        if p["how"] == "chunked" and p["n"] > 2:
            a = p["n"] // 3 or 1
            with pl.StringCache():
                df = pl.concat([df.slice(0, a), df.slice(a, a), df.slice(2 * a)], rechunk=False)
        return df.lazy() if p["how"] == "lazy" else df

    def one(self, dia, p, c):
        m = c["m"]
        rows = lambda f: (f.columns, f.rows())
        if m == "special":
            return rows(dia.special_values_report())
        if m == "profile":
            return rows(dia.numeric_profile(n_bins=c["bins"], iqr_multiplier=c["mul"], histogram=c["h"], gt=False))
        if m == "strstats":
            return rows(dia.str_stats())
        if m == "null_corr":
            return rows(dia.null_corr())
        if m == "corr":
            return rows(dia.corr(["i", "g", "p"], method=c["how"]))
        if m == "prob":
            return list(dia.infer_prob())
        if m == "high_null":
            return list(dia.infer_high_null(c["t"]))
        if m == "discrete":
            return list(dia.infer_discrete(c["t"], c["mx"]))
        if m == "const":
            return list(dia.infer_const(c["inc"]))
        if m == "binary":
            return list(dia.infer_binary(c["inc"]))
        if m == "k_distinct":
            return list(dia.infer_k_distinct(c["k"], c["inc"]))
        if m == "infer_corr":
            return rows(dia.infer_corr())
        if m == "dependency":
            return rows(dia.infer_dependency())
        if m == "rows":
            rl = [(rule(*x)[0], f"r{j}") for j, x in enumerate(c["rules"])]
            return rows(dia.row_validation(*rl, id_col=c["id"], columns_to_keep=c["keep"], all_reasons=c["all"]))
        if m == "cols":
            return rows(dia.col_validation(*[(pl.col(x).max() < v, f"max of {x}") for x, v in c["rules"]]))
        if m == "meta":
            return {k: list(v) for k, v in dia.meta().items()}

    def run(self, p, ctx):
        warnings.simplefilter("ignore")
        df = self.frame(p)
        before = df.collect() if p["how"] == "lazy" else df.clone()
        dia = DIA(df)
        out = []
        for c in p["calls"]:
            ctx.preempt()
            try:
                out.append(self.one(dia, p, c))
            except Exception as e:
                out.append(Exc(e))
        now = df.collect() if p["how"] == "lazy" else df
        return {"out": out, "same": now.equals(before)}

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"dia.session raised {r.type}: {r.msg[:200]} for {brief(p)}"]
        out = [] if r["same"] else [f"DIA changed the frame, {brief(p)}"]
        d = {k: v for k, (_, v) in data(p).items()}
        t = {k: t for k, (t, _) in data(p).items()}
        for c, got in zip(p["calls"], r["out"]):
            if isinstance(got, Exc) and not self.suits(c, t):
                continue  # a report on columns of a kind the frame does not have
            if isinstance(got, Exc):
                out.append(f"DIA {c['m']} raised {got.type}: {got.msg[:160]} for {brief(p)}")
                continue
            with np.errstate(all="ignore"):
                m = getattr(self, "c_" + c["m"])(p, c, d, t, got)
            if m:
                out.append(f"DIA {c['m']}: {m} for {brief(p)}")
        return out[:2]

    def suits(self, c, t):
        have = set(t.values())
        if c["m"] == "strstats":
            return pl.String in have
        if c["m"] == "rows" and c["keep"]:
            return set(c["keep"]) <= set(t)
        return True

    # ---- the reports
    def c_special(self, p, c, d, t, got):
        cols = [k for k in d if k in NUM]
        if [r[0] for r in got[1]] != cols:
            return f"columns {[r[0] for r in got[1]]}"
        for r in got[1]:
            v = d[r[0]]
            nn = sum(x is None for x in v)
            na = sum(x is not None and x != x for x in v)
            nf = sum(x is not None and isinstance(x, float) and math.isinf(x) for x in v)
            want = [nn, nn / p["n"], na, na / p["n"], nf, nf / p["n"]]
            if not all(close(a, b) for a, b in zip(r[1:], want)):
                return f"{r} instead of {want}"

    def c_profile(self, p, c, d, t, got):
        cols = [k for k in d if k in NUM]
        if [r[0] for r in got[1]] != cols:
            return f"columns {[r[0] for r in got[1]]}"
        for r in got[1]:
            g = dict(zip(got[0], r))
            v = [x for x in d[r[0]] if x is not None]
            if g["non_null_cnt"] != len(v) or not close(g["null%"], 1 - len(v) / p["n"], 1e-9, 1e-12):
                return f"{r[0]}: counts {g}"
            if not v or any(not math.isfinite(x) for x in v):
                continue
            w = {"mean": np.mean(v), "std": np.std(v, ddof=1) if len(v) > 1 else None, "min": min(v), "max": max(v)}
            for k, x in w.items():
                if not close(g[k], None if x is None else float(x), 1e-9, 1e-9):
                    return f"{r[0]}: {k} is {g[k]} instead of {x}"
            if abs(g["median"] - float(np.median(v))) > 0.005 + 1e-9:
                return f"{r[0]}: median {g['median']} instead of {np.median(v)}"
            for k, q in (("q1", 0.25), ("q3", 0.75)):
                if g[k] not in nearest(v, q):
                    return f"{r[0]}: {k} is {g[k]} instead of {nearest(v, q)}"
            iqr = g["q3"] - g["q1"]
            if not close(g["IQR"], iqr):
                return f"{r[0]}: IQR {g['IQR']} instead of {iqr}"
            lo, hi = g["q1"] - c["mul"] * iqr, g["q3"] + c["mul"] * iqr
            if not any(abs(x - b) < 1e-9 for x in v for b in (lo, hi) if iqr):
                want = sum(x < lo or x > hi for x in v)
                if g["outlier_cnt"] != want:
                    return f"{r[0]}: {g['outlier_cnt']} outliers instead of {want}"
            if c["h"] and max(v) > min(v):
                h = g["histogram"]
                h = list(h.values())[0]
                if sum(h) != len(v) or len(h) > c["bins"] + 1:
                    return f"{r[0]}: histogram {h} of {len(v)} values"

    def c_strstats(self, p, c, d, t, got):
        if [r[0] for r in got[1]] != [k for k in d if t[k] == pl.String]:
            return "columns"
        for r in got[1]:
            g = dict(zip(got[0], r))
            v = d[r[0]]
            w = [x for x in v if x is not None]
            cnt = {x: v.count(x) for x in v}
            if g["null_count"] != len(v) - len(w) or g["n_unique"] != len(cnt):
                return f"{g}"
            if g["most_freq_cnt"] != max(cnt.values()) or cnt.get(g["most_freq"]) != g["most_freq_cnt"]:
                return f"most frequent {g['most_freq']!r} {g['most_freq_cnt']}"
            if not w:
                continue
            bl, cl = [len(x.encode()) for x in w], [len(x) for x in w]
            want = {"min_byte_len": min(bl), "min_char_len": min(cl), "avg_byte_len": float(np.mean(bl)), "avg_char_len": float(np.mean(cl)), "max_byte_len": max(bl), "max_char_len": max(cl)}
            for k, x in want.items():
                if not close(g[k], x):
                    return f"{k} is {g[k]} instead of {x}"
            for k, q in (("5p_byte_len", 0.05), ("95p_byte_len", 0.95)):
                if g[k] not in nearest(bl, q):
                    return f"{k} is {g[k]} instead of {nearest(bl, q)}"

    def c_null_corr(self, p, c, d, t, got):
        z = {k: [x is None for x in v] for k, v in d.items()}
        ok = [k for k in z if 0 < sum(z[k]) < p["n"]]
        want = {(a, b): pearson(z[a], z[b]) for a, b in itertools.combinations(ok, 2)}
        if {(r[0], r[1]) for r in got[1]} != set(want) or len(got[1]) != len(want):
            return f"pairs {got[1]} instead of {want}"
        for a, b, x in got[1]:
            if want[(a, b)] != "skip" and not close(x, want[(a, b)], 1e-7, 1e-9):
                return f"{a}, {b}: {x} instead of {want[(a, b)]}"
        q = [abs(r[2]) for r in got[1]]
        return None if all(a >= b - 1e-12 for a, b in zip(q, q[1:])) else f"not in order: {q}"

    def c_corr(self, p, c, d, t, got):
        if [r[0] for r in got[1]] != ["i", "g", "p"] or got[0] != ["column"] + [k for k in d if k in NUM]:
            return f"shape {got}"
        for r in got[1]:
            for y, x in zip(got[0][1:], r[1:]):
                a, b = d[r[0]], d[y]
                if not (clean(a) and clean(b)) or p["n"] < 3:
                    continue
                if c["how"] == "kendall":
                    w = self.tau(a, b)
                else:
                    w = pearson(a, b) if c["how"] == "pearson" else pearson(rank(a), rank(b))
                if w != "skip" and not close(x, w, 1e-7, 1e-7):
                    return f"{r[0]}, {y}: {x} instead of {w}"

    def tau(self, a, b):
        s = ta = tb = 0
        for j, k in itertools.combinations(range(len(a)), 2):
            x, y = np.sign(a[j] - a[k]), np.sign(b[j] - b[k])
            s += x * y
            ta += x != 0
            tb += y != 0
        return "skip" if not ta or not tb else float(s / math.sqrt(ta * tb))

    def names(self, got, want):
        return None if sorted(got) == sorted(want) else f"{got} instead of {want}"

    def c_prob(self, p, c, d, t, got):
        w = []
        for k, v in d.items():
            v = [x for x in v if x is not None]
            if t[k] == pl.Float64 and all(0 <= x <= 1 for x in v):
                w.append(k)
            if k == "l" and v and all(all(x >= 0 for x in q) and abs(sum(q) - 1) < 1e-6 for q in v) and len({len(q) for q in v}) == 1:
                w.append(k)
        return self.names(got, w)

    def c_high_null(self, p, c, d, t, got):
        return self.names(got, [k for k, v in d.items() if sum(x is None for x in v) >= p["n"] * c["t"]])

    def c_discrete(self, p, c, d, t, got):
        return self.names(got, [k for k, v in d.items() if t[k] in (pl.Boolean, pl.Categorical) or uniq(v) < c["mx"] or uniq(v) < c["t"] * p["n"]])

    def distinct(self, d, k, inc):
        return [c for c, v in d.items() if uniq(v) == k or (inc and None in v and uniq(v) == k + 1)]

    def c_const(self, p, c, d, t, got):
        return self.names(got, self.distinct(d, 1, c["inc"]))

    def c_binary(self, p, c, d, t, got):
        return self.names(got, self.distinct(d, 2, c["inc"]))

    def c_k_distinct(self, p, c, d, t, got):
        return self.names(got, self.distinct(d, c["k"], c["inc"]))

    def c_infer_corr(self, p, c, d, t, got):
        cols = [k for k in d if k in NUM] + [k for k in d if t[k] == pl.Boolean]
        if {(r[0], r[1]) for r in got[1]} != set(itertools.combinations(cols, 2)):
            return "pairs"
        for a, b, x in got[1]:
            if clean(d[a]) and clean(d[b]) and p["n"] > 2:
                w = pearson(d[a], d[b])
                if w != "skip" and not close(x, w, 1e-7, 1e-7):
                    return f"{a}, {b}: {x} instead of {w}"

    def c_dependency(self, p, c, d, t, got):
        ok = [k for k in d if t[k] in (pl.Int64, pl.Int32, pl.String, pl.Categorical, pl.Boolean) and uniq(d[k]) > 1]
        want = {frozenset(x) for x in itertools.combinations(ok, 2)}
        if {frozenset(r[:2]) for r in got[1]} != want or len(got[1]) != len(want):
            return f"pairs {[r[:2] for r in got[1]]} instead of {want}"
        for a, b, x in got[1]:
            if uniq(d[a]) > uniq(d[b]):
                return f"{a} has more values than {b}"
            xy, yy = {}, {}
            for u, v in zip(d[a], d[b]):
                xy[u, v] = xy.get((u, v), 0) + 1
                yy[v] = yy.get(v, 0) + 1
            w = -sum(k / p["n"] * math.log(k / yy[q[1]]) for q, k in xy.items())
            if not close(x, abs(w), 1e-9, 1e-9):
                return f"H({a}|{b}) is {x} instead of {w}"
        q = [r[2] for r in got[1]]
        return None if q == sorted(q) else "not in order"

    def c_rows(self, p, c, d, t, got):
        res = [[rule(*x)[1](d[x[0]][i]) for x in c["rules"]] for i in range(p["n"])]
        bad = [i for i in range(p["n"]) if any(v is False for v in res[i])]
        key = "__index__" if c["id"] is None else c["id"]
        if got[0] != [key] + (c["keep"] or []) + ["__reason__"]:
            return f"columns {got[0]}"
        ids = bad if c["id"] is None else [d[c["id"]][i] for i in bad]
        if [r[0] for r in got[1]] != ids:
            return f"rows {[r[0] for r in got[1]]} instead of {ids}"
        for i, r in zip(bad, got[1]):
            why = [f"r{j}" for j, v in enumerate(res[i]) if v is False]
            if c["keep"] and r[1] != d["s"][i]:
                return f"row {i}: {r}"
            if (sorted(r[-1]) != why) if c["all"] else (r[-1] not in why):
                return f"row {i}: reason {r[-1]} instead of {why}"

    def c_cols(self, p, c, d, t, got):
        want = []
        for x, v in c["rules"]:
            w = [y for y in d[x] if y is not None]
            if w and not max(w) < v:
                want.append((x, f"max of {x}"))
        return None if [tuple(r) for r in got[1]] == want else f"{got[1]} instead of {want}"

    def c_meta(self, p, c, d, t, got):
        w = {"numerics": [k for k in d if k in NUM], "ints": [k for k in d if t[k] in (pl.Int64, pl.Int32)], "floats": [k for k in d if t[k] == pl.Float64], "strs": [k for k in d if t[k] == pl.String],
             "bools": [k for k in d if t[k] == pl.Boolean], "cats": [k for k in d if t[k] == pl.Categorical], "list_floats": [k for k in d if k == "l"]}
        for k, v in w.items():
            if got[k] != v:
                return f"{k} is {got[k]} instead of {v}"
        if sorted(got["simple_types"] + got["other_types"]) != sorted(d):
            return "a column is missing"
