"""Random columns, noise, null injection, seeded sampling: what they promise, and that a seed decides."""
import math
import random as pyrandom
import threading

import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.sample_and_split import downsample, random_cols, sample, split_by_ratio, volume_neutral

import common
from common import Exc, Op, brief, col, deliver, gen_delivery, op, parts, with_nulls

LENGTHY = ("random", "int", "str", "binomial", "exp", "normal")
ON_X = ("perturb", "jitter", "noise", "null")


def gen_what(rng):
    w = rng.choice(LENGTHY + ON_X)
    a = {"w": w}
    if w == "random":
        lo = rng.choice([0.0, -3.5, 1e6, -1e-3, 1e12])
        a.update(lo=lo, hi=lo + rng.choice([1.0, 0.25, 1e3]), e=rng.random() < 0.25)
    elif w == "int":
        lo = rng.choice([0, -5, 100, -2_000_000_000])
        a.update(lo=lo, hi=lo + rng.choice([1, 2, 10, 1000, 4_000_000_000 if lo < -10**6 else 7]), e=rng.random() < 0.25, swap=rng.random() < 0.15)
        a["hi"] = min(a["hi"], 2**31 - 1)
    elif w == "str":
        lo = rng.choice([0, 1, 3, 12])
        a.update(lo=lo, hi=lo + rng.choice([0, 1, 5, 30]), swap=rng.random() < 0.2)
    elif w == "binomial":
        a.update(n=rng.choice([1, 2, 10, 100, 5000]), p=rng.choice([0.0, 0.02, 0.3, 0.5, 0.9, 1.0]))
    elif w == "exp":
        a.update(l=rng.choice([1.0, 0.1, 0.5, 20.0]))
    elif w == "normal":
        a.update(m=rng.choice([0.0, -2.0, 1e4]), sd=rng.choice([1.0, 0.1, 30.0]), e=rng.random() < 0.25)
    elif w == "perturb":
        a.update(eps=rng.choice([1e-5, 0.5, -3.0]), pos=rng.random() < 0.4)
    elif w == "jitter":
        a.update(sd=rng.choice([1.0, 0.01, 25.0]), e=rng.random() < 0.2)
    elif w == "noise":
        a.update(kind=rng.choice(["gaussian", "uniform"]), sd=rng.choice([0.5, 2.0]))
    else:
        a.update(pct=rng.choice([0.02, 0.3, 0.5, 0.95]))
    return a


def no_bounds(p):
    # bounds computed from no rows at all
    d = p.get("d") or {}
    return p["a"].get("e") and (p["n"] == 0 or (d.get("how") == "filter" and not (np.random.default_rng(d["s"]).random(p["n"]) < 0.7).any()))


def expr_of(a, seed, length=None):
    w = a["w"]
    kw = {"seed": seed}
    if length is not None:
        kw["length"] = length
    if w == "random":
        lo, hi = a["lo"], a["hi"]
        if a["e"]:
            lo, hi = pl.col("lo").min(), pl.col("hi").max()
        return pds.random(lo, hi, **kw)
    if w == "int":
        lo, hi = (a["hi"], a["lo"]) if a["swap"] else (a["lo"], a["hi"])
        if a["e"] and not a["swap"]:
            lo, hi = pl.col("lo").min(), pl.col("hi").max()
        return pds.random_int(lo, hi, **kw)
    if w == "str":
        lo, hi = (a["hi"], a["lo"]) if a["swap"] else (a["lo"], a["hi"])
        return pds.random_str(lo, hi, **kw)
    if w == "binomial":
        return pds.random_binomial(a["n"], a["p"], **kw)
    if w == "exp":
        return pds.random_exp(a["l"], **kw)
    if w == "normal":
        m, sd = a["m"], a["sd"]
        if a["e"]:
            m, sd = pl.col("lo").min(), pl.col("hi").max()
        return pds.random_normal(m, sd, **kw)
    if w == "perturb":
        return pds.perturb("x", epsilon=a["eps"], positive=a["pos"], seed=seed)
    if w == "jitter":
        return pds.jitter("x", pl.lit(a["sd"]) if a["e"] else a["sd"], seed=seed)
    if w == "noise":
        if a["kind"] == "gaussian":
            return pds.add_noise("x", noise_type="gaussian", std=a["sd"], seed=seed)
        return pds.add_noise("x", noise_type="uniform", epsilon=a["sd"], seed=seed)
    return pds.random_null("x", a["pct"], seed=seed)


def columns(p):
    n = p["n"]
    a = p["a"]
    x = with_nulls(col(p["s"], n, p["kind"]), p["s"], p["nulls"])
    lo = {"random": a.get("lo"), "int": a.get("lo"), "normal": a.get("m")}.get(a["w"]) or 0
    hi = {"random": a.get("hi"), "int": a.get("hi"), "normal": a.get("sd")}.get(a["w"]) or 1
    return {"x": x, "lo": [lo] * n, "hi": [hi] * n}


def schema(p):
    t = pl.Int64 if p["a"]["w"] == "int" else pl.Float64
    return {"x": pl.Float32 if p.get("f32") else pl.Float64, "lo": t, "hi": t}


SIG = 9.0  # standard errors; far beyond what chance gives over any number of runs made here


def contract(p, x, v):
    """What the values for rows with inputs x must look like; None or what is wrong."""
    a, n = p["a"], len(x)
    w = a["w"]
    if len(v) != n:
        return f"{len(v)} values for {n} rows"
    if w in LENGTHY:
        if any(y is None for y in v):
            return "a null among the random values"
        if w == "random":
            lo, hi = a["lo"], a["hi"]
            bad = [y for y in v if not lo <= y < hi]
            m, sd = (lo + hi) / 2, (hi - lo) / math.sqrt(12)
        elif w == "int":
            lo, hi = a["lo"], a["hi"]
            bad = [y for y in v if not (isinstance(y, int) and lo <= y < hi)]
            m, sd = (lo + hi - 1) / 2, math.sqrt(((hi - lo) ** 2 - 1) / 12)
            v = [float(y) for y in v]
        elif w == "str":
            bad = [y for y in v if not (isinstance(y, str) and a["lo"] <= len(y) <= a["hi"] and (y == "" or (y.isascii() and y.isalnum())))]
            m, sd = (a["lo"] + a["hi"]) / 2, math.sqrt(((a["hi"] - a["lo"] + 1) ** 2 - 1) / 12)
            if not bad:
                allc = "".join(v)
                if len(allc) >= 400:
                    up = sum(c.isupper() for c in allc) / len(allc)
                    dg = sum(c.isdigit() for c in allc) / len(allc)
                    for f, q in ((up, 26 / 62), (dg, 10 / 62)):
                        if abs(f - q) > SIG * math.sqrt(q * (1 - q) / len(allc)):
                            return f"characters are not uniform over letters and digits: {f:.3f} instead of {q:.3f} of {len(allc)}"
                v = [float(len(y)) for y in v]
        elif w == "binomial":
            bad = [y for y in v if not (isinstance(y, int) and 0 <= y <= a["n"])]
            m, sd = a["n"] * a["p"], math.sqrt(a["n"] * a["p"] * (1 - a["p"]))
            v = [float(y) for y in v]
        elif w == "exp":
            bad = [y for y in v if not (y >= 0 and math.isfinite(y))]
            m, sd = 1 / a["l"], 1 / a["l"]
        else:
            m, sd = a["m"], a["sd"]
            bad = [y for y in v if not abs(y - m) < 12 * sd]
        if bad:
            return f"{w}: values outside the bounds: {bad[:3]}"
        if n >= 100:
            mean = sum(v) / n
            if abs(mean - m) > SIG * sd / math.sqrt(n) * (1.6 if w in ("exp", "binomial") else 1) + 1e-9 * max(1, abs(m)):
                return f"{w}: mean of {n} values is {mean}, not {m} +- {sd / math.sqrt(n):.3g}"
            if sd > 0 and not (w == "binomial" and a["n"] * a["p"] * (1 - a["p"]) < 3):
                s = math.sqrt(sum((y - mean) ** 2 for y in v) / n)
                if not 0.45 * sd < s < 2.2 * sd:
                    return f"{w}: standard deviation of {n} values is {s}, not {sd}"
        return None
    for a_, b_ in zip(x, v):
        if a_ is None and b_ is not None:
            return f"{w}: a null became {b_}"
    f32 = p.get("f32")
    xs = [None if y is None else (float(np.float32(y)) if f32 else y) for y in x]
    if w == "null":
        for i, (a_, b_) in enumerate(zip(xs, v)):
            if b_ is not None and b_ != a_:
                return f"null injection turned {a_} (row {i}) into {b_}"
        k = sum(1 for a_ in xs if a_ is not None)
        hit = sum(1 for a_, b_ in zip(xs, v) if a_ is not None and b_ is None)
        if k >= 100 and abs(hit / k - a["pct"]) > SIG * math.sqrt(a["pct"] * (1 - a["pct"]) / k):
            return f"null injection hit {hit} of {k}, asked for {a['pct']}"
        return None
    if any(b_ is None for a_, b_ in zip(xs, v) if a_ is not None):
        return f"{w}: a value became null"
    ok = [(a_, b_) for a_, b_ in zip(xs, v) if a_ is not None]
    d = [b_ - a_ for a_, b_ in ok]
    tol = [max(abs(a_), abs(b_), 1e-300) * (2e-7 if f32 else 1e-15) * 2 for a_, b_ in ok]
    if w == "perturb" or (w == "noise" and a["kind"] == "uniform"):
        e = abs(a["eps"]) if w == "perturb" else abs(a["sd"])
        lo, hi = (0.0, e) if w == "perturb" and a["pos"] else (-e / 2, e / 2)
        for y, t in zip(d, tol):
            if not lo - t - e * 1e-6 <= y <= hi + t + e * 1e-6:
                return f"{w}: moved by {y}, outside [{lo}, {hi})"
        m, sd = (lo + hi) / 2, e / math.sqrt(12)
    else:
        m, sd = 0.0, a["sd"]
        for y, t in zip(d, tol):
            if abs(y) > 12 * sd + t:
                return f"{w}: moved by {y} with standard deviation {sd}"
    k = len(d)
    if k >= 100 and max(tol) < sd / 10:
        mean = sum(d) / k
        if abs(mean - m) > SIG * sd / math.sqrt(k):
            return f"{w}: mean noise of {k} values is {mean}, not {m}"
        s = math.sqrt(sum((y - mean) ** 2 for y in d) / k)
        if not 0.45 * sd < s < 2.2 * sd:
            return f"{w}: the noise's standard deviation is {s}, not {sd}"
    return None


def entropic(a, n):
    """Are two independent draws of n values sure to differ?"""
    w = a["w"]
    if w in ("random", "exp", "normal"):
        return n >= 2
    if w == "int":
        return (a["hi"] - a["lo"]) ** n > 1e14
    if w == "str":
        return a["lo"] > 0 and n * a["lo"] >= 9
    if w == "binomial":
        return a["n"] >= 100 and 0.02 < a["p"] < 1 and n >= 25
    if w == "null":
        return a["pct"] in (0.3, 0.5) and n >= 70
    return False  # the noise may vanish in the rounding: compared as noise elsewhere


class Base(Op):
    def gen(self, rng):
        a = gen_what(rng)
        p = {"a": a, "n": rng.choice([1, 2, 3, 7, 20, 60, 150, 400]), "s": rng.getrandbits(30), "kind": rng.choice([["normal"], ["uniform", -5, 5], ["grid", 4]]),
             "nulls": rng.choice([0, 0, 0.2]), "f32": rng.random() < 0.15 and a["w"] in ("perturb", "jitter")}
        p["d"] = gen_delivery(rng, self.allow)
        return self.more(p, rng)

    allow = None

    def enlarge(self, p, rng):
        return p.get("call") != "cols" and Op.enlarge(self, p, rng)

    def shape(self, p):
        return f"{self.name}|{p['a']['w']}|{p['d']['how']}|{p['d'].get('ng', 0)}|{p['n']}"


@op
class Contract(Base):
    """Bounds, length, nulls, location and spread, seeded or not, under any delivery."""

    name = "rnd.contract"

    def more(self, p, rng):
        p["seed"] = rng.choice([None, None, 0, 7, 2**63])
        p["len"] = rng.choice([None] * 4 + [1, 50]) if p["a"]["w"] in LENGTHY and p["d"]["how"] in ("select", "lazy") else None
        return p

    def run(self, p, ctx):
        cols = columns(p)
        e = expr_of(p["a"], p["seed"], p["len"])
        if p["len"] is not None:
            df = common.make_frame(cols, schema(p))
            return [(list(range(p["len"])), df.select(e).to_series().to_list())]
        return parts(deliver(p["d"], cols, schema(p), e, p["n"], False), p["n"])

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            if p["seed"] is None and "panicked" in r.msg and ctx.sc["sim"]["faults"].get("entropy_fail"):
                return []  # no entropy: an error to the caller is all one can ask for
            if no_bounds(p):
                return []
            return [f"random column {p['a']['w']} raised {r.type}: {r.msg[:200]} for {brief(p)}"]
        x = columns(p)["x"]
        seen = []
        flt = ctx.sc["sim"]["faults"]
        ent = p["seed"] is None and not flt.get("entropy_fail") and not flt.get("entropy_constant")
        for idx, v in r:
            if isinstance(v, Exc):
                return [f"{v}"]
            d = contract(p, [x[i] for i in idx] if p["len"] is None else [0.0] * p["len"], v)
            if d:
                return [f"random column via {p['d']['how']} ({len(idx)} rows): {d}, for {brief(p)}"]
            if ent and entropic(p["a"], len(v)):
                if p["a"]["w"] == "null":
                    v = [y is None for y in v]
                for o in seen:
                    k = min(len(o), len(v))
                    if entropic(p["a"], k) and o[:k] == v[:k] and (p["a"]["w"] != "null" or k == len(o) == len(v)):
                        return [f"two unseeded draws are the same: {v[:3]} via {p['d']['how']}, for {brief(p)}"]
                seen.append(v)
        if p["a"]["w"] in ("random", "normal", "exp") and p["seed"] is None:
            for idx, v in r:  # no stretch of values comes twice
                w = {}
                for i in range(0, len(v) - 3):
                    k = tuple(v[i: i + 3])
                    if k in w:
                        return [f"the draws repeat: rows {w[k]}.. and {i}.. via {p['d']['how']}, for {brief(p)}"]
                    w[k] = i
        return []


def frame(p):
    n = p["n"]
    r = np.random.default_rng(p["s"])
    return pl.DataFrame({"id": list(range(n)), "c": [int(v) for v in r.integers(0, 3, n)], "k": [["a", "b", None][v] for v in r.integers(0, 3, n)],
                         "x": [float(v) for v in r.normal(0, 1, n)]}, schema={"id": pl.Int64, "c": pl.Int64, "k": pl.String, "x": pl.Float64})


def call(p, q=None):
    """A seeded call, in one of the ways the library takes a seed; the result as plain values."""
    k = p["call"]
    if k == "expr":
        e = expr_of(p["a"], p["seed"])
        return [v for _, v in parts(deliver(q or p["d"], columns(p), schema(p), e, p["n"], False), p["n"])]
    if k == "xi":
        cols = {"x": col(p["s"], p["n"], ["grid", 3]), "y": col(p["s"] + 1, p["n"], ["normal"])}
        e = pds.xi_corr("x", "y", seed=p["seed"], return_p=p["n"] % 2 == 0)
        return [v for _, v in parts(deliver(q or p["d"], cols, None, e, p["n"], True), p["n"])]
    df = frame(p)
    if q and q.get("lazy"):
        df = df.lazy()
    if k == "sample":
        return sample(df, p["v"], seed=p["seed"])["id"].to_list()
    if k == "split":
        return [f["id"].to_list() for f in split_by_ratio(df, p["v"], seed=p["seed"])]
    if k == "down":
        return downsample(df, (pl.col("c") == 1, p["v"]), (pl.col("c") == 2, 0.5), seed=p["seed"])["id"].to_list()
    if k == "volume":
        return volume_neutral(df, pl.col("c"), control=pl.col("k") if p["v"] else None, target_volume=p["t"], seed=p["seed"])["id"].to_list()
    return random_cols([f"c{i}" for i in range(p["n"])], p["v"], keep=p["keep"], seed=p["seed"])


@op
class Seeded(Base):
    """The same seeded call, again and again: from threads, after other random calls, in another process."""

    name = "rnd.seeded"
    comparable = True
    allow = common.LISTY + ("streaming", "over")

    def more(self, p, rng):
        p["seed"] = rng.choice([0, 1, 7, 42, 2**40, 2**63])
        p["seed2"] = p["seed"] + rng.choice([1, 2, 1000])
        p["call"] = k = rng.choices(["expr", "xi", "sample", "split", "down", "volume", "cols"], [8, 2, 2, 2, 2, 2, 2])[0]
        if k == "sample":
            p["v"] = rng.choice([0.3, 0.5, 5, 40])
        elif k == "split":
            p["v"] = rng.choice([0.5, 0.8, [0.5, 0.25, 0.25], [0.5, 0.5]])
            p["n"] = max(p["n"], 20)
        elif k == "down":
            p["v"] = rng.choice([0.4, 2, 30])
        elif k == "volume":
            p["v"], p["t"] = rng.random() < 0.5, rng.choice([None, None, 3, 20])
        elif k == "cols":
            p["n"] = rng.choice([5, 12, 25])
            p["v"], p["keep"] = rng.choice([1, 3, 5]), None
            if p["n"] > 5 and rng.random() < 0.4:
                p["keep"] = ["c0", "c3"]
        p["par"] = rng.random() < 0.5
        return p

    def run(self, p, ctx):
        res = {}

        def go(k, f):
            try:
                res[k] = f()
            except BaseException as e:
                res[k] = Exc(e)

        def disturb():
            pyrandom.random()
            pl.DataFrame({"x": [1.0] * 40}).select(pds.random(), pds.jitter("x").alias("j"), pl.col("x").shuffle(seed=None).alias("s"))
            ctx.preempt()

        q = dict(p["d"], how="lazy") if p["d"]["how"] == "select" else {"lazy": 1} if p["call"] not in ("expr", "xi") else None
        t = None
        if p["par"]:
            t = threading.Thread(target=lambda: (go("thread", lambda: call(p)), go("other", lambda: call(dict(p, seed=p["seed2"])))), daemon=True)
            t.start()
        go("first", lambda: call(p))
        try:
            disturb()
        except BaseException:
            pass
        go("again", lambda: call(p, q))
        if t:
            t.join()
        else:
            go("other", lambda: call(dict(p, seed=p["seed2"])))
        return res

    def canon(self, p, r):
        return self.norm(p, r["first"]) if isinstance(r, dict) and not isinstance(r["first"], Exc) else None

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            if p["call"] == "expr" and no_bounds(p):
                return []
            return [f"seeded {p['call']} raised {r.type}: {r.msg[:200]} for {brief(p)}"]
        for k, v in r.items():
            if isinstance(v, Exc):
                if p["call"] == "expr" and no_bounds(p):
                    return []
                return [f"seeded {p['call']} ({k}) raised {v.type}: {v.msg[:200]} for {brief(p)}"]
        f = r["first"]
        for k in ("again", "thread"):
            if k in r and not common._same(self.norm(p, r[k]), self.norm(p, f)):
                return [f"seeded {p['call']} {p['a']['w'] if p['call'] == 'expr' else ''}: the call made {k} gave another result: {str(r[k])[:120]} after {str(f)[:120]}, for {brief(p)}"]
        if not self.weak(p, f) and common._same(r["other"], f):
            return [f"seeds {p['seed']} and {p['seed2']} give the same {p['call']}: {str(f)[:150]}, for {brief(p)}"]
        return []

    def norm(self, p, v):
        return v if p["call"] not in ("expr", "xi") or p["d"]["how"] != "groupby" else sorted(v, key=repr)

    def weak(self, p, f):
        k = p["call"]
        if k == "expr":
            return not all(entropic(p["a"], len(v)) for v in f)
        if k == "xi":
            return True
        if k == "cols":
            return p["n"] < 25 or p["v"] < 5
        n = len(f) if k != "split" else min(len(x) for x in f)
        tot = p["n"]
        return math.log10(math.comb(tot, min(n, tot))) < 14 or k in ("down", "volume")


def twin(sc, rng):
    """The same calls in another world: other threads, schedule, clock, entropy, heap."""
    s = sc["sim"]
    s["seed"] = rng.getrandbits(48)
    s["nthreads"] = rng.choice([1, 2, 4, 6])
    s["mode"] = rng.choice([0, 1, 3])
    s["wall"] = 1_600_000_000 * 10**9
    s["poison"] = rng.choice([1, 2, 3, 4])
    s["faults"] = {}
    s["trace"] = 0
    return sc
