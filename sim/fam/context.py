"""One expression, one set of rows, many ways to evaluate it.

The base is an eager select over one contiguous frame.  Every other way must give the same values
and the data type the query declared, for the same rows.  There is no other reference: what the value
should be is the business of the other families, whose expressions take part here as well.
"""
import random
import threading

import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.exprs import num as pn
from polars_ds.exprs import string as ps
from polars_ds.exprs import stats as pst
from polars_ds.exprs import metrics as pm

from common import OPS, Exc, ExprOp, Op, brief, op

CAT = {}  # name -> (kind, columns, builder)
WORDS = ["the", "running", "runner", "café", "Ñandú", "price 1,234.5", "and", "FooBarBaz", "foo_bar", "a  b\tc", "x1y22z333", "naïve", "straße", "日本", "", "cats", "cat", "relational", "hello world", "-12.5%"]


def frame(p):
    r = np.random.default_rng(p["s"])
    q = random.Random(p["s"])
    n = p["n"]
    nul = lambda v, f=p["nulls"]: [None if q.random() < f else a for a in v]
    fl = lambda a: [float(v) for v in a]
    x = r.normal(0, 1, n)
    d = {
        "x": nul(fl(x)), "y": nul(fl(0.5 * x + r.normal(0, 1, n))), "u": fl(r.normal(3, 2, n)), "w": fl(r.uniform(0.1, 2, n)), "pr": fl(r.uniform(0.02, 0.98, n)),
        "i": nul([int(v) for v in r.integers(0, 40, n)]), "j": [int(v) for v in r.integers(1, 30, n)], "b": [bool(v) for v in r.random(n) < 0.5], "g": [q.choice("abc") for _ in range(n)],
        "h": [q.choice("uv") for _ in range(n)], "s": nul([" ".join(q.choices(WORDS, k=q.choice([1, 1, 2, 3]))) for _ in range(n)]), "t": [q.choice(WORDS) for _ in range(n)],
        "lf": [fl(r.normal(0, 1, q.choice([1, 3, 4]))) for _ in range(n)], "la": [[q.randrange(5) for _ in range(3)] for _ in range(n)], "c2": [q.randrange(2) for _ in range(n)],
        "lat": fl(r.uniform(-80, 80, n)), "lon": fl(r.uniform(-170, 170, n)),
    }
    return d


SCH = {"x": pl.Float64, "y": pl.Float64, "u": pl.Float64, "w": pl.Float64, "pr": pl.Float64, "i": pl.Int64, "j": pl.Int64, "b": pl.Boolean, "g": pl.String, "h": pl.String, "s": pl.String,
       "t": pl.String, "lf": pl.List(pl.Float64), "la": pl.List(pl.Int64), "c2": pl.Int32, "lat": pl.Float64, "lon": pl.Float64}


def add(name, kind, build, par=None, lo=1):
    CAT[name] = (kind, build, par, lo)


for _n in ("expit", "exp2", "fract", "trunc", "gamma", "digamma", "sinc", "next_up", "next_down"):
    add(_n, "row", lambda p, _n=_n: getattr(pn, _n)("u"))
add("logit", "row", lambda p: pn.logit("pr"))
add("xlogy", "row", lambda p: pn.xlogy("w", "pr"))
add("gcd", "row", lambda p: pn.gcd("i", "j" if p["k"] else 12))
add("lcm", "row", lambda p: pn.lcm("i", "j" if p["k"] else 12))
add("haversine", "row", lambda p: pn.haversine("lat", "lon", "u" if p["k"] else 10.0, "w" if p["k"] else -20.0))
for _n in ("l1_horizontal", "l2_sq_horizontal", "l_inf_horizontal"):
    add(_n, "row", lambda p, _n=_n: getattr(pn, _n)("x", "u", "w", normalize=bool(p["k"])))
add("list_amax", "row", lambda p: pn.list_amax("lf"))
for _n in ("to_camel_case", "to_snake_case", "to_pascal_case", "to_constant_case", "is_stopword", "remove_diacritics"):
    add(_n, "row", lambda p, _n=_n: getattr(ps, _n)("s"))
add("snowball", "row", lambda p: ps.str_snowball("t", no_stopwords=bool(p["k"])))
add("tokenize", "row", lambda p: ps.str_tokenize("s", stem=bool(p["k"])))
add("extract_numbers", "row", lambda p: ps.extract_numbers("s", join_by="-" if p["k"] else ""))
add("replace_non_ascii", "row", lambda p: ps.replace_non_ascii("s", "?" if p["k"] else ""))
add("normalize_string", "row", lambda p: ps.normalize_string("s", ["NFC", "NFKC", "NFD", "NFKD"][p["k"] * 2 + 1]))
add("map_words", "row", lambda p: ps.map_words("s", {"running": "run", "foo_bar": "fb"}))
add("normalize_whitespace", "row", lambda p: ps.normalize_whitespace("s", only_spaces=bool(p["k"])))
for _n in ("center", "z_normalize", "softmax"):
    add(_n, "win", lambda p, _n=_n: getattr(pn, _n)("u"))
add("detrend", "win", lambda p: pn.detrend("u", "linear" if p["k"] else "mean"), lo=3)
add("winsorize", "win", lambda p: pst.winsorize("u", 0.1, 0.9))
add("principal_components", "win", lambda p: pn.principal_components("x", "u", "w", k=2 if p["k"] else 1), lo=5)
add("pca", "len", lambda p: pn.pca("x", "u", "w"), lo=5)
add("combinations", "len", lambda p: pds.combinations("j", 2, unique=bool(p["k"])), lo=3)
add("product", "len", lambda p: pds.product("j", "g"))
add("similar_to_vocab", "row", lambda p: ps.similar_to_vocab("t", ["cat", "foo", "running"], 0.5, "lv", ["avg", "all"][p["k"]]))
add("is_increasing", "agg", lambda p: pn.is_increasing("j", strict=bool(p["k"])))
add("is_decreasing", "agg", lambda p: pn.is_decreasing("j", strict=bool(p["k"])))
add("singular_values", "agg", lambda p: pn.singular_values("x", "u", "w", as_explained_var=bool(p["k"])), lo=5)
for _n in ("hmean", "gmean"):
    add(_n, "agg", lambda p, _n=_n: getattr(pst, _n)("w"))
for _n in ("weighted_hmean", "weighted_gmean", "weighted_mean"):
    add(_n, "agg", lambda p, _n=_n: getattr(pst, _n)("u" if _n.endswith("_mean") and _n == "weighted_mean" else "pr", "w"))
add("weighted_var", "agg", lambda p: pst.weighted_var("u", "w", freq_weights=bool(p["k"])), lo=3)
add("weighted_cov", "agg", lambda p: pst.weighted_cov("u", "pr", pl.col("w")), lo=2)
add("weighted_corr", "agg", lambda p: pst.weighted_corr("u", "pr", "w"), lo=3)
add("cosine_sim", "agg", lambda p: pst.cosine_sim("u", "pr"))
add("weighted_cosine_sim", "agg", lambda p: pst.weighted_cosine_sim("u", "pr", "w"))
add("kendall_tau", "agg", lambda p: pst.kendall_tau("x", "u"), lo=3)
add("bicor", "agg", lambda p: pst.bicor("u", "pr"), lo=5)
add("xi_corr", "agg", lambda p: pst.xi_corr("u", "pr", seed=7, return_p=bool(p["k"])), lo=5)
for _n in ("pearson", "spearman", "kendall", "bicor"):
    add("corr_" + _n, "agg", lambda p, _n=_n: pst.corr("u", "pr", _n), lo=5)
add("ttest_ind", "agg", lambda p: pst.ttest_ind("x", "u", equal_var=bool(p["k"])), lo=4)
add("ttest_1samp", "agg", lambda p: pst.ttest_1samp("x", 0.3, ["less", "two-sided"][p["k"]]), lo=4)
add("ttest_from_stats", "agg", lambda p: pst.ttest_ind_from_stats("x", 0.1, 1.2, 30, equal_var=bool(p["k"])), lo=4)
add("f_test", "agg", lambda p: pst.f_test(*(["x"] if p["k"] else ["u", "w"]), group="g"), lo=13)
add("chi2", "agg", lambda p: pst.chi2("g", "h", return_full=False), lo=13)
add("chi2_full", "len", lambda p: pst.chi2("g", "h", return_full=True), lo=13)
add("mann_whitney", "agg", lambda p: pst.mann_whitney_u("u", "x", ["greater", "two-sided"][p["k"]]), lo=13)
add("normal_test", "agg", lambda p: pst.normal_test("x"), lo=21)
add("jaccard_row", "row", lambda p: pn.jaccard_row("la", pl.col("la").list.reverse().list.head(2)))
add("first_digit", "agg", lambda p: pds.query_first_digit_cnt("j"))
add("ar_coeffs", "agg", lambda p: pds.query_ar_coeffs("u", lag=2, add_bias=bool(p["k"])), lo=13)


class Fresh(ExprOp):
    """An expression of the table above, over the standard frame."""

    def __init__(self, name):
        self.kind, self.build, self.par, self.lo = CAT[name]
        self.name = "fresh." + name
        self.reduce_ = self.kind == "agg"

    def params(self, rng):
        p = {"n": rng.choice([m for m in (1, 2, 3, 5, 8, 13, 21, 34, 60) if m >= self.lo]), "s": rng.getrandbits(30), "nulls": rng.choice([0, 0, 0.15]), "k": rng.randrange(2)}
        return p

    def columns(self, p):
        return frame(p)

    def schema(self, p):
        return SCH

    def expr(self, p):
        return self.build(p)


FRESH = {("fresh." + k): Fresh(k) for k in CAT}


def plain(v):
    if isinstance(v, pl.Series):
        return [plain(a) for a in v.to_list()]
    if isinstance(v, (list, tuple)):
        return [plain(a) for a in v]
    if isinstance(v, dict):
        return {k: plain(a) for k, a in v.items()}
    return v


def unlike(a, b, tol):
    """Where two plain values differ, or None."""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{len(a)} instead of {len(b)} values"
        for i, (x, y) in enumerate(zip(a, b)):
            d = unlike(x, y, tol)
            if d:
                return f"[{i}] {d}"
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return f"fields {list(a)} instead of {list(b)}"
        for k in a:
            d = unlike(a[k], b[k], tol)
            if d:
                return f".{k} {d}"
        return None
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b) or abs(a - b) <= tol * max(1.0, abs(a), abs(b)):
            return None
    elif type(a) is type(b) and a == b:
        return None
    return f"{str(a)[:70]} instead of {str(b)[:70]}"


SAME = ["lazy", "streaming", "chunked", "sliced", "siblings", "again", "threads", "all", "roundtrip"]
ROWS = ["with_columns", "over", "after", "head"]
SETS = ["filter", "groupby", "dynamic"]


SIGNLESS = ("fresh.pca", "fresh.principal_components")  # singular vectors have no sign of their own


def unsigned(v):
    if isinstance(v, list):
        return [unsigned(a) for a in v]
    if isinstance(v, dict):
        return {k: unsigned(a) for k, a in v.items()}
    return abs(v) if isinstance(v, float) else v


def tolerance(o):
    return max(1e-7, 10 * getattr(o, "rtol", 0.0))


@op
class Same(Op):
    name = "ctx.same"

    def sources(self):
        if not hasattr(self, "_src"):
            self._src = dict(FRESH)
            for k, o in OPS.items():
                if isinstance(o, ExprOp) and not k.startswith("par."):
                    self._src[k] = o
            self._names = sorted(self._src)
        return self._src

    def gen(self, rng):
        src = self.sources()
        nm = rng.choice(sorted(FRESH) if rng.random() < 0.5 else self._names)
        o = src[nm]
        q = o.gen(rng) if not nm.startswith("fresh.") else o.params(rng)
        allow = o.allow_for(q)
        w = SAME + SETS * 3 + ROWS * 2
        if allow is not None and "over" not in allow:
            w = [k for k in w if k != "over"]
        if allow is not None and "groupby" not in allow:
            w = [k for k in w if k not in ("groupby", "dynamic")]
        ways = []
        for _ in range(rng.choice([1, 2, 3])):
            ways.append(rng.choice(w))
        p2 = None
        return {"src": nm, "p": q, "ways": ways, "s": rng.getrandbits(30)}

    def one(self, way, p, o, ctx):
        """-> (values in that context, expected values: a list of [row indices or None, values, expected-from])"""
        q = p["p"]
        cols = o.columns(q)
        df = pl.DataFrame(cols, schema=o.schema(q))
        n = df.height
        e = o.expr(q)
        r = np.random.default_rng(p["s"])
        out = {}

        def lz(lf, nm="out"):
            res = lf.collect()
            out["types"] = [str(lf.collect_schema()[nm]), str(res.schema[nm])]
            return res

        ea = e.alias("out")
        if way == "eager":
            res = df.select(ea)["out"]
            return {"v": plain(res), "t": str(res.dtype)}
        if way == "lazy":
            return {"v": plain(lz(df.lazy().select(ea))["out"]), **out}
        if way == "roundtrip":
            e2 = pl.Expr.deserialize(e.meta.serialize())
            return {"v": plain(lz(df.lazy().select(e2.alias("out")))["out"]), **out}
        if way == "streaming":
            return {"v": plain(df.lazy().select(ea).collect(engine="streaming")["out"])}
        if way == "chunked":
            cuts = sorted({0, n, *[int(v) for v in r.integers(0, n + 1, 3)]})
            parts = [df.slice(a, b - a) for a, b in zip(cuts, cuts[1:])]
            if r.random() < 0.5:
                parts.insert(int(r.integers(0, len(parts) + 1)), df.clear())
            return {"v": plain(pl.concat(parts, rechunk=False).select(ea)["out"])}
        if way == "sliced":
            a = int(r.integers(1, 9))
            big = pl.concat([df[[int(v) for v in r.integers(0, n, a)]], df, df[[int(v) for v in r.integers(0, n, 3)]]], rechunk=True) if n else df
            return {"v": plain(big.slice(a if n else 0, n).select(ea)["out"])}
        if way == "siblings":
            res = df.lazy().select(ea, e.alias("sib"), pl.all().reverse().first().name.prefix("__")).collect() if o.reduce_ else df.lazy().select(ea, e.alias("sib")).collect()
            return {"v": plain(res["out"]), "v2": plain(res["sib"])}
        if way == "again":
            lf = df.lazy().select(ea)
            return {"v": plain(lf.collect()["out"]), "v2": plain(lf.collect()["out"])}
        if way == "all":
            a, b = pl.collect_all([df.lazy().select(ea), df.lazy().select(e.alias("out"))])
            return {"v": plain(a["out"]), "v2": plain(b["out"])}
        if way == "threads":
            lf = df.lazy().select(ea)
            got = {}

            def other():
                try:
                    got["v2"] = plain(lf.collect()["out"])
                except BaseException as ex:
                    got["v2"] = {"exc": type(ex).__name__, "msg": str(ex)[:200]}

            t = threading.Thread(target=other, daemon=True)
            t.start()
            try:
                got["v"] = plain(lf.collect()["out"])
            finally:
                t.join()
            if isinstance(got.get("v2"), dict):
                return got["v2"]
            return got
        # the rows among others: copies of them, in another order
        m = int(r.integers(0, n + 3))
        junk = df[[int(v) for v in r.integers(0, n, m)]] if n else df
        tag = np.array([True] * n + [False] * junk.height)
        r.shuffle(tag)
        ia, ib, order = 0, n, []
        for k in tag:
            if k:
                order.append(ia)
                ia += 1
            else:
                order.append(ib)
                ib += 1
        big = pl.concat([df, junk], rechunk=True)[order].with_columns(pl.Series("__keep", tag))
        if way == "filter":
            return {"v": plain(lz(big.lazy().filter("__keep").select(ea))["out"]), **out}
        if way == "with_columns":
            return {"v": plain(lz(df.lazy().with_columns(ea))["out"]), **out, "full": n}
        if way == "head":
            k = int(r.integers(1, n + 1))
            return {"v": plain(lz(df.lazy().with_columns(ea).head(k))["out"]), **out, "full": n, "pick": list(range(k))}
        if way == "after":
            keep = [bool(v) for v in r.random(n) < 0.5]
            lf = df.with_columns(pl.Series("__keep", keep)).lazy().with_columns(ea).filter("__keep")
            return {"v": plain(lz(lf)["out"]), **out, "full": n, "pick": [i for i in range(n) if keep[i]]}
        if way in ("groupby", "over"):
            ng = int(r.integers(1, 4))
            parts = [df] + [df[[int(v) for v in r.permutation(n)]] for _ in range(ng - 1)]
            lab = np.concatenate([np.full(n, k) for k in range(ng)])
            r.shuffle(lab)
            pos = [0] * ng
            order = []
            for k in lab:
                order.append(int(k) * n + pos[k])
                pos[k] += 1
            big = pl.concat(parts, rechunk=True)[order].with_columns(pl.Series("__g", [int(k) for k in lab]))
            exp = [self.eager(x, o, q) for x in parts]
            if way == "groupby":
                res = lz(big.lazy().group_by("__g").agg(ea))
                got = dict(zip(res["__g"].to_list(), res["out"].to_list()))
                return {"g": [plain(got[k]) for k in range(ng)], "e": exp, **out}
            res = lz(big.lazy().select("__g", e.over("__g").alias("out")))
            v = plain(res["out"])
            return {"g": [[v[i] for i in range(len(lab)) if lab[i] == k] for k in range(ng)], "e": exp, "rows": n, **out}
        if way == "dynamic":  # groups that are slices
            ng = int(r.integers(1, 4))
            parts = [df] + [df[[int(v) for v in r.permutation(n)]] for _ in range(ng - 1)]
            big = pl.concat(parts, rechunk=bool(r.integers(0, 2))).with_columns(pl.Series("__i", range(n * ng), dtype=pl.Int64))
            exp = [self.eager(x, o, q) for x in parts]
            res = lz(big.lazy().group_by_dynamic("__i", every=f"{n}i").agg(ea))
            return {"g": [plain(v) for v in res["out"].to_list()], "e": exp, **out}
        raise ValueError(way)

    def eager(self, df, o, q):
        try:
            return {"v": plain(df.select(o.expr(q).alias("out"))["out"])}
        except BaseException as ex:
            return {"exc": type(ex).__name__, "msg": str(ex)[:200]}

    def run(self, p, ctx):
        o = self.sources()[p["src"]]
        res = []
        for way in ["eager"] + p["ways"]:
            ctx.preempt()
            try:
                res.append(self.one(way, p, o, ctx))
            except BaseException as ex:
                res.append({"exc": type(ex).__name__, "msg": str(ex)[:200]})
        return res

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"harness: {r.type}: {r.msg}"]
        o = self.sources()[p["src"]]
        out = []
        if p["src"] in SIGNLESS:
            r = [unsigned(x) if isinstance(x, dict) else x for x in r]
        for way, x in zip(p["ways"], r[1:]):
            d = self.judge(p, o, way, r[0], x)
            if d:
                known = "".join(f"[known:{v}-c05] " for k, v in o.known_errors.items() if k in d and way in ("groupby", "over", "dynamic"))
                out.append(f"{known}{p['src']}: {way}: {d}, for {brief(p)}")
        return out[:1]

    def judge(self, p, o, way, base, x):
        tol = tolerance(o)
        n = len(next(iter(o.columns(p["p"]).values())))
        if "exc" in base:
            if "exc" in x or way in ("groupby", "over", "dynamic", "filter"):
                return None
            return f"a value where an eager select raises {base['exc']}: {base['msg']}"
        full = base["v"]
        same_len = len(full) == n
        single = len(full) == 1
        if way in ROWS and not same_len and not (o.reduce_ and single):
            if single and "exc" not in x:
                same_len, full = True, full * n
        if way in ROWS and not same_len and not (o.reduce_ and single):
            return None  # the length of the result is its own
        if "exc" in x and way == "roundtrip":
            return None  # not every expression can be serialised; that is polars' affair
        if "exc" in x and any(w in x["msg"] for w in ("alias found in physical plan", "__POLARS_CSER")):
            return None  # polars' own optimiser trips over its own rewrites
        if "exc" in x:
            if "g" not in x and way in ("groupby", "dynamic", "over") and (n == 0):
                return None
            return f"raised {x['exc']}: {x['msg']}"
        bare = lambda t: t[5:-1] if t.startswith("List(") else t
        if "types" in x and (x["types"][0] != x["types"][1] if way not in ("groupby", "dynamic") else bare(x["types"][0]) not in (x["types"][1], bare(x["types"][1])) and x["types"][0] != bare(x["types"][1])):
            return f"declared as {x['types'][0]}, delivered as {x['types'][1]}"
        if "g" in x:
            for k, (g, e) in enumerate(zip(x["g"], x["e"])):
                if "exc" in e:
                    continue
                w = e["v"]
                if way == "over":
                    if len(w) == 1:
                        w = w * x["rows"]
                elif o.reduce_:
                    w = w[0] if len(w) == 1 else w
                elif len(w) == 1 and unlike(g, w[0], tol) is None:
                    continue  # one value for the group
                d = unlike(g, w, tol)
                if d:
                    return f"group {k}: {d}"
            return None
        want = full
        if "full" in x:
            if o.reduce_ and single:
                want = full * x["full"]
            if "pick" in x:
                want = [want[i] for i in x["pick"]]
        for k in ("v", "v2"):
            if k in x:
                d = unlike(x[k], want, tol)
                if d:
                    return d
        return None

    def shape(self, p):
        return "ctx|" + p["src"] + "|" + "+".join(sorted(set(p["ways"])))
