"""Hypothesis tests, summary statistics and special functions against their definitions (SciPy, NumPy)."""
import math
import warnings

import numpy as np
import polars as pl
import polars_ds as pds
import scipy.special as sp
import scipy.stats as st
from polars_ds.exprs import expr_iter as pi
from polars_ds.exprs import num as pn
from polars_ds.exprs import stats as ps

from common import CONT, LISTY, TIED, Exc, close, col, define, diff, with_nulls

F = pl.Float64
NAN = float("nan")
ALT = ["two-sided", "less", "greater"]


def A(s, k="x"):
    return np.array([NAN if v is None else v for v in s[k]], dtype=float)


def fin(a):
    return a[np.isfinite(a)]


def quiet(f):
    def g(*a):
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return f(*a)
    return g


def dic(r):
    return {"statistic": float(r[0]), "pvalue": float(r[1])}


def same(rtol=1e-8, atol=1e-9):
    """Compares one struct of statistic and pvalue."""
    def f(got, want):
        if not isinstance(got, dict):
            return f"{got!r} instead of {want!r}"
        for k, v in want.items():
            if not close(got[k], v, rtol, atol):
                return f"{k} {got[k]!r} instead of {v!r}"
        return None
    return f


def test(name, expr, ref, params=None, need=2, atol=1e-9, rtol=1e-8, expect=None, known=None, **kw):
    """An expression that is one struct {statistic, pvalue} for its rows."""
    eq = same(rtol, atol)

    def compare(p, s, got):
        if not len(got):
            return "no result"
        d = eq(got[0], quiet(ref)(p, s))
        return f"[known:{known[0]}] {d}" if d and known and quiet(known[1])(p, s, got) else d

    if known:
        kw["known_errors"] = {"(no error)": known[0]}

    def skip(p, cols, groups):
        g = [{k: [v[i] for i in ix] for k, v in cols.items()} for ix in groups]
        if any(len(ix) < need for ix in groups) or (expect and not all(quiet(expect)(p, s) for s in g)):
            return "skip"
        return None

    kw.setdefault("allow", LISTY)
    define("stat." + name, expr=expr, ref=None, params=params, reduce_=True, expect=skip, compare=compare, **kw)


def two(p):
    """Two samples: nulls, NaN and infinity sprinkled where asked for."""
    a = col(p["s"], p["n"], p["kind"])
    b = [v * p.get("sc", 1.0) + p.get("sh", 0.0) for v in col(p["s"] + 7, p["n"], p["kind"])]
    if p.get("dirty"):
        r = np.random.default_rng(p["s"])
        for z in (a, b):
            for i in range(p["n"]):
                if r.random() < 0.1:
                    z[i] = [None, NAN, math.inf, -math.inf][int(r.integers(0, 4))]
    return {"x": a, "y": b}


_two = dict(columns=two, schema={"x": F, "y": F}, kinds=[["normal"], ["uniform", -5, 5], ["walk"], ["normal", 100, 5], ["heavy"], ["grid", 3], ["grid", 8]], n=(3, 5, 8, 13, 21, 34, 60, 120))
_par = lambda **k: (lambda rng: {"sc": rng.choice([1.0, 1.0, 3.0]), "sh": rng.choice([0.0, 0.3, -1.0, 1.0, 1000.0]), **{a: f(rng) for a, f in k.items()}})
spread = lambda *k: (lambda p, s: all(len(fin(A(s, c))) >= 2 and np.ptp(fin(A(s, c))) > 1e-9 * (1 + np.abs(fin(A(s, c))).max()) for c in k))

test("ttest_ind", lambda p: ps.ttest_ind("x", "y", alternative=p["alt"], equal_var=True), lambda p, s: dic(st.ttest_ind(A(s), A(s, "y"), equal_var=True, alternative=p["alt"])),
     _par(alt=lambda r: r.choice(ALT)), atol=1e-9, rtol=1e-6, expect=spread("x", "y"), **_two)
test("welch", lambda p: ps.ttest_ind("x", "y", alternative=p["alt"]), lambda p, s: dic(st.ttest_ind(fin(A(s)), fin(A(s, "y")), equal_var=False, alternative=p["alt"])),
     _par(alt=lambda r: r.choice(ALT), dirty=lambda r: r.random() < 0.5), atol=1e-9, rtol=1e-6, expect=spread("x", "y"), **_two)
test("ttest_1samp", lambda p: ps.ttest_1samp("x", pop_mean=p["mu"], alternative=p["alt"]), lambda p, s: dic(st.ttest_1samp(fin(A(s)), p["mu"], alternative=p["alt"])),
     _par(alt=lambda r: r.choice(ALT), mu=lambda r: r.choice([0.0, 0.5, 100.0]), dirty=lambda r: r.random() < 0.5), atol=1e-9, rtol=1e-6, expect=spread("x"), **_two)
test("ttest_from_stats", lambda p: ps.ttest_ind_from_stats("x", mean=p["m"], var=p["v"], cnt=p["c"], alternative=p["alt"]),
     lambda p, s: dic(st.ttest_ind_from_stats(fin(A(s)).mean(), fin(A(s)).std(ddof=1), len(fin(A(s))), p["m"], math.sqrt(p["v"]), p["c"], equal_var=False, alternative=p["alt"])),
     _par(alt=lambda r: r.choice(ALT), m=lambda r: r.choice([0.0, 2.0]), v=lambda r: r.choice([0.5, 4.0]), c=lambda r: r.choice([2, 10, 77])), atol=1e-9, rtol=1e-6, expect=spread("x"), **_two)
_dirt = dict(_two, n=(40, 60, 90, 120, 200, 400))


def ks(x, y, alpha):
    if len(x) <= 30 or len(y) <= 30:
        return {"statistic": 0.0, "pvalue": NAN}
    d = max(abs((x <= v).mean() - (y <= v).mean()) for v in np.concatenate([x, y]))
    return {"statistic": float(d), "pvalue": math.sqrt(-0.5 * math.log(alpha / 2) * (len(x) + len(y)) / (len(x) * len(y)))}


test("ks_2samp", lambda p: ps.ks_2samp("x", "y", alpha=p["a"]), lambda p, s: ks(fin(A(s)), fin(A(s, "y")), p["a"]), _par(a=lambda r: r.choice([0.05, 0.01, 0.2]), dirty=lambda r: r.random() < 0.5), need=0, **_dirt)


def mwu(p, s):
    x, y = fin(A(s)), fin(A(s, "y"))
    r = st.mannwhitneyu(x, y, alternative=p["alt"], method="asymptotic", use_continuity=True)
    return {"statistic": float(r.statistic), "pvalue": float(r.pvalue)}


test("mann_whitney_u", lambda p: ps.mann_whitney_u("x", "y", alternative=p["alt"]), mwu, _par(alt=lambda r: r.choice(ALT), dirty=lambda r: r.random() < 0.4), atol=1e-9, rtol=1e-6,
     expect=lambda p, s: len(fin(A(s))) > 0 and len(fin(A(s, "y"))) > 0 and len(set(fin(A(s))) | set(fin(A(s, "y")))) > 1, **dict(_two, kinds=[["normal"], ["grid", 3], ["grid", 8], ["uniform", -5, 5], ["const", 1.0], ["heavy"]]))
def normaltest(p, s):
    return dic(st.normaltest(fin(A(s))))


def flat_known(p, s, got):
    """Known finding normal-test-flat: for data so flat that the kurtosis term's denominator is negative, its sign is lost."""
    x = fin(A(s))
    n = len(x)
    e, v = 3.0 * (n - 1) / (n + 1), 24.0 * n * (n - 2) * (n - 3) / ((n + 1) ** 2 * (n + 3) * (n + 5))
    rb = 6.0 * (n * n - 5 * n + 2) / ((n + 7) * (n + 9)) * math.sqrt(6.0 * (n + 3) * (n + 5) / (n * (n - 2) * (n - 3)))
    a = 6.0 + 8.0 / rb * (2.0 / rb + math.sqrt(1 + 4.0 / rb**2))
    den = 1 + (float(st.kurtosis(x, fisher=False)) - e) / math.sqrt(v) * math.sqrt(2 / (a - 4.0))
    if den > 1e-6:
        return None
    z = (1 - 2 / (9.0 * a) - ((1 - 2.0 / a) / abs(den)) ** (1 / 3)) / math.sqrt(2 / (9.0 * a))
    k2 = float(st.skewtest(x).statistic) ** 2 + z * z
    return same(1e-6, 1e-9)(got[0], {"statistic": k2, "pvalue": float(st.chi2.sf(k2, 2))}) is None


test("normal_test", lambda p: ps.normal_test("x"), normaltest, _par(dirty=lambda r: r.random() < 0.4), atol=1e-9, rtol=1e-6, known=("normal-test-flat", flat_known),
     expect=lambda p, s: len(fin(A(s))) >= 20 and np.ptp(fin(A(s))) > 1e-6 * np.abs(fin(A(s))).max() and abs(st.skew(fin(A(s)))) > 1e-7, **dict(_two, n=(20, 34, 60, 120, 300), kinds=[["normal"], ["uniform", -5, 5], ["walk"], ["normal", 100, 5]]))


# ---------------------------------------------------------------- tables
def labelled(p):
    r = np.random.default_rng(p["s"])
    n = p["n"]
    g = [chr(97 + int(v)) for v in r.integers(0, p["ng"], n)]
    h = [chr(107 + int(v)) if r.random() > p["dep"] else chr(107 + (ord(a) - 97) % p["nh"]) for v, a in zip(r.integers(0, p["nh"], n), g)]
    return {"g": g, "h": h, "x": col(p["s"] + 3, n, p["kind"]), "z": [v + p["dep"] * ord(a) for v, a in zip(col(p["s"] + 4, n, ["normal"]), g)]}


_lab = dict(columns=labelled, schema={"g": pl.String, "h": pl.String, "x": F, "z": F}, n=(5, 9, 20, 40, 80, 150))
_labp = lambda rng: {"ng": rng.choice([2, 2, 3, 5]), "nh": rng.choice([2, 3, 4]), "dep": rng.choice([0.0, 0.3, 1.0]), "v": rng.choice(["x", "z"])}


def chi2(p, s):
    a, b = sorted(set(s["g"])), sorted(set(s["h"]))
    t = np.array([[sum(1 for u, v in zip(s["g"], s["h"]) if u == i and v == j) for j in b] for i in a], float)
    e = t.sum(1, keepdims=True) * t.sum(0, keepdims=True) / t.sum()
    x = float(((t - e) ** 2 / e).sum())
    dof = (len(a) - 1) * (len(b) - 1)
    return {"statistic": x, "pvalue": float(st.chi2.sf(x, dof))}


test("chi2", lambda p: ps.chi2("g", "h"), chi2, _labp, atol=1e-9, rtol=1e-6, expect=lambda p, s: len(set(s["g"])) > 1 and len(set(s["h"])) > 1, **_lab)


def ftest(p, s, v=None):
    x = np.array(s[v or p["v"]])
    k = sorted(set(s["g"]))
    return dic(st.f_oneway(*[x[[a == c for a in s["g"]]] for c in k]))


_fok = lambda p, s: len(set(s["g"])) > 1 and len(s["g"]) > len(set(s["g"])) + 1 and max(np.ptp([b for a, b in zip(s["g"], s[p["v"]]) if a == c]) for c in set(s["g"])) > 1e-6
test("f_test", lambda p: ps.f_test(p["v"], group="g"), ftest, _labp, atol=1e-9, rtol=1e-6, expect=_fok, **dict(_lab, kinds=[["normal"], ["uniform", -5, 5], ["walk"]]))


# ---------------------------------------------------------------- correlations
def corr_cols(p):
    d = two(p)
    if p.get("mix"):
        r = np.random.default_rng(p["s"])
        d["y"] = [None if b is None or a is None else b * (1 - p["mix"]) + a * p["mix"] for a, b in zip(d["x"], d["y"])]
        d["y"] = [b if b is not None else 0.0 for b in d["y"]]
    d["w"] = col(p["s"] + 9, p["n"], ["uniform", 0.1, 4.0])
    return d


def scalar(name, expr, ref, params=None, need=1, expect=None, rtol=1e-8, atol=1e-9, **kw):
    def skip(p, cols, groups):
        g = [{k: [v[i] for i in ix] for k, v in cols.items()} for ix in groups]
        if any(len(ix) < need for ix in groups) or (expect and not all(quiet(expect)(p, s) for s in g)):
            return "skip"
        return None

    define("stat." + name, expr=expr, ref=quiet(ref), params=params, reduce_=True, expect=skip, rtol=rtol, atol=atol, **kw)


_cc = dict(columns=corr_cols, schema={"x": F, "y": F, "w": F}, kinds=[["normal"], ["uniform", -5, 5], ["walk"], ["normal", 10, 5], ["heavy"]], n=(2, 3, 5, 8, 13, 21, 34, 60, 120))
_mix = _par(mix=lambda r: r.choice([0.0, 0.5, 1.0]))


def tau(p, s):
    ok = [(a, b) for a, b in zip(s["x"], s["y"]) if a is not None and b is not None and a == a and b == b]
    if len(ok) < 2:
        return NAN
    c = d = tx = ty = 0
    for i in range(len(ok)):
        for j in range(i):
            u = (ok[i][0] > ok[j][0]) - (ok[i][0] < ok[j][0])
            v = (ok[i][1] > ok[j][1]) - (ok[i][1] < ok[j][1])
            c += u * v > 0
            d += u * v < 0
            tx += u != 0
            ty += v != 0
    return float(np.float64(c - d) / np.sqrt(np.float64(tx) * ty))


scalar("kendall", lambda p: ps.kendall_tau("x", "y"), tau, _par(dirty=lambda r: r.random() < 0.4, mix=lambda r: 0.0), **dict(_cc, kinds=[["normal"], ["grid", 3], ["grid", 8], ["const", 1.0], ["heavy"], ["walk"]]))


def bicor(p, s):
    def w(a):
        d = a - np.median(a)
        u = d / (p["c"] * np.median(np.abs(d)))
        return d * (1 - u ** 2) ** 2 * (np.abs(u) < 1)
    a, b = w(A(s)), w(A(s, "y"))
    return float(a @ b / math.sqrt((a @ a) * (b @ b)))


scalar("bicor", lambda p: ps.bicor("x", "y", c=p["c"]), bicor, _par(mix=lambda r: r.choice([0.0, 0.5]), c=lambda r: r.choice([9.0, 3.0])), need=3, rtol=1e-6,
       expect=lambda p, s: min(np.median(np.abs(A(s, k) - np.median(A(s, k)))) for k in "xy") > 1e-9, **_cc)


def xi(s):
    o = np.argsort(A(s), kind="stable")
    y = A(s, "y")[o]
    r = np.array([(y <= v).sum() for v in y])
    l = np.array([(y >= v).sum() for v in y])
    n = len(y)
    return float(1 - n * np.abs(np.diff(r)).sum() / (2 * (l * (n - l)).sum()))


_nox = lambda p, s: len(set(s["x"])) == len(s["x"]) and len(set(s["y"])) > 1
scalar("xi_corr", lambda p: ps.xi_corr("x", "y"), lambda p, s: xi(s), _mix, need=2, expect=_nox, **_cc)
test("xi_corr_p", lambda p: ps.xi_corr("x", "y", return_p=True), lambda p, s: {"statistic": xi(s), "pvalue": NAN if len(s["x"]) < 30 else float(2 * st.norm.sf(math.sqrt(len(s["x"])) * abs(xi(s)) / math.sqrt(0.4)))},
     _mix, need=2, expect=_nox, rtol=1e-6, **dict(_cc, n=(5, 21, 34, 60, 120, 240)))
_pos = lambda p, s: np.ptp(A(s)) > 1e-9 * np.abs(A(s)).max() and np.ptp(A(s, "y")) > 1e-9 * np.abs(A(s, "y")).max()
wm = lambda s, k: float((A(s, k) * A(s, "w")).sum() / A(s, "w").sum())
wc = lambda s, a, b: float((A(s, "w") * (A(s, a) - wm(s, a)) * (A(s, b) - wm(s, b))).sum() / A(s, "w").sum())
scalar("weighted_mean", lambda p: ps.weighted_mean("x", "w", is_normalized=p["nrm"]), lambda p, s: wm(s, "x") * (A(s, "w").sum() if p["nrm"] else 1), _par(nrm=lambda r: r.random() < 0.3), **_cc)
scalar("weighted_var", lambda p: ps.weighted_var("x", "w", freq_weights=p["f"]), lambda p, s: wc(s, "x", "x") * (A(s, "w").sum() / (A(s, "w").sum() - 1) if p["f"] else 1), _par(f=lambda r: r.random() < 0.3), need=2, rtol=1e-7,
       expect=lambda p, s: abs(A(s, "w").sum() - 1) > 0.01, **_cc)
scalar("weighted_cov", lambda p: ps.weighted_cov("x", "y", "w"), lambda p, s: wc(s, "x", "y"), _mix, need=2, rtol=1e-6, atol=1e-6, **_cc)
scalar("weighted_corr", lambda p: ps.weighted_corr("x", "y", "w"), lambda p, s: wc(s, "x", "y") / math.sqrt(wc(s, "x", "x") * wc(s, "y", "y")), _mix, need=3, rtol=1e-6, atol=1e-7, expect=_pos, **_cc)
scalar("cosine_sim", lambda p: ps.cosine_sim("x", "y"), lambda p, s: float(A(s) @ A(s, "y") / math.sqrt((A(s) @ A(s)) * (A(s, "y") @ A(s, "y")))), _mix, **_cc)
scalar("weighted_cosine_sim", lambda p: ps.weighted_cosine_sim("x", "y", "w"), lambda p, s: float((A(s, "w") * A(s) * A(s, "y")).sum() / math.sqrt((A(s, "w") * A(s) ** 2).sum() * (A(s, "w") * A(s, "y") ** 2).sum())), _mix, **_cc)
scalar("corr", lambda p: ps.corr("x", "y", method=p["m"]), lambda p, s: float((st.pearsonr if p["m"] == "pearson" else st.spearmanr)(A(s), A(s, "y"))[0]), _par(m=lambda r: r.choice(["pearson", "spearman"])), need=3, rtol=1e-6, atol=1e-7, expect=_pos, **_cc)
_up = dict(_cc, kinds=[["uniform", 0.1, 9.0], ["uniform", 50, 60]])
scalar("hmean", lambda p: ps.hmean("x"), lambda p, s: float(st.hmean(A(s))), **_up)
scalar("gmean", lambda p: ps.gmean("x"), lambda p, s: float(st.gmean(A(s))), **_up)
scalar("weighted_hmean", lambda p: ps.weighted_hmean("x", "w"), lambda p, s: float(A(s, "w").sum() / (A(s, "w") / A(s)).sum()), **_up)
scalar("weighted_gmean", lambda p: ps.weighted_gmean("x", "w"), lambda p, s: float(np.exp((A(s, "w") * np.log(A(s))).sum() / A(s, "w").sum())), **_up)
scalar("is_monotone", lambda p: getattr(pn, "is_" + p["dir"])("x", strict=p["st"]), lambda p, s: all({"increasing": lambda d: d > 0 if p["st"] else d >= 0, "decreasing": lambda d: d < 0 if p["st"] else d <= 0}[p["dir"]](d) for d in np.diff(A(s))),
       lambda rng: {"dir": rng.choice(["increasing", "decreasing"]), "st": rng.random() < 0.5}, kinds=[["const", 1.0], ["grid", 2], ["normal"], ["walk"]], n=(1, 2, 3, 5))


# ---------------------------------------------------------------- one value per row
def rows(name, expr, ref, params=None, expect=None, rtol=1e-9, atol=1e-11, **kw):
    define("stat." + name, expr=expr, ref=lambda p, s: quiet(ref)(p, s), params=params, expect=expect, rtol=rtol, atol=atol, **kw)


def each(f):
    return lambda p, s: [None if v is None else float(f(v)) for v in s["x"]]


def flt(p):
    v = with_nulls(col(p["s"], p["n"], p["kind"]), p["s"], p["nulls"])
    r = np.random.default_rng(p["s"])
    if p.get("edge"):
        v = [p["edge"][int(r.integers(0, len(p["edge"])))] if r.random() < 0.15 else a for a in v]
    return {"x": v}


_row = dict(columns=flt, schema={"x": F}, kinds=CONT[:5] + [["uniform", -0.2, 1.2], ["uniform", -170, 170]], nulls=(0, 0, 0.15), n=(1, 2, 5, 13, 40, 120))
_edge = lambda *e: (lambda rng: {"edge": list(e)})
_E = (0.0, -0.0, 1.0, -1.0, NAN, math.inf, -math.inf, 1e300, -1e300, 1e-300, 0.5, 2.0)
rows("expit", lambda p: pn.expit("x"), each(sp.expit), _edge(*_E), **_row)
rows("logit", lambda p: pn.logit("x"), each(sp.logit), _edge(*_E), **_row)
rows("exp2", lambda p: pn.exp2("x"), each(sp.exp2), _edge(*_E), **_row)
rows("gamma", lambda p: pn.gamma("x"), each(lambda v: sp.gamma(v) if v == v and abs(v) != math.inf else NAN if v != v or v < 0 else math.inf), _edge(NAN, math.inf, 1.0, 2.0, 5.0, 170.0, 0.5, 1e-300), rtol=1e-8,
     expect=lambda p, cols, g: None, **dict(_row, kinds=[["uniform", 0.05, 20], ["uniform", -20, 20], ["uniform", 100, 171], ["uniform", 0.0, 0.01]]))
rows("digamma", lambda p: pn.digamma("x"), each(lambda v: sp.psi(v)), None, rtol=1e-6, atol=1e-8, **dict(_row, kinds=[["uniform", 0.05, 20], ["uniform", 20, 5000], ["uniform", 0.001, 0.1]]))
rows("fract", lambda p: pn.fract("x"), each(lambda v: v - np.trunc(v)), _edge(0.0, -0.0, 1.0, NAN, 2.5, -2.5), **_row)
rows("trunc", lambda p: pn.trunc("x"), each(np.trunc), _edge(*_E), **_row)
rows("sinc", lambda p: pn.sinc("x"), each(np.sinc), _edge(0.0, 1.0, -1.0, 0.5, 1e-9), rtol=1e-7, atol=1e-13, **dict(_row, kinds=[["normal"], ["uniform", -5, 5], ["uniform", -1e-3, 1e-3]]))
rows("next_up", lambda p: pn.next_up("x"), each(lambda v: np.nextafter(v, np.inf)), _edge(0.0, -0.0, NAN, math.inf, 1.0, -1.0, 5e-324, 1.7976931348623157e308), rtol=0, atol=0, **_row)
rows("next_down", lambda p: pn.next_down("x"), each(lambda v: np.nextafter(v, -np.inf)), _edge(0.0, -0.0, NAN, -math.inf, 1.0, -1.0, 5e-324, -1.7976931348623157e308), rtol=0, atol=0, **_row)
rows("center", lambda p: pn.center("x"), lambda p, s: list(A(s) - A(s).mean()), None, rtol=1e-7, atol=1e-8, **dict(_row, nulls=(0,)))
rows("z_normalize", lambda p: pn.z_normalize("x"), lambda p, s: list((A(s) - A(s).mean()) / A(s).std(ddof=1)), None, expect=lambda p, cols, g: "skip" if any(len(i) < 3 for i in g) else None, rtol=1e-7, atol=1e-8,
     **dict(_row, nulls=(0,), kinds=[["normal"], ["uniform", -5, 5]]))
rows("softmax", lambda p: pn.softmax("x"), lambda p, s: list(sp.softmax(A(s))), None, **dict(_row, nulls=(0,), kinds=[["normal"], ["uniform", -5, 5]]))
rows("detrend_mean", lambda p: pn.detrend("x", method="mean"), lambda p, s: [None if v is None else v - np.nanmean(A(s)) for v in s["x"]], None, rtol=1e-7, atol=1e-8, **_row)


def detrended(p, s):
    i = np.array([k for k, v in enumerate(s["x"]) if v is not None])
    y = np.array([s["x"][k] for k in i])
    if len(i) < 2:
        return None
    b, a = np.polyfit(i, y, 1)
    return [None if v is None else v - a - b * k for k, v in enumerate(s["x"])]


def _cd(p, s, got):
    w = quiet(detrended)(p, s)
    return None if w is None else diff(got, w, 1e-6, 1e-6 * (1 + max(abs(v) for v in s["x"] if v is not None)))


define("stat.detrend", expr=lambda p: pn.detrend("x"), ref=None, compare=_cd, **dict(_row, nulls=(0, 0.2, 0.6), n=(3, 5, 13, 40, 120)))


def ints(p):
    r = np.random.default_rng(p["s"])
    hi = p["hi"]
    nul = lambda v: [None if r.random() < p["nulls"] else a for a in v]
    return {"i": nul([int(v) for v in r.integers(-hi if p["neg"] else 0, hi, p["n"])]), "j": nul([int(v) for v in r.integers(0, hi, p["n"])])}


_int = dict(columns=ints, schema={"i": pl.Int64, "j": pl.Int64}, nulls=(0, 0.15), n=(1, 2, 5, 20, 60))
_ip = lambda rng: {"hi": rng.choice([2, 12, 60, 40000]), "neg": rng.random() < 0.4, "y": rng.choice(["j", "j", 12, 7, 1, 0])}


def _g(f):
    return lambda p, s: [None if a is None or b is None else int(f(a, b)) for a, b in zip(s["i"], s["j"] if p["y"] == "j" else [p["y"]] * len(s["i"]))]


rows("gcd", lambda p: pn.gcd("i", p["y"]), _g(math.gcd), _ip, **_int)
rows("lcm", lambda p: pn.lcm("i", p["y"]), _g(math.lcm), _ip, expect=lambda p, cols, g: "skip" if p["hi"] > 40000 else None, **_int)


def geo(p):
    r = np.random.default_rng(p["s"])
    n = p["n"]
    d = {"a": r.uniform(-90, 90, n), "b": r.uniform(-180, 180, n), "c": r.uniform(-90, 90, n), "e": r.uniform(-180, 180, n)}
    if p["near"]:
        d["c"], d["e"] = d["a"] + r.normal(0, 0.01, n), d["b"] + r.normal(0, 0.01, n)
    return {k: [None if r.random() < p["nulls"] else float(x) for x in v] for k, v in d.items()}


def hav(a, b, c, e):
    a, b, c, e = map(math.radians, (a, b, c, e))
    h = math.sin((a - c) / 2) ** 2 + math.cos(a) * math.cos(c) * math.sin((b - e) / 2) ** 2
    return 2 * 6371.0 * math.asin(min(1.0, math.sqrt(h)))


rows("haversine", lambda p: pn.haversine("a", "b", "c" if p["col"] else 10.0, "e" if p["col"] else -20.0),
     lambda p, s: [None if None in (a, b) or (p["col"] and None in (c, e)) else hav(a, b, c if p["col"] else 10.0, e if p["col"] else -20.0) for a, b, c, e in zip(s["a"], s["b"], s["c"], s["e"])],
     lambda rng: {"near": rng.random() < 0.3, "col": rng.random() < 0.7}, columns=geo, schema={k: F for k in "abce"}, nulls=(0, 0.15), n=(1, 2, 5, 20, 60), rtol=1e-4, atol=1e-3)


def xly(p):
    r = np.random.default_rng(p["s"])
    pick = lambda v: [0.0 if r.random() < 0.2 else a for a in v]
    nul = lambda v: [None if r.random() < p["nulls"] else a for a in v]
    return {"x": nul(pick(col(p["s"], p["n"], p["kind"]))), "y": nul(pick(col(p["s"] + 1, p["n"], ["uniform", -0.3, 4])))}


rows("xlogy", lambda p: pn.xlogy("x", "y"), lambda p, s: [None if a is None or b is None else float(sp.xlogy(a, b)) for a, b in zip(s["x"], s["y"])], None, columns=xly, schema={"x": F, "y": F}, nulls=(0, 0.15), n=(1, 2, 5, 20, 60))


def horiz(p):
    return {k: with_nulls(col(p["s"] + i, p["n"], p["kind"]), p["s"] + i, p["nulls"]) for i, k in enumerate("abc")}


for _f, _r in (("l1", lambda v: np.abs(v).sum()), ("l2_sq", lambda v: (v ** 2).sum()), ("l_inf", lambda v: np.abs(v).max())):
    rows(_f + "_horizontal", lambda p, _f=_f: getattr(pn, _f + "_horizontal")("a", "b", "c", normalize=p["nrm"]), lambda p, s, _r=_r: [float(_r(np.array(v)) / (3 if p["nrm"] else 1)) for v in zip(s["a"], s["b"], s["c"])],
         lambda rng: {"nrm": rng.random() < 0.5}, columns=horiz, schema={k: F for k in "abc"}, n=(1, 2, 5, 20, 60), rtol=1e-8)


def wins(p, s, got):
    a = A(s)
    lo, hi = (np.quantile(a, q, method={"nearest": "nearest", "lower": "lower", "higher": "higher", "midpoint": "midpoint", "linear": "linear"}[p["m"]]) for q in (p["lo"], p["hi"]))
    if p["m"] == "nearest" and any(abs((len(a) - 1) * q % 1 - 0.5) < 1e-9 for q in (p["lo"], p["hi"])):
        return None  # a tie between two ranks
    if any(abs((len(a) - 1) * q % 1) < 1e-9 or abs((len(a) - 1) * q % 1 - 1) < 1e-9 for q in (p["lo"], p["hi"])):
        return None  # on a rank up to rounding
    return diff(got, list(np.clip(a, lo, hi)), 1e-9, 1e-9)


define("stat.winsorize", expr=lambda p: ps.winsorize("x", p["lo"], p["hi"], method=p["m"]), ref=None, compare=wins, params=lambda rng: {"lo": rng.choice([0.05, 0.1, 0.33]), "hi": rng.choice([0.95, 0.9, 0.61]), "m": rng.choice(["nearest", "lower", "higher", "midpoint", "linear"])}, n=(2, 5, 13, 40, 120))


# ---------------------------------------------------------------- matrices
def mat(p):
    k = p["k"]
    return {f"x{i}": col(p["s"] + i, p["n"], p["kinds"][i % len(p["kinds"])]) for i in range(k)}


_mp = lambda rng: {"k": rng.choice([2, 3, 5]), "kinds": rng.sample([["normal"], ["uniform", -5, 5], ["normal", 10, 2], ["walk"]], 3), "c": rng.random() < 0.6, "ev": rng.random() < 0.4, "ra": rng.random() < 0.4}


def svals(p, s):
    M = np.array([s[f"x{i}"] for i in range(p["k"])]).T
    if p["c"]:
        M = M - M.mean(0)
    v = np.linalg.svd(M, compute_uv=False)
    if p["ev"]:
        v = v ** 2 / (len(M) - 1)
    if p["ra"]:
        v = v / v.sum()
    return [float(a) for a in v]


def _cs(p, s, got):
    if not len(got) or got[0] is None:
        return f"{list(got)!r} for {p['k']} columns"
    w = svals(p, s)
    return diff(list(got[0]), w, 1e-6, 1e-7 * (1 + max(w)))


define("stat.singular_values", expr=lambda p: pn.singular_values(*[f"x{i}" for i in range(p["k"])], center=p["c"], as_explained_var=p["ev"], as_ratio=p["ra"]), ref=None, compare=_cs, params=_mp, reduce_=True, columns=mat, allow=LISTY,
       expect=lambda p, cols, g: "skip" if any(len(i) < 2 for i in g) else None, n=(3, 5, 8, 13, 21, 34, 60, 120))


def _cp(p, s, got):
    M = np.array([s[f"x{i}"] for i in range(p["k"])]).T
    if p["c"]:
        M = M - M.mean(0)
    U, S, V = np.linalg.svd(M, full_matrices=False)
    if len(got) != len(M):
        return f"{len(got)} rows instead of {len(M)}"
    q = p["q"]
    gap = np.min(np.abs(np.diff(np.append(S, 0)))[:q]) / S[0]
    if gap < 1e-3:
        return None
    G = np.array([[r[f"pc{i + 1}"] for i in range(p["q"])] for r in got])
    W = (U * S)[:, : p["q"]]
    for i in range(p["q"]):
        e = min(np.abs(G[:, i] - W[:, i]).max(), np.abs(G[:, i] + W[:, i]).max())
        if not e < 1e-6 * S[0]:
            return f"component {i + 1} is off by {e:.2e}: {G[:3, i].tolist()} instead of +-{W[:3, i].tolist()}"
    return None


define("stat.principal_components", expr=lambda p: pn.principal_components(*[f"x{i}" for i in range(p["k"])], k=p["q"], center=p["c"]), ref=None, compare=_cp, params=lambda rng: dict(_mp(rng), q=rng.choice([1, 2])), columns=mat, allow=LISTY,
       expect=lambda p, cols, g: "skip" if any(len(i) < 3 for i in g) else None, n=(3, 5, 8, 13, 21, 34, 60, 120))


def _ca(p, s, got):
    M = np.array([s[f"x{i}"] for i in range(p["k"])]).T
    if p["c"]:
        M = M - M.mean(0)
    _, S, V = np.linalg.svd(M, full_matrices=False)
    if len(got) != len(S):
        return f"{len(got)} components instead of {len(S)}"
    gap = np.min(np.abs(np.diff(np.append(S, 0)))) / S[0]
    for i, r in enumerate(got):
        if not close(r["singular_value"], S[i], 1e-7, 1e-7 * S[0]):
            return f"singular value {i} {r['singular_value']!r} instead of {S[i]!r}"
        w = np.array(r["weight_vector"])
        if gap > 1e-3 and not min(np.abs(w - V[i]).max(), np.abs(w + V[i]).max()) < 1e-5:
            return f"weights {i} {w.tolist()} instead of +-{V[i].tolist()}"
    return None


define("stat.pca", expr=lambda p: pn.pca(*[f"x{i}" for i in range(p["k"])], center=p["c"]), ref=None, compare=_ca, params=_mp, columns=mat, allow=LISTY,
       expect=lambda p, cols, g: "skip" if any(len(i) < 2 for i in g) else None, n=(3, 5, 8, 13, 21, 34, 60, 120))


# ---------------------------------------------------------------- combinatorics, lists
def _comb(p, s):
    import itertools
    u = [v for v in s["j"] if v is not None]
    if p["u"]:
        u = sorted(set(u))
    return [list(c) for c in itertools.combinations(u, p["k"])]


def _cc2(p, s, got):
    w = _comb(p, s)
    g = [None if v is None else list(v) for v in got]
    if p["u"]:
        g, w = sorted(tuple(sorted(v)) for v in g), sorted(tuple(sorted(v)) for v in w)
    return None if [list(v) for v in g] == [list(v) for v in w] else f"{g[:4]}... ({len(g)}) instead of {w[:4]}... ({len(w)})"


define("stat.combinations", expr=lambda p: pi.combinations("j", p["k"], unique=p["u"]), ref=None, compare=_cc2, params=lambda rng: {"k": rng.choice([1, 2, 3]), "u": rng.random() < 0.5, "hi": 9, "neg": False}, columns=ints, schema={"i": pl.Int64, "j": pl.Int64},
       expect=lambda p, cols, g: "skip" if any(len((set if p["u"] else list)(cols["j"][a] for a in i if cols["j"][a] is not None)) < p["k"] for i in g) else None, allow=LISTY, n=(3, 5, 8, 13), nulls=(0, 0.15))
define("stat.product", expr=lambda p: pi.product("i", "j"), ref=None, compare=lambda p, s, got: None if [list(v) for v in got] == [[a, b] for a in s["i"] if a is not None for b in s["j"] if b is not None] else f"{[list(v) for v in got][:4]} is not the product of {s['i'][:4]} and {s['j'][:4]}",
       params=lambda rng: {"hi": 9, "neg": True}, columns=ints, schema={"i": pl.Int64, "j": pl.Int64}, allow=LISTY, n=(1, 2, 5, 8), nulls=(0, 0.15),
       expect=lambda p, cols, g: "skip" if any(all(cols[c][a] is None for a in i) for i in g for c in "ij") else None)


def lists(p):
    r = np.random.default_rng(p["s"])
    return {"l": [None if r.random() < p["nulls"] else [float(v) for v in r.normal(0, 1, int(r.integers(0 if p["e"] else 1, 6)))] for _ in range(p["n"])]}


rows("list_amax", lambda p: pn.list_amax("l"), lambda p, s: [None if v is None else [int(np.argmax(v)) if v else None] for v in s["l"]], lambda rng: {"e": rng.random() < 0.5}, columns=lists, schema={"l": pl.List(F)}, nulls=(0, 0.2), n=(1, 2, 5, 20, 60))
