"""Time-series, window and whole-series features against a direct sequential computation."""
import math

import numpy as np
import polars as pl
import polars_ds as pds

from common import CONT, LISTY, TIED, close, col, define, diff, with_nulls

NAN = float("nan")


def A(sub, k="x"):
    return np.array([NAN if v is None else v for v in sub[k]], dtype=float)


def div(a, b):
    with np.errstate(all="ignore"):
        return float(np.float64(a) / np.float64(b))


# ---------------------------------------------------------------- convolution
def conv_ref(p, sub):
    x = np.array([p["fill"] if v is None else v for v in sub["x"]], float)
    k = np.array(p["k"])
    m, n = len(k), len(x)
    full = np.convolve(x, k)
    if p["mode"] == "full":
        return full.tolist()
    if p["mode"] == "same":
        s = (m - 1) // 2
        return full[s:s + n].tolist()
    if p["mode"] == "left":
        return full[:n].tolist()
    if p["mode"] == "right":
        return full[m - 1:].tolist()
    return full[m - 1:n].tolist()


define(
    "ts.convolve",
    params=lambda rng: {
        "k": [round(rng.uniform(-2, 2), 2) for _ in range(rng.choice([2, 3, 4, 7, 16, 33]))], "mode": rng.choice(["full", "same", "left", "right", "valid"]),
        "method": rng.choice(["direct", "direct", "fft"]), "par": rng.choice([True, True, False]), "fill": rng.choice([0.0, 1.5]),
    },
    nulls=(0, 0, 0.2),
    expr=lambda p: pds.convolve("x", p["k"], fill_value=p["fill"], method=p["method"], mode=p["mode"], parallel=p["par"]),
    ref=conv_ref, allow=LISTY,
    expect=lambda p, cols, groups: "must" if any(len(g) < len(p["k"]) for g in groups) else None,
)


# ---------------------------------------------------------------- streaks
def rle(b):
    out = []
    for v in b:
        if out and out[-1][1] == v:
            out[-1][0] += 1
        else:
            out.append([1, v])
    return out


def _bools(p):
    return {"b": with_nulls(col(p["s"], p["n"], ["bool", p["pt"]]), p["s"], p["nulls"])}


_b = dict(columns=_bools, schema={"b": pl.Boolean}, params=lambda rng: {"pt": rng.choice([0.0, 0.3, 0.5, 0.9, 1.0])}, nulls=(0, 0, 0.2))
define("ts.longest_streak", expr=lambda p: pds.query_longest_streak("b"), ref=lambda p, s: max([c for c, v in rle(s["b"]) if v], default=0), reduce_=True, **_b)


def _avg(s):
    r = [c for c, v in rle(s["b"]) if v]
    return sum(r) / len(r) if r else 0


define("ts.avg_streak", expr=lambda p: pds.query_avg_streak("b"), ref=lambda p, s: _avg(s), reduce_=True, **_b)
define("ts.streak", expr=lambda p: pds.query_streak("b"), ref=lambda p, s: [c for c, v in rle(s["b"])], allow=LISTY, **_b)


def lz(bits):
    seen, i, k = set(), 0, 1
    while i + k <= len(bits):
        w = tuple(bits[i:i + k])
        if w in seen:
            k += 1
        else:
            seen.add(w)
            i += k
            k = 1
    return len(seen)


def _lzp(rng):
    return {"pt": rng.choice([0.0, 0.3, 0.5, 0.9]), "ratio": rng.choice([True, False])}


define("ts.lempel_ziv", columns=_bools, schema={"b": pl.Boolean}, params=_lzp, nulls=(0, 0.2), reduce_=True,
       expr=lambda p: pds.query_lempel_ziv("b", as_ratio=p["ratio"]),
       ref=lambda p, s: lz([bool(b) for b in s["b"]]) / (len(s["b"]) if p["ratio"] else 1))


# ---------------------------------------------------------------- similar subsequences
def sim_windows(p, x):
    q = np.array(p["q"])
    m = len(q)
    w = np.lib.stride_tricks.sliding_window_view(x, m)
    if p["metric"] == "sqzl2":
        q = (q - q.mean()) / q.std(ddof=1)
        mu = w.mean(1, keepdims=True)
        var = np.maximum(w.var(1, ddof=1, keepdims=True), 1e-10)
        w = (w - mu) / np.sqrt(var)
    return ((w - q) ** 2).sum(1)


def sim_cmp(p, sub, got):
    x = A(sub)
    d = sim_windows(p, x)
    th = p["th"]
    # windows whose distance equals the threshold up to rounding may count or not
    lo, hi = int((d < th * (1 - 1e-7) - 1e-9).sum()), int((d < th * (1 + 1e-7) + 1e-9).sum())
    tot = len(x) - len(p["q"]) + 1
    if len(got) != 1 or got[0] is None:
        return f"{got} instead of one count"
    v = got[0] * tot if p["ratio"] else got[0]
    if not (lo - 1e-6 <= v <= hi + 1e-6) or abs(v - round(v)) > 1e-6:
        return f"{v} similar windows instead of {lo}..{hi} (of {tot})"
    return None


def _simp(rng):
    m = rng.choice([2, 3, 5, 8, 15, 16, 17, 20])
    metric = rng.choice(["sql2", "sqzl2"])
    return {"q": [round(rng.uniform(-2, 2), 3) for _ in range(m)], "metric": metric,
            "th": rng.choice([0.5, 2.0, 8.0, 20.0, 60.0]), "par": rng.choice([True, True, False]), "ratio": rng.choice([True, False, False])}


define("ts.similar_count", params=_simp, n=(13, 21, 25, 34, 60, 90, 140), kinds=[["normal"], ["uniform", -3, 3], ["sin", 0.7], ["grid", 5]],
       expr=lambda p: pds.query_similar_count(p["q"], "x", threshold=p["th"], metric=p["metric"], parallel=p["par"], return_ratio=p["ratio"]),
       ref=None, compare=sim_cmp, reduce_=True,
       expect=lambda p, cols, groups: "skip" if any(len(g) < len(p["q"]) for g in groups) else None)


# ---------------------------------------------------------------- simple statistics
def stat(name, expr, ref, params=None, **kw):
    kw.setdefault("reduce_", True)
    define("ts." + name, expr=expr, ref=ref, params=params, **kw)


stat("mid_range", lambda p: pds.query_mid_range("x"), lambda p, s: (max(s["x"]) - min(s["x"])) / 2)
stat("symm_ratio", lambda p: pds.query_symm_ratio("x"), lambda p, s: div(abs(A(s).mean() - np.median(A(s))), A(s).max() - A(s).min()), atol=1e-12)
stat("abs_energy", lambda p: pds.query_abs_energy("x"), lambda p, s: float((A(s) ** 2).sum()))
stat("mean_abs_change", lambda p: pds.query_mean_abs_change("x"), lambda p, s: float(np.abs(np.diff(A(s))).mean()) if len(s["x"]) > 1 else None)
stat("mean_n_abs_max", lambda p: pds.query_mean_n_abs_max("x", p["m"]), lambda p, s: float(np.sort(np.abs(A(s)))[::-1][:p["m"]].mean()) if s["x"] else None, lambda rng: {"m": rng.choice([1, 2, 7, 30])})
stat("cv", lambda p: pds.query_cv("x", ddof=p["ddof"]), lambda p, s: div(A(s).std(ddof=p["ddof"]), A(s).mean()) if len(s["x"]) > p["ddof"] else None,
     lambda rng: {"ddof": rng.choice([0, 1])}, rtol=1e-6)
stat("count_uniques", lambda p: pds.query_count_uniques("x"), lambda p, s: sum(1 for v in s["x"] if s["x"].count(v) == 1), kinds=[["grid", 8], ["grid", 40]])
stat("range_count", lambda p: pds.query_range_count("x", p["lo"], p["lo"] + 2), lambda p, s: int(((A(s) >= p["lo"]) & (A(s) <= p["lo"] + 2)).sum()), lambda rng: {"lo": rng.choice([-1.0, 0.0, 3.0])}, kinds=[["normal"], ["grid", 8]])
stat("c3", lambda p: pds.query_c3_stats("x", p["lag"]), lambda p, s: div((A(s)[2 * p["lag"]:] * A(s)[p["lag"]:-p["lag"]] * A(s)[:-2 * p["lag"]]).sum(), len(s["x"]) - 2 * p["lag"]),
     lambda rng: {"lag": rng.choice([1, 2])}, n=(60, 80, 120), rtol=1e-7,
     expect=lambda p, cols, groups: "skip" if any(len(g) <= 2 * p["lag"] for g in groups) else None)


def _cid(p, s):
    x = A(s)
    if p["norm"]:
        x = (x - x.mean()) / x.std(ddof=1)
    return float(np.sqrt((np.diff(x) ** 2).sum()))


stat("cid_ce", lambda p: pds.query_cid_ce("x", normalize=p["norm"]), _cid, lambda rng: {"norm": rng.choice([True, False])}, n=(30, 60, 120), rtol=1e-7,
     expect=lambda p, cols, groups: "skip" if any(len(g) <= 1 for g in groups) else None)


def _tra(p, s):
    x, k = A(s), p["lag"]
    a, b, c = x[:-2 * k], x[k:-k], x[2 * k:]
    return float((b * (c + a) * (c - a)).mean()) if len(a) else None


stat("time_reversal", lambda p: pds.query_time_reversal_asymmetry_stats("x", p["lag"]), _tra, lambda rng: {"lag": rng.choice([1, 2, 3])}, rtol=1e-7, atol=1e-7)


def _ac(p, s):
    x, k, n = A(s), p["lag"], len(s["x"])
    if not p["norm"]:
        return float((x[:n - k] * x[k:]).mean()) if n > k else None
    c = x - x.mean()
    return div((c[:n - k] * c[k:]).sum(), (n - k) * x.var())


stat("auto_corr", lambda p: pds.query_auto_corr("x", p["lag"], normalize=p["norm"]), _ac, lambda rng: {"lag": rng.choice([1, 2, 3]), "norm": rng.choice([True, False])},
     n=(30, 60, 120), rtol=1e-7, atol=1e-8, expect=lambda p, cols, groups: "skip" if any(len(g) <= p["lag"] + 1 for g in groups) else None)


def _ar(p, s):
    x, L = A(s), p["lag"]
    X = np.column_stack([x[L - i:len(x) - i] for i in range(1, L + 1)] + ([np.ones(len(x) - L)] if p["bias"] else []))
    return np.linalg.lstsq(X, x[L:], rcond=None)[0].tolist()


stat("ar_coeffs", lambda p: pds.query_ar_coeffs("x", p["lag"], add_bias=p["bias"]), _ar, lambda rng: {"lag": rng.choice([1, 2, 3]), "bias": rng.choice([True, False])},
     n=(60, 120), kinds=[["normal"], ["walk"]], rtol=1e-5, atol=1e-6, expect=lambda p, cols, groups: "skip" if any(len(g) < 3 * p["lag"] + 4 for g in groups) else None)


def ent(counts, base=math.e, norm=True):
    c = np.array(list(counts), float)
    q = c / c.sum()
    return float(-(q * np.log(q)).sum() / math.log(base))


def counts(v):
    d = {}
    for x in v:
        d[x] = d.get(x, 0) + 1
    return d


stat("entropy", lambda p: pds.query_entropy("x", base=p["base"]), lambda p, s: ent(counts(s["x"]).values(), p["base"]), lambda rng: {"base": rng.choice([math.e, 2.0])}, kinds=TIED)


def _ce(p, s):
    xy, y, n = counts(zip(s["x"], s["y"])), counts(s["y"]), len(s["x"])
    return float(-sum(c / n * math.log(c / y[k[1]]) for k, c in xy.items()))


stat("cond_entropy", lambda p: pds.query_cond_entropy("x", "y"), _ce, columns=lambda p: {"x": col(p["s"], p["n"], ["int", 0, 4]), "y": col(p["s"] + 1, p["n"], ["int", 0, 3])},
     schema={"x": pl.Int64, "y": pl.Int64})


def _perm(p, s):
    x, d = A(s), p["dims"]
    return ent(counts(tuple(np.argsort(x[i:i + d]).tolist()) for i in range(len(x) - d + 1)).values(), p["base"])


stat("permute_entropy", lambda p: pds.query_permute_entropy("x", n_dims=p["dims"], base=p["base"]), _perm, lambda rng: {"dims": rng.choice([2, 3, 4]), "base": rng.choice([math.e, 2.0])},
     n=(30, 60, 120), kinds=CONT[:4], expect=lambda p, cols, groups: "skip" if any(len(g) < p["dims"] for g in groups) else None)


# ---------------------------------------------------------------- template-matching entropies
def _templates(x, m):
    n = len(x) - m + 1
    return np.array([x[i:i + m] for i in range(n)]).reshape(max(n, 0), m)


def _cheb(T):
    return np.abs(T[:, None, :] - T[None, :, :]).max(-1) if len(T) else np.zeros((0, 0))


def sampen_cmp(p, sub, got):
    x, m = A(sub), p["m"]
    r = p["ratio"] * x.std()
    if len(got) != 1 or got[0] is None:
        return f"{got} instead of one number"
    if len(x) < 2 * m or not r > 0:
        return None if math.isnan(got[0]) else f"{got[0]} instead of NaN for {len(x)} rows"
    B, Am = _cheb(_templates(x, m)), _cheb(_templates(x, m + 1))
    if (np.abs(B - r) < 1e-9 * r).any() or (np.abs(Am - r) < 1e-9 * r).any():
        return None
    b, a = (B <= r).sum() - len(B), (Am <= r).sum() - len(Am)
    w = float(np.log(np.float64(b) / np.float64(a)))
    return None if close(got[0], w, 1e-9, 1e-9) else f"{got[0]} instead of {w} (B={b} A={a})"


stat("sample_entropy", lambda p: pds.query_sample_entropy("x", ratio=p["ratio"], m=p["m"], parallel=p["par"]), None,
     lambda rng: {"ratio": rng.choice([0.2, 0.5, 1.0]), "m": rng.choice([2, 2, 3]), "par": rng.choice([True, True, False])}, n=(3, 8, 21, 40, 70, 110), kinds=CONT[:5] + [["const", 1.5]], compare=sampen_cmp)


def apen_cmp(p, sub, got):
    x, m = A(sub), p["m"]
    r = p["lv"] * (x.std(ddof=1) if p["scale"] and len(x) > 1 else (1.0 if not p["scale"] else 0.0))
    if len(got) != 1 or got[0] is None:
        return f"{got} instead of one number"
    if len(x) < 2 * m or not r > 0:
        return None if math.isnan(got[0]) else f"{got[0]} instead of NaN for {len(x)} rows"
    B, Am = _cheb(_templates(x, m)), _cheb(_templates(x, m + 1))
    if (np.abs(B - r) < 1e-9 * r).any() or (np.abs(Am - r) < 1e-9 * r).any():
        return None
    phi = [np.log((M <= r).sum(1) / len(M)).mean() for M in (B, Am)]
    w = float(abs(phi[0] - phi[1]))
    return None if close(got[0], w, 1e-8, 1e-9) else f"{got[0]} instead of {w}"


stat("approx_entropy", lambda p: pds.query_approx_entropy("x", m=p["m"], filtering_level=p["lv"], scale_by_std=p["scale"], parallel=p["par"]), None,
     lambda rng: {"lv": rng.choice([0.2, 0.5, 1.0]), "m": rng.choice([2, 2, 3]), "scale": rng.choice([True, True, False]), "par": rng.choice([True, True, False])},
     n=(1, 3, 8, 21, 40, 70, 110), kinds=CONT[:5] + [["const", 1.5]], compare=apen_cmp)


# ---------------------------------------------------------------- nearest-neighbour entropies
def digamma(n):
    return -0.5772156649015328606 + sum(1.0 / i for i in range(1, n))


def knn_ent(M, k, metric):
    n, d = M.shape
    if n <= k:
        return NAN
    D = np.abs(M[:, None, :] - M[None, :, :])
    D = np.sqrt((D * D).sum(-1)) if metric == "l2" else D.max(-1)
    e = np.sort(D, axis=1)[:, k]
    cd = math.pi ** (d / 2) / 2 ** d / math.gamma(1 + d / 2) if metric == "l2" else 1.0
    with np.errstate(all="ignore"):
        return float(digamma(n) - digamma(k) + math.log(cd) + d * np.log(2 * e).mean())


def copula(cols_, k):
    R = np.column_stack([(np.argsort(np.argsort(c)) + 1) / len(c) for c in cols_])
    return -knn_ent(R, k, "l2")


def cond_indep(x, y, z, k):
    return copula([x, y, z], k) - copula([y, z], k) - copula([x, z], k)


def _multi(p):
    return {f"x{j}": col(p["s"] + j, p["n"], ["normal"]) for j in range(p["dim"])}


_m = dict(columns=_multi, schema=lambda p: {f"x{j}": pl.Float64 for j in range(p["dim"])}, n=(2, 5, 9, 20, 34, 60, 90), rtol=1e-7, atol=1e-7)
_f = lambda p: [f"x{j}" for j in range(p["dim"])]
_V = lambda p, s: np.column_stack([A(s, f) for f in _f(p)])
_mp = lambda rng, d: {"dim": d, "k": rng.choice([1, 2, 3, 5]), "par": rng.choice([True, True, False]), "dist": rng.choice(["l2", "inf"])}
stat("knn_entropy", lambda p: pds.query_knn_entropy(*_f(p), k=p["k"], dist=p["dist"], parallel=p["par"]), lambda p, s: knn_ent(_V(p, s), p["k"], p["dist"]), lambda rng: _mp(rng, rng.choice([1, 2, 3])), **_m)
stat("copula_entropy", lambda p: pds.query_copula_entropy(*_f(p), k=p["k"], parallel=p["par"]), lambda p, s: copula([A(s, f) for f in _f(p)], p["k"]), lambda rng: _mp(rng, rng.choice([2, 3])), **_m)
stat("cond_indep", lambda p: pds.query_cond_indep(*_f(p), k=p["k"], parallel=p["par"]), lambda p, s: cond_indep(*[A(s, f) for f in _f(p)], p["k"]), lambda rng: _mp(rng, 3), **_m)


def _te(p, s):
    x, src, L = A(s, "x0"), A(s, "x1"), p["lag"]
    n = len(x)
    return cond_indep(x[L:], src[:n - L], x[:n - L], p["k"])


stat("transfer_entropy", lambda p: pds.query_transfer_entropy("x0", source="x1", lag=p["lag"], k=p["k"], parallel=p["par"]), _te,
     lambda rng: dict(_mp(rng, 2), lag=rng.choice([1, 2])), expect=lambda p, cols, groups: "skip" if any(len(g) <= p["lag"] for g in groups) else None, **_m)


# ---------------------------------------------------------------- FFT and friends
def _fft(p, s):
    x = A(s)
    n = p["nn"] or len(x)
    f = np.fft.fft(x, n) if p["full"] else np.fft.rfft(x, n)
    return [[float(c.real), float(c.imag)] for c in f]


define("ts.rfft", params=lambda rng: {"nn": rng.choice([None, None, 2, 7, 16, 50]), "full": rng.choice([True, False])}, n=(2, 3, 5, 8, 16, 21, 34, 60, 97),
       expr=lambda p: pds.rfft("x", n=p["nn"], return_full=p["full"]), ref=_fft, allow=LISTY, rtol=1e-8, atol=1e-7, kinds=[["normal"], ["sin", 0.7], ["grid", 5]],
       expect=lambda p, cols, groups: "skip" if any(len(g) < 1 for g in groups) else None)


def _detrend(p, s):
    x = A(s)
    if p["method"] == "mean":
        return (x - x.mean()).tolist()
    t = np.arange(len(x))
    b = np.polyfit(t, x, 1)
    return (x - np.polyval(b, t)).tolist()


define("ts.detrend", params=lambda rng: {"method": rng.choice(["linear", "mean"])}, n=(30, 60, 120), expr=lambda p: pds.detrend("x", method=p["method"]), ref=_detrend, rtol=1e-6, atol=1e-6, kinds=CONT[:2] + [["walk"]],
       expect=lambda p, cols, groups: "skip" if any(len(g) < 3 for g in groups) else None)


def _trapz(p, s):
    y = A(s)
    if p["t"] is None:
        t = np.array(s["t"])
        return float((0.5 * (y[1:] + y[:-1]) * np.diff(t)).sum())
    return float((0.5 * (y[1:] + y[:-1])).sum() * abs(p["t"]))


stat("trapz", lambda p: pds.integrate_trapz("x", pl.col("t") if p["t"] is None else p["t"]), _trapz, lambda rng: {"t": rng.choice([None, 0.5, -2.0])},
     columns=lambda p: {"x": col(p["s"], p["n"], p["kind"]), "t": col(p["s"] + 9, p["n"], ["walk"])}, schema={"x": pl.Float64, "t": pl.Float64},
     n=(30, 60, 120), rtol=1e-8, atol=1e-8, expect=lambda p, cols, groups: "skip" if any(len(g) < 2 for g in groups) else None)


def _benford(p, s):
    c = [0] * 9
    for v in s["x"]:
        d = next((int(ch) for ch in repr(abs(v)) if ch in "123456789"), 0)
        if d:
            c[d - 1] += 1
    return c


stat("benford", lambda p: pds.query_first_digit_cnt("x"), _benford, columns=lambda p: {"x": col(p["s"], p["n"], ["int", -3000, 3000] if p["int"] else ["heavy"])}, params=lambda rng: {"int": rng.choice([True, False])},
     schema=lambda p: {"x": pl.Int64 if p["int"] else pl.Float64})

for _n, _op in [("is_increasing", lambda d, st: d > 0 if st else d >= 0), ("is_decreasing", lambda d, st: d < 0 if st else d <= 0)]:
    stat(_n, lambda p, _n=_n: getattr(pds, _n)("x", strict=p["strict"]), lambda p, s, _op=_op: bool(_op(np.diff(A(s)), p["strict"]).all()), lambda rng: {"strict": rng.choice([True, False])},
         kinds=[["const", 1.0], ["grid", 2], ["walk"]], n=(1, 2, 3, 5, 12, 40))
