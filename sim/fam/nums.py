"""Encoders, drift and model metrics against their definitions."""
import math

import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.exprs import metrics as pm
from polars_ds.exprs import num as pn

from common import LISTY, Exc, Op, brief, close, col, define, diff, op, with_nulls

NAN = float("nan")
F = pl.Float64


def A(s, k="x"):
    return np.array([NAN if v is None else v for v in s[k]], dtype=float)


def d_(a, b):
    with np.errstate(all="ignore"):
        return float(np.float64(a) / np.float64(b))


def stat(name, expr, ref, params=None, **kw):
    kw.setdefault("reduce_", True)
    define("nums." + name, expr=expr, ref=ref, params=params, **kw)


# ---------------------------------------------------------------- regression losses
def _ap(p):
    lo = 0.5 if p.get("pos") else None
    a = col(p["s"], p["n"], ["uniform", 0.5, 9] if p.get("pos") else ["normal", 1, 3])
    b = [x + e for x, e in zip(a, col(p["s"] + 1, p["n"], ["uniform", -0.4, 0.4] if p.get("pos") else ["normal", 0, 1]))]
    return {"a": a, "p": b}


_l = dict(columns=_ap, schema={"a": F, "p": F}, n=(1, 2, 5, 9, 20, 60, 110), rtol=1e-7, atol=1e-8)
_pos = lambda rng: {"pos": True}
E_ = lambda s: A(s, "a") - A(s, "p")
_one = lambda p, cols, groups: "skip" if any(len(g) < 2 for g in groups) else None
_some = lambda p, cols, groups: "skip" if any(len(g) < 1 for g in groups) else None
stat("mad", lambda p: pds.query_mad("a", use_mean=p["m"]), lambda p, s: float(np.abs(A(s, "a") - A(s, "a").mean()).mean()) if p["m"] else float(np.median(np.abs(A(s, "a") - np.median(A(s, "a"))))),
     lambda rng: {"m": rng.choice([True, False])}, expect=_some, **_l)
_r2 = lambda s: 1 - (E_(s) ** 2).sum() / ((A(s, "a") - A(s, "a").mean()) ** 2).sum()
stat("r2", lambda p: pds.query_r2("a", "p"), lambda p, s: float(_r2(s)), expect=_one, **_l)
stat("adj_r2", lambda p: pds.query_adj_r2("a", "p", p=p["k"]), lambda p, s: float(1 - (E_(s) ** 2).sum() / (len(s["a"]) - p["k"]) / (((A(s, "a") - A(s, "a").mean()) ** 2).sum() / (len(s["a"]) - 1))),
     lambda rng: {"k": rng.choice([1, 2])}, expect=lambda p, cols, groups: "skip" if any(len(g) < 4 for g in groups) else None, **_l)
stat("log_cosh", lambda p: pds.query_log_cosh("a", "p", normalize=p["m"]), lambda p, s: float(np.log(np.cosh(E_(s))).sum() / (len(s["a"]) if p["m"] else 1)), lambda rng: {"m": rng.choice([True, False])}, expect=_some, **_l)
_h = lambda p, s: float(np.where(np.abs(E_(s)) <= p["dl"], 0.5 * E_(s) ** 2, p["dl"] * (np.abs(E_(s)) - 0.5 * p["dl"])).sum() / len(s["a"]))
stat("huber", lambda p: pds.query_hubor_loss("a", "p", delta=p["dl"]), _h, lambda rng: {"dl": rng.choice([0.3, 1.0, 5.0])}, expect=_some, **_l)
for _n, _f in [("l2", lambda s: (E_(s) ** 2).sum()), ("l1", lambda s: np.abs(E_(s)).sum())]:
    stat(_n, lambda p, _n=_n: getattr(pds, "query_" + _n)("a", "p", normalize=p["m"]), lambda p, s, _f=_f: float(_f(s) / (len(s["a"]) if p["m"] else 1)), lambda rng: {"m": rng.choice([True, False])}, expect=_some, **_l)
stat("l_inf", lambda p: pds.query_l_inf("a", "p"), lambda p, s: float(np.abs(E_(s)).max()), expect=_some, **_l)
stat("mape", lambda p: pds.query_mape("a", "p", weighted=p["w"]), lambda p, s: float(np.abs(E_(s)).sum() / np.abs(A(s, "a")).sum() if p["w"] else np.abs(E_(s) / A(s, "a")).mean()), lambda rng: {"pos": True, "w": rng.choice([True, False])}, expect=_some, **_l)
stat("smape", lambda p: pds.query_smape("a", "p"), lambda p, s: float((np.abs(E_(s)) / (np.abs(A(s, "a")) + np.abs(A(s, "p")))).sum() / len(s["a"])), expect=_some, **_l)
stat("msle", lambda p: pds.query_msle("a", "p", normalize=p["m"]), lambda p, s: float(((np.log1p(A(s, "a")) - np.log1p(A(s, "p"))) ** 2).sum() / (len(s["a"]) if p["m"] else 1)), lambda rng: {"pos": True, "m": rng.choice([True, False])}, expect=_some, **_l)


def _mase(p, s):
    f = np.mean if p["m"] else np.median
    a = A(s, "a")
    return d_(f(np.abs(E_(s))), f(np.abs(a[p["q"]:] - a[:-p["q"]])) if not p["tr"] else p["tr"])


stat("mase", lambda p: pds.query_mase("a", "p", train=p["tr"] or "a", freq=p["q"], use_mean=p["m"]), _mase, lambda rng: {"m": rng.choice([True, False]), "q": rng.choice([1, 2]), "tr": rng.choice([None, 2.0])},
     expect=lambda p, cols, groups: "skip" if any(len(g) < 4 for g in groups) else None, **_l)


# ---------------------------------------------------------------- classification
def _cls(p):
    r = np.random.default_rng(p["s"])
    n = p["n"]
    y = (r.random(n) < p["pp"]).astype(int)
    sc = np.clip(r.normal(0.5, 0.3, n) + (y - 0.5) * p["sep"], 0.001, 0.999)
    if p["ties"]:
        sc = np.round(sc * p["ties"]) / p["ties"]
    return {"y": [int(v) for v in y], "p": [float(v) for v in sc]}


_clsp = lambda rng, **k: dict({"pp": rng.choice([0.1, 0.5, 0.5, 0.9]), "sep": rng.choice([0.0, 0.3, -0.2]), "ties": rng.choice([0, 0, 2, 5, 12])}, **k)
_c = dict(columns=_cls, schema={"y": pl.Int32, "p": F}, n=(1, 2, 5, 9, 20, 40, 80, 120), rtol=1e-8, atol=1e-9, expect=_some)


def auc(y, p):
    pos, neg = p[y == 1], p[y == 0]
    if not len(pos) or not len(neg):
        return NAN
    return float(((pos[:, None] > neg[None, :]).sum() + 0.5 * (pos[:, None] == neg[None, :]).sum()) / (len(pos) * len(neg)))


def _yp(s):
    return np.array(s["y"], int), np.array(s["p"], float)


stat("roc_auc", lambda p: pds.query_roc_auc("y", "p"), lambda p, s: auc(*_yp(s)), lambda rng: _clsp(rng), **_c)
stat("gini", lambda p: pm.query_gini("y", "p"), lambda p, s: 2 * auc(*_yp(s)) - 1, lambda rng: _clsp(rng), **_c)


def _ll(p, s):
    y, q = _yp(s)
    v = -(y * np.log(q) + (1 - y) * np.log(1 - q))
    v = np.where((y == 0) & (q == 1), np.inf, v)
    return float(v.mean() if p["m"] else v.sum())


def _llc(p):
    c = _cls(p)
    c["p"] = [min(max(v, 0.001), 0.999) for v in c["p"]]
    return c


stat("log_loss", lambda p: pds.query_log_loss("y", "p", normalize=p["m"]), _ll, lambda rng: _clsp(rng, m=rng.choice([True, False])), **dict(_c, columns=_llc))


def struct_diff(got, want, tol=1e-8):
    if not isinstance(got, dict):
        return f"{got!r} instead of {want}"
    if set(got) != set(want):
        return f"fields {sorted(got)} instead of {sorted(want)}"
    for k, w in want.items():
        if not close(got[k], w, tol, 1e-9):
            return f"{k} is {got[k]} instead of {w}"
    return None


def _cm_cmp(p, s, got):
    y, q = np.array(s["y"], object), np.array(s["p"], object)
    ok = np.array([a is not None and b is not None for a, b in zip(y, q)], bool)
    y, q = y[ok].astype(int), q[ok].astype(float)
    pr = (q > p["th"]).astype(int)
    tp, tn, fp, fn = [float(x) for x in (((y == 1) & (pr == 1)).sum(), ((y == 0) & (pr == 0)).sum(), ((y == 0) & (pr == 1)).sum(), ((y == 1) & (pr == 0)).sum())]
    want = {"tn": tn, "fp": fp, "fn": fn, "tp": tp}
    if p["all"]:
        P, N = tp + fn, fp + tn
        tpr, fpr, prec, fom = d_(tp, P), d_(fp, N), d_(tp, tp + fp), d_(fn, fn + tn)
        fnr, tnr, npv, fdr = 1 - tpr, 1 - fpr, 1 - fom, 1 - prec
        plr, nlr = d_(tpr, fpr), d_(fnr, tnr)
        sq = lambda v: float(np.sqrt(v))
        want.update(tpr=tpr, fpr=fpr, precision=prec, false_omission_rate=fom, prevalence=d_(P, P + N), threat_score=d_(tp, tp + fn + fp), fnr=fnr, tnr=tnr, npv=npv, fdr=fdr,
                    plr=plr, nlr=nlr, informedness=tpr + tnr - 1, markedness=prec - fom, prevalence_threshold=d_(sq(tpr * fpr) - fpr, tpr - fpr), balanced_accuracy=(tpr + tnr) / 2,
                    f1=d_(2 * prec * tpr, prec + tpr), folkes_mallows_index=sq(prec * tpr), mcc=sq(tpr * tnr * prec * npv) - sq(fnr * fpr * fom * fdr), acc=d_(tp + tn, P + N), dor=d_(plr, nlr))
        inf = [k for k, v in want.items() if math.isinf(v)]
        for k in inf:  # division by zero: documented as NaN
            if got and isinstance(got[0], dict) and k in got[0]:
                if got[0][k] is None or math.isfinite(got[0][k]):
                    return f"{k} is {got[0][k]} where its denominator is 0"
                want[k] = got[0][k]
        if inf and isinstance(got[0], dict):
            want["dor"] = got[0].get("dor")
    return struct_diff(got[0], want, 1e-6) if len(got) == 1 else f"{len(got)} values"


def _clsn(p):
    c = _cls(p)
    if p["nl"]:
        c["y"] = with_nulls(c["y"], p["s"], 0.1)
        c["p"] = with_nulls(c["p"], p["s"] + 1, 0.1)
    return c


stat("confusion", lambda p: pds.query_confusion_matrix("y", "p", threshold=p["th"], all_metrics=p["all"]), None,
     lambda rng: _clsp(rng, th=rng.choice([0.3, 0.5, 0.8]), all=rng.choice([True, False]), nl=rng.choice([0, 0, 1])), compare=_cm_cmp, **dict(_c, columns=_clsn))


def _bm_cmp(p, s, got):
    y, q = _yp(s)
    n1 = y.sum()
    if len(got) != 1:
        return f"{len(got)} values"
    if n1 == 0:
        return struct_diff(got[0], dict.fromkeys(["precision", "recall", "f", "average_precision", "roc_auc"], NAN))
    sel = q >= p["th"]
    prec, rec = d_(y[sel].sum(), sel.sum()), y[sel].sum() / n1
    ap, r0 = 0.0, 0.0
    for t in sorted(set(q), reverse=True):
        m = q >= t
        r1 = y[m].sum() / n1
        ap += (r1 - r0) * y[m].mean()
        r0 = r1
    return struct_diff(got[0], {"precision": prec, "recall": float(rec), "f": d_(2 * prec * rec, prec + rec), "average_precision": float(ap), "roc_auc": auc(y, q)})


stat("binary_metrics", lambda p: pds.query_binary_metrics("y", "p", threshold=p["th"]), None, lambda rng: _clsp(rng, th=rng.choice([0.31, 0.52, 0.83])), compare=_bm_cmp, **_c)


def _tf_cmp(p, s, got):
    y, q = _yp(s)
    if y.sum() == 0:
        return None
    want = []
    for t in sorted(set(q)):
        m = q >= t
        want.append({"threshold": float(t), "tpr": d_(y[m].sum(), y.sum()), "fpr": d_((1 - y[m]).sum(), (1 - y).sum())})
    got = [g for g in got]
    if len(got) != len(want):
        return f"{len(got)} points instead of {len(want)}"
    for g, w in zip(got, want):
        e = struct_diff(g, w)
        if e:
            return e
    return None


define("nums.tpr_fpr", expr=lambda p: pds.query_tpr_fpr("y", "p"), ref=None, params=lambda rng: _clsp(rng), compare=_tf_cmp, allow=LISTY, **_c)


def _mcc(p, s):
    y, q = np.array(s["y"]), np.array(s["z"])
    n11, n10, n01, n00 = [float(((y == a) & (q == b)).sum()) for a, b in ((1, 1), (1, 0), (0, 1), (0, 0))]
    return d_(n11 * n00 - n10 * n01, math.sqrt((n11 + n10) * (n11 + n01) * (n01 + n00) * (n10 + n00)))


stat("mcc", lambda p: pds.query_mcc("y", "z"), _mcc, lambda rng: {"pp": rng.choice([0.3, 0.5])},
     columns=lambda p: {"y": [int(b) for b in col(p["s"], p["n"], ["bool", p["pp"]])], "z": [int(b) for b in col(p["s"] + 1, p["n"], ["bool", p["pp"]])]}, schema={"y": pl.UInt32, "z": pl.UInt32},
     n=(1, 5, 20, 60, 120), expect=_some)


def _multi(p):
    r = np.random.default_rng(p["s"])
    c = p["nc"]
    y = r.integers(0, c, p["n"])
    y[:c] = np.arange(c)[: p["n"]]
    w = r.random((p["n"], c)) + 0.05
    if p["ties"]:
        w = np.round(w * 4) + 1
    w = w / w.sum(1, keepdims=True)
    return {"y": [int(v) for v in y], "p": [[float(v) for v in row] for row in w]}


_mc = dict(columns=_multi, schema={"y": pl.UInt32, "p": pl.List(F)}, n=(9, 20, 40, 80, 120), rtol=1e-8, atol=1e-9, expect=_some)
_mp = lambda rng, **k: dict({"nc": rng.choice([2, 3, 4]), "ties": rng.choice([0, 1])}, **k)


def _mauc(p, s):
    y, q = np.array(s["y"]), np.array(s["p"])
    a = [auc((y == i).astype(int), q[:, i]) for i in range(p["nc"])]
    if p["st"] == "macro":
        return float(np.mean(a))
    return float(sum((y == i).sum() * a[i] for i in range(p["nc"])) / len(y))


stat("multi_roc_auc", lambda p: pds.query_multi_roc_auc("y", "p", n_classes=p["nc"], strategy=p["st"]), _mauc, lambda rng: _mp(rng, st=rng.choice(["macro", "weighted"])), **_mc)


def _cce(p, s):
    v = [-math.log(r[y]) for y, r in zip(s["y"], s["p"])]
    return float(sum(v) / (len(v) if p["m"] else 1))


stat("cat_cross_entropy", lambda p: pds.query_cat_cross_entropy("y", "p", normalize=p["m"]), _cce, lambda rng: _mp(rng, m=rng.choice([True, False])), **_mc)
_fr = lambda s: (A(s, "p")[np.array(s["y"]) == 1].mean() if 1 in s["y"] else None, A(s, "p")[np.array(s["y"]) == 0].mean() if 0 in s["y"] else None)
stat("fairness", lambda p: pds.query_fairness("p", pl.col("y") == 1), lambda p, s: None if None in _fr(s) else float(abs(_fr(s)[0] - _fr(s)[1])), lambda rng: _clsp(rng), **_c)
stat("p_pct_score", lambda p: pds.query_p_pct_score("p", pl.col("y") == 1), lambda p, s: None if None in _fr(s) else float(min(_fr(s)[0] / _fr(s)[1], _fr(s)[1] / _fr(s)[0])), lambda rng: _clsp(rng), **_c)


# ---------------------------------------------------------------- drift
def _two(p):
    a = col(p["s"], p["n"], p["ka"])
    b = col(p["s"] + 1, p["n"], p["kb"])
    if p.get("nl"):
        b = [v if (i * 7 + p["s"]) % 11 else None for i, v in enumerate(b)]
        a = [v if (i * 5 + p["s"]) % 13 else (None if i % 2 else float("inf")) for i, v in enumerate(a)]
    return {"new": a, "base": b}


def _twop(rng, **k):
    ks = [["normal"], ["normal", 0.5, 1.3], ["uniform", -2, 3], ["grid", 6], ["heavy"]]
    return dict({"ka": rng.choice(ks), "kb": rng.choice(ks), "nl": rng.choice([0, 0, 1])}, **k)


def fin(v):
    return np.array([x for x in v if x is not None and math.isfinite(x)], float)


def psi_rows(brk, cb, ca):
    b = np.clip(np.array(cb, float) / sum(cb), 1e-4, None)
    with np.errstate(all="ignore"):
        a = np.clip(np.array(ca, float) / sum(ca), 1e-4, None)
    return [{"<=": x, "baseline_pct": float(u), "actual_pct": float(v), "psi_bin": float((u - v) * math.log(u / v))} for x, u, v in zip(brk, b, a)]


def count_le(brk, v):
    c = [0] * len(brk)
    for x in v:
        c[int(np.searchsorted(brk, x, side="left"))] += 1
    return c


def _psi(p, s):
    new, base = fin(s["new"]), fin(s["base"])
    q = np.unique(np.quantile(base, np.arange(1, p["nb"]) / p["nb"]))
    edges = list(q) + [float("inf")]
    cb = count_le(edges, base)
    keep = [i for i in range(len(edges)) if cb[i]]
    edges = [edges[i] for i in keep]
    edges[-1] = float("inf")  # "-inf and inf being the first and last values of the intervals"
    return psi_rows(edges, [cb[i] for i in keep], count_le(edges, new))


def _near_break(p, s):
    base = fin(s["base"])
    q = np.quantile(base, np.arange(1, p["nb"]) / p["nb"])
    for v in (fin(s["new"]), base):
        d = np.abs(v[:, None] - q[None, :])
        if ((d > 0) & (d < 1e-9)).any():
            return True
    return False


def _psi_cmp(p, s, got):
    if _near_break(p, s):
        return None
    w = _psi(p, s)
    if w is None:
        return None
    if p["rep"]:
        if len(got) != len(w):
            return f"{len(got)} bins instead of {len(w)}"
        for g, x in zip(got, w):
            e = struct_diff(g, x, 1e-7)
            if e:
                return e
        return None
    x = sum(r["psi_bin"] for r in w)
    return None if len(got) == 1 and close(got[0], x, 1e-7, 1e-9) else f"{got} instead of {x}"


_t = dict(columns=_two, schema={"new": F, "base": F}, n=(34, 60, 90, 140), expect=lambda p, cols, groups: "skip" if any(len(g) < 12 for g in groups) else None)
for _rep in (True, False):
    define("nums.psi" + ("_report" if _rep else ""), expr=lambda p: pds.psi("new", "base", n_bins=p["nb"], return_report=p["rep"]), ref=None, compare=_psi_cmp, params=lambda rng, _rep=_rep: _twop(rng, nb=rng.choice([2, 4, 10]), rep=_rep),
           reduce_=not _rep, allow=LISTY, **_t)  # polars 1.27's window context loses the struct fields of qcut


def _pb_cmp(p, s, got):
    # baseline counts come from the second argument
    e = p["bp"] + [float("inf")]
    w = psi_rows(e, count_le(e, fin(s["base"])), count_le(e, fin(s["new"])))
    if len(got) != len(w):
        return f"{len(got)} bins instead of {len(w)}"
    for g, x in zip(got, w):
        m = struct_diff(g, x, 1e-8)
        if m:
            return m
    return None


define("nums.psi_w_breakpoints", expr=lambda p: pds.psi_w_breakpoints("new", "base", p["bp"]), ref=None, compare=_pb_cmp, params=lambda rng: _twop(rng, bp=rng.choice([[0.1], [-1.0, 0.0, 1.0], [-0.5, 0.33, 1.2, 2.1]])), allow=LISTY, **_t)


def _cat(seed, n, k):
    return ["abcdefgh"[i % 8] + ("" if i < 8 else "x") for i in col(seed, n, ["int", 0, k])]


def _pd_cmp(p, s, got):
    def cnt(v):
        d = {}
        for x in v:
            d[x] = d.get(x, 0) + 1
        return d

    n, b = cnt(s["new"]), cnt(s["base"])
    w = []
    for c in set(n) | set(b):
        u, v = max(b.get(c, 0) / len(s["base"]), 1e-4), max(n.get(c, 0) / len(s["new"]), 1e-4)
        w.append((c, u, v, (u - v) * math.log(u / v)))
    if not p["rep"]:
        x = sum(r[3] for r in w)
        return None if len(got) == 1 and close(got[0], x, 1e-9, 1e-9) else f"{got} instead of {x}"
    have = {}
    for g in got:
        vals = list(g.values())
        c = vals[0] if vals[0] is not None else vals[1]
        if len(vals) == 4:
            c = [x for x in vals if isinstance(x, str)]
            c = c[0] if c else None
        have[c] = (g["baseline_pct"], g["actual_pct"], g["psi_bin"])
    if len(have) != len(got) or set(have) != {r[0] for r in w}:
        return f"categories {sorted(map(str, have))} instead of {sorted(r[0] for r in w)}"
    for c, u, v, x in w:
        if not all(close(a, b, 1e-9, 1e-9) for a, b in zip(have[c], (u, v, x))):
            return f"category {c}: {have[c]} instead of {(u, v, x)}"
    return None


for _rep in (True, False):
    define("nums.psi_discrete" + ("_report" if _rep else ""), expr=lambda p: pds.psi_discrete("new", "base", return_report=p["rep"]), ref=None, compare=_pd_cmp, params=lambda rng, _rep=_rep: {"rep": _rep, "k1": rng.choice([2, 4, 9]), "k2": rng.choice([2, 4, 9])},
           columns=lambda p: {"new": _cat(p["s"], p["n"], p["k1"]), "base": _cat(p["s"] + 1, p["n"], p["k2"])}, schema={"new": pl.String, "base": pl.String}, n=(5, 12, 34, 60, 120), reduce_=not _rep,
           allow=LISTY if _rep else None, expect=_some)


# ---------------------------------------------------------------- encoders
def woe_rows(cat, y):
    d = {}
    for c, t in zip(cat, y):
        if c is None or t is None:
            continue
        a = d.setdefault(c, [0, 0])
        a[0] += 1
        a[1] += t
    N, G = sum(a[0] for a in d.values()), sum(a[1] for a in d.values())
    out = {}
    for c, (n, g) in d.items():
        gp, bp = (g + 1) / (G + 2), (n - g + 1) / (N - G + 2)
        w = math.log(gp / bp)
        out[c] = (w, (gp - bp) * w)
    return out


def _enc(p):
    c = {"c": _cat(p["s"], p["n"], p["k"]), "y": [int(b) for b in col(p["s"] + 1, p["n"], ["bool", 0.4])]}
    if p["nulls"]:
        c["c"] = with_nulls(c["c"], p["s"], p["nulls"])
        c["y"] = with_nulls(c["y"], p["s"] + 1, p["nulls"] / 2)
    return c


def dict_cmp(got, want, key, val, tol=1e-9):
    have = {g[key]: g[val] for g in got}
    if len(have) != len(got):
        return f"a value appears twice: {got}"
    if set(have) != set(want):
        return f"values {sorted(map(str, have))} instead of {sorted(map(str, want))}"
    for k, w in want.items():
        if not close(have[k], w, tol, 1e-10):
            return f"{k}: {have[k]} instead of {w}"
    return None


_e = dict(columns=_enc, schema={"c": pl.String, "y": pl.Int32}, nulls=(0, 0, 0.1), n=(2, 5, 12, 34, 60, 120))
_ek = lambda rng, **k: dict({"k": rng.choice([2, 4, 9])}, **k)
define("nums.woe_discrete", expr=lambda p: pds.woe_discrete("c", "y"), ref=None, params=_ek, allow=LISTY, compare=lambda p, s, got: dict_cmp(got, {k: v[0] for k, v in woe_rows(s["c"], s["y"]).items()}, "value", "woe"), expect=_some, **_e)
define("nums.iv_discrete_rows", expr=lambda p: pds.info_value_discrete("c", "y", return_sum=False), ref=None, params=_ek, allow=LISTY, compare=lambda p, s, got: dict_cmp(got, {k: v[1] for k, v in woe_rows(s["c"], s["y"]).items()}, "value", "iv"), expect=_some, **_e)
stat("iv_discrete", lambda p: pds.info_value_discrete("c", "y"), lambda p, s: float(sum(v[1] for v in woe_rows(s["c"], s["y"]).values())), _ek, expect=_some, **_e)


def _te_cmp(p, s, got):
    ok = [t for t in s["y"] if t is not None]
    if not ok:
        return None
    mean = sum(ok) / len(ok)
    d = {}
    for c, t in zip(s["c"], s["y"]):
        if c is not None and t is not None:
            d.setdefault(c, []).append(t)
    w = {}
    for c, v in d.items():
        al = 1 / (1 + math.exp(-(len(v) - p["ml"]) / p["sm"]))
        w[c] = al * sum(v) / len(v) + (1 - al) * mean
    return dict_cmp(got, w, "value", "to")


define("nums.target_encode", expr=lambda p: pn.target_encode("c", "y", min_samples_leaf=p["ml"], smoothing=p["sm"]), ref=None, compare=_te_cmp, params=lambda rng: _ek(rng, ml=rng.choice([1, 5, 20]), sm=rng.choice([1.0, 10.0])), allow=LISTY,
       expect=lambda p, cols, groups: "skip" if any(all(cols["y"][i] is None for i in g) for g in groups) else None, **_e)


def _binned(p, s):
    x = np.array(s["x"], float)
    q = np.unique(np.quantile(x, np.arange(1, p["nb"]) / p["nb"]))
    return [int(np.searchsorted(q, v, side="left")) for v in x]


def _woe_cmp(p, s, got):
    x = np.array(s["x"], float)
    q = np.quantile(x, np.arange(1, p["nb"]) / p["nb"])
    d = np.abs(x[:, None] - q[None, :])
    if ((d > 0) & (d < 1e-9)).any():
        return None
    w = woe_rows(_binned(p, s), s["y"])
    if p["iv"] == "sum":
        v = float(sum(r[1] for r in w.values()))
        return None if len(got) == 1 and close(got[0], v, 1e-8, 1e-9) else f"{got} instead of {v}"
    have = sorted(g["woe"] for g in got)
    want = sorted(r[0] for r in w.values())
    return diff(have, want, 1e-8, 1e-9)


# polars: the categoricals of two groups differ when another query switches the global string cache on in between
_xb = dict(known_errors={"StringCacheMismatch": "qcut-string-cache"}, columns=lambda p: {"x": col(p["s"], p["n"], p["kind"]), "y": [int(b) for b in col(p["s"] + 1, p["n"], ["bool", 0.4])]}, schema={"x": F, "y": pl.Int32}, n=(20, 40, 80, 120),
           kinds=[["normal"], ["uniform", 0, 1], ["grid", 6], ["heavy"]], expect=lambda p, cols, groups: "skip" if any(len(g) < 4 for g in groups) else None)
define("nums.woe", expr=lambda p: pds.woe("x", "y", n_bins=p["nb"]), ref=None, compare=_woe_cmp, params=lambda rng: {"nb": rng.choice([2, 4, 10]), "iv": ""}, allow=LISTY, **_xb)
stat("info_value", lambda p: pds.info_value("x", "y", n_bins=p["nb"]), None, lambda rng: {"nb": rng.choice([2, 4, 10]), "iv": "sum"}, compare=_woe_cmp, **_xb)


# ---------------------------------------------------------------- KS, Jaccard, isotonic
def _ks_cmp(p, s, got):
    if p["bin"]:
        y, v = s["new"], s["base"]
        a, b = fin([x for x, t in zip(v, y) if t == 1.0]), fin([x for x, t in zip(v, y) if t == 0.0])
    else:
        a, b = fin(s["new"]), fin(s["base"])
    if len(got) != 1 or got[0] is None:
        return f"{got} instead of one result"
    g = got[0]
    if len(a) <= 30 or len(b) <= 30:
        return None if g["statistic"] == 0.0 and math.isnan(g["pvalue"]) else f"{g} for {len(a)} and {len(b)} rows"
    al = np.concatenate([a, b])
    D = float(np.abs(np.searchsorted(np.sort(a), al, side="right") / len(a) - np.searchsorted(np.sort(b), al, side="right") / len(b)).max())
    c = math.sqrt(abs(-0.5 * math.log(p["al"] / 2)) * (len(a) + len(b)) / (len(a) * len(b)))
    if not close(g["statistic"], D, 1e-9, 1e-12):
        return f"statistic {g['statistic']} instead of {D}"
    return None if close(g["pvalue"], c, 1e-9, 1e-12) else f"critical value {g['pvalue']} instead of {c}"


def _ksc(p):
    c = _two(p)
    if p["bin"]:
        c["new"] = [float(b) for b in col(p["s"] + 3, p["n"], ["bool", 0.5])]
    return c


stat("ks", lambda p: pds.ks_2samp("new", "base", alpha=p["al"], is_binary=p["bin"]), None, lambda rng: _twop(rng, al=rng.choice([0.05, 0.01]), bin=rng.choice([True, False])), compare=_ks_cmp, columns=_ksc, schema={"new": F, "base": F},
     n=(20, 40, 80, 120, 200), expect=_some)


def _jc(p, s):
    a, b = set(s["a"]), set(s["b"])
    if not p["cn"]:
        a, b = a - {None}, b - {None}
    return d_(len(a & b), len(a | b))


def _jcols(p):
    mk = (lambda sd: _cat(sd, p["n"], 9)) if p["str"] else (lambda sd: col(sd, p["n"], ["int", 0, 12]))
    return {"a": with_nulls(mk(p["s"]), p["s"], p["nulls"]), "b": with_nulls(mk(p["s"] + 1), p["s"] + 5, p["nulls"])}


stat("jaccard_col", lambda p: pds.jaccard_col("a", "b", count_null=p["cn"]), _jc, lambda rng: {"str": rng.choice([True, False]), "cn": rng.choice([True, False])}, columns=_jcols, nulls=(0, 0.2, 0.6), n=(1, 3, 8, 20, 60),
     schema=lambda p: {"a": pl.String if p["str"] else pl.Int64, "b": pl.String if p["str"] else pl.Int64})


def _jr(p, s):
    out = []
    for a, b in zip(s["a"], s["b"]):
        if a is None or b is None:
            out.append(None)
        else:
            a, b = set(a), set(b)
            out.append(d_(len(a & b), len(a | b)))
    return out


def _jrc(p):
    r = np.random.default_rng(p["s"])
    mk = lambda: [[("abcdefg"[int(v)] if p["str"] else int(v)) for v in r.integers(0, 7, int(r.integers(1, 6)))] for _ in range(p["n"])]
    return {"a": with_nulls(mk(), p["s"], p["nulls"]), "b": with_nulls(mk(), p["s"] + 5, p["nulls"])}


define("nums.jaccard_row", expr=lambda p: pds.jaccard_row("a", "b"), ref=_jr, params=lambda rng: {"str": rng.choice([True, False])}, columns=_jrc, nulls=(0, 0.2), n=(1, 3, 8, 20, 60),
       schema=lambda p: {"a": pl.List(pl.String if p["str"] else pl.Int64), "b": pl.List(pl.String if p["str"] else pl.Int64)})


def pava(y, w):
    b = []
    for v, u in zip(y, w):
        b.append([v, u, 1])
        while len(b) > 1 and b[-2][0] >= b[-1][0]:
            v2, u2, n2 = b.pop()
            v1, u1, n1 = b.pop()
            b.append([(v1 * u1 + v2 * u2) / (u1 + u2), u1 + u2, n1 + n2])
    return [v for v, _, n in b for _ in range(n)]


def _iso(p, s):
    w = s["w"] if p["w"] else [1.0] * len(s["x"])
    if p["inc"]:
        return pava(s["x"], w)
    return pava(s["x"][::-1], w[::-1])[::-1]


define("nums.isotonic", expr=lambda p: pds.isotonic_regression("x", weights="w" if p["w"] else None, increasing=p["inc"]), ref=_iso, params=lambda rng: {"w": rng.choice([True, False]), "inc": rng.choice([True, False])},
       columns=lambda p: {"x": col(p["s"], p["n"], p["kind"]), "w": col(p["s"] + 3, p["n"], ["uniform", 0.2, 3])}, schema={"x": F, "w": F}, rtol=1e-9, atol=1e-9)


# ---------------------------------------------------------------- NDCG
@op
class Ndcg(Op):
    """calculate_ndcg takes a frame, so it is not an expression."""
    name = "nums.ndcg"

    def gen(self, rng):
        return {"s": rng.getrandbits(30), "n": rng.choice([3, 8, 20, 60, 120]), "ng": rng.choice([1, 2, 5]), "k": rng.choice([None, None, 1, 3, 10]), "ties": rng.choice([True, False]), "g": rng.choice(["q", "example_id"])}

    def frame(self, p):
        r = np.random.default_rng(p["s"])
        sc = r.permutation(p["n"]).astype(float)
        if p["ties"]:
            sc = np.floor(sc / 3)
        return {p["g"]: [int(v) for v in r.integers(0, p["ng"], p["n"])], "rel": [int(v) for v in r.integers(0, 4, p["n"])], "sc": [float(v) for v in sc]}

    def run(self, p, ctx):
        df = pl.DataFrame(self.frame(p))
        ctx.preempt()
        return pm.calculate_ndcg(df, "rel", "sc", p["g"], k=p["k"], ignore_ties=p["ties"]).item()

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"ndcg raised {r.type}: {r.msg} for {brief(p)}"]
        c = self.frame(p)
        out = []
        for g in sorted(set(c[p["g"]])):
            idx = [i for i in range(p["n"]) if c[p["g"]][i] == g]
            if len(idx) == 1:
                continue
            disc = [1 / math.log2(i + 2) if p["k"] is None or i < p["k"] else 0.0 for i in range(len(idx))]
            ideal = sum(a * b for a, b in zip(sorted((c["rel"][i] for i in idx), reverse=True), disc))
            by = {}
            for i in idx:
                by.setdefault(c["sc"][i], []).append(c["rel"][i])
            dcg, j = 0.0, 0
            for sc in sorted(by, reverse=True):
                v = by[sc]
                dcg += sum(v) / len(v) * sum(disc[j:j + len(v)])
                j += len(v)
            out.append(dcg / ideal if ideal else 0.0)
        w = sum(out) / len(out) if out else None
        return [] if close(r, w, 1e-9, 1e-12) else [f"ndcg {r} instead of {w} for {brief(p)}"]
