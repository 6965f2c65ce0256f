"""Linear regression against a direct solution: expressions, reports, and the model classes."""
import math
import os
import threading

import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.linear_models import LR, ElasticNet

import common
from common import Exc, ExprOp, Op, brief, close, col, deliver, gen_delivery, groups_of, op, parts, with_nulls

EPS = {False: 2.2e-16, True: 1.2e-7}
_CONFIG = threading.Lock()


def F32P(p):
    return float(os.environ.get("SIM_F32", p))  # for development: more of them


def f32_expr(on, make):
    """Expressions pick their precision when they are made."""
    import polars_ds.config as c

    with _CONFIG:
        c.LIN_REG_EXPR_F64 = not on
        try:
            return make()
        finally:
            c.LIN_REG_EXPR_F64 = True


def groups(d, m):
    """Row indices of each part the delivery evaluates."""
    if d["how"] in ("groupby", "over"):
        g = groups_of(d, m)
        return [[i for i in range(m) if g[i] == gi] for gi in sorted(set(g))]
    if d["how"] == "filter":
        mk = np.random.default_rng(d["s"]).random(m) < 0.7
        return [[i for i in range(m) if mk[i]]]
    return [list(range(m))]


def fill_value(policy):
    return {"zero": 0.0, "one": 1.0}.get(policy) if policy in ("zero", "one") else float(policy)


def apply_policy(policy, y, X):
    """(rows kept, X of those rows); y and X with None where null."""
    n = len(y)
    anynull = [y[i] is None or any(x[i] is None for x in X) for i in range(n)]
    if policy in ("raise", "ignore"):
        keep = [i for i in range(n) if not anynull[i]] if policy == "raise" else list(range(n))
        Xk = [[math.nan if x[i] is None else x[i] for x in X] for i in keep]
    elif policy == "skip":
        keep = [i for i in range(n) if not anynull[i]]
        Xk = [[x[i] for x in X] for i in keep]
    else:
        f = fill_value(policy)
        keep = [i for i in range(n) if y[i] is not None]
        Xk = [[f if x[i] is None else x[i] for x in X] for i in keep]
    return keep, np.array(Xk, dtype=float).reshape(len(keep), len(X)), any(anynull)


def solve(X, y, bias=False, l2=0.0, w=None, l1=0.0):
    """(coefficients with the bias last, condition number of the normal equations)."""
    A = np.hstack([X, np.ones((len(X), 1))]) if bias else X
    k = A.shape[1]
    k1 = X.shape[1]
    if l1 > 0:
        return lasso(X, y, l1, l2, bias), 1.0
    sw = np.ones(len(A)) if w is None else np.sqrt(np.asarray(w, float))
    B = A * sw[:, None]
    t = y * sw
    if l2 > 0:
        R = np.zeros((k1, k))
        R[:, :k1] = np.eye(k1) * math.sqrt(l2)
        B = np.vstack([B, R])
        t = np.concatenate([t, np.zeros(k1)])
    beta = np.linalg.lstsq(B, t, rcond=1e-15)[0]
    s = np.linalg.svd(B, compute_uv=False)
    return beta, (s[0] / s[-1]) ** 2 if len(s) == k and s[-1] > 0 else math.inf


def lasso(X, y, l1, l2, bias):
    """1/(2m) |y - Xb - b0|^2 + l1 |b|_1 + l2/2 |b|^2, to machine precision."""
    m, k = X.shape
    mx, my = (X.mean(0), y.mean()) if bias else (np.zeros(k), 0.0)
    Xc, yc = X - mx, y - my
    G, c = Xc.T @ Xc, Xc.T @ yc
    b = np.zeros(k)
    for _ in range(200000):
        ch = 0.0
        for j in range(k):
            r = c[j] - G[j] @ b + G[j, j] * b[j]
            nb = math.copysign(max(abs(r) - m * l1, 0.0), r) / (G[j, j] + m * l2)
            ch = max(ch, abs(nb - b[j]))
            b[j] = nb
        if ch < 1e-14:
            break
    return np.concatenate([b, [my - mx @ b]]) if bias else b


XK = [["normal"], ["normal"], ["uniform", -3, 3], ["normal", 2, 1], ["walk"], ["grid", 5], ["uniform", 0.5, 1.5]]
POLICIES = ["raise", "skip", "zero", "one", "1.25", "-3", "ignore"]
NAMES = [["x0", "x1", "x2", "x3", "x4"], ["literal", "__bias__", "ones", "w_", "pred"], ["a b", "y_pred", "coeffs", "const", "1"]]


def gen_data(rng, nmax=120, nulls=(0, 0, 0.1, 0.3)):
    k = rng.choice([1, 2, 2, 3, 4])
    p = {"k": k, "n": rng.choice([m for m in (3, 4, 5, 6, 8, 13, 21, 34, 60, 120) if k <= m <= nmax]), "s": rng.getrandbits(30),
         "kinds": [rng.choice(XK) for _ in range(k)], "names": rng.choice([0, 0, 0, 1, 2]), "nulls": rng.choice(nulls), "ynull": rng.random() < 0.5,
         "noise": rng.choice([0.0, 0.1, 1.0, 5.0]), "int": rng.random() < 0.1}
    return p


def gen_cols(p, targets=1, weights=False):
    n, k, s = p["n"], p["k"], p["s"]
    names = NAMES[p["names"]][:k]
    xs = [col(s + j, n, p["kinds"][j]) for j in range(k)]
    if p.get("int"):
        xs[0] = [float(round(v)) for v in xs[0]]
    r = np.random.default_rng(s + 1000)
    cols = {}
    for t in range(targets):
        b = r.normal(0, 2, k)
        y = np.array(xs).T @ b + r.normal() + r.normal(0, 1, n) * p["noise"]
        cols["y" if t == 0 else f"y{t}"] = [float(v) for v in y]
    if p["nulls"]:
        for j in range(k):
            if r.random() < 0.7:
                xs[j] = with_nulls(xs[j], s + 50 + j, p["nulls"])
        if p["ynull"]:
            for t in list(cols):
                cols[t] = with_nulls(cols[t], s + 90 + len(t), p["nulls"])
    for nm, x in zip(names, xs):
        cols[nm] = x
    if weights:
        cols["W"] = [float(v) for v in r.uniform(0.1, 3.0, n)]
    return cols, names


def isnone(v):
    return v is None or (isinstance(v, float) and math.isnan(v))


class Fit(ExprOp):
    """Coefficients or predictions of one lin_reg expression."""

    name = "lr.fit"
    spare = 0

    def params(self, rng):
        p = gen_data(rng)
        p["bias"] = rng.random() < 0.5
        p["reg"] = rng.choices(["none", "l2", "l1", "en", "w"], [5, 3, 2, 2, 4])[0]
        p["l1"] = rng.choice([0.01, 0.1, 0.5]) if p["reg"] in ("l1", "en") else 0.0
        p["l2"] = rng.choice([0.01, 0.5, 5.0]) if p["reg"] in ("l2", "en") else 0.0
        p["solver"] = rng.choice(["qr", "svd", "choleskey"])
        p["policy"] = rng.choice(POLICIES)
        p["pred"] = rng.random() < 0.5
        p["f32"] = rng.random() < F32P(0.2)
        p["form"] = rng.choice(["str", "str", "expr", "derived"])
        return p

    def columns(self, p):
        return gen_cols(p, weights=p["reg"] == "w")[0]

    def schema(self, p):
        return None

    def expr(self, p):
        names = NAMES[p["names"]][:p["k"]]
        if p["form"] == "str" and p["names"] == 0:
            xs = list(names)
        elif p["form"] == "derived":
            xs = [(pl.col(c) * 2.0).alias(c) if i == 0 else pl.col(c) for i, c in enumerate(names)]
        else:
            xs = [pl.col(c) for c in names]
        return f32_expr(p["f32"], lambda: pds.lin_reg(
            *xs, target="y", add_bias=p["bias"], weights="W" if p["reg"] == "w" else None, return_pred=p["pred"], l1_reg=p["l1"], l2_reg=p["l2"],
            tol=1e-9 if not p["f32"] else 1e-5, solver=p["solver"], null_policy=p["policy"]))

    @property
    def reduce_(self):
        return False

    def run(self, p, ctx):
        cols = self.columns(p)
        e = self.expr(p)
        ctx.preempt()
        return parts(deliver(p["d"], cols, self.schema(p), e, p["n"], not p["pred"]), p["n"])

    def split(self, p, cols, idx):
        names = NAMES[p["names"]][:p["k"]]
        X = [[cols[c][i] for i in idx] for c in names]
        if p["form"] == "derived":
            X[0] = [None if v is None else v * 2.0 for v in X[0]]
        y = [cols["y"][i] for i in idx]
        keep, Xk, nulls = apply_policy(p["policy"], y, X)
        yk = np.array([math.nan if y[i] is None else y[i] for i in keep])
        w = [cols["W"][idx[i]] for i in keep] if p["reg"] == "w" else None
        return keep, Xk, yk, w, nulls

    def expect_error(self, p, cols):
        must = may = False
        for idx in groups(p["d"], p["n"]):
            keep, Xk, yk, w, nulls = self.split(p, cols, idx)
            if nulls and p["policy"] == "raise":
                must = True
            elif len(keep) < p["k"] + p["bias"] + self.spare or not idx:
                may = True
        return "must" if must else "may" if may else None

    def compare(self, p, cols, idx, got):
        keep, Xk, yk, w, nulls = self.split(p, cols, idx)
        k = p["k"] + p["bias"]
        if p["pred"]:
            if len(got) != len(idx):
                return f"{len(got)} predictions for {len(idx)} rows"
        elif len(got) != 1 or got[0] is None or len(got[0]) != k:
            return f"{got} instead of {k} coefficients"
        if p["policy"] == "ignore" and nulls:
            return None  # nothing is promised about the values
        if len(keep) < k:
            return None
        beta, cond = solve(Xk, yk, p["bias"], p["l2"], w, p["l1"])
        tol = EPS[p["f32"]] * (cond * 300 if np.isfinite(cond) else math.inf)
        if p["reg"] in ("l1", "en"):
            tol = 1e-5 if not p["f32"] else 2e-3
            _, c2 = solve(Xk, yk, p["bias"])
            if not c2 < 120:
                return None  # slow to converge, stops at its step limit
        if tol > 1e-2:
            return None
        tol = max(tol, 1e-9 if not p["f32"] else 2e-5)
        scale = float(np.max(np.abs(beta))) + float(np.max(np.abs(yk))) / max(1.0, float(np.max(np.abs(Xk))))
        if not p["pred"]:
            for j in range(k):
                if not close(got[0][j], beta[j], 0, tol * scale):
                    return f"coefficient {j} {got[0][j]!r} instead of {beta[j]!r} (+-{tol * scale:.1e})"
            return None
        pos = {i: a for a, i in enumerate(keep)}
        for i, g in enumerate(got):
            if i not in pos:
                if g is not None and not (isnone(g["pred"]) and isnone(g["resid"])):
                    return f"row {i}, dropped by the null policy, is predicted as {g}"
                continue
            x = Xk[pos[i]]
            want = float(x @ beta[:p["k"]]) + (float(beta[-1]) if p["bias"] else 0.0)
            t = tol * scale * (float(np.sum(np.abs(x))) + 1.0) + abs(want) * (1e-9 if not p["f32"] else 1e-5)
            if g is None or not close(g["pred"], want, 0, t):
                return f"row {i} predicted as {g} instead of {want!r} (+-{t:.1e})"
            if not close(g["resid"], yk[pos[i]] - want, 0, t + abs(yk[pos[i]]) * (1e-9 if not p["f32"] else 1e-5)):
                return f"row {i} residual {g} instead of {yk[pos[i]] - want!r}"
        return None


op(Fit)


class Multi(Fit):
    name = "lr.multi"

    def params(self, rng):
        p = Fit.params(self, rng)
        p["reg"] = rng.choice(["none", "l2"])
        p["l1"] = 0.0
        p["l2"] = rng.choice([0.01, 0.5, 5.0]) if p["reg"] == "l2" else 0.0
        p["nt"] = rng.choice([2, 3])
        p["ynull"] = False
        p["policy"] = rng.choice(["raise", "zero", "one", "1.25"])
        p["form"] = rng.choice(["expr", "derived"])
        return p

    def allow_for(self, p):
        return common.LISTY

    def columns(self, p):
        return gen_cols(p, targets=p["nt"])[0]

    def expr(self, p):
        names = NAMES[p["names"]][:p["k"]]
        xs = [(pl.col(c) * 2.0).alias(c) if i == 0 and p["form"] == "derived" else pl.col(c) for i, c in enumerate(names)]
        ts = ["y"] + [f"y{t}" for t in range(1, p["nt"])]
        return f32_expr(p["f32"], lambda: pds.lin_reg(*xs, target=ts, add_bias=p["bias"], return_pred=p["pred"], l2_reg=p["l2"], solver=p["solver"], null_policy=p["policy"]))

    def expect_error(self, p, cols):
        return Fit.expect_error(self, p, cols)

    def compare(self, p, cols, idx, got):
        for t in range(p["nt"]):
            sub = dict(cols, y=cols["y" if t == 0 else f"y{t}"])
            try:
                if p["pred"]:
                    g = [{"pred": v[f"target_{t}_pred"], "resid": v[f"target_{t}_resid"]} for v in got]
                else:
                    g = [got[0][f"target_{t}"]]
            except (KeyError, TypeError, IndexError):
                return f"no target_{t} in {str(got)[:200]}"
            d = Fit.compare(self, p, sub, idx, g)
            if d:
                return f"target {t}: {d}"
        return None


op(Multi)


class Rcond(Fit):
    name = "lr.rcond"

    def params(self, rng):
        p = Fit.params(self, rng)
        p["reg"] = rng.choice(["none", "none", "l2"])
        p["l1"] = 0.0
        p["l2"] = rng.choice([0.01, 0.5, 5.0]) if p["reg"] == "l2" else 0.0
        p["policy"] = rng.choice(["raise", "skip", "zero", "1.25"])
        p["rcond"] = rng.choice([0.0, 0.0, 0.05, 0.3, 0.7])
        p["dup"] = p["k"] >= 2 and rng.random() < 0.25  # a column that is another one again
        p["pred"] = False
        p["f32"] = rng.random() < F32P(0.15)
        p["form"] = "expr"
        return p

    def allow_for(self, p):
        return common.LISTY

    def columns(self, p):
        c = gen_cols(p)[0]
        if p["dup"]:
            nm = NAMES[p["names"]]
            c[nm[1]] = list(c[nm[0]])
        return c

    def run(self, p, ctx):
        cols = self.columns(p)
        e = self.expr(p)
        ctx.preempt()
        return parts(deliver(p["d"], cols, None, e, p["n"], False), p["n"])

    def expr(self, p):
        xs = [pl.col(c) for c in NAMES[p["names"]][:p["k"]]]
        return f32_expr(p["f32"], lambda: pds.lin_reg_w_rcond(*xs, target="y", add_bias=p["bias"], rcond=p["rcond"], l2_reg=p["l2"], null_policy=p["policy"]))

    def compare(self, p, cols, idx, got):
        keep, Xk, yk, w, nulls = self.split(p, cols, idx)
        k = p["k"] + p["bias"]
        if len(keep) < k:
            return None
        if len(got) != 1 or got[0] is None:
            return f"{got} instead of coefficients and singular values"
        A = np.hstack([Xk, np.ones((len(Xk), 1))]) if p["bias"] else Xk
        t = yk
        if p["l2"] > 0:
            R = np.zeros((p["k"], k))
            R[:, :p["k"]] = np.eye(p["k"]) * math.sqrt(p["l2"])
            A = np.vstack([A, R])
            t = np.concatenate([t, np.zeros(p["k"])])
        U, s, Vt = np.linalg.svd(A, full_matrices=False)
        g = sorted(got[0]["singular_values"], reverse=True)
        one = p["f32"]
        d = common.diff(g, list(s), 1e-4 if one else 1e-7, (1e-4 if one else 1e-7) * s[0])
        if d:
            return f"singular values {g} instead of {list(s)}"
        rc = max(p["rcond"], (1.2e-7 if one else 2.3e-16) * max(k + 1, A.size + len(t)) * 2)
        r = s / s[0]
        if any(abs(v - rc) < (1e-3 if one else 1e-6) or (1e-8 if one else 1e-15) < v < (1e-3 if one else 1e-9) for v in r):
            return None  # on the threshold
        inv = np.array([1 / v if q >= rc else 0.0 for v, q in zip(s, r)])
        beta = Vt.T @ (inv * (U.T @ t))
        kept = [v for v, q in zip(s, r) if q >= rc]
        if not kept:
            return None
        tol = max(1e-8, 1e-13 * (s[0] / kept[-1]) ** 2) if not one else 1e-3 + 3e-5 * (s[0] / kept[-1]) ** 2
        if tol > (1e-3 if not one else 3e-2):
            return None
        d = common.diff(got[0]["coeffs"], list(beta), tol, tol * (np.max(np.abs(beta)) + 1))
        return d and f"coefficients {got[0]['coeffs']} instead of {list(beta)} with rcond {p['rcond']}"


op(Rcond)


class Report(Fit):
    name = "lr.report"
    spare = 1  # no degree of freedom left, no report

    def params(self, rng):
        p = Fit.params(self, rng)
        p["reg"] = rng.choice(["none", "none", "none", "w"])
        p["l1"] = p["l2"] = 0.0
        p["policy"] = rng.choice(["raise", "skip", "zero", "1.25"])
        p["se"] = rng.choice(["se", "hc0", "hc1", "hc2", "hc3"])
        p["pred"] = False
        p["f32"] = rng.random() < F32P(0.2)
        p["noise"] = rng.choice([0.1, 1.0, 5.0])
        p["form"] = "expr"
        return p

    def allow_for(self, p):
        return common.LISTY

    def run(self, p, ctx):
        cols = self.columns(p)
        e = self.expr(p)
        ctx.preempt()
        return parts(deliver(p["d"], cols, None, e, p["n"], False), p["n"])

    def expr(self, p):
        xs = [pl.col(c) for c in NAMES[p["names"]][:p["k"]]]
        return f32_expr(p["f32"], lambda: pds.lin_reg_report(*xs, target="y", weights="W" if p["reg"] == "w" else None, add_bias=p["bias"], null_policy=p["policy"], std_err=p["se"]))

    def compare(self, p, cols, idx, got):
        from scipy import stats

        keep, Xk, yk, w, nulls = self.split(p, cols, idx)
        k = p["k"] + p["bias"]
        n = len(keep)
        if n <= k + 1:
            return None
        names = NAMES[p["names"]][:p["k"]] + (["__bias__"] if p["bias"] else [])
        if [g["features"] for g in got] != names:
            return f"features {[g['features'] for g in got]} instead of {names}"
        A = np.hstack([Xk, np.ones((n, 1))]) if p["bias"] else Xk
        W = np.ones(n) if w is None else np.array(w)
        beta, cond = solve(Xk, yk, p["bias"], 0.0, w)
        one = p["f32"]
        tol = max(2e-5 if one else 1e-8, EPS[one] * 1000 * cond) if np.isfinite(cond) else 1
        if tol > (1e-3 if one else 1e-4):
            return None
        inv = np.linalg.inv(A.T @ (A * W[:, None]))
        res = yk - A @ beta
        if np.max(np.abs(res)) < (1e-2 if one else 1e-4) * np.max(np.abs(yk)):
            return None
        dof = n - k
        if w is not None or p["se"] == "se":
            se = np.sqrt(np.diag(inv) * (W * res ** 2).sum() / dof)
        else:
            h = np.einsum("ij,jk,ik->i", A, inv, A)
            if np.max(h) > 1 - (1e-2 if one else 1e-4):
                return None
            f = {"hc0": 1.0, "hc1": n / dof, "hc2": 1 / (1 - h), "hc3": 1 / (1 - h) ** 2}[p["se"]]
            se = np.sqrt(np.diag(inv @ (A.T @ (A * (res ** 2 * f)[:, None])) @ inv))
        field = "std_err" if w is not None or p["se"] == "se" else f"{p['se']}_se"
        tss = ((yk - yk.mean()) ** 2).sum()
        r2 = 1 - (res ** 2).sum() / tss
        for j, g in enumerate(got):
            sej = g[field] if field in g else g.get("std_err")
            t = beta[j] / se[j]
            ta = stats.t.ppf(0.975, dof)
            for what, a, b, rt in (("beta", g["beta"], beta[j], 1), ("std_err", sej, se[j], 30), ("t", g["t"], t, 60), ("p", g["p>|t|"], 2 * stats.t.sf(abs(t), dof), 1e3),
                                   ("0.025", g["0.025"], beta[j] - ta * se[j], 300), ("0.975", g["0.975"], beta[j] + ta * se[j], 300)):
                at = rt * tol * (abs(beta[j]) + se[j] if what in ("beta", "0.025", "0.975") else se[j] if what == "std_err" else 1 + abs(t))
                if not close(a, b, rt * tol, at):
                    return f"{names[j]}: {what} {a!r} instead of {b!r}"
            adj = 1 - (1 - r2) * (n - 1) / (n - p["k"] - 1)
            if not close(g["r2"], r2, 30 * tol, max(1e-7, 30 * tol if one else 0)):
                return f"r2 {g['r2']!r} instead of {r2!r}"
            if not close(g["adj_r2"], adj, 300 * tol, max(1e-6, 300 * tol if one else 0) * (n - 1) / max(1, n - p["k"] - 1)):
                return f"adj_r2 {g['adj_r2']!r} instead of {adj!r}"
        return None


op(Report)


class Simple(Fit):
    name = "lr.simple"

    def params(self, rng):
        p = Fit.params(self, rng)
        p.update(k=1, nulls=0, policy="raise", l1=0.0, l2=0.0, f32=False, form="expr", reg=rng.choice(["none", "w"]), names=0)
        return p

    def allow_for(self, p):
        return common.LISTY

    def expr(self, p):
        return pds.simple_lin_reg("x0", target="y", add_bias=p["bias"], weights="W" if p["reg"] == "w" else None, return_pred=p["pred"])


op(Simple)


# ------------------------------------------------------------------ model classes
def _nan(v):
    return math.nan if v is None else v


@op
class Model(Op):
    """A history of calls on one LR or ElasticNet object."""

    name = "lr.model"

    def gen(self, rng):
        p = {"cls": rng.choice(["LR", "LR", "EN"]), "bias": rng.random() < 0.5, "l1": rng.choice([0.0, 0.05, 0.3]), "l2": rng.choice([0.0, 0.1, 2.0]), "solver": rng.choice(["qr", "svd", "choleskey"])}
        if p["cls"] == "EN" and p["l1"] == 0 and p["l2"] == 0:
            p["l1"] = 0.1
        k = rng.choice([1, 2, 3])
        nm = rng.choice([0, 0, 1, 2])
        st = []
        for _ in range(rng.choice([2, 4, 6])):
            a = rng.choice(["fit", "fit", "fit_df", "fit_df", "short", "mismatch", "badpolicy", "query", "predict_df", "from_values", "wrong_width", "missing_col"])
            q = gen_data(rng, 60)
            q["k"], q["kinds"] = k, [rng.choice(XK) for _ in range(k)]
            q["n"], q["names"] = max(q["n"], 6), nm
            st.append({"a": a, "q": q, "policy": rng.choice(["raise", "skip", "zero", "one", "2.5", "ignore"]), "order": rng.random() < 0.3, "lazy": rng.random() < 0.4})
        p["k"], p["st"] = k, st
        return p

    def make(self, p):
        if p["cls"] == "LR":
            return LR(has_bias=p["bias"], lambda_=p["l2"], solver=p["solver"])
        return ElasticNet(p["l1"], p["l2"], has_bias=p["bias"], tol=1e-10, max_iter=20000)

    def state(self, m):
        if not m.is_fit():
            return None
        b = m.bias()
        return [float(v) for v in m.coeffs()], None if b is None else float(b)

    def run(self, p, ctx):
        m = self.make(p)
        out = []
        for s in p["st"]:
            cols, names = gen_cols(s["q"])
            X = np.array([[_nan(v) for v in cols[c]] for c in names]).T
            if s["order"]:
                X = np.asfortranarray(X)
            y = np.array([_nan(v) for v in cols["y"]])
            r = {"before": self.state(m)}
            try:
                a = s["a"]
                if a == "fit":
                    m.fit(X, y, null_policy=s["policy"])
                elif a == "fit_df":
                    df = pl.DataFrame(cols)
                    m.fit_df(df.lazy() if s["lazy"] else df, names, "y", null_policy=s["policy"])
                elif a == "short":
                    m.fit(X[:0], y[:0])
                elif a == "mismatch":
                    m.fit(X, y[:-1])
                elif a == "badpolicy":
                    m.fit(X, y, null_policy="nonsense")
                elif a == "missing_col":
                    m.fit_df(pl.DataFrame(cols), names + ["nothing"], "y", null_policy="skip")
                elif a == "wrong_width":
                    m.predict(np.ones((3, p["k"] + 1)))
                elif a == "query":
                    r["pred"] = m.predict(np.nan_to_num(X)).tolist()
                elif a == "predict_df":
                    df = pl.DataFrame(cols).with_columns(pl.col(names).fill_null(0.0))
                    if not m.feature_names_in_:
                        m.set_input_features(names)
                    o = m.predict_df(df.lazy() if s["lazy"] else df, name="P")
                    o = o.collect() if s["lazy"] else o
                    r["pred"] = [[v] for v in o["P"].to_list()]
                    r["cols"] = o.columns == df.columns + ["P"] and o.drop("P").equals(df)
                elif a == "from_values":
                    c = [round(v, 3) for v in np.random.default_rng(s["q"]["s"]).normal(0, 2, p["k"])]
                    b = [0.0, 1.5, -2.25, 1e-3][s["q"]["s"] % 4]
                    m = (LR if p["cls"] == "LR" else ElasticNet).from_values(c, *([b] if b or s["q"]["s"] % 3 else []), feature_names_in_=names)
                    r["values"] = c, b
                r["names"] = list(m.feature_names_in_)
            except Exception as e:
                r["err"] = type(e).__name__ + ": " + str(e)[:200]
            repr(m)
            r["after"] = self.state(m)
            out.append(r)
            ctx.preempt()
        return out

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"{self.name} raised {r.type}: {r.msg[:200]} for {brief(p)}"]
        bias = p["bias"]
        l1, l2 = (p["l1"], p["l2"]) if p["cls"] == "EN" else (0.0, p["l2"])
        made = False  # an instance made from values has parameters of its own
        for i, (s, o) in enumerate(zip(p["st"], r)):
            w = f"{self.name} {p['cls']} step {i} {s['a']}: "
            cols, names = gen_cols(s["q"])
            err = o.get("err")
            a = s["a"]
            if err and repr(o["before"]) != repr(o["after"]):
                return [w + f"failed with {err} yet changed the model from {o['before']} to {o['after']}"]
            if a in ("short", "mismatch", "badpolicy", "missing_col"):
                if not err:
                    return [w + "did not fail"]
                continue
            if a in ("fit", "fit_df"):
                keep, Xk, nulls = apply_policy(s["policy"], cols["y"], [cols[c] for c in names])
                yk = np.array([_nan(cols["y"][j]) for j in keep])
                if nulls and s["policy"] == "raise":
                    if not err:
                        return [w + "accepted nulls with the raise policy"]
                    continue
                if len(keep) < p["k"] + bias:
                    continue
                if err:
                    return [w + f"failed with {err} for {brief(s)}"]
                if nulls and s["policy"] == "ignore":
                    continue
                if made:
                    continue
                if a == "fit_df" and o["names"] != names:
                    return [w + f"feature names {o['names']} instead of {names}"]
                if p["cls"] == "EN":
                    beta, cond = solve(Xk, yk, bias, l2, None, l1) if l1 > 0 else (lasso(Xk, yk, 0.0, l2, bias), 1)
                    _, c2 = solve(Xk, yk, bias)
                    if not c2 < 1200:
                        continue
                    tol = 1e-6
                else:
                    beta, cond = solve(Xk, yk, bias, l2)
                    tol = max(1e-9, 2.2e-16 * 300 * cond) if np.isfinite(cond) else 1
                if tol > 1e-3:
                    continue
                sc = float(np.max(np.abs(beta))) + float(np.max(np.abs(yk))) / max(1.0, float(np.max(np.abs(Xk))))
                got = o["after"]
                want = list(beta[:p["k"]]), float(beta[-1]) if bias else 0.0
                if got is None or got[1] is None or common.diff(got[0] + [got[1]], [float(v) for v in want[0]] + [want[1]], 0, tol * sc):
                    return [w + f"coefficients and bias {got} instead of {want} for {brief(s)}"]
                continue
            if a == "from_values":
                made = True
                c, b = o["values"]
                if err or o["after"] is None or o["after"][0] != list(c) or o["after"][1] != b:
                    return [w + f"holds {o['after']} instead of {o.get('values')} ({err})"]
                continue
            if repr(o["before"]) != repr(o["after"]):
                return [w + f"changed the model from {o['before']} to {o['after']}"]
            if a == "wrong_width":
                if not err:
                    return [w + "accepted the wrong number of features"]
                continue
            if o["before"] is None:
                if not err:
                    return [w + "predicted with a model that is not fitted"]
                continue
            coef, b = o["before"]
            if any(isnone(v) for v in coef + [b]):
                continue
            if err:
                return [w + f"failed with {err}"]
            f = names if a == "query" else o["names"]
            if any(c not in cols for c in f):
                continue
            X = np.array([[0.0 if isnone(v) else v for v in cols[c]] for c in f]).T
            want = X @ np.array(coef) + b
            tolp = 1e-9 * (np.abs(X) @ np.abs(np.array(coef)) + abs(b) + 1e-9)
            if len(o["pred"]) != len(want) or any(not close(g[0], x, 0, t) for g, x, t in zip(o["pred"], want, tolp)):
                return [w + f"predicts {str(o['pred'])[:150]} instead of {str(want.tolist())[:150]}"]
            if a == "predict_df" and not o["cols"]:
                return [w + "changed other columns"]
        return []

    def shape(self, p):
        return "lr.model|" + p["cls"] + "|" + ",".join(s["a"] for s in p["st"])
