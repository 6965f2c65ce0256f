"""Nearest-neighbour expressions against brute force."""
import math

import numpy as np
import polars as pl
import polars_ds as pds

from common import ExprOp, close, col, op, with_nulls

METRICS = ["l1", "l2", "sql2", "inf"]


def dist(metric, a, b):
    d = np.abs(np.asarray(a, float) - np.asarray(b, float))
    if metric == "l1":
        return float(d.sum())
    if metric == "l2":
        return float(np.sqrt((d * d).sum()))
    if metric == "sql2":
        return float((d * d).sum())
    return float(d.max())


def dmat(metric, A, B):
    with np.errstate(all="ignore"):
        d = np.abs(A[:, None, :] - B[None, :, :])
        if metric == "l1":
            return d.sum(-1)
        if metric == "l2":
            return np.sqrt((d * d).sum(-1))
        if metric == "sql2":
            return (d * d).sum(-1)
        if metric == "cosine":
            return 1.0 - A @ B.T / np.sqrt((A * A).sum(1)[:, None] * (B * B).sum(1)[None, :])
        if metric in ("h", "haversine"):
            a, b = np.radians(A)[:, None, :], np.radians(B)[None, :, :]
            z = np.sin((b[..., 0] - a[..., 0]) / 2) ** 2 + np.cos(a[..., 0]) * np.cos(b[..., 0]) * np.sin((b[..., 1] - a[..., 1]) / 2) ** 2
            return 2 * 6371.0 * np.arcsin(np.sqrt(z))
        return d.max(-1)


def gen_points(rng, ties=True):
    kinds = [["normal"], ["uniform", -5, 5], ["heavy"], ["sin", 0.7], ["walk"]]
    if ties:
        kinds += [["grid", 3], ["grid", 8], ["const", 1.5]]
    dim = rng.choice([1, 1, 2, 2, 3, 4, 6, 17])
    n = rng.choice([1, 2, 3, 5, 8, 11, 12, 17, 25, 33, 50, 70, 110])
    grid = ties and rng.random() < 0.2  # whole numbers: distances exactly at a radius or at a box's edge
    return {
        "n": n, "dim": dim, "kinds": [["grid", rng.choice([3, 8, 12])] if grid else rng.choice(kinds) for _ in range(dim)], "s": rng.getrandbits(30),
        "nulls": rng.choice([0, 0, 0.1, 0.3]), "metric": rng.choice(METRICS), "k": rng.choice([1, 1, 2, 3, 5, 12]),
        "par": rng.choice([True, True, False]),
    }


def points(p):
    cols = {}
    for j in range(p["dim"]):
        v = col(p["s"] + j * 101, p["n"], p["kinds"][j])
        if p["nulls"]:
            v = with_nulls(v, p["s"] + j, p["nulls"])
        cols[f"x{j}"] = v
    return cols


def feats(p):
    return [f"x{j}" for j in range(p["dim"])]


def mat(cols, p, idx):
    return np.array([[np.nan if cols[f][i] is None else cols[f][i] for f in feats(p)] for i in idx], dtype=float).reshape(len(idx), p["dim"])


def schema_of(p, extra=None):
    s = {f: pl.Float64 for f in feats(p)}
    s.update(extra or {})
    return s


TOL = 1e-9


def exact(p):
    """Whether all distances are exact in floating point, so that "at most r" has one answer."""
    return all(k[0] in ("grid", "const") for k in p["kinds"])


def gen_r(rng, p):
    if exact(p):
        return rng.choice([1.0, 2.0, 4.0, 5.0, 25.0] + ([9.0] if p["dim"] > 2 else []))
    return rng.choice([0.03, 0.37, 1.13, 4.71])


def edge(p):
    return 0.0 if exact(p) else 1e-9


def nb_diff(ids, dists, cand, D, k, bound, exact_k=True):
    """Checks one row's neighbours: `cand` are eligible ids, D their distances, bound inclusive."""
    order = np.argsort(D, kind="stable")
    want = [float(D[o]) for o in order if D[o] <= bound][:k]
    byid = dict(zip(cand, D))
    if len(ids) != len(set(ids)):
        return f"duplicate neighbours {ids}"
    for i in ids:
        if i not in byid:
            return f"{i} is not an eligible neighbour"
    got = [float(byid[i]) for i in ids]
    if len(got) != len(want):
        # a distance equal to the bound up to rounding may fall on either side
        near = [x for x in D if abs(x - bound) <= TOL * max(1, abs(bound))]
        if not near:
            return f"{len(got)} neighbours instead of {len(want)} (distances {got} want {want})"
    for a, b in zip(got, want):
        if not close(a, b, 1e-9, 1e-9):
            return f"distances {got} instead of {want}"
    if dists is not None:
        for a, b in zip(dists, got):
            if not close(a, b, 1e-9, 1e-9):
                return f"reported distance {a} instead of {b}"
    return None


class _Knn(ExprOp):
    with_dist = False

    def params(self, rng):
        p = gen_points(rng)
        p["em"] = rng.choice([None, None, 0.5])
        p["dm"] = rng.choice([None, None, 0.7])
        p["mb"] = rng.choice([99999.0, 99999.0, 1.0])
        p["iseed"] = rng.choice([0, 1])
        return p

    def columns(self, p):
        c = points(p)
        n = p["n"]
        c["id"] = list(range(n)) if not p["iseed"] else [int(x) for x in np.random.default_rng(p["s"] + 5).permutation(n) + 1000]
        if p["em"]:
            c["em"] = with_nulls(col(p["s"] + 900, n, ["bool", p["em"]]), p["s"] + 3, 0.1)
        if p["dm"]:
            c["dm"] = with_nulls(col(p["s"] + 901, n, ["bool", p["dm"]]), p["s"] + 4, 0.1)
        return c

    def schema(self, p):
        e = {"id": pl.Int64}
        if p["em"]:
            e["em"] = pl.Boolean
        if p["dm"]:
            e["dm"] = pl.Boolean
        return schema_of(p, e)

    def expr(self, p):
        return pds.query_knn_ptwise(
            *feats(p), index="id", k=p["k"], dist=p["metric"], parallel=p["par"], return_dist=self.with_dist,
            eval_mask="em" if p["em"] else None, data_mask="dm" if p["dm"] else None, max_bound=p["mb"],
        )

    def compare(self, p, cols, idx, got):
        if len(got) != len(idx):
            return f"{len(got)} values for {len(idx)} rows"
        X = mat(cols, p, idx)
        ok = ~np.isnan(X).any(1)
        elig = ok.copy()
        if p["dm"]:
            elig &= np.array([cols["dm"][i] is True for i in idx], dtype=bool)
        cand = [cols["id"][i] for i, e in zip(idx, elig) if e]
        D = dmat(p["metric"], X, X[elig])
        for r, i in enumerate(idx):
            g = got[r]
            if self.with_dist and g is not None:
                ids, ds = g["idx"], g["dist"]
                if (ids is None) != (ds is None):
                    return f"row {r}: half a result {g}"
            else:
                ids, ds = g, None
            null = not ok[r] or (p["em"] and cols["em"][i] is not True)
            if null:
                if ids is not None:
                    return f"row {r}: {ids} instead of null"
                continue
            if ids is None:
                return f"row {r}: null instead of neighbours"
            d = nb_diff(ids, ds, cand, D[r], p["k"] + 1, p["mb"])
            if d:
                return f"row {r}: {d}"
            if ds is not None and len(ds) != len(ids):
                return f"row {r}: {len(ids)} indices and {len(ds)} distances"
        return None


@op
class KnnPtwise(_Knn):
    name = "knn.ptwise"


@op
class KnnPtwiseDist(_Knn):
    name = "knn.ptwise_dist"
    with_dist = True


@op
class KnnFreq(_Knn):
    name = "knn.freq_cnt"
    allow = ("select", "lazy", "chunked", "sliced", "filter")

    def params(self, rng):
        p = super().params(rng)
        p["kinds"] = [rng.choice([["normal"], ["uniform", -5, 5]]) for _ in range(p["dim"])]
        p["mb"] = 99999.0
        return p

    def expr(self, p):
        return pds.query_knn_freq_cnt(
            *feats(p), index="id", k=p["k"], dist=p["metric"], parallel=p["par"],
            eval_mask="em" if p["em"] else None, data_mask="dm" if p["dm"] else None, max_bound=p["mb"],
        )

    def compare(self, p, cols, idx, got):
        X = mat(cols, p, idx)
        ok = ~np.isnan(X).any(1)
        elig = ok.copy()
        if p["dm"]:
            elig &= np.array([cols["dm"][i] is True for i in idx], dtype=bool)
        cand = [cols["id"][i] for i, e in zip(idx, elig) if e]
        D = dmat(p["metric"], X, X[elig])
        cnt = {}
        for r, i in enumerate(idx):
            if not ok[r] or (p["em"] and cols["em"][i] is not True):
                continue
            for o in np.argsort(D[r], kind="stable")[: p["k"] + 1]:
                cnt[cand[o]] = cnt.get(cand[o], 0) + 1
        have = {}
        for g in got:
            if g is None:
                return f"null entry"
            have[g["id"]] = g["count"]
        if len(have) != len(got):
            return f"an index is counted twice: {got}"
        if have != cnt:
            return f"counts {have} instead of {cnt}"
        cs = [g["count"] for g in got]
        if cs != sorted(cs, reverse=True):
            return "counts are not sorted"
        return None


@op
class DistKth(ExprOp):
    name = "knn.dist_kth"

    def params(self, rng):
        p = gen_points(rng)
        p["mb"] = rng.choice([99999.0, 99999.0, 2.0])
        return p

    def columns(self, p):
        return points(p)

    def schema(self, p):
        return schema_of(p)

    def expr(self, p):
        return pds.query_dist_from_kth_nb(*feats(p), k=p["k"], dist=p["metric"], parallel=p["par"], max_bound=p["mb"])

    def compare(self, p, cols, idx, got):
        if len(got) != len(idx):
            return f"{len(got)} values for {len(idx)} rows"
        X = mat(cols, p, idx)
        ok = ~np.isnan(X).any(1)
        D = dmat(p["metric"], X, X[ok])
        for r in range(len(idx)):
            if not ok[r]:
                if got[r] is not None:
                    return f"row {r}: {got[r]} instead of null"
                continue
            d = np.sort(D[r])
            w = [x for x in d if x <= p["mb"]][: p["k"] + 1]
            if any(abs(x - p["mb"]) < 1e-9 for x in d):
                continue
            if not w:
                if got[r] is not None:
                    return f"row {r}: {got[r]} instead of null"
            elif not close(got[r], w[-1], 1e-9, 1e-9):
                return f"row {r}: {got[r]} instead of {w[-1]}"
        return None


@op
class KnnAvg(ExprOp):
    name = "knn.avg"

    def params(self, rng):
        p = gen_points(rng, ties=False)
        p["kinds"] = [rng.choice([["normal"], ["uniform", -5, 5]]) for _ in range(p["dim"])]
        p["w"] = rng.random() < 0.5
        p["minb"] = rng.choice([1e-9, 1e-9, 0.3, 0.0])
        p["mb"] = rng.choice([99999.0, 2.0])
        return p

    def columns(self, p):
        c = points(p)
        c["t"] = col(p["s"] + 500, p["n"], ["normal", 3, 10])
        return c

    def schema(self, p):
        return schema_of(p, {"t": pl.Float64})

    def expr(self, p):
        return pds.query_knn_avg(
            *feats(p), target="t", k=p["k"], dist=p["metric"], weighted=p["w"], parallel=p["par"], min_bound=p["minb"], max_bound=p["mb"]
        )

    def ref(self, p, cols, idx):
        X = mat(cols, p, idx)
        ok = ~np.isnan(X).any(1)
        t = np.array([cols["t"][i] for i, o in zip(idx, ok) if o])
        D = dmat(p["metric"], X, X[ok])
        out = []
        for r in range(len(idx)):
            if not ok[r]:
                out.append(None)
                continue
            o = np.argsort(D[r], kind="stable")
            sel = [i for i in o if D[r][i] <= p["mb"]][: p["k"] + 1]
            sel = [i for i in sel if D[r][i] >= p["minb"]]
            if not sel:
                out.append(None)
                continue
            if p["w"]:
                w = 1 / (1 + D[r][sel]) if p["minb"] <= np.finfo(float).eps else 1 / D[r][sel]
                out.append(float((w * t[sel]).sum() / w.sum()))
            else:
                out.append(float(t[sel].mean()))
        return out


@op
class RadiusPtwise(ExprOp):
    name = "knn.radius"

    def params(self, rng):
        p = gen_points(rng)
        p["nulls"] = 0
        p["r"] = gen_r(rng, p)
        p["sort"] = rng.choice([True, False])
        return p

    def columns(self, p):
        c = points(p)
        c["id"] = list(range(p["n"]))
        return c

    def schema(self, p):
        return schema_of(p, {"id": pl.UInt32})

    def expr(self, p):
        return pds.query_radius_ptwise(*feats(p), index="id", r=p["r"], dist=p["metric"], sort=p["sort"], parallel=p["par"])

    def compare(self, p, cols, idx, got):
        if len(got) != len(idx):
            return f"{len(got)} values for {len(idx)} rows"
        X = mat(cols, p, idx)
        D = dmat(p["metric"], X, X)
        for r in range(len(idx)):
            g = got[r]
            if g is None:
                return f"row {r}: null"
            pos = {cols["id"][i]: c for c, i in enumerate(idx)}
            if any(i not in pos for i in g) or len(set(g)) != len(g):
                return f"row {r}: bad neighbours {g}"
            gp = [pos[i] for i in g]
            for c in range(len(idx)):
                if abs(D[r][c] - p["r"]) < edge(p):
                    continue
                if (D[r][c] <= p["r"]) != (c in set(gp)):
                    return f"row {r}: point at distance {D[r][c]} {'missing' if D[r][c] <= p['r'] else 'reported'} for r={p['r']}"
            if p["sort"]:
                ds = [D[r][c] for c in gp]
                if any(b < a - 1e-12 for a, b in zip(ds, ds[1:])):
                    return f"row {r}: not sorted by distance"
        return None


@op
class RadiusFreq(RadiusPtwise):
    name = "knn.radius_freq"
    allow = ("select", "lazy", "chunked", "sliced", "filter")

    def expr(self, p):
        return pds.query_radius_freq_cnt(*feats(p), index="id", r=p["r"], dist=p["metric"], parallel=p["par"])

    def compare(self, p, cols, idx, got):
        X = mat(cols, p, idx)
        D = dmat(p["metric"], X, X)
        if (np.abs(D - p["r"]) < edge(p)).any():
            return None
        want = {cols["id"][i]: int((D[r] <= p["r"]).sum()) for r, i in enumerate(idx)}
        want = {k: v for k, v in want.items() if v}
        have = {g["id"]: g["count"] for g in got}
        if len(have) != len(got) or have != want:
            return f"{have} instead of {want}"
        return None


@op
class NbCnt(ExprOp):
    name = "knn.nb_cnt"

    def params(self, rng):
        p = gen_points(rng)
        p["r"] = rng.choice([gen_r(rng, p), "col"])
        return p

    def columns(self, p):
        c = points(p)
        if p["r"] == "col":
            c["r"] = with_nulls(col(p["s"] + 700, p["n"], ["int", 1, 6] if exact(p) else ["uniform", 0.05, 5]), p["s"] + 1, 0.1)
        return c

    def schema(self, p):
        return schema_of(p, {"r": pl.Float64} if p["r"] == "col" else None)

    def expr(self, p):
        return pds.query_nb_cnt(*feats(p), r="r" if p["r"] == "col" else p["r"], dist=p["metric"], parallel=p["par"])

    def compare(self, p, cols, idx, got):
        if len(got) != len(idx):
            return f"{len(got)} values for {len(idx)} rows"
        X = mat(cols, p, idx)
        ok = ~np.isnan(X).any(1)
        D = dmat(p["metric"], X, X[ok])
        if p["r"] == "col" and len(idx) == 1 and cols["r"][idx[0]] is None:
            return None  # one row, null radius: a scalar null radius has no documented meaning
        for r, i in enumerate(idx):
            rad = cols["r"][i] if p["r"] == "col" else p["r"]
            if rad is None or not ok[r]:
                if got[r] is not None:
                    return f"row {r}: {got[r]} instead of null"
                continue
            if (np.abs(D[r] - rad) < edge(p)).any():
                continue
            w = int((D[r] <= rad).sum())
            if got[r] != w:
                return f"row {r}: {got[r]} neighbours instead of {w}"
        return None


@op
class WithinDist(ExprOp):
    name = "knn.within_dist_from"

    def params(self, rng):
        p = gen_points(rng)
        p["nulls"] = 0
        p["r"] = rng.choice([0.37, 1.13, 4.71, "col"])
        if rng.random() < 0.25:
            p["metric"] = rng.choice(["cosine", "h", "haversine"])
            if p["metric"] == "cosine":
                p["r"] = rng.choice([0.1, 0.37, 1.13, "col"])
            else:
                p["dim"], p["r"] = 2, rng.choice([90.7, 413.0, 900.0])
                p["kinds"] = [rng.choice([["uniform", -5, 5], ["normal"], ["uniform", -80, 80]]), rng.choice([["uniform", -5, 5], ["uniform", -179, 179]])]
        p["pt"] = [round(rng.uniform(-3, 3), 3) for _ in range(p["dim"])]
        return p

    def columns(self, p):
        c = points(p)
        if p["r"] == "col":
            c["r"] = col(p["s"] + 700, p["n"], ["uniform", 0.05, 5])
        return c

    def schema(self, p):
        return schema_of(p, {"r": pl.Float64} if p["r"] == "col" else None)

    def expr(self, p):
        return pds.within_dist_from(*feats(p), pt=p["pt"], r=pl.col("r") if p["r"] == "col" else p["r"], dist=p["metric"])

    def compare(self, p, cols, idx, got):
        if len(got) != len(idx):
            return f"{len(got)} values for {len(idx)} rows"
        X = mat(cols, p, idx)
        D = dmat(p["metric"], X, np.array([p["pt"]]))[:, 0]
        for r, i in enumerate(idx):
            rad = cols["r"][i] if p["r"] == "col" else p["r"]
            if abs(D[r] - rad) < 1e-9 * max(1, abs(rad)):
                continue
            if got[r] != bool(D[r] <= rad):
                return f"row {r}: {got[r]} for a point at {p['metric']} distance {D[r]} and r={rad}"
        return None


@op
class IsKnn(WithinDist):
    name = "knn.is_knn_from"

    def params(self, rng):
        p = super().params(rng)
        p["r"] = 1.0
        return p

    def expr(self, p):
        return pds.is_knn_from(*feats(p), pt=p["pt"], k=p["k"], dist=p["metric"])

    def compare(self, p, cols, idx, got):
        if len(got) != len(idx):
            return f"{len(got)} values for {len(idx)} rows"
        X = mat(cols, p, idx)
        D = dmat(p["metric"], X, np.array([p["pt"]]))[:, 0]
        if not len(idx):
            return None
        if any(g for g, bad in zip(got, np.isnan(D)) if bad):
            return "a row at no distance (NaN) counts as a neighbour"
        k = min(p["k"], int((~np.isnan(D)).sum()))
        if not k:
            return None
        kth = np.sort(D)[k - 1]
        tol = 1e-9 * max(1, kth)
        for r in range(len(idx)):  # equal up to rounding: either side
            if not np.isnan(D[r]) and abs(D[r] - kth) > tol and got[r] != bool(D[r] < kth):
                return f"row {r}: {got[r]} at distance {D[r]}, k-th is {kth}"
        if sum(got) < k:
            return f"{sum(got)} rows instead of {k} (k-th distance {kth})"
        return None
