"""A KDTree object shared by client threads: histories of additions, queries and refused calls."""
import math
import threading

import numpy as np
from polars_ds.spatial import KDTree

import common
from common import Exc, Op, col, op
from fam.knn import METRICS, dmat

FAR = 9999.0


def block(s, n, dim, kinds, jitter):
    X = np.array([col(s + 31 * j, n, kinds[j]) for j in range(dim)], dtype=float).T.reshape(n, dim)
    if jitter:
        X = X + np.random.default_rng(s).uniform(0, 1e-3, X.shape)
    return np.ascontiguousarray(X)


class Hist(Op):
    name = "kdt.history"

    def gen(self, rng):
        dim = rng.choice([1, 2, 2, 3, 5, 17])
        kinds = [["normal"], ["uniform", -5, 5], ["heavy"], ["walk"], ["grid", 3], ["grid", 8], ["const", 1.5]]
        grid = rng.random() < 0.25
        nthreads = rng.choice([1, 1, 2, 3])
        p = {"dim": dim, "kinds": [["grid", rng.choice([3, 8])] if grid else rng.choice(kinds) for _ in range(dim)], "metric": rng.choice(METRICS),
             "n0": rng.choice([1, 2, 5, 12, 17, 33, 70, 120]), "s": rng.getrandbits(30), "jitter": nthreads > 1 and not grid, "order": rng.choice(["C", "C", "F"])}
        exact = grid and nthreads == 1
        h = []
        for t in range(nthreads):
            calls = []
            for _ in range(rng.choice([2, 4, 6, 9]) if nthreads == 1 else rng.choice([2, 3, 5])):
                k = rng.choices(["add", "knn", "within", "count", "len", "bad"], [4, 4, 3, 2, 1, 2])[0]
                if k == "add" and nthreads > 1 and t > 1:
                    k = "knn"
                c = {"c": k, "s": rng.getrandbits(30), "n": rng.choice([1, 1, 2, 5, 16, 17, 33, 40]), "par": rng.choice([True, True, False])}
                if k == "knn":
                    c.update(k=rng.choice([1, 1, 2, 5, 12, 40]), eps=rng.choice([0.0, 0.0, 0.0, 0.3]), mb=rng.choice([FAR, FAR, 2.03, 0.5001]), self_=rng.random() < 0.5)
                elif k in ("within", "count"):
                    c.update(r=rng.choice([1.0, 2.0, 4.0, 25.0] if exact else [0.03, 0.37, 1.13, 4.71, 1e6]), vec=rng.random() < 0.3, sort=rng.random() < 0.5, dist=rng.random() < 0.5,
                             self_=rng.random() < 0.5)
                elif k == "bad":
                    c["how"] = rng.choice(["add_dim", "add_empty", "add_fortran", "add_1d", "knn_dim", "knn_k0", "knn_empty", "within_dim", "count_dim", "vec_len", "count_vec_len", "knn_1d"])
                calls.append(c)
            h.append(calls)
        p["threads"] = h
        return p

    def enlarge(self, p, rng):
        p["n0"] = rng.choice([3, 300, 1100, 3000])
        p["threads"] = p["threads"][:2]
        for c in rng.sample([c for t in p["threads"] for c in t], 1):
            c["n"] = rng.choice([130, 260, 520])
            if rng.random() < 0.5 and "k" in c:
                c["k"] = rng.choice([40, 300])
        return True

    def query(self, p, c, base):
        X = block(c["s"], c["n"], p["dim"], p["kinds"], p["jitter"])
        if c.get("self_"):  # points of the tree itself
            r = np.random.default_rng(c["s"])
            X = base[r.integers(0, len(base), c["n"])]
        return np.ascontiguousarray(X)

    def radius(self, c):
        if c["vec"] and c["n"] > 1:
            return np.random.default_rng(c["s"] + 9).uniform(0.1, 1.5, c["n"]) * c["r"]
        return c["r"]

    def run(self, p, ctx):
        base = block(p["s"], p["n0"], p["dim"], p["kinds"], p["jitter"])
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t = KDTree(np.asfortranarray(base) if p["order"] == "F" else base.copy(), distance=p["metric"])
        clock = []
        log = []

        def call(ti, ci, c):
            k = c["c"]
            if k == "add":
                return t.add(block(c["s"], c["n"], p["dim"], p["kinds"], p["jitter"])) is t
            if k == "len":
                return (len(t), t.count())
            if k == "bad":
                return self.bad(p, t, c)
            X = self.query(p, c, base)
            keep = X.copy()
            if k == "knn":
                r = t.knn(X, c["k"], epsilon=c["eps"], max_dist_bound=c["mb"], parallel=c["par"])
            elif k == "within":
                r = t.within(X, self.radius(c), sort=c["sort"], return_dist=c["dist"], parallel=c["par"])
            else:
                r = t.within_count(X, self.radius(c), parallel=c["par"])
            if not np.array_equal(keep, X):
                raise AssertionError("the query matrix was modified")
            return r

        def client(ti):
            for ci, c in enumerate(p["threads"][ti]):
                clock.append(1)
                a = len(clock)
                try:
                    r = call(ti, ci, c)
                except BaseException as e:
                    r = Exc(e)
                clock.append(1)
                log.append((ti, ci, a, len(clock), r))
                ctx.preempt()

        th = [threading.Thread(target=client, args=(i,), daemon=True) for i in range(1, len(p["threads"]))]
        for x in th:
            x.start()
        client(0)
        for x in th:
            x.join()
        # the end state: everything in the tree, by number
        far = block(p["s"], 1, p["dim"], p["kinds"], p["jitter"])
        try:
            end = sorted(t.within(far, 1e300, return_dist=True)[0])
        except BaseException as e:
            end = Exc(e)
        return {"log": log, "end": end, "len": t.count()}

    def bad(self, p, t, c):
        d = p["dim"]
        X = np.zeros((c["n"], d))
        W = np.zeros((c["n"], d + 1))
        how = c["how"]
        if how == "add_dim":
            return t.add(W)
        if how == "add_empty":
            return t.add(np.zeros((0, d)))
        if how == "add_fortran":
            if d == 1 or c["n"] == 1:
                raise ValueError("contiguous either way")
            return t.add(np.asfortranarray(X))
        if how == "add_1d":
            return t.add(np.zeros(d))
        if how == "knn_dim":
            return t.knn(W, 1, parallel=c["par"])
        if how == "knn_k0":
            return t.knn(X, 0, parallel=c["par"])
        if how == "knn_empty":
            return t.knn(np.zeros((0, d)), 1)
        if how == "knn_1d":
            return t.knn(np.zeros(d), 1)
        if how == "within_dim":
            return t.within(W, 1.0, parallel=c["par"])
        if how == "count_dim":
            return t.within_count(W, 1.0, parallel=c["par"])
        if how == "vec_len":
            return t.within(X, np.ones(c["n"] + 1), parallel=c["par"], return_dist=c["n"] % 2 == 0)
        return t.within_count(X, np.ones(c["n"] + 1), parallel=c["par"])

    # ------------------------------------------------------------ judging
    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"kdt: {r.type}: {r.msg} for {common.brief(p)}"]
        base = block(p["s"], p["n0"], p["dim"], p["kinds"], p["jitter"])
        log = sorted(r["log"], key=lambda x: x[2])
        where = lambda ti, ci: f"kdt.{p['threads'][ti][ci]['c']} (thread {ti}, call {ci})"
        adds = []
        for ti, ci, a, b, v in log:
            c = p["threads"][ti][ci]
            if c["c"] == "bad":
                if not isinstance(v, Exc):
                    return [f"{where(ti, ci)}: {c['how']} was accepted, for {common.brief(p)}"]
                if v.type in ("PanicException", "AssertionError", "BaseException"):
                    return [f"{where(ti, ci)}: {c['how']} ended in {v}"]
            elif isinstance(v, Exc):
                return [f"{where(ti, ci)} raised {v.type}: {v.msg[:200]} for {common.brief(p)}"]
            elif c["c"] == "add":
                if v is not True:
                    return [f"{where(ti, ci)} did not return the tree"]
                adds.append((a, b, block(c["s"], c["n"], p["dim"], p["kinds"], p["jitter"])))
        total = p["n0"] + sum(len(x[2]) for x in adds)
        if r["len"] != total:
            return [f"kdt: the tree has {r['len']} points, {total} were added, for {common.brief(p)}"]
        if isinstance(r["end"], Exc):
            return [f"kdt: the last query raised {r['end'].type}: {r['end'].msg[:200]}"]
        if [i for i, _ in r["end"]] != list(range(total)):
            return [f"kdt: the tree's points are numbered {str([i for i, _ in r['end']])[:200]}, for {common.brief(p)}"]
        # the order in which the additions took effect
        far = base[:1]
        fits = []

        def orders(done, left, off):
            if len(fits) >= 24:
                return
            if not left:
                fits.append(list(done))
                return
            for j in left:
                if any(adds[k][1] < adds[j][0] for k in left if k != j):
                    continue  # another one had ended before this one began
                D = dmat(p["metric"], far, adds[j][2])[0]
                got = [r["end"][off + i][1] for i in range(len(D))]
                if all(abs(x - y) <= 1e-9 * max(1, y) for x, y in zip(got, D)):
                    orders(done + [j], [x for x in left if x != j], off + len(D))

        orders([], list(range(len(adds))), p["n0"])
        if not fits:
            return [f"kdt: the distances to the {total} points fit no order of the additions, for {common.brief(p)}"]
        msgs = []
        for order in fits:
            msgs = self.judge(p, log, base, adds, order, where)
            if not msgs:
                return []
        return msgs

    def judge(self, p, log, base, adds, order, where):
        allp = np.concatenate([base] + [adds[j][2] for j in order])
        size = [len(base)]
        for j in order:
            size.append(size[-1] + len(adds[j][2]))
        last = {}  # a later query of the same thread must not see less
        for ti, ci, a, b, v in log:
            c = p["threads"][ti][ci]
            if c["c"] in ("add", "bad"):
                continue
            lo = max([i + 1 for i, j in enumerate(order) if adds[j][1] < a] + [0])
            hi = max([i + 1 for i, j in enumerate(order) if adds[j][0] < b] + [0])
            why = None
            for m in range(max(lo, last.get(ti, 0)), hi + 1):
                why = self.fits(p, c, v, base, allp[: size[m]])
                if why is None:
                    last[ti] = m
                    break
            if why:
                return [f"{where(ti, ci)} {c} fits none of the states it may see ({lo}..{hi} of {len(order)} additions): {why}, for {common.brief(p)}"]
        return []

    def fits(self, p, c, v, base, P):
        k = c["c"]
        if k == "len":
            return None if v[0] == len(P) or v[1] == len(P) else f"{v} instead of {len(P)}"
        X = self.query(p, c, base)
        D = dmat(p["metric"], X, P)
        if k == "knn":
            d, i = v
            if d.dtype == np.uint32:
                d, i = i, d
            if d.shape != (len(X), c["k"]) or i.shape != d.shape:
                return f"shapes {d.shape}, {i.shape}"
            for q in range(len(X)):
                want = sorted(x for x in D[q] if x <= c["mb"])[: c["k"]]
                found = [int(x) for x in i[q] if x != 0xFFFFFFFF]
                if len(set(found)) != len(found) or any(x >= len(P) for x in found):
                    return f"row {q}: neighbours {found} of {len(P)} points"
                if any(x != 0xFFFFFFFF for x in i[q][len(found):]) or not all(math.isinf(x) for x in d[q][len(found):]):
                    return f"row {q}: padding {i[q]} {d[q]}"
                for x, y in zip(found, d[q]):
                    if abs(D[q][x] - y) > 1e-9 * max(1.0, y):
                        return f"row {q}: point {x} is at {D[q][x]}, not {y}"
                    if y > c["mb"] * (1 + 1e-9):
                        return f"row {q}: point at {y} beyond the bound {c['mb']}"
                if any(y < x - 1e-12 for x, y in zip(d[q], d[q][1: len(found)])):
                    return f"row {q}: not in order of distance {d[q]}"
                if c["eps"] == 0:
                    near = any(abs(x - c["mb"]) < 1e-9 for x in D[q])
                    if len(found) != len(want) and not near:
                        return f"row {q}: {len(found)} neighbours instead of {len(want)}"
                    if any(abs(x - y) > 1e-9 * max(1.0, y) for x, y in zip(d[q], want)):
                        return f"row {q}: distances {d[q]} instead of {want}"
                elif any(x > y + c["eps"] + 1e-9 for x, y in zip(d[q][: len(found)], want)):
                    return f"row {q}: distances {d[q]} are further than epsilon from {want}"
                elif len(found) < len(want) and want[len(found)] + c["eps"] < c["mb"] - 1e-9:
                    return f"row {q}: {len(found)} neighbours instead of {len(want)} (epsilon {c['eps']})"
            return None
        R = self.radius(c)
        R = R if isinstance(R, np.ndarray) else np.full(len(X), R)
        ex = all(k[0] in ("grid", "const") for k in p["kinds"]) and not p["jitter"] and not c["vec"]
        e = 0.0 if ex else 1e-9
        if len(v) != len(X):
            return f"{len(v)} rows instead of {len(X)}"
        for q in range(len(X)):
            inside = int((D[q] < R[q] - e).sum() if e else (D[q] <= R[q]).sum())
            edge = int((np.abs(D[q] - R[q]) <= e).sum()) if e else 0
            if k == "count":
                if not inside <= int(v[q]) <= inside + edge:
                    return f"row {q}: {v[q]} points instead of {inside} within {R[q]}"
                continue
            ids = [x[0] for x in v[q]] if c["dist"] else list(v[q])
            if len(set(ids)) != len(ids) or any(x >= len(P) for x in ids):
                return f"row {q}: {ids} of {len(P)} points"
            if any(D[q][x] > R[q] + e for x in ids) or not inside <= len(ids) <= inside + edge:
                return f"row {q}: {len(ids)} points instead of {inside} within {R[q]}"
            if c["dist"] and any(abs(D[q][x] - y) > 1e-9 * max(1.0, y) for x, y in v[q]):
                return f"row {q}: wrong distance in {v[q]}"
            ds = [D[q][x] for x in ids]
            if c["sort"] and any(y < x - 1e-12 for x, y in zip(ds, ds[1:])):
                return f"row {q}: not sorted by distance"
        return None

    def shape(self, p):
        return f"kdt.history|{p['dim']}|{len(p['threads'])}|{'-'.join(c['c'] for c in p['threads'][0])}"


op(Hist)
