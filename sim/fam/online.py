"""OnlineLR: after any history of updates, removals and restorations the model is the regression on the
rows that history leaves."""
import math
import random
import sys
import threading

import numpy as np
from polars_ds.linear_models import OnlineLR

import common
from common import Exc, Op, brief, close, op


def rows(seed, n, k, noise=0.5, scale=1.0):
    r = np.random.default_rng(seed)
    X = r.normal(0, scale, (n, k)) + r.normal(0, 1, k) * 0.5
    b = r.normal(0, 2, k)
    return X, X @ b + r.normal() + noise * r.normal(size=n)


class Ref:
    """Rows with weights; the coefficients are those of the weighted (ridge) problem."""

    def __init__(self, bias, lam):
        self.bias, self.lam, self.relam = bias, lam, lam
        self.rows = None
        self.worst = 1.0
        self.steps = 0

    def fit(self, X, y):
        self.rows = [(x, float(t), 1.0) for x, t in zip(X, y)]
        self.lam = self.relam
        self.worst, self.steps = 1.0, 0
        self.note()

    def add(self, x, t, c):
        self.rows.append((np.asarray(x, float).ravel(), float(t), c))
        self.steps += 1
        self.note()

    def gram(self):
        X = np.array([r[0] for r in self.rows])
        if self.bias:
            X = np.hstack([X, np.ones((len(X), 1))])
        W = np.array([r[2] for r in self.rows])
        y = np.array([r[1] for r in self.rows])
        G = X.T @ (X * W[:, None])
        k1 = X.shape[1] - self.bias
        G[np.arange(k1), np.arange(k1)] += self.lam
        return G, X.T @ (W * y)

    def note(self):
        G, c = self.gram()
        e = np.linalg.eigvalsh(G)
        cond = e[-1] / e[0] if e[0] > 0 else math.inf
        self.worst = max(self.worst, cond * max(1.0, e[-1]))

    def tol(self):
        return max(1e-9, 1e-13 * self.worst * (1 + self.steps)) if np.isfinite(self.worst) else math.inf

    def values(self):
        G, c = self.gram()
        return np.linalg.solve(G, c), np.linalg.inv(G)


def compare(m, ref):
    """The model against the reference; a message or None."""
    tol = ref.tol()
    if not tol < 1e-3:
        return None
    beta, inv = ref.values()
    k = len(beta) - ref.bias
    got = [float(v) for v in m["coeffs"]] + [m["bias"]]
    want = [float(v) for v in beta] + ([] if ref.bias else [0.0])
    if len(got) != len(want):
        return f"{len(got) - 1} coefficients instead of {k}"
    sc = float(np.max(np.abs(beta))) + 1.0
    for i, (a, b) in enumerate(zip(got, want)):
        if a is None or not close(a, b, 0, tol * sc):
            return f"coefficients and bias {got} instead of {want} (+-{tol * sc:.1e})"
    gi = np.array(m["inv"])
    if gi.shape != inv.shape:
        return f"inverse of shape {gi.shape} instead of {inv.shape}"
    si = float(np.max(np.abs(inv)))
    if float(np.max(np.abs(gi - inv))) > tol * 10 * si:
        return f"inverse off by {float(np.max(np.abs(gi - inv))):.3e} of {si:.3e}"
    return None


def snapshot(m):
    if not m.is_fit():
        return None
    return {"coeffs": [float(v) for v in m.coeffs()], "bias": m.bias(), "inv": m.inv().tolist()}


def same_snap(a, b):
    return repr(a) == repr(b)


STEPS = {"fit": 2, "update": 12, "remove": 5, "scale": 3, "nan": 2, "width": 1, "two_rows": 1, "restore": 2, "predict": 2, "badfit": 1, "nanfit": 1, "forget_all": 1}


@op
class History(Op):
    name = "online.history"

    def gen(self, rng):
        k = rng.choice([1, 2, 3, 5])
        p = {"k": k, "bias": rng.random() < 0.5, "lam": rng.choice([0.0, 0.0, 0.1, 4.0]), "s": rng.getrandbits(30), "scale": rng.choice([0.3, 1.0, 1.0, 10.0]),
             "n0": k + rng.choice([1, 2, 3, 8, 20]) + 1, "early": rng.random() < 0.2}
        p["st"] = [rng.choices(list(STEPS), list(STEPS.values()))[0] for _ in range(rng.choice([3, 8, 15, 30, 60]))]
        p["r"] = rng.getrandbits(30)
        return p

    def enlarge(self, p, rng):
        p["n0"] = rng.choice([300, 600, 1100, 2100])
        p["early"] = False
        return True

    def run(self, p, ctx):
        rng = random.Random(p["r"])
        k = p["k"]
        out = []
        m = OnlineLR(lambda_=p["lam"], has_bias=p["bias"])
        ref = Ref(p["bias"], p["lam"])
        seed = p["s"]

        def rec(what, msg):
            if msg:
                out.append(f"{what}: {msg}")

        if p["early"]:
            for what, f in (("update", lambda: m.update(np.ones(k), 1.0)), ("predict", lambda: m.predict(np.ones((2, k)))), ("coeffs", lambda: m.coeffs())):
                try:
                    f()
                    rec("early " + what, "accepted before the fit")
                except ValueError:
                    pass
            repr(m)
        X, y = rows(seed, p["n0"], k, scale=p["scale"])
        m.fit(X, y if seed % 2 else y.reshape(-1, 1))
        ref.fit(X, y)
        rec("fit", compare(snapshot(m), ref))
        for i, st in enumerate(p["st"]):
            if out:
                break
            seed += 1
            X, y = rows(seed, p["n0"], k, scale=p["scale"])
            before = snapshot(m)
            w = f"step {i} {st}"
            if st == "fit":
                m.fit(X if i % 2 else np.asfortranarray(X), y)
                ref.fit(X, y)
            elif st == "update":
                x, t = X[0], float(y[0])
                form = rng.choice(["1d", "2d", "int", "arr1", "arr2", "np"])
                if form == "int":
                    t = float(round(t))
                m.update(x if form != "2d" else x.reshape(1, -1), {"int": int(t), "arr1": np.array([t]), "arr2": np.array([[t]]), "np": np.float64(t)}.get(form, t))
                ref.add(x, t, 1.0)
            elif st == "scale":
                c = rng.choice([0.25, 0.5, 2.0, 3.0])
                m.update(X[0], float(y[0]), c)
                ref.add(X[0], y[0], c)
            elif st in ("remove", "forget_all"):
                # only rows that are there, and never so many that the problem is left undetermined
                live = [r for r in ref.rows if r[2] == 1.0]
                tot = {}
                for r in ref.rows:
                    tot[(tuple(r[0]), r[1])] = tot.get((tuple(r[0]), r[1]), 0) + r[2]
                live = [r for r in live if tot[(tuple(r[0]), r[1])] == 1.0]
                nrem = 1 if st == "remove" else len(live)
                for _ in range(nrem):
                    if len(live) <= k + 2:
                        break
                    r = live.pop(rng.randrange(len(live)))
                    m.update(r[0], r[1], -1.0)
                    ref.add(r[0], r[1], -1.0)
            elif st == "nan":
                x, t = X[0].copy(), float(y[0])
                if rng.random() < 0.5:
                    x[rng.randrange(k)] = math.nan
                else:
                    t = math.nan
                m.update(x, t, rng.choice([1.0, -1.0]))
                if not same_snap(before, snapshot(m)):
                    rec(w, "a row with NaN changed the model")
            elif st in ("width", "two_rows", "badfit", "nanfit"):
                try:
                    if st == "width":
                        m.update(np.ones(k + rng.choice([1, 2])), 1.0)
                    elif st == "two_rows":
                        m.update(X[0], y[:2])
                    elif st == "badfit":
                        m.fit(X, y[:-1]) if rng.random() < 0.5 else m.fit(X[:0], y[:0])
                    else:
                        X2 = X.copy()
                        X2[0, 0] = math.nan
                        m.fit(X2, y)
                    rec(w, "was accepted")
                except Exception as e:
                    if isinstance(e, (AttributeError, TypeError)):
                        rec(w, f"{type(e).__name__}: {e}")
                if not same_snap(before, snapshot(m)):
                    rec(w, "a refused call changed the model")
            elif st == "restore":
                s = snapshot(m)
                m2 = OnlineLR.from_coeffs_bias_inverse(s["coeffs"], s["bias"], np.array(s["inv"]))
                if not same_snap(s, snapshot(m2)):
                    rec(w, f"restored as {str(snapshot(m2))[:200]} instead of {str(s)[:200]}")
                m = m2
                ref.relam = 0.0  # a restored model knows no penalty for later fits
            elif st == "predict":
                s = before
                g = m.predict(X).ravel()
                want = X @ np.array(s["coeffs"]) + s["bias"]
                if np.max(np.abs(g - want)) > 1e-9 * (np.max(np.abs(X) @ np.abs(np.array(s["coeffs"]))) + abs(s["bias"]) + 1):
                    rec(w, f"predicts {g[:4]} instead of {want[:4]}")
            rec(w, compare(snapshot(m), ref))
            if i % 4 == 0:
                ctx.preempt()
        return out

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"{self.name} raised {r.type}: {r.msg[:200]} for {brief(p)}"]
        return [f"{self.name} {m} for {brief(p)}" for m in r[:1]]

    def shape(self, p):
        return f"{self.name}|{p['k']}|{p['bias']}|{p['lam'] > 0}|{','.join(p['st'][:6])}"


@op
class Shared(Op):
    """One model updated by several threads: every update takes effect exactly once, whatever the order."""

    name = "online.shared"

    def gen(self, rng):
        k = rng.choice([1, 2, 3])
        return {"k": k, "bias": rng.random() < 0.5, "lam": rng.choice([0.0, 0.5]), "s": rng.getrandbits(30), "n0": k + rng.choice([4, 10, 25]),
                "nt": rng.choice([2, 2, 3, 4]), "per": rng.choice([2, 5, 10]), "reader": rng.random() < 0.5}

    def run(self, p, ctx):
        m = OnlineLR(lambda_=p["lam"], has_bias=p["bias"])
        X, y = rows(p["s"], p["n0"], p["k"])
        m.fit(X, y)
        ref = Ref(p["bias"], p["lam"])
        ref.fit(X, y)
        errs = []
        plan = []
        for t in range(p["nt"]):
            Z, z = rows(p["s"] + 1 + t, p["per"], p["k"])
            plan.append([(Z[i], float(z[i]), 1.0) for i in range(p["per"])])
        plan[0] = [(X[0], float(y[0]), -1.0)] + plan[0]  # one thread takes a row back
        plan[-1] = plan[-1] + [(plan[-1][0][0], plan[-1][0][1], -1.0)]

        trace = sys.gettrace()

        def work(t):
            sys.settrace(trace)
            try:
                for x, v, c in plan[t]:
                    m.update(x, v, c)
                    ctx.preempt()
            except BaseException as e:
                errs.append(f"{type(e).__name__}: {e}")

        def read():
            try:
                for _ in range(p["per"]):
                    c, g = m.coeffs(), m.predict(X)
                    if not (np.all(np.isfinite(c)) and np.all(np.isfinite(g))):
                        errs.append("a reader saw values that are not finite")
                    ctx.preempt()
            except BaseException as e:
                errs.append(f"reader {type(e).__name__}: {e}")

        ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(p["nt"])]
        if p["reader"]:
            ts.append(threading.Thread(target=read, daemon=True))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for pl_ in plan:
            for x, v, c in pl_:
                ref.add(x, v, c)
        d = compare(snapshot(m), ref)
        return errs + ([d] if d else [])

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"{self.name} raised {r.type}: {r.msg[:200]} for {brief(p)}"]
        return [f"{self.name} {m} for {brief(p)}" for m in r[:1]]
