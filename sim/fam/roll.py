"""Rolling and recursive regression: every row against a fresh fit of the rows its window covers."""
import math

import numpy as np
import polars as pl
import polars_ds as pds

import common
from common import Exc, ExprOp, brief, close, deliver, op, parts
from fam.lr import EPS, F32P, NAMES, apply_policy, f32_expr, fill_value, gen_cols, gen_data, groups, isnone, solve

RK = [["normal"], ["normal"], ["uniform", -3, 3], ["normal", 1, 1], ["heavy"], ["grid", 6]]


class Rolling(ExprOp):
    name = "roll.rolling"

    def params(self, rng):
        p = gen_data(rng)
        p["kinds"] = [rng.choice(RK) for _ in range(p["k"])]
        p["n"] = max(p["n"], rng.choice([6, 13, 21, 60, 150]))
        p["bias"] = rng.random() < 0.5
        k = p["k"] + p["bias"]
        p["w"] = max(2, p["k"], rng.choice([k, k + 1, k + 2, k + 3, 2 * k + 2, 8, 15, 40]))
        p["m"] = rng.choice([None, None, k, k + 1, p["w"]])
        if p["m"] is not None:
            p["m"] = min(p["m"], p["w"])
        p["l2"] = rng.choice([0.0, 0.0, 0.1, 3.0])
        p["policy"] = rng.choice(["raise", "skip", "skip", "skip", "zero", "1.25", "ignore"])
        p["f32"] = rng.random() < F32P(0.1)
        p["runs"] = rng.random() < 0.5  # nulls in runs longer than a window
        return p

    def columns(self, p):
        cols, names = gen_cols(p)
        if p["nulls"] and p["runs"]:
            r = np.random.default_rng(p["s"] + 5)
            for _ in range(int(r.integers(1, 4))):
                a, ln = int(r.integers(0, p["n"])), int(r.integers(1, p["w"] + 3))
                c = (names + ["y"])[int(r.integers(0, len(names) + 1))]
                for i in range(a, min(p["n"], a + ln)):
                    cols[c][i] = None
        return cols

    def expr(self, p):
        xs = [pl.col(c) for c in NAMES[p["names"]][:p["k"]]]
        return f32_expr(p["f32"], lambda: pds.rolling_lin_reg(*xs, target="y", window_size=p["w"], add_bias=p["bias"], l2_reg=p["l2"], min_valid_rows=p["m"], null_policy=p["policy"]))

    def expect_error(self, p, cols):
        must = may = False
        names = NAMES[p["names"]][:p["k"]]
        for idx in groups(p["d"], p["n"]):
            nulls = any(cols[c][i] is None for c in names + ["y"] for i in idx)
            if nulls and p["policy"] == "raise":
                must = True
            elif len(idx) < p["k"] or self.few(p, cols, idx):
                may = True
        return "must" if must else "may" if may else None

    def few(self, p, cols, idx):
        return False

    def rows(self, p, cols, idx):
        """(features per row with policy applied, None if unusable; y; usable for fitting)"""
        names = NAMES[p["names"]][:p["k"]]
        X, ok = [], []
        for i in idx:
            x = [cols[c][i] for c in names]
            if p["policy"] not in ("raise", "skip", "ignore"):
                x = [fill_value(p["policy"]) if v is None else v for v in x]
            X.append(x)
            ok.append(not any(v is None for v in x) and cols["y"][i] is not None)
        return X, [cols["y"][i] for i in idx], ok

    def fits(self, p, X, y, ok):
        """Per row: the rows fitted, or None when there is no result."""
        m = p["m"] if p["m"] is not None else min(p["k"], p["w"])
        whole = all(ok)
        out = []
        for i in range(len(X)):
            if i < p["w"] - 1:
                out.append(None)
                continue
            rows = [j for j in range(i - p["w"] + 1, i + 1) if ok[j]]
            out.append(rows if whole or len(rows) >= m else None)
        return out

    def dropped(self, p, ok, i):
        return False

    def compare(self, p, cols, idx, got):
        if len(got) != len(idx):
            return f"{len(got)} results for {len(idx)} rows"
        X, y, ok = self.rows(p, cols, idx)
        if p["policy"] == "ignore" and not all(ok):
            return None
        if len(idx) < p["k"]:
            return None
        k = p["k"] + p["bias"]
        worst, steps, big = 1.0, 0, 1.0
        for i, (rows, g) in enumerate(zip(self.fits(p, X, y, ok), got)):
            c, pr = (None, None) if g is None else (g["coeffs"], g.get("pred", g.get("prediction")))
            if ok[i]:  # a large row that has left the window leaves its rounding errors behind
                big = max(big, float(np.dot(X[i], X[i])) + p["bias"])
            if rows is None:
                if c is not None or not isnone(pr):
                    return f"row {i}: {g} where there is no result"
                continue
            if c is None or len(c) != k:
                return f"row {i}: {g} instead of {k} coefficients from rows {rows}"
            if len(rows) < k:
                worst = math.inf if not self.refits(p) or len(rows) == 0 else worst
                continue
            A = np.array([X[j] for j in rows])
            t = np.array([y[j] for j in rows])
            beta, cond = solve(A, t, p["bias"], p["l2"])
            B = np.hstack([A, np.ones((len(A), 1))]) if p["bias"] else A
            B = np.vstack([B, np.eye(p["k"], k) * math.sqrt(p["l2"])])
            low = float(np.linalg.svd(B, compute_uv=False)[-1]) ** 2
            worst = max(worst, cond * max(1.0, float(np.max(np.abs(A))) ** 2), big / max(low, 1e-300))
            steps += 1
            if not worst < 1e30:
                continue
            tol = EPS[p["f32"]] * (1e3 * worst ** 1.5 * (1 + steps / 20) if not p["f32"] else 100 * worst ** 1.5 * (1 + steps / 20))
            if not tol < (1e-3 if not p["f32"] else 0.03):
                continue
            tol = max(tol, 1e-9 if not p["f32"] else 1e-4)
            sc = float(np.max(np.abs(beta))) + float(np.max(np.abs(t))) / max(1.0, float(np.max(np.abs(A))))
            self.checked = getattr(self, "checked", 0) + 1
            for j in range(k):
                if not close(c[j], beta[j], 0, tol * sc):
                    return f"row {i}: coefficient {j} {c[j]!r} instead of {beta[j]!r} (+-{tol * sc:.1e}) from rows {rows[:3]}..{rows[-1]} ({len(rows)})"
            if any(v is None for v in X[i]):
                if not isnone(pr):
                    return f"row {i}: predicted {pr} from null features"
                continue
            want = float(np.dot(X[i], beta[:p["k"]])) + (float(beta[-1]) if p["bias"] else 0.0)
            if not close(pr, want, 0, tol * sc * (1 + float(np.sum(np.abs(X[i])))) + 1e-9 * abs(want)):
                return f"row {i}: predicted {pr!r} instead of {want!r}"
        return None

    def refits(self, p):
        return True

    def shape(self, p):
        return f"{self.name}|{p['d']['how']}|{p['policy']}|{p['w']}|{p['bias']}|{p['runs'] and p['nulls'] > 0}"


op(Rolling)


class Recursive(Rolling):
    name = "roll.recursive"

    def params(self, rng):
        p = Rolling.params(self, rng)
        k = p["k"] + p["bias"]
        p["w"] = rng.choice([k, k, k + 1, k + 3, 8, 20])
        p["m"] = None
        return p

    def expr(self, p):
        xs = [pl.col(c) for c in NAMES[p["names"]][:p["k"]]]
        return f32_expr(p["f32"], lambda: pds.recursive_lin_reg(*xs, target="y", start_with=p["w"], add_bias=p["bias"], l2_reg=p["l2"], null_policy=p["policy"]))

    def few(self, p, cols, idx):
        X, y, ok = self.rows(p, cols, idx)
        return sum(ok) < p["k"]

    def fits(self, p, X, y, ok):
        out, seen = [], []
        for i in range(len(X)):
            if ok[i]:
                seen.append(i)
            out.append(list(seen) if ok[i] and len(seen) >= p["w"] else None)
        return out

    def refits(self, p):
        return False


op(Recursive)
