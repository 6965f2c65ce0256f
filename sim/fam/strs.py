"""String distances and similarities, each against a small implementation of its definition."""
import random

import polars as pl
import polars_ds as pds
from polars_ds.exprs import string as ps

from common import LISTY, close, define, diff

NAN = float("nan")
ALPH = ["ab", "abcd", "abcdefghijklmnopqrstuvwxyz", "aé日ñ", "ab😀é ", "АБвгab"]


def word(r, alph, ln):
    return "".join(r.choice(alph) for _ in range(ln))


def mutate(r, s, alph):
    s = list(s)
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        k = r.random()
        i = r.randrange(len(s) + 1)
        if k < 0.3:
            s.insert(i, r.choice(alph))
        elif k < 0.55 and s:
            del s[min(i, len(s) - 1)]
        elif k < 0.75 and len(s) > 1:
            i = min(i, len(s) - 2)
            s[i], s[i + 1] = s[i + 1], s[i]
        elif s:
            s[min(i, len(s) - 1)] = r.choice(alph)
    return "".join(s)


def pairs(p):
    r = random.Random(p["s"])
    alph = ALPH[p["al"]]
    a, b = [], []
    for _ in range(p["n"]):
        ln = r.choice([0, 1, 2, 3, 5, 8, 8, 12]) if r.random() > p["long"] else r.choice([63, 64, 65, 90, 130])
        x = word(r, alph, ln)
        k = r.random()
        y = mutate(r, x, alph) if k < 0.6 else x if k < 0.7 else word(r, alph, len(x)) if k < 0.85 else word(r, alph, r.randrange(10))
        a.append(None if r.random() < p["na"] else x)
        b.append(None if r.random() < p["nb"] else y)
    return {"a": a, "b": b}


def lit(p):
    """The constant second argument, when there is one."""
    if p["lit"] == "col":
        return None
    if p["lit"] == "null":
        return [None]
    r = random.Random(p["s"] + 5)
    return [mutate(r, word(r, ALPH[p["al"]], r.choice([0, 2, 5, 9])), ALPH[p["al"]])]


def params(rng, **k):
    return dict({"al": rng.randrange(len(ALPH)), "long": rng.choice([0, 0, 0, 0.1]), "na": rng.choice([0, 0, 0.1, 0.4]), "nb": rng.choice([0, 0, 0.1, 0.4]),
                 "par": rng.choice([True, True, False]), "lit": rng.choice(["col", "col", "col", "lit", "lit", "null"])}, **k)


def other(p):
    c = lit(p)
    return pl.col("b") if c is None else pl.lit(c[0], dtype=pl.String)


def opair(name, expr, f, extra=None, n=(1, 2, 3, 5, 8, 13, 21, 34, 60, 100)):
    def ref(p, s):
        c = lit(p)
        bs = s["b"] if c is None else c * len(s["a"])
        return [None if x is None or y is None else f(p, x, y) for x, y in zip(s["a"], bs)]

    def cmp(p, s, got):
        w = ref(p, s)
        if len(got) != len(w):
            return f"{len(got)} values for {len(w)} rows"
        for i, (g, x) in enumerate(zip(got, w)):
            if isinstance(x, tuple):  # several answers are acceptable
                ok = any(close(g, y, 1e-9, 1e-12) for y in x)
            elif isinstance(x, bool):
                ok = g is x
            else:
                ok = close(g, x, 1e-9, 1e-12)
            if not ok:
                y = s["b"][i] if lit(p) is None else lit(p)[0]
                return f"row {i} ({s['a'][i]!r}, {y!r}): {g!r} instead of {x!r}"
        return None

    define("strs." + name, expr=expr, ref=None, compare=cmp, params=lambda rng: params(rng, **(extra(rng) if extra else {})), columns=pairs, schema={"a": pl.String, "b": pl.String}, n=n)


# ---------------------------------------------------------------- definitions
def leven(a, b):
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        cur = [i]
        for j, y in enumerate(b, 1):
            cur.append(min(prev[j] + 1, cur[-1] + 1, prev[j - 1] + (x != y)))
        prev = cur
    return prev[-1]


def osa(a, b):
    d = [[i + j if i * j == 0 else 0 for j in range(len(b) + 1)] for i in range(len(a) + 1)]
    for i in range(1, len(a) + 1):
        for j in range(1, len(b) + 1):
            d[i][j] = min(d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (a[i - 1] != b[j - 1]))
            if i > 1 and j > 1 and a[i - 1] == b[j - 2] and a[i - 2] == b[j - 1]:
                d[i][j] = min(d[i][j], d[i - 2][j - 2] + 1)
    return d[-1][-1]


def dleven(a, b):
    da, inf = {}, len(a) + len(b)
    d = {(-1, -1): inf}
    for i in range(len(a) + 1):
        d[i, -1], d[i, 0] = inf, i
    for j in range(len(b) + 1):
        d[-1, j], d[0, j] = inf, j
    for i in range(1, len(a) + 1):
        db = 0
        for j in range(1, len(b) + 1):
            k, l = da.get(b[j - 1], 0), db
            if a[i - 1] == b[j - 1]:
                cost, db = 0, j
            else:
                cost = 1
            d[i, j] = min(d[i - 1, j - 1] + cost, d[i, j - 1] + 1, d[i - 1, j] + 1, d[k - 1, l - 1] + (i - k - 1) + 1 + (j - l - 1))
        da[a[i - 1]] = i
    return d[len(a), len(b)]


def lcs(a, b):
    prev = [0] * (len(b) + 1)
    for x in a:
        cur = [0]
        for j, y in enumerate(b, 1):
            cur.append(prev[j - 1] + 1 if x == y else max(prev[j], cur[-1]))
        prev = cur
    return prev[-1]


def nsim(d, m):
    return 1.0 if m == 0 else 1 - d / m


def jaro(a, b):
    if not a and not b:
        return 1.0
    if not a or not b:
        return 0.0
    w = max(max(len(a), len(b)) // 2 - 1, 0)
    fa, fb = [False] * len(a), [False] * len(b)
    for i, x in enumerate(a):
        for j in range(max(0, i - w), min(len(b), i + w + 1)):
            if not fb[j] and b[j] == x:
                fa[i] = fb[j] = True
                break
    m = sum(fa)
    if not m:
        return 0.0
    ma, mb = [x for x, f in zip(a, fa) if f], [x for x, f in zip(b, fb) if f]
    t = sum(x != y for x, y in zip(ma, mb)) // 2
    return (m / len(a) + m / len(b) + (m - t) / m) / 3


def jw(a, b, wt):
    s = jaro(a, b)
    p = 0
    for x, y in zip(a[:4], b[:4]):
        if x != y:
            break
        p += 1
    # the boost is applied above 0.7 only in some definitions; both are published
    return (s, min(1.0, s + p * wt * (1 - s))) if s <= 0.7 else (min(1.0, s + p * wt * (1 - s)),)


def grams(s, n):
    b = s.encode()
    if not b:
        return set()
    return {b} if len(b) < n else {b[i:i + n] for i in range(len(b) - n + 1)}


def frac(x, y):
    return x / y if y else NAN


def sets(p, a, b):
    x, y = grams(a, p["k"]), grams(b, p["k"])
    return len(x), len(y), len(x & y)


for _n, _f, _e in [("leven", leven, pds.str_leven), ("dleven", dleven, pds.str_d_leven), ("osa", osa, pds.str_osa)]:
    opair(_n, lambda p, _e=_e: _e("a", other(p), parallel=p["par"]), lambda p, a, b, _f=_f: _f(a, b))
    opair(_n + "_sim", lambda p, _e=_e: _e("a", other(p), parallel=p["par"], return_sim=True), lambda p, a, b, _f=_f: nsim(_f(a, b), max(len(a), len(b))))
opair("lcs", lambda p: pds.str_lcs_seq("a", other(p), parallel=p["par"], return_sim=False), lambda p, a, b: max(len(a), len(b)) - lcs(a, b))
opair("lcs_sim", lambda p: pds.str_lcs_seq("a", other(p), parallel=p["par"], return_sim=True), lambda p, a, b: nsim(max(len(a), len(b)) - lcs(a, b), max(len(a), len(b))))
opair("fuzz", lambda p: pds.str_fuzz("a", other(p), parallel=p["par"]), lambda p, a, b: nsim(len(a) + len(b) - 2 * lcs(a, b), len(a) + len(b)))
opair("jaro", lambda p: pds.str_jaro("a", other(p), parallel=p["par"]), lambda p, a, b: jaro(a, b))
opair("jw", lambda p: pds.str_jw("a", other(p), weight=p["w"], parallel=p["par"]), lambda p, a, b: jw(a, b, p["w"]), lambda rng: {"w": rng.choice([0.1, 0.2, 0.05])})


def _ham(a, b):
    return sum(x != y for x, y in zip(a, b)) + abs(len(a) - len(b))


opair("hamming", lambda p: pds.str_hamming("a", other(p), parallel=p["par"]), lambda p, a, b: _ham(a, b) if len(a) == len(b) else None)
opair("hamming_pad", lambda p: pds.str_hamming("a", other(p), pad=True, parallel=p["par"]), lambda p, a, b: _ham(a, b))
_bd = lambda rng: {"bd": rng.choice([0, 1, 2, 3, 6])}
opair("hamming_filter", lambda p: pds.filter_by_hamming("a", other(p), p["bd"], parallel=p["par"]), lambda p, a, b: len(a) == len(b) and _ham(a, b) <= p["bd"], _bd)
opair("leven_filter", lambda p: pds.filter_by_levenshtein("a", other(p), p["bd"], parallel=p["par"]), lambda p, a, b: leven(a, b) <= p["bd"], _bd)
_k = lambda rng: {"k": rng.choice([1, 2, 2, 3, 5])}
opair("jaccard", lambda p: pds.str_jaccard("a", other(p), substr_size=p["k"], parallel=p["par"]), lambda p, a, b: (lambda x, y, i: frac(i, x + y - i))(*sets(p, a, b)), _k)
opair("overlap", lambda p: ps.str_overlap_coeff("a", other(p), substr_size=p["k"], parallel=p["par"]), lambda p, a, b: (lambda x, y, i: frac(i, min(x, y)))(*sets(p, a, b)), _k)
opair("dice", lambda p: pds.str_sorensen_dice("a", other(p), substr_size=p["k"], parallel=p["par"]), lambda p, a, b: (lambda x, y, i: frac(2 * i, x + y))(*sets(p, a, b)), _k)
opair("tversky", lambda p: pds.str_tversky_sim("a", other(p), p["ta"], p["tb"], substr_size=p["k"], parallel=p["par"]),
      lambda p, a, b: (lambda x, y, i: frac(i, i + p["ta"] * (x - i) + p["tb"] * (y - i)))(*sets(p, a, b)), lambda rng: {"k": rng.choice([1, 2, 3]), "ta": rng.choice([0.5, 1.0, 0.3]), "tb": rng.choice([0.5, 1.0, 2.0])})


# ---------------------------------------------------------------- one word against many
def _near(p, s, got):
    w = lit(p)[0]
    d = {}
    for x in s["a"]:
        if x is not None:
            v = leven(x, w) if p["m"] == "lv" else _ham(x, w) if len(x) == len(w) else None
            if v is not None and v <= p["th"]:
                d[x] = v
    g = got[0]
    if not d:
        return None if g is None else f"{g!r} where nothing is within {p['th']} of {w!r}"
    if g is None or g not in d or d[g] != min(d.values()):
        return f"{g!r} is not the nearest to {w!r} (best distance {min(d.values())})"
    return None


define("strs.nearest", expr=lambda p: pds.str_nearest("a", lit(p)[0], threshold=p["th"], metric=p["m"]), ref=None, compare=_near, params=lambda rng: params(rng, lit="lit", m=rng.choice(["lv", "hamming"]), th=rng.choice([1, 3, 100])), columns=pairs,
       schema={"a": pl.String, "b": pl.String}, reduce_=True, allow=("select", "lazy", "siblings", "groupby", "over", "filter", "chunked", "sliced"))


def _voc(p, s, got):
    f = {"lv": lambda a, b: nsim(leven(a, b), max(len(a), len(b))), "dlv": lambda a, b: nsim(dleven(a, b), max(len(a), len(b))), "osa": lambda a, b: nsim(osa(a, b), max(len(a), len(b))), "jw": lambda a, b: jw(a, b, 0.1)[-1]}[p["m"]]
    r = random.Random(p["s"] + 9)
    voc = vocab(p)
    for x, g in zip(s["a"], got):
        if x is None:
            continue
        v = [f(x, w) for w in voc]
        if p["st"] == "avg":
            a = sum(v) / len(v)
            if abs(a - p["th"]) < 1e-9:
                continue
            w = a >= p["th"]
        else:
            if any(abs(y - p["th"]) < 1e-9 for y in v):
                continue
            w = (all if p["st"] == "all" else any)(y >= p["th"] for y in v)
        if p["m"] == "jw" and any(jaro(x, w_) <= 0.7 for w_ in voc):
            continue
        if g is not w:
            return f"{x!r}: {g} instead of {w} (similarities {v})"
    return None


def vocab(p):
    r = random.Random(p["s"] + 9)
    return [word(r, ALPH[p["al"]], r.choice([1, 3, 6])) for _ in range(p["nv"])]


define("strs.vocab", expr=lambda p: pds.similar_to_vocab("a", vocab(p), p["th"], metric=p["m"], strategy=p["st"]), ref=None, compare=_voc,
       params=lambda rng: params(rng, nv=rng.choice([1, 2, 4]), th=rng.choice([0.35, 0.52, 0.7]), m=rng.choice(["lv", "dlv", "osa", "jw"]), st=rng.choice(["avg", "all", "any"])), columns=pairs, schema={"a": pl.String, "b": pl.String}, n=(1, 3, 8, 20, 50))
