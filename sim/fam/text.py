"""Text cleaning, case conversion, tokens and stems, each against a small implementation of its definition."""
import random
import re
import unicodedata
import warnings

import polars as pl
import polars_ds as pds
from polars_ds.exprs import string as ps

from common import LISTY, define

# ---------------------------------------------------------------- the English (Porter 2) stemmer, from its definition
V, VWXY, LI = set("aeiouy"), set("aeiouywxY"), set("cdeghkmnrt")
EX1 = {"skis": "ski", "skies": "sky", "dying": "die", "lying": "lie", "tying": "tie", "idly": "idl", "gently": "gentl", "ugly": "ugli", "early": "earli", "only": "onli", "singly": "singl",
       **{w: w for w in "sky news howe atlas cosmos bias andes".split()}}
EX2 = set("inning outing canning herring earring proceed exceed succeed".split())
S2 = {"tional": "tion", "enci": "ence", "anci": "ance", "abli": "able", "entli": "ent", "izer": "ize", "ization": "ize", "ational": "ate", "ation": "ate", "ator": "ate", "alism": "al", "aliti": "al", "alli": "al",
      "fulness": "ful", "ousli": "ous", "ousness": "ous", "iveness": "ive", "iviti": "ive", "biliti": "ble", "bli": "ble", "ogi": "og", "fulli": "ful", "lessli": "less", "li": ""}
S3 = {"tional": "tion", "ational": "ate", "alize": "al", "icate": "ic", "iciti": "ic", "ical": "ic", "ful": "", "ness": "", "ative": ""}
S4 = "al ance ence er ic able ible ant ement ment ent ism ate iti ous ive ize ion".split()


def longest(w, sufs):
    return max((s for s in sufs if w.endswith(s)), key=len, default=None)


def region(w, i):
    """The start of the region after the first non-vowel that follows a vowel, from i on."""
    n = len(w)
    while i < n and w[i] not in V:
        i += 1
    while i < n and w[i] in V:
        i += 1
    return i + 1 if i < n else n


def shortv(w):
    if len(w) >= 3 and w[-1] not in VWXY and w[-2] in V and w[-3] not in V:
        return True
    return len(w) == 2 and w[1] not in V and w[0] in V


def porter2(w):
    if w in EX1:
        return EX1[w]
    if len(w) < 3:
        return w
    if w[0] == "'":
        w = w[1:]
    if w[:1] == "y":
        w = "Y" + w[1:]
    c = list(w)
    i = 0
    while i + 1 < len(c):
        if c[i] in V and c[i + 1] == "y":
            c[i + 1] = "Y"
            i += 2
        else:
            i += 1
    w = "".join(c)
    p1 = next((len(x) for x in ("gener", "commun", "arsen") if w.startswith(x)), None)
    if p1 is None:
        p1 = region(w, 0)
    p2 = region(w, p1)
    # 1a
    s = longest(w, ["'", "'s", "'s'"])
    if s:
        w = w[: -len(s)]
    s = longest(w, ["sses", "ied", "ies", "s", "us", "ss"])
    if s == "sses":
        w = w[:-2]
    elif s in ("ied", "ies"):
        w = w[:-3] + ("i" if len(w) - 3 >= 2 else "ie")
    elif s == "s" and any(x in V for x in w[:-2]):
        w = w[:-1]
    if w not in EX2:
        # 1b
        s = longest(w, ["eed", "eedly", "ed", "edly", "ing", "ingly"])
        if s in ("eed", "eedly"):
            if len(w) - len(s) >= p1:
                w = w[: -len(s)] + "ee"
        elif s and any(x in V for x in w[: -len(s)]):
            w = w[: -len(s)]
            if w.endswith(("at", "bl", "iz")):
                w += "e"
            elif w.endswith(tuple(x + x for x in "bdfgmnprt")):
                w = w[:-1]
            elif len(w) == p1 and shortv(w):
                w += "e"
        # 1c
        if w[-1:] in ("y", "Y") and len(w) > 2 and w[-2] not in V:
            w = w[:-1] + "i"
        # 2
        s = longest(w, S2)
        if s and len(w) - len(s) >= p1:
            b = w[: -len(s)]
            if s == "ogi":
                w = b + "og" if b.endswith("l") else w
            elif s == "li":
                w = b if b[-1:] and b[-1] in LI else w
            else:
                w = b + S2[s]
        # 3
        s = longest(w, S3)
        if s and len(w) - len(s) >= p1 and (s != "ative" or len(w) - len(s) >= p2):
            w = w[: -len(s)] + S3[s]
        # 4
        s = longest(w, S4)
        if s and len(w) - len(s) >= p2 and (s != "ion" or w[: -3].endswith(("s", "t"))):
            w = w[: -len(s)]
        # 5
        if w.endswith("e"):
            if len(w) - 1 >= p2 or (len(w) - 1 >= p1 and not shortv(w[:-1])):
                w = w[:-1]
        elif w.endswith("l") and len(w) - 1 >= p2 and w[:-1].endswith("l"):
            w = w[:-1]
    return w.replace("Y", "y")


STOP = set("""i me my myself we our ours ourselves you you're you've you'll you'd your yours yourself yourselves he him his himself she she's her hers herself it it's its itself they them their theirs themselves what
which who whom this that that'll these those am is are was were be been being have has had having do does did doing a an the and but if or because as until while of at by for with about against between into through during
before after above below to from up down in out on off over under again further then once here there when where why how all any both each few more most other some such no nor not only own same so than too very s t can will
just don don't should should've now d ll m o re ve y ain aren aren't couldn couldn't didn didn't doesn doesn't hadn hadn't hasn hasn't haven haven't isn isn't ma mightn mightn't mustn mustn't needn needn't shan shan't
shouldn shouldn't wasn wasn't weren weren't won won't wouldn wouldn't""".split()) - {"won"}
NUM = re.compile(r"[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|inf|infinity|nan)", re.I)


def stem(w, no_stop=True):
    if NUM.fullmatch(w) or (no_stop and w in STOP):
        return ""
    return porter2(w)


ROOT = "run hop gener commun arsen happ cr sk d l t y sa beaut nation relat condition valenc hesitanc digit conform radic differ vil analog vietnam predic operat feud decis hope callous format sensit sensibilit triplic electr good reviv allow infer air gyroscop adjust defens irrit replac adopt homolog effect bowdler proba rat ceas controll roll".split()
SUF = "s es sses ied ies us ss eed eedly ed edly ing ingly y ational tional enci anci abli entli izer ization ation ator alism aliti alli fulness ousli ousness iveness iviti biliti bli ogi fulli lessli li ly ness ful ative icate iciti ical alize al ance ence er ic able ible ant ement ment ent ism ate iti ous ive ize ion sion tion e l ll le ee ' 's 's' bb dd tt at bl iz ably".split()


def english(r):
    k = r.random()
    if k < 0.55:
        w = r.choice(ROOT) + "".join(r.choice(SUF) for _ in range(r.choice([0, 1, 1, 2, 3])))
    elif k < 0.75:
        w = "".join(r.choice("aeiouyybdfglmnprstlixwcdeghkmnrt'") for _ in range(r.choice([1, 2, 3, 4, 6, 9])))
    elif k < 0.85:
        w = r.choice(sorted(STOP))
    elif k < 0.92:
        w = r.choice(sorted(EX1) + sorted(EX2))
    else:
        w = r.choice(["1", "-3.5", "1e5", "12abc", "", "İstanbul", "naïve", "größer", "日本", "Running", "OVERSEAS", "'tis", "3rd", ".5", "5.", "+7"])
    return w


def words(p):
    r = random.Random(p["s"])
    return {"w": [None if r.random() < p["nulls"] else english(r) for _ in range(p["n"])]}


_W = dict(columns=words, schema={"w": pl.String}, nulls=(0, 0, 0.15), n=(1, 2, 5, 13, 40, 120))


def each(f):
    return lambda p, s: [None if v is None else f(p, v) for v in s[next(iter(s))]]


def exact(name, expr, ref, params=None, **kw):
    def cmp(p, s, got):
        w = ref(p, s)
        g = list(got)
        if len(g) != len(w):
            return f"length {len(g)} instead of {len(w)}"
        src = s[next(iter(s))]
        for i, (a, b) in enumerate(zip(g, w)):
            a = list(a) if isinstance(a, (list, pl.Series)) else a
            if a != b or type(a) is not type(b):
                return f"{src[i]!r} gives {a!r} instead of {b!r}"
        return None
    define("text." + name, expr=expr, ref=None, compare=cmp, params=params, **kw)


exact("snowball", lambda p: pds.str_snowball("w", no_stopwords=p["ns"]), each(lambda p, w: stem(w, p["ns"])), lambda rng: {"ns": rng.random() < 0.5}, **_W)
exact("stopword", lambda p: ps.is_stopword("w"), each(lambda p, w: w in STOP), **_W)

# ---------------------------------------------------------------- text
SP = [" ", " ", "  ", "\t", "\n", " \r\n ", "\u00a0", "\u2003", "\u3000"]
BIT = ["one", "two", "Three", "12", "3.5", "1,200", ".75", "a1b2", "é", "e\u0301", "Ñandú", "ﬁne", "Å", "日本", "한글", "😀", "x²", "½", "ß", "İ", "ỗ", "_", "-", "don't", "µm", "Ⅷ", "running", "10.20.30", "\u0345x\u0301\u0323"]


def sentences(p):
    r = random.Random(p["s"])
    out = []
    for _ in range(p["n"]):
        t = r.choice(["", "", " ", "\t"]) + "".join(r.choice(BIT) + r.choice(SP) for _ in range(r.choice([0, 1, 2, 3, 6, 15])))
        out.append(None if r.random() < p["nulls"] else t if r.random() < 0.4 else t.rstrip())
    return {"t": out}


_T = dict(columns=sentences, schema={"t": pl.String}, nulls=(0, 0, 0.15), n=(1, 2, 5, 13, 40, 120))
WS = re.compile("[\t\n\x0b\x0c\r \x85\u00a0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]+")
split = lambda t: [x for x in WS.split(t) if x]


def norm(form):
    def f(p):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return pds.normalize_string("t", p["form"])
    return f


exact("normalize_string", norm(None), each(lambda p, t: unicodedata.normalize(p["form"], t)), lambda rng: {"form": rng.choice(["NFC", "NFD", "NFKC", "NFKD"])}, **_T)
exact("remove_diacritics", lambda p: ps.remove_diacritics("t"), each(lambda p, t: "".join(c for c in unicodedata.normalize("NFD", t) if c.isascii())), **_T)
exact("replace_non_ascii", lambda p: ps.replace_non_ascii("t", p["v"]), each(lambda p, t: "".join(c if c.isascii() else p["v"] for c in t)), lambda rng: {"v": rng.choice(["", "", "?", "<>"])}, **_T)
exact("normalize_whitespace", lambda p: ps.normalize_whitespace("t", only_spaces=p["o"]), each(lambda p, t: re.sub(" +", " ", t) if p["o"] else " ".join(split(t))), lambda rng: {"o": rng.random() < 0.3}, **_T)


def mapping(p):
    r = random.Random(p["s"] + 1)
    return {w: r.choice(BIT + ["", "two words"]) for w in r.sample(BIT, p["m"])}


exact("map_words", lambda p: ps.map_words("t", mapping(p)), each(lambda p, t: " ".join(mapping(p).get(w, w) for w in split(t))), lambda rng: {"m": rng.choice([0, 1, 5, 15])}, **_T)


def numbers(p, t):
    if p["ic"]:
        t = t.replace(",", "")
    v = [m.group(0) for m in re.finditer(r"(\d*\.?\d+)", t)]
    if p["dt"] == "f":
        return [float(x) for x in v]
    return p["jb"].join(v) if p["jb"] else v


exact("extract_numbers", lambda p: ps.extract_numbers("t", ignore_comma=p["ic"], join_by=p["jb"], dtype={"f": pl.Float64, "s": pl.String}[p["dt"]]), each(numbers),
      lambda rng: {"ic": rng.random() < 0.5, "jb": rng.choice(["", "", "-", ", "]), "dt": rng.choice("fs")}, allow=LISTY, **_T)


def tokens(p, t):
    v = re.findall(p["pat"], t)
    return list(dict.fromkeys(w for w in map(stem, v) if w)) if p["st"] else v  # documented: unique, no stop words


exact("tokenize", lambda p: ps.str_tokenize("t", pattern=p["pat"], stem=p["st"]), each(tokens), lambda rng: {"pat": rng.choice([r"[a-z]+", r"[a-zA-Z]{2,}", r"[0-9]+"]), "st": rng.random() < 0.4}, allow=LISTY, **_T)

# ---------------------------------------------------------------- letter case
CASE = {"snake": lambda w: "_".join(w), "constant": lambda w: "_".join(w).upper(), "kebab": lambda w: "-".join(w), "space": lambda w: " ".join(w),
        "camel": lambda w: w[0] + "".join(x.capitalize() for x in w[1:]), "pascal": lambda w: "".join(x.capitalize() for x in w)}


def names(p):
    r = random.Random(p["s"])
    al = r.choice(["abcdxyz", "abcdxyz", "абвг", "aéñz"])
    out = {"c": [], "k": []}
    for _ in range(p["n"]):
        w = ["".join(r.choice(al) for _ in range(r.choice([2, 3, 6]))) for _ in range(r.choice([1, 2, 3, 5]))]
        out["c"].append(None if r.random() < p["nulls"] else CASE[r.choice(sorted(CASE))](w))
        out["k"].append("|".join(w))
    return out


for _n in ("snake", "constant", "camel", "pascal"):
    exact("to_" + _n, lambda p, _n=_n: getattr(pds, f"to_{_n}_case")("c") if hasattr(pds, f"to_{_n}_case") else getattr(ps, f"to_{_n}_case")("c"),
          lambda p, s, _n=_n: [None if c is None else CASE[_n](k.split("|")) for c, k in zip(s["c"], s["k"])], columns=names, schema={"c": pl.String, "k": pl.String}, nulls=(0, 0, 0.15), n=(1, 2, 5, 13, 40, 120))
