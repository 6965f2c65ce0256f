"""The property table: which operations decide which property, and how."""
import common

PROPS = {}


def ops(*prefixes, **w):
    d = {}
    for n in common.OPS:
        if any(n.startswith(p) for p in prefixes):
            d[n] = w.get(n.replace(".", "_"), 1)
    return d


PROPS["C01"] = {"ops": ops("knn.")}
PROPS["C02"] = {"ops": ops("kdt."), "clients": [1, 1, 2]}
PROPS["C03"] = {"ops": ops("par.")}
PROPS["C04"] = {"ops": ops("strs.")}
PROPS["C06"] = {"ops": ops("lr.", lr_fit=4, lr_model=2)}
PROPS["C07"] = {"ops": ops("roll.")}
PROPS["C08"] = {"ops": ops("online.", online_history=3)}
PROPS["C16"] = {"ops": ops("ts.", ts_convolve=3, ts_similar_count=3, ts_rfft=3, ts_approx_entropy=3, ts_sample_entropy=3, ts_permute_entropy=3, ts_lempel_ziv=3)}
PROPS["C17"] = {"ops": ops("nums.")}
import fam.rnd  # noqa: E402

_ENT = {"entropy_short": (0.5, [3000, 20000], 60), "entropy_eintr": (0.5, [3000, 20000], 60), "entropy_constant": (0.25, [8000, 65536], 10**6)}
PROPS["C09"] = {"ops": ops("rnd.seeded"), "faults": _ENT, "twin": fam.rnd.twin}
PROPS["C10"] = {"ops": ops("rnd.contract"), "faults": dict(_ENT, entropy_fail=(0.1, [6000], 3))}
PROPS["C11"] = {"ops": ops("split.", split_ratio=3, split_sample=2, split_downsample=3, split_volume=2), "clients": [1, 2, 3], "nops": [2, 3, 5], "faults": {k: _ENT[k] for k in ("entropy_short", "entropy_eintr")}}
import fam.pipe  # noqa: E402

PROPS["C12"] = {"ops": ops("pipe."), "clients": [1, 1, 2], "nops": [1, 2]}
PROPS["C13"] = {"ops": ops("pipe."), "gen": fam.pipe.save_gen, "run": fam.pipe.save_run}
PROPS["C18"] = {"ops": ops("stat.")}
PROPS["C19"] = {"ops": ops("text.", text_snowball=3)}
PROPS["C20"] = {"ops": ops("dia.")}
PROPS["C05"] = {"ops": ops("ctx."), "nops": [2, 3, 4]}
import fam.mem  # noqa: E402

PROPS["C15"] = {"ops": ops("mem.", mem_expr=4, mem_model=2), "twin": fam.mem.twin, "twin_tol": 1e-7}
import fam.contain  # noqa: E402

PROPS["C14"] = {"ops": ops("fail."), "gen": fam.contain.gen, "faults": dict({k: _ENT[k] for k in ("entropy_short", "entropy_eintr")}, entropy_fail=(0.3, [6000, 30000], 5))}
import fam.form  # noqa: E402

PROPS["C21"] = {"ops": ops("form.")}
