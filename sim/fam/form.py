"""The same call, written in another way.

A column may be given by name, as an expression, or (in compat mode) as a Series or an array; a target
or a weight as a sequence where the signature allows one; a function by its former name; a flag by the
computation it stands for.  All of these are one call, and must give one result.
"""
import contextlib
import random
import threading
import warnings

import numpy as np
import polars as pl
import polars_ds as pds
import polars_ds.exprs.num as pn
from polars_ds.compat import compat

from common import Exc, Op, op
from fam.context import SCH, frame, plain, unlike

NOCONV = {"x", "y", "i", "s"}  # columns with nulls: an array cannot hold them

T = {}


def fn(name, *args, lo=3, tag="", compat_=True, expr=True, noarr=(), **kw):
    """A call whose arguments starting with @ are columns."""
    T[name + tag] = (name, args, kw, lo, compat_, expr, noarr)


for _n in ("query_r2", "query_l1", "query_l2", "query_l_inf", "query_log_cosh", "query_mape", "query_smape", "query_msle"):
    fn(_n, "@u" if _n != "query_msle" else "@w", "@pr")
for _n in ("query_l1", "query_l2", "query_log_cosh", "query_msle"):
    fn(_n, "@w", "@pr", tag=".n", normalize=False)
fn("query_mape", "@u", "@pr", tag=".w", weighted=True)
fn("query_adj_r2", "@u", "@pr", 2, lo=5)
fn("query_hubor_loss", "@u", "@pr", 0.7)
fn("query_log_loss", "@c2", "@pr")
fn("query_mase", "@u", "@pr", "@w", lo=5)
fn("query_mad", "@u", use_mean=False)
fn("query_roc_auc", "@c2", "@pr")
fn("query_tpr_fpr", "@c2", "@pr")
fn("query_binary_metrics", "@c2", "@pr", threshold=0.4)
fn("query_confusion_matrix", "@c2", "@pr", all_metrics=True)
fn("query_mcc", "@c2", "@b")
fn("query_fairness", "@pr", "#b", compat_=True)
fn("query_p_pct_score", "@c2", "#b")
for _n in ("query_mid_range", "query_abs_energy", "query_mean_abs_change", "query_cv", "query_cid_ce", "query_symm_ratio", "query_count_uniques"):
    fn(_n, "@u")
fn("query_mean_n_abs_max", "@u", 2)
fn("query_longest_streak", "@b")
fn("query_avg_streak", "@b")
fn("query_streak", "@b")
fn("query_range_count", "@u", 1.0, 4.0)
fn("query_lempel_ziv", "@b", as_ratio=False)
fn("query_first_digit_cnt", "@j")
fn("query_c3_stats", "@u", 2, lo=5)
fn("query_time_reversal_asymmetry_stats", "@u", 2, lo=5)
fn("query_approx_entropy", "@u", 2, 0.3, lo=8)
fn("query_sample_entropy", "@u", 0.3, m=2, lo=8)
fn("query_permute_entropy", "@u", 1, 3, lo=8)
fn("query_entropy", "@j")
fn("query_cond_entropy", "@g", "@h")
fn("query_knn_entropy", "@u", "@w", k=2, lo=8)
fn("query_copula_entropy", "@u", "@w", k=2, lo=8)
fn("query_cond_indep", "@u", "@w", "@pr", k=2, lo=8)
fn("query_transfer_entropy", "@u", "@w", lag=1, k=2, lo=10)
fn("query_auto_corr", "@u", 2, lo=5)
fn("query_ar_coeffs", "@u", 2, lo=13)
fn("query_similar_count", [0.5, 0.1, 0.7], "@u", 0.8, metric="sqzl2", lo=5)
fn("rfft", "@u", return_full=True)
fn("convolve", "@u", [0.5, 0.25, -1.0], mode="same")
fn("detrend", "@u", "linear")
fn("integrate_trapz", "@u", "@w")
fn("isotonic_regression", "@u", "@w", lo=3)
fn("isotonic_regression", "@u", increasing=False, tag=".d", lo=3)
fn("xlogy", "@w", "@pr")
fn("gcd", "@j", "@i")
fn("lcm", "@j", "@i")
fn("haversine", "@lat", "@lon", "@lat", "@lon")
fn("haversine", "@lat", "@lon", 10.0, -20.0, tag=".p")
fn("l1_horizontal", "@u", "@w", "@pr", normalize=True)
fn("l2_sq_horizontal", "@u", "@w", "@pr")
fn("l_inf_horizontal", "@u", "@w")
for _n in ("expit", "exp2", "fract", "trunc", "gamma", "digamma", "next_up", "next_down", "center", "z_normalize", "softmax"):
    fn(_n, "@u")
fn("logit", "@pr")
fn("is_increasing", "@j")
fn("is_decreasing", "@j", strict=True)
fn("list_amax", "@lf")
fn("product", "@u")
fn("filter_by_hamming", "@t", "@t2", 4)
fn("jaccard_col", "@j", "@c2", noarr=("j", "c2"))
fn("jaccard_row", "@la", "@la")
fn("combinations", "@j", 2, lo=4)
fn("pca", "@u", "@w", "@pr", lo=5)
fn("principal_components", "@u", "@w", "@pr", k=2, lo=5)
fn("singular_values", "@u", "@w", "@pr", lo=5)
fn("hmean", "@w")
fn("gmean", "@w")
for _n in ("weighted_mean", "weighted_hmean", "weighted_gmean", "weighted_var"):
    fn(_n, "@pr", "@w")
fn("weighted_cov", "@u", "@pr", "@w")
fn("weighted_corr", "@u", "@pr", "@w")
fn("weighted_cosine_sim", "@u", "@pr", "@w")
fn("cosine_sim", "@u", "@pr")
fn("kendall_tau", "@u", "@pr")
fn("bicor", "@u", "@pr", lo=5)
fn("xi_corr", "@u", "@pr", seed=3, lo=5)
for _n in ("pearson", "spearman", "kendall", "bicor"):
    fn("corr", "@u", "@pr", tag="." + _n, method=_n, lo=5)
fn("ttest_ind", "@x", "@u", lo=5)
fn("ttest_ind", "@w", "@u", equal_var=True, tag=".eq", lo=5)
fn("ttest_1samp", "@x", 0.3, "less", lo=5)
fn("ttest_ind_from_stats", "@u", 0.1, 1.2, 30, lo=5)
fn("f_test", "@u", group="@g", lo=13)
fn("chi2", "@g", "@h", lo=13)
fn("mann_whitney_u", "@u", "@w", lo=13)
fn("normal_test", "@u", lo=21)
fn("ks_2samp", "@u", "@w", lo=34)
fn("psi", "@u", "@w", n_bins=4, lo=21)
fn("psi_discrete", "@g", "@h")
fn("psi_w_breakpoints", "@u", "@w", [0.5, 1.5], lo=5)
fn("woe_discrete", "@g", "@c2")
fn("info_value_discrete", "@g", "@c2", return_sum=False)
fn("target_encode", "@g", "@c2", min_samples_leaf=2, compat_=False)
fn("query_knn_ptwise", "@u", "@w", index="@id", k=2, return_dist=True, lo=5)
fn("query_knn_ptwise", "@u", "@w", index="@id", k=2, eval_mask="@b", data_mask="@b2", tag=".m", lo=5)
fn("query_knn_freq_cnt", "@u", "@w", noarr=("id",), index="@id", k=2, lo=5)
fn("query_knn_avg", "@u", "@w", target="@pr", k=2, lo=5)
fn("query_radius_ptwise", "@u", "@w", index="@id", r=1.5)
fn("query_radius_freq_cnt", "@u", "@w", noarr=("id",), index="@id", r=1.5)
fn("query_nb_cnt", "@u", "@w", r=1.5)
fn("query_nb_cnt", "@u", "@w", r="@pr", tag=".c")
fn("query_dist_from_kth_nb", "@u", "@w", k=2, lo=5)
fn("within_dist_from", "@u", "@w", pt=[1.0, 0.5], r=2.0)
fn("is_knn_from", "@u", "@w", pt=[1.0, 0.5], k=2)
fn("lin_reg", "@u", "@w", target="@pr", add_bias=True, lo=5)
fn("lin_reg", "@u", "@w", target="@pr", weights="@w2", tag=".w", lo=5)
fn("lin_reg", "@u", "@w", target="@pr", return_pred=True, l2_reg=0.1, tag=".p", lo=5)
fn("lin_reg", "@u", "@w", target=["@pr", "@lat"], add_bias=True, tag=".multi", lo=5)
fn("lin_reg_report", "@u", "@w", noarr=("u", "w"), target="@pr", add_bias=True, lo=8)
fn("lin_reg_report", "@u", "@w", noarr=("u", "w"), target="@pr", weights="@w2", tag=".w", lo=8)
fn("lin_reg_w_rcond", "@u", "@w", target="@pr", rcond=0.01, lo=8)
fn("rolling_lin_reg", "@u", "@w", target="@pr", window_size=5, lo=8)
fn("recursive_lin_reg", "@u", "@w", target="@pr", start_with=5, lo=8)
fn("simple_lin_reg", "@u", target="@pr", add_bias=True)
fn("simple_lin_reg", "@u", target="@pr", weights="@w2", return_pred=True, tag=".w")
for _n in ("str_leven", "str_d_leven", "str_osa", "str_jaccard", "str_sorensen_dice", "str_fuzz", "str_jaro", "str_lcs_seq"):
    fn(_n, "@t", "@t2", compat_=True)
fn("str_hamming", "@t", "@t2", pad=True)
fn("str_jw", "@t", "@t2", weight=0.15)
fn("str_tversky_sim", "@t", "@t2", 0.7, 0.3)
fn("filter_by_levenshtein", "@t", "@t2", 4)
fn("str_nearest", "@t", "running")
fn("similar_to_vocab", "@t", ["cat", "running"], 0.5)
for _n in ("to_camel_case", "to_snake_case", "to_pascal_case", "to_constant_case", "is_stopword", "remove_diacritics", "str_snowball", "str_tokenize", "extract_numbers"):
    fn(_n, "@s" if _n != "str_snowball" else "@t")
fn("replace_non_ascii", "@s", "?")
fn("normalize_string", "@s", "NFKC")
fn("normalize_whitespace", "@s")
fn("map_words", "@s", {"running": "run"})

SCALAR = [n for n in T if n.startswith("str_") and len(T[n][1]) > 1 and n != "str_nearest"] + ["filter_by_levenshtein", "filter_by_hamming", "xlogy"]

LISTY = {"lf", "la", "two", "hot"}
STR = {"g", "h", "s", "t", "t2"}

# ---- forms that only some arguments have: name -> (lo, canonical(D), alternative(D)), D the data frame
P = {}


def pair(name, a, b, lo=5):
    P[name] = (lo, a, b)


def _some(D):  # breakpoints that are themselves among the values
    return sorted(set(D["u"].to_list()[::3] + D["w"].to_list()[1::4]))


def _inf(e, by):  # the same with infinite and undefined values among the finite
    return pl.when(pl.col(by) % 5 == 0).then(float("inf")).when(pl.col(by) % 7 == 1).then(float("-inf")).when(pl.col(by) % 7 == 2).then(float("nan")).otherwise(e)


SEQ = {"list": lambda s: s.to_list(), "array": lambda s: s.to_numpy(), "series": lambda s: s, "tuple": lambda s: tuple(s.to_list()), "gen": lambda s: (v for v in s.to_list())}
for _f, _g in SEQ.items():
    pair("psi.new." + _f, lambda D: pds.psi("u", "w", n_bins=5), lambda D, _g=_g: pds.psi(_g(D["u"]), "w", n_bins=5), lo=21)
    pair("psi.base." + _f, lambda D: pds.psi("u", "w", n_bins=5, return_report=True), lambda D, _g=_g: pds.psi("u", _g(D["w"]), n_bins=5, return_report=True), lo=21)
    pair("psi_discrete.new." + _f, lambda D: pds.psi_discrete("j", "c2"), lambda D, _g=_g: pds.psi_discrete(_g(D["j"]), "c2"), lo=13)
    pair("psi_discrete.base." + _f, lambda D: pds.psi_discrete("c2", "j"), lambda D, _g=_g: pds.psi_discrete("c2", _g(D["j"])), lo=13)
    pair("psi_bp.new." + _f, lambda D: pds.psi_w_breakpoints("u", "w", [0.5, 1.5]), lambda D, _g=_g: pds.psi_w_breakpoints(_g(D["u"]), "w", [0.5, 1.5]))
    pair("psi_bp.inf." + _f, lambda D: pds.psi_w_breakpoints(_inf(pl.col("u"), "i"), _inf(pl.col("w"), "j"), [0.5, 1.5]),
         lambda D, _g=_g: pds.psi_w_breakpoints(_g(D.select(_inf(pl.col("u"), "i")).to_series()), _inf(pl.col("w"), "j"), [0.5, 1.5]), lo=13)
    pair("psi_bp.binf." + _f, lambda D: pds.psi_w_breakpoints(_inf(pl.col("u"), "i"), _inf(pl.col("w"), "j"), [0.5, 1.5]),
         lambda D, _g=_g: pds.psi_w_breakpoints(_inf(pl.col("u"), "i"), _g(D.select(_inf(pl.col("w"), "j")).to_series()), [0.5, 1.5]), lo=13)
    pair("psi.inf." + _f, lambda D: pds.psi(_inf(pl.col("u"), "i"), _inf(pl.col("w"), "j"), n_bins=3),
         lambda D, _g=_g: pds.psi(_g(D.select(_inf(pl.col("u"), "i")).to_series()), _inf(pl.col("w"), "j"), n_bins=3), lo=34)
    pair("psi.binf." + _f, lambda D: pds.psi(_inf(pl.col("u"), "i"), _inf(pl.col("w"), "j"), n_bins=3),
         lambda D, _g=_g: pds.psi(_inf(pl.col("u"), "i"), _g(D.select(_inf(pl.col("w"), "j")).to_series()), n_bins=3), lo=34)
    pair("psi_bp.data." + _f, lambda D: pds.psi_w_breakpoints("u", "w", _some(D)), lambda D, _g=_g: pds.psi_w_breakpoints(_g(D["u"]), "w", _some(D)), lo=13)
    pair("psi_bp.bdata." + _f, lambda D: pds.psi_w_breakpoints("u", "w", _some(D)), lambda D, _g=_g: pds.psi_w_breakpoints("u", _g(D["w"]), _some(D)), lo=13)
    pair("psi_bp.base." + _f, lambda D: pds.psi_w_breakpoints("u", "w", [0.5, 1.5]), lambda D, _g=_g: pds.psi_w_breakpoints("u", _g(D["w"]), [0.5, 1.5]))
    pair("woe." + _f, lambda D: pds.woe("u", "c2", n_bins=3), lambda D, _g=_g: pds.woe("u", _g(D["c2"]), n_bins=3), lo=21)
    pair("info_value." + _f, lambda D: pds.info_value("u", "c2", n_bins=3, return_sum=False), lambda D, _g=_g: pds.info_value("u", _g(D["c2"]), n_bins=3, return_sum=False), lo=21)
    pair("woe_discrete." + _f, lambda D: pds.woe_discrete("g", "c2"), lambda D, _g=_g: pds.woe_discrete("g", _g(D["c2"])))
    pair("info_value_discrete." + _f, lambda D: pds.info_value_discrete("g", "c2"), lambda D, _g=_g: pds.info_value_discrete("g", _g(D["c2"])))
    pair("target_encode." + _f, lambda D: pn.target_encode("g", "c2", 3, 2.0), lambda D, _g=_g: pn.target_encode("g", _g(D["c2"]), 3, 2.0))
    pair("convolve." + _f, lambda D: pds.convolve("u", [0.5, -1.0, 2.0], mode="full"), lambda D, _g=_g: pds.convolve("u", _g(pl.Series([0.5, -1.0, 2.0])), mode="full"))
    pair("similar." + _f, lambda D: pds.query_similar_count([0.1, 0.4, 0.2], "u", 1.0, "sql2"), lambda D, _g=_g: pds.query_similar_count(_g(pl.Series([0.1, 0.4, 0.2])), "u", 1.0, "sql2"))
    pair("nb_cnt." + _f, lambda D: pds.query_nb_cnt("u", "w", r="pr"), lambda D, _g=_g: pds.query_nb_cnt("u", "w", r=_g(D["pr"])))
    pair("pt.within." + _f, lambda D: pds.within_dist_from("u", "w", pt=[0.5, 1.0], r=1.5, dist="l2"), lambda D, _g=_g: pds.within_dist_from("u", "w", pt=_g(pl.Series([0.5, 1.0])), r=1.5, dist="l2"))
    pair("pt.knn." + _f, lambda D: pds.is_knn_from("u", "w", pt=[0.5, 1.0], k=3, dist="l1"), lambda D, _g=_g: pds.is_knn_from("u", "w", pt=_g(pl.Series([0.5, 1.0])), k=3, dist="l1"))
    pair("vocab." + _f, lambda D: pds.similar_to_vocab("t", ["cat", "running", "foo"], 0.4, "lv", "all"), lambda D, _g=_g: pds.similar_to_vocab("t", list(_g(pl.Series(["cat", "running", "foo"]))), 0.4, "lv", "all"))
for _f in ("series",):
    _g = SEQ[_f]
    pair("lin_reg.x." + _f, lambda D: pds.lin_reg("u", "w", target="pr", add_bias=True), lambda D, _g=_g: pds.lin_reg(_g(D["u"]), _g(D["w"]), target="pr", add_bias=True))
    pair("lin_reg.y." + _f, lambda D: pds.lin_reg("u", "w", target="pr", add_bias=True), lambda D, _g=_g: pds.lin_reg("u", "w", target=_g(D["pr"]), add_bias=True))
    pair("lin_reg.w." + _f, lambda D: pds.lin_reg("u", "w", target="pr", weights="w2"), lambda D, _g=_g: pds.lin_reg("u", "w", target="pr", weights=_g(D["w2"])))
    pair("report." + _f, lambda D: pds.lin_reg_report("u", target="pr", add_bias=True), lambda D, _g=_g: pds.lin_reg_report(_g(D["u"]).rename("u") if _f == "series" else "u", target=_g(D["pr"]), add_bias=True), lo=8)
    pair("rolling." + _f, lambda D: pds.rolling_lin_reg("u", target="pr", window_size=4), lambda D, _g=_g: pds.rolling_lin_reg(_g(D["u"]), target=_g(D["pr"]), window_size=4), lo=8)
pair("lin_reg.one", lambda D: pds.lin_reg("u", "w", target="pr", l2_reg=0.3, add_bias=True, solver="svd"), lambda D: pds.lin_reg("u", "w", target=["pr"], l2_reg=0.3, add_bias=True, solver="svd"))
pair("lin_reg.one.w", lambda D: pds.lin_reg("u", "w", target="pr", weights="w2", return_pred=True), lambda D: pds.lin_reg("u", "w", target=["pr"], weights="w2", return_pred=True))
pair("lin_reg.one.l1", lambda D: pds.lin_reg("u", "w", target="pr", l1_reg=0.05, l2_reg=0.1, tol=1e-9), lambda D: pds.lin_reg("u", "w", target=["pr"], l1_reg=0.05, l2_reg=0.1, tol=1e-9))
pair("lin_reg.one.null", lambda D: pds.lin_reg("x", "w", target="pr", null_policy="zero", return_pred=True), lambda D: pds.lin_reg("x", "w", target=["pr"], null_policy="zero", return_pred=True))
pair("lin_reg.sql", lambda D: pds.lin_reg(pl.col("u") * 2.0 + 1.0, "w", target=pl.col("pr") - pl.col("w")), lambda D: pds.lin_reg("u * 2.0 + 1.0", "w", target="pr - w"))
_OLD = dict(warn="ignore")
pair("old.lstsq", lambda D: pds.lin_reg("u", "w", target="pr", add_bias=True, l1_reg=0.02, l2_reg=0.1, tol=1e-8), lambda D: pds.query_lstsq("u", "w", target="pr", add_bias=True, l1_reg=0.02, l2_reg=0.1, tol=1e-8))
pair("old.lstsq.pred", lambda D: pds.lin_reg("x", "w", target="pr", weights="w2", return_pred=True, solver="choleskey", null_policy="zero"),
     lambda D: pds.query_lstsq("x", "w", target="pr", weights="w2", return_pred=True, solver="choleskey", null_policy="zero"))
pair("old.lstsq.skip", lambda D: pds.lin_reg("x", "w", target="pr"), lambda D: pds.query_lstsq("x", "w", target="pr"), lo=8)
pair("old.rcond", lambda D: pds.lin_reg_w_rcond("u", "w", target="pr", add_bias=True, rcond=0.3, l2_reg=0.05), lambda D: pds.query_lstsq_w_rcond("u", "w", target="pr", add_bias=True, rcond=0.3, l2_reg=0.05), lo=8)
pair("old.rcond.null", lambda D: pds.lin_reg_w_rcond("x", "w", target="pr", null_policy="zero"), lambda D: pds.query_lstsq_w_rcond("x", "w", target="pr", null_policy="zero"), lo=8)
pair("old.recursive", lambda D: pds.recursive_lin_reg("x", "w", target="pr", start_with=6, add_bias=True, l2_reg=0.1, null_policy="zero"),
     lambda D: pds.query_recursive_lstsq("x", "w", target="pr", start_with=6, add_bias=True, l2_reg=0.1, null_policy="zero"), lo=8)
pair("old.rolling", lambda D: pds.rolling_lin_reg("x", "w", target="pr", window_size=6, add_bias=True, l2_reg=0.1, min_valid_rows=4, null_policy="skip"),
     lambda D: pds.query_rolling_lstsq("x", "w", target="pr", window_size=6, add_bias=True, l2_reg=0.1, min_valid_rows=4, null_policy="skip"), lo=8)
pair("old.report", lambda D: pds.lin_reg_report("x", "w", target="pr", add_bias=True, null_policy="zero"), lambda D: pds.query_lstsq_report("x", "w", target="pr", add_bias=True, null_policy="zero"), lo=8)
pair("old.report.w", lambda D: pds.lin_reg_report("u", "w", target="pr", weights="w2"), lambda D: pds.query_lstsq_report("u", "w", target="pr", weights="w2"), lo=8)
pair("simple", lambda D: pds.lin_reg("u", target="pr", add_bias=True), lambda D: pds.simple_lin_reg("u", target="pr", add_bias=True))
pair("simple.w", lambda D: pds.lin_reg("u", target="pr", weights="w2"), lambda D: pds.simple_lin_reg("u", target="pr", weights="w2"))
pair("benford", lambda D: pds.query_first_digit_cnt("j"), lambda D: pds.exprs.ts_features.query_benford("j"))
pair("norm.hmean", lambda D: pds.weighted_hmean("u2", "w"), lambda D: pds.weighted_hmean("u2", pl.col("w") / pl.col("w").sum(), is_normalized=True))
pair("norm.gmean", lambda D: pds.weighted_gmean("u2", "w"), lambda D: pds.weighted_gmean("u2", pl.col("w") / pl.col("w").sum(), is_normalized=True))
pair("norm.mean", lambda D: pds.weighted_mean("u2", "w"), lambda D: pds.weighted_mean("u2", pl.col("w") / pl.col("w").sum(), is_normalized=True))
pair("corr.xi", lambda D: pds.xi_corr("u", "pr"), lambda D: pds.corr("u", "pr", method="xi"))
pair("corr.kendall", lambda D: pds.kendall_tau("u", "pr"), lambda D: pds.corr("u", "pr", method="kendall"))
pair("corr.bicor", lambda D: pds.bicor("u", "pr"), lambda D: pds.corr("u", "pr", method="bicor"))
pair("streak.avg", lambda D: pds.query_avg_streak("b"), lambda D: pds.query_avg_streak(pl.col("b")))
pair("streak.where", lambda D: pds.query_streak("big"), lambda D: pds.query_streak(pl.col("u") > 3.0))
pair("streak.long", lambda D: pds.query_longest_streak("big"), lambda D: pds.query_longest_streak(pl.col("u") > 3.0))
pair("xent", lambda D: pds.query_cat_cross_entropy("c2", "two"), lambda D: pds.query_cat_cross_entropy("hot", "two", dense=False))
pair("xent.sum", lambda D: pds.query_cat_cross_entropy("c2", "two", normalize=False), lambda D: pds.query_cat_cross_entropy("hot", "two", dense=False, normalize=False))
_AUC = [pds.query_roc_auc(pl.col("c2") == _i, pl.col("two").list.get(_i)) for _i in range(2)]
pair("multi_auc.macro", lambda D: (_AUC[0] + _AUC[1]) / 2, lambda D: pds.query_multi_roc_auc("c2", "two", 2, "macro"))
pair("multi_auc.weighted", lambda D: ((pl.col("c2") == 0).sum() * _AUC[0] + (pl.col("c2") == 1).sum() * _AUC[1]) / D.height, lambda D: pds.query_multi_roc_auc("c2", "two", 2, "weighted"))
fn("query_multi_roc_auc", "@c2", "@two", 2, "weighted")
fn("query_multi_roc_auc", "@c2", "@two", 2, "macro", tag=".m")
pair("psi.sum", lambda D: pds.psi("u", "w", n_bins=4), lambda D: pds.psi("u", "w", n_bins=4, return_report=True).struct.field("psi_bin").sum(), lo=21)
pair("psi_discrete.sum", lambda D: pds.psi_discrete("g", "h"), lambda D: pds.psi_discrete("g", "h", return_report=True).struct.field("psi_bin").sum(), lo=13)
for _f in ("j", "i"):
    pair("comb.str." + _f, lambda D, _f=_f: pds.combinations(_f, 2), lambda D, _f=_f: pds.combinations(pl.col(_f).cast(pl.String), 2).cast(pl.List(pl.Int64)), lo=3)
    pair("product.str." + _f, lambda D, _f=_f: pds.product(_f, pl.col("c2").cast(pl.Int64)), lambda D, _f=_f: pds.product(pl.col(_f).cast(pl.String), pl.col("c2").cast(pl.String)).cast(pl.List(pl.Int64)), lo=3)
pair("jaccard_row.str", lambda D: pds.jaccard_row("la", pl.col("la").list.reverse().list.head(2)), lambda D: pds.jaccard_row(pl.col("la").cast(pl.List(pl.String)), pl.col("la").list.reverse().list.head(2).cast(pl.List(pl.String))))
pair("jaccard_col.str", lambda D: pds.jaccard_col("j", pl.col("j") + 5), lambda D: pds.jaccard_col(pl.col("j").cast(pl.String), (pl.col("j") + 5).cast(pl.String)))
pair("first_digit.float", lambda D: pds.query_first_digit_cnt("j"), lambda D: pds.query_first_digit_cnt(pl.col("j").cast(pl.Float64)))
pair("first_digit.neg", lambda D: pds.query_first_digit_cnt("j"), lambda D: pds.query_first_digit_cnt(-pl.col("j")))
pair("gcd.int", lambda D: pds.gcd("j", pl.lit(12)), lambda D: pds.gcd("j", 12))
pair("lcm.int", lambda D: pds.lcm("j", pl.lit(12)), lambda D: pds.lcm("j", 12))
pair("hav.float", lambda D: pds.haversine("lat", "lon", pl.lit(10.0), pl.lit(-20.0)), lambda D: pds.haversine("lat", "lon", 10.0, -20.0))
pair("xlogy.float", lambda D: pds.xlogy(pl.lit(2.0), "w"), lambda D: pds.xlogy(2.0, "w"))
pair("knn.entropy", lambda D: pds.query_nb_cnt("u", "w", r=1.5), lambda D: pds.query_nb_cnt("u", "w", r=pl.lit(1.5)))
pair("nb_cnt.int", lambda D: pds.query_nb_cnt("u", "w", r=2.0), lambda D: pds.query_nb_cnt("u", "w", r=2))
pair("dist.inf", lambda D: pds.query_nb_cnt("u", "w", r=1.5, dist="inf"), lambda D: pds.query_nb_cnt("u", "w", r=1.5, dist="linf"))


def data(p):
    d = frame(dict(p, nulls=p["nulls"]))
    r = np.random.default_rng(p["s"] + 5)
    n = p["n"]
    D = pl.DataFrame(d, schema=SCH)
    return D.with_columns(
        pl.Series("id", r.permutation(n), dtype=pl.UInt32), pl.Series("b2", r.random(n) < 0.6, dtype=pl.Boolean), pl.Series("w2", r.uniform(0.2, 3, n), dtype=pl.Float64), pl.Series("t2", [d["t"][int(v)] for v in r.permutation(n)], dtype=pl.String),
        pl.Series("u2", r.uniform(0.5, 9, n), dtype=pl.Float64), (pl.col("u") > 3.0).alias("big"), pl.concat_list(1.0 - pl.col("pr"), pl.col("pr")).alias("two"),
        pl.concat_list((pl.col("c2") == 0).cast(pl.Int64), (pl.col("c2") == 1).cast(pl.Int64)).alias("hot"))


INTS = [pl.Int8, pl.Int16, pl.Int32, pl.Int64, pl.UInt8, pl.UInt16, pl.UInt32, pl.UInt64]
REALS = ("x", "y", "u", "w", "pr", "lat", "lon", "w2", "u2")
TYPES = {**{c: INTS + [pl.Float32, pl.Float64] for c in ("i", "j")}, "c2": INTS + [pl.Boolean, pl.Float64], "id": [pl.Int16, pl.Int32, pl.Int64, pl.UInt16, pl.UInt64], "la": [pl.List(t) for t in INTS], "lf": [pl.List(pl.Float32)]}
WHOLE = [pl.Int16, pl.Int32, pl.Int64, pl.Float32]


def retyped(D, q):
    """The frame with values that every type of the choice can hold, and the same frame in other types."""
    whole = q.random() < 0.4
    D = D.with_columns(((pl.col(c) * (1 if whole else 4)).round() / (1 if whole else 4)) for c in REALS)
    D = D.with_columns((pl.col("lf").list.eval((pl.element() * 4).round() / 4)))
    t = {c: q.choice(WHOLE) if whole else pl.Float32 for c in REALS}
    if q.random() < 0.5:  # all alike, or each its own
        t = dict.fromkeys(REALS, t["u"])
    t.update({c: q.choice(v) for c, v in TYPES.items()})
    return D, D.with_columns(pl.col(c).cast(v) for c, v in t.items()), {c: str(v) for c, v in t.items()}


def number(v):
    if isinstance(v, list):
        return [number(a) for a in v]
    if isinstance(v, dict):
        return {k: number(a) for k, a in v.items()}
    return float(v) if isinstance(v, (int, bool)) else v


FORMS = ["dtype", "dtype", "expr", "derived", "literal", "rows", "rows", "compat.series", "compat.array", "compat.mixed"]


def conv(v, how, D, q, noarr, one_col=None):
    if isinstance(v, list) and v and isinstance(v[0], str) and v[0].startswith("@"):
        return [conv(a, how, D, q, noarr, one_col) for a in v]
    if isinstance(v, str) and v[:1] == "#":  # an expression by its signature
        return pl.col(v[1:]) if how in ("name", "dtype") else conv("@" + v[1:], how, D, q, noarr, one_col)
    if not (isinstance(v, str) and v[:1] == "@"):
        return v
    c = v[1:]
    if how in ("name", "dtype"):
        return c
    if how == "expr":
        return pl.col(c)
    if how == "scalar":
        return pl.lit(D[c][0], dtype=D[c].dtype) if c == one_col else c
    if how == "derived":
        return pl.when(pl.lit(True)).then(pl.col(c)).otherwise(None).alias(c)
    if how == "rows":  # the rows are taken by the expression, not by the frame
        return pl.col(c).filter(pl.col("b2"))
    if how == "literal":
        return pl.lit(D[c])
    arr = how == "compat.array" or (how == "compat.mixed" and q.random() < 0.5)
    if arr and c not in NOCONV and c not in LISTY and c not in STR and c not in noarr:
        a = D[c].to_numpy()
        k = q.random()
        if k < 0.25:  # every second element of a wider array
            a = np.repeat(a, 2)[::2]
        elif k < 0.4:  # a column of a table by rows
            a = np.column_stack([a, a])[:, 1]
        elif k < 0.5:
            a = a[::-1].copy()[::-1]
        elif k < 0.6:
            a = a.copy()
            a.flags.writeable = False
        return a
    return D[c]


@op
class Form(Op):
    name = "form.call"

    def gen(self, rng):
        if rng.random() < 0.55:
            nm = rng.choice(sorted(T))
            _, _, _, lo, cm, ex, _ = T[nm]
            f = "scalar" if nm in SCALAR and rng.random() < 0.3 else rng.choice([x for x in FORMS if (cm or not x.startswith("compat")) and (ex or x.startswith("compat"))])
        else:
            nm = rng.choice(sorted(P))
            f = "pair"
            lo = P[nm][0]
        return {"c": nm, "form": f, "n": rng.choice([m for m in (3, 5, 8, 13, 21, 34, 60, 120) if m >= lo]), "s": rng.getrandbits(30), "nulls": rng.choice([0, 0.15]), "k": 0, "at_once": rng.random() < 0.4, "lazy": rng.random() < 0.3}

    def shape(self, p):
        return f"{self.name}|{p['c']}|{p['form']}"

    def run(self, p, ctx):
        D = data(p)
        q = random.Random(p["s"])
        out = {}

        types = None
        frames = {"a": D, "b": D}
        one_col = None
        if p["form"] == "scalar":
            name, args, kw, *_ = T[p["c"]]
            one_col = [a[1:] for a in list(args) + list(kw.values()) if isinstance(a, str) and a[:1] == "@"][-1 if name != "xlogy" or q.random() < 0.5 else 0]
            D = D.with_columns(pl.lit(D[one_col][0], dtype=D[one_col].dtype).alias(one_col))
            frames = {"a": D, "b": D}
        if p["form"] == "rows":
            frames["a"] = D.filter("b2")
        if p["form"] == "dtype":
            frames["a"], frames["b"], types = retyped(D, q)

        def ev(make, D):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                e = make()
            if isinstance(e, pl.Series):
                return {"v": plain(e), "t": str(e.dtype), "name": e.name}
            r = (D.lazy().select(e.alias("out")).collect() if p["lazy"] else D.select(e.alias("out")))["out"]
            return {"v": plain(r), "t": str(r.dtype)}

        if p["form"] == "pair":
            _, a, b = P[p["c"]]
            mk = {"a": lambda: a(D), "b": lambda: b(D)}
        else:
            name, args, kw, _, _, _, noarr = T[p["c"]]

            def call(how):
                g = getattr(compat if how.startswith("compat") else pn if name == "target_encode" else pds, name)
                return g(*[conv(v, how, D, q, noarr, one_col) for v in args], **{k: conv(v, how, D, q, noarr, one_col) for k, v in kw.items()})

            mk = {"a": lambda: call("name"), "b": lambda: call(p["form"])}

        def one(k):
            try:
                out[k] = ev(mk[k], frames[k])
            except BaseException as e:
                out[k] = Exc(e)

        before = D.clone()
        if p["at_once"]:
            t = threading.Thread(target=one, args=("a",), daemon=True)
            t.start()
            one("b")
            t.join()
        else:
            one("a")
            one("b")
        same = D.equals(before, null_equal=True)
        return {"a": out["a"], "b": out["b"], "same": same, "types": types}

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"form {p['c']}: {r.e if hasattr(r, 'e') else r}"]
        a, b = r["a"], r["b"]
        what = f"{p['c']} as {p['form']} over {p['n']} rows (seed {p['s']})"
        v = []
        if not r["same"]:
            v.append(f"{what}: the frame has changed")
        if isinstance(a, Exc) and isinstance(b, Exc):
            return v
        if r["types"]:
            args = str(T[p["c"]][1:3])
            what += " with " + ", ".join(f"{c}: {t}" for c, t in r["types"].items() if f"'@{c}'" in args or f"'#{c}'" in args)
            if isinstance(b, Exc):
                return v  # a type that is refused
        if isinstance(a, Exc) or isinstance(b, Exc):
            return v + [f"{what}: {a!r:.160} but in the other form {b!r:.160}"]
        if p["c"] == "corr.xi":
            return v  # ties are broken at random
        if r["types"]:
            d = unlike(number(a["v"]), number(b["v"]), 1e-5)
            return v + ([f"{what}: {d}"] if d else [])
        d = unlike(a["v"], b["v"], 1e-9)
        if d:
            v.append(f"{what}: {d}")
        elif a["t"] != b["t"]:
            v.append(f"{what}: of type {b['t']} instead of {a['t']}")
        if "name" in b and b["name"] != T[p["c"]][0].replace("query_", ""):
            v.append(f"{what}: the result is named {b['name']!r}")
        return v
