"""Writes /verif/known_findings.json: open findings below; the repairs are read from /repo's fix: commits."""
import json, subprocess
FINDINGS = [
    {"id": "qcut-string-cache", "property": "C17",
     "what": "woe/info_value inside group_by or over raise StringCacheMismatch when another thread's query (the streaming engine) switches polars' process-wide string cache on between two groups, because qcut builds one categorical per group"},
    {"id": "json-nonfinite", "property": "C12",
     "what": "a pipeline that learned a NaN or infinite constant (from NaN or infinite data) cannot be loaded from its own JSON or dictionary: polars' JSON form of an expression writes such a literal as null and then refuses it"},
    {"id": "qcut-string-cache-c05", "property": "C05",
     "what": "the same qcut-string-cache failure (see C17), as it shows when woe/info_value are compared between evaluation contexts"},
    {"id": "normal-test-flat", "property": "C18",
     "what": "normal_test of very flat data (short, two-valued: the denominator 1 + x sqrt(2 / (a - 4)) of its kurtosis term is negative) takes the denominator's absolute value and so loses the sign; statistic and p-value differ from D'Agostino-Pearson (scipy.stats.normaltest). Not repaired because src/stats/normal_test.rs has the name of a test file"},
]
PROP = {  # commit subject -> property
    "a row with null/NaN is never a neighbor": "C01", "KNN queries give null": "C01", "query_nb_cnt gives null": "C01", "within_dist_from compares": "C01",
    "KDTree.within and within_count return": "C02", "KDTree.within and within_count refuse": "C02", "is_knn_from": "C01", "query_permute_entropy": "C16",
    "query_similar_count works": "C16", "integrate_trapz": "C16", "query_approx_entropy": "C16", "ROC AUC": "C17", "average precision": "C17",
    "query_binary_metrics accepts": "C17", "query_binary_metrics declares": "C05", "query_binary_metrics and query_tpr_fpr": "C17", "query_mcc": "C17",
    "confusion matrix and MCC": "C17", "jaccard_col": "C17", "query_first_digit_cnt": "C16", "psi_discrete pairs": "C17", "psi_discrete's report": "C05",
    "psi_discrete counts null": "C17", "confusion matrix metrics": "C17", "calculate_ndcg": "C17", "psi accepts": "C17",
}
PROP.update(json.load(open("/verif/tools/fixes.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
undone = {l.split('Revert "', 1)[1].rstrip('"') for l in log if 'Revert "' in l}
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:") or s in undone:
        continue
    s = s[4:].strip()
    m = [p for k, p in PROP.items() if s.startswith(k)]
    assert m, s
    fixed.append(f"fixed: property={m[0]} {h} {s}")
json.dump({"findings": FINDINGS, "fixed": fixed}, open("/verif/known_findings.json", "w"), indent=1)
print(len(fixed), "fixed,", len(FINDINGS), "open")
