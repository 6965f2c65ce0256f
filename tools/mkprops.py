"""Writes /verif/properties.jsonl (the text lives here so that it can be edited comfortably)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


p("C01", "Nearest-neighbour expressions are exact under every schedule",
  """For each row, the k-NN, k-th-neighbour distance, k-NN average, radius and neighbour-count expressions return exactly what
  a brute-force search over the eligible rows gives under the chosen metric (up to the order of equal distances and float rounding):
  never a row excluded by nulls, NaN or the data mask, never beyond the bound, never one missed, and null for a row that is itself not
  evaluated. This holds for every thread count and interleaving, with parallel evaluation on or off.""",
  ["schedules", "inputs", "configurations"],
  """All point sets (ties, duplicates, constant columns, nulls, 1 to 17+ dimensions), metrics l1, l2, sql2, inf, masks, bounds,
  k and r, thread counts, serial or parallel evaluation, evaluation contexts and thread interleavings.""",
  """The tests compare a few fixed frames with scikit-learn on one machine-chosen thread count; they reach no chosen
  interleaving, hardly any ties or nulls, and none of the row splits other thread counts produce.""",
  ["src/num_ext/knn.rs", "src/arkadia/kdt.rs", "src/arkadia/mod.rs", "src/utils/mod.rs", "python/polars_ds/exprs/expr_knn.py"],
  [("row ranges per thread", "split_offsets in src/utils/mod.rs"), ("bounding-box pruning", "KDT::knn_one_step, within_one_step in src/arkadia/kdt.rs"),
   ("neighbour list kept sorted and at most k long", "update_top_k in src/arkadia/kdt.rs")],
  [("bounds", "box around a subtree's points, the only licence to skip it", "KDT.bounds")], ["DataFrame.select and friends"])

p("C02", "A KDTree object answers exactly for everything added to it so far",
  """After any history of building and adding, a KDTree's k-nearest, within-radius and count queries equal a brute-force search over
  all points added so far, numbered in the order they were added, whether asked serially or in parallel, with a scalar or per-row radius;
  its length is the number of points. A refused call (wrong shape or dimension) changes nothing, and concurrent callers each see the tree
  before or after another's addition, never in between.""",
  ["histories", "schedules", "inputs"],
  "All sequences of build/add/query/invalid calls by one or several caller threads, all interleavings, thread counts, metrics and point sets.",
  "The tests build one tree from random points and query it once; none interleaves additions with queries, threads or failing calls.",
  ["src/pymodels/py_kdt.rs", "src/arkadia/kdt.rs", "python/polars_ds/spatial.py"],
  [("splitting and bounds on insertion", "OwnedKDT::add_unchecked in src/arkadia/kdt.rs"), ("index numbering", "PyKDT::add in src/pymodels/py_kdt.rs")],
  [("count", "points held", "OwnedKDT::count_all")], ["KDTree.knn/within/within_count/add/len"])

p("C03", "The parallel flag never changes a result",
  """Every expression that offers a parallel switch (string comparison, convolution, subsequence similarity counts, nearest neighbours,
  entropies) returns the same rows in the same order with the switch on as with it off, and both equal the sequential definition of the
  operation up to float rounding. This holds for every thread count, row count relative to it, and interleaving, also when several such
  expressions share the thread pool or sit inside a group-by.""",
  ["schedules", "configurations", "inputs"],
  "All expressions with the flag, inputs, thread counts, and interleavings of pool workers, with the pool shared by other queries.",
  "The tests call the parallel paths a handful of times with the machine's own thread count and let the OS schedule.",
  ["src/utils/mod.rs", "src/str_ext", "src/num_ext/convolve.rs", "src/num_ext/subseq_sim.rs", "src/num_ext/entrophies.rs", "src/num_ext/knn.rs"],
  [("contiguous, exhaustive row ranges", "split_offsets in src/utils/mod.rs"), ("no nested use of the pool", "context.parallel() checks in each expression"),
   ("chunks concatenated in range order", "from_chunk_iter calls")], [], ["DataFrame.select, group_by().agg, over"])

p("C04", "String comparison gives each row the value its definition demands",
  """Each string distance, similarity or bounded filter (Levenshtein, Damerau-Levenshtein, OSA, Hamming, Jaro, Jaro-Winkler, longest common
  subsequence, ratio, Jaccard, overlap, Sorensen-Dice, Tversky) returns for each row the value of its published definition over Unicode
  characters (the n-gram set measures: over n-byte substrings, as documented) for exactly that row's two strings, null when either is null, whether the second argument is a column or a constant. A filter is true exactly when the distance is within its bound.
  This holds wherever the rows are cut for parallel work and whatever the interleaving.""",
  ["schedules", "inputs", "configurations"],
  "All pairs of strings (empty, multi-byte, long, null), columns against columns or a constant, thread counts, row splits and interleavings.",
  "The tests check a few literal pairs of short strings; no null patterns across chunk borders, no constant-versus-column matrix, no schedules.",
  ["src/str_ext/levenshtein.rs", "src/str_ext/hamming.rs", "src/str_ext/jaro.rs", "src/str_ext/osa.rs", "src/str_ext/lcs_seq.rs", "src/str_ext/str_jaccard.rs",
   "src/str_ext/overlap.rs", "src/str_ext/sorensen_dice.rs", "src/str_ext/tversky.rs", "src/str_ext/generic_str_distancer.rs", "python/polars_ds/exprs/string.py"],
  [("constant broadcast against column", "generic_batched_distance and siblings in src/str_ext/generic_str_distancer.rs"), ("row splits", "split_offsets in src/utils/mod.rs")],
  [], ["DataFrame.select and friends"])

p("C05", "A result depends only on its rows, not on how they are evaluated",
  """Any deterministic expression of the library gives, for a set of rows, the same values and the same declared data type whether evaluated
  eagerly, lazily or in streaming mode, over chunked, sliced or filtered data, inside a group-by or window, next to sibling expressions, or
  while other threads run other queries. Results keep their row order, and two evaluations of the same query agree.""",
  ["schedules", "configurations", "inputs"],
  "All expressions of the library, all evaluation contexts and chunk layouts, all interleavings of pool workers and concurrent callers.",
  "Tests evaluate an expression in one context on one contiguous frame; the product of expressions, contexts, layouts and schedules is not sampled at all.",
  ["src/num_ext", "src/str_ext", "src/stats", "src/utils/mod.rs", "python/polars_ds/exprs", "python/polars_ds/_utils.py"],
  [("plugin registration: elementwise, returns_scalar, changes_length", "pl_plugin in python/polars_ds/_utils.py"), ("rechunk and null handling on entry", "series_to_* in src/utils/mod.rs"),
   ("declared output types", "polars_expr(output_type...) attributes")], [], ["collect, collect_schema"])

p("C06", "Per-group regression is least squares over exactly the rows it should see",
  """Linear regression expressions return the (weighted, ridge or lasso penalised) least-squares solution of exactly the rows their null policy
  admits, in every evaluation context: predictions and residuals line up with the input rows, rows dropped by the policy get none (null or NaN), rows
  filled by it use the fill value, and the `raise` policy refuses nulls. Multi-target, report and rcond variants agree with the same solution.""",
  ["schedules", "configurations", "inputs"],
  "All designs (with nulls in any column, weights, bias, solvers, penalties, targets) in all contexts (whole frame, group-by, window, lazy) and interleavings.",
  "The tests fit a few generated frames once in select; null policies are checked on one pattern, and grouped or concurrent evaluation barely.",
  ["src/num_ext/linear_regression.rs", "src/num_ext/linear_regression_f32.rs", "src/linalg/lr_solvers.rs", "python/polars_ds/exprs/expr_linear.py", "python/polars_ds/linear_models.py", "src/pymodels/py_lr.rs"],
  [("null policy", "series_to_mat_for_lstsq in src/num_ext/linear_regression.rs"), ("solvers", "src/linalg/lr_solvers.rs")], [], ["coeffs, pred, resid fields; LR.coeffs/predict"])

p("C07", "Rolling and recursive regressions equal a refit at every row",
  """At every row with enough data, the coefficients and prediction of a rolling regression equal those of a fresh fit on that row's window, and
  those of a recursive regression a fresh fit on all rows so far; rows without enough valid data are null. Rows skipped by the null policy
  leave no trace in later rows, however many updates came before.""",
  ["histories", "inputs", "schedules"],
  "All row sequences with arbitrary null runs, window sizes, penalties, minimum counts; every prefix and every window of each; all contexts and interleavings.",
  "The tests compare one random frame without long null runs; the incremental state's history (rows entering, leaving, skipped, window emptied and refilled) is not explored.",
  ["src/linalg/lr_online_solvers.rs", "src/num_ext/linear_regression.rs", "python/polars_ds/exprs/expr_linear.py"],
  [("inverse updated by rank-one up/downdates", "woodbury_step in src/linalg/lr_online_solvers.rs"), ("window bookkeeping", "faer_rolling_lstsq, faer_rolling_skipping_lstsq")],
  [("inverse", "(X'X + lI)^-1 of the rows in the window", "src/linalg/lr_online_solvers.rs")], ["coeffs, pred fields"])

p("C08", "An online regression equals a batch fit over its history",
  """After any sequence of fit, update and removal, an online regression's coefficients, bias and predictions equal a batch fit on the rows
  currently included (updates added, removals taken out, with its ridge penalty). A call that fails or a row with NaN leaves the model exactly as it
  was, and concurrent callers' updates take effect one after the other, none lost and none applied twice.""",
  ["histories", "schedules", "inputs"],
  "All histories of fit/update/remove/predict/invalid calls, by one or several threads, all interleavings, with and without bias and ridge.",
  "The tests do one fit and a few updates in sequence; failures, removals, restored coefficients and concurrent callers are not explored.",
  ["src/pymodels/py_lr.rs", "src/linalg/lr_online_solvers.rs", "python/polars_ds/linear_models.py"],
  [("Sherman-Morrison update", "woodbury_step in src/linalg/lr_online_solvers.rs"), ("NaN guard", "PyOnlineLR::update in src/pymodels/py_lr.rs")],
  [("inverse, coefficients", "sufficient statistics of the history", "OnlineLR in src/linalg/lr_online_solvers.rs")], ["OnlineLR.coeffs/bias/predict/update"])

p("C09", "A given seed always yields the same random values",
  """Every randomised function that takes a seed (random columns, noise, null injection, random strings, sampling, splitting, column picking,
  xi-correlation) returns the same result for the same seed and data, whatever the thread count, schedule, clock, system entropy or earlier random calls.
  Different seeds, and unseeded calls, give different draws.""",
  ["schedules", "configurations", "fault_sequences"],
  "All seeded functions, seeds, sizes, concurrent neighbours, interleavings, entropy values and failures, process restarts.",
  "A test can compare two calls in one process; it cannot vary entropy, schedule and history under the same seed.",
  ["src/stats/sample.rs", "python/polars_ds/exprs/stats.py", "python/polars_ds/sample_and_split/sample_and_split.py", "src/stats/xi_corr.rs"],
  [("generator seeded per call", "rand construction in src/stats/sample.rs")], [], ["values returned"])

p("C10", "Random columns keep their contract under any entropy",
  """Random columns have the requested length and no nulls, values inside the requested bounds (integers below the upper bound, strings within the
  length limits, binomial counts in 0..n, exponentials non-negative), follow the requested distribution's location and spread, and noise or null injection leaves
  everything else as it was. Unseeded draws keep doing so when system entropy is short, interrupted or constant, and rows drawn by different threads are not copies of each other.""",
  ["fault_sequences", "inputs", "schedules"],
  "All parameters, per-row bounds, lengths, seeds, entropy streams including short reads and interruptions, schedules.",
  "Tests assert a few inequalities on one draw from real entropy; no fault reaches the entropy source in a test.",
  ["src/stats/sample.rs", "python/polars_ds/exprs/stats.py"],
  [("distribution constructors", "src/stats/sample.rs")], [], ["values, dtype and length of the column"])

p("C11", "Sampling and splitting conserve rows",
  """Splitting a frame gives parts that are disjoint, together hold every row exactly once unchanged, and have the sizes the ratios call for (within
  one row, and per class where classes are sampled separately); partitioning puts every row in exactly one part, under the name of its keys, and refuses keys whose parts could not be told apart; sampling and down-sampling return only existing rows, each at most once, in the documented amount, touching only the classes they were asked to. This
  holds for eager and lazy frames, any thread count and schedule, and with other threads sampling the same frame.""",
  ["inputs", "schedules", "configurations"],
  "All frames, ratios, strata, seeds, eager/lazy input, interleavings of pool workers and concurrent callers.",
  "The tests check sums of sizes for a couple of ratios; uneven ratios, small or empty strata, laziness and concurrency are not reached.",
  ["python/polars_ds/sample_and_split/sample_and_split.py", "python/polars_ds/partition/partition.py"],
  [("row numbering and cut points", "split_by_ratio in python/polars_ds/sample_and_split/sample_and_split.py")], [], ["frames returned"])

p("C12", "A fitted pipeline applies what it learned, the same way every time",
  """A fitted pipeline maps each row using only constants learned from the fitting data: the same input gives the same output on every call, from any number of
  threads, eager or lazy, alone or in a larger batch, and after a round trip through its dictionary or JSON form; the learned constants are those of the
  fitting data. Fitting and transforming never change the caller's frame or the blueprint, and rows keep their order.""",
  ["histories", "schedules", "inputs"],
  "All combinations of pipeline steps, fitting and transform data (unseen categories, nulls), repeated and concurrent use, serialisation between uses, interleavings.",
  "The tests run each transform once on one frame and reload one pipeline; repeated, concurrent, batch-split and post-reload use is not compared.",
  ["python/polars_ds/modeling/pipeline.py", "python/polars_ds/modeling/_structures.py", "python/polars_ds/modeling/transforms.py"],
  [("constants baked into expressions", "python/polars_ds/modeling/transforms.py"), ("expression JSON", "PipelineStep.to_json/from_json in python/polars_ds/modeling/_structures.py")],
  [("transforms", "fitted steps", "Pipeline.transforms")], ["Pipeline.transform, to_json, from_json"])

p("C13", "A saved pipeline loads back whole or not at all",
  """When saving a pipeline to a file reports success and the file is later read without a disk error or machine crash in between, loading gives a pipeline that transforms
  like the saved one. A save that meets a full disk, I/O error or permission failure raises, and a load of a missing, torn or partly written file (as a crash leaves it), or one that meets read errors, raises too: it never
  yields a different pipeline.""",
  ["fault_sequences", "crash_points", "histories"],
  "All pipelines, every write/read/open/close boundary as the place of a disk fault or crash, overwrites of older files, retries, concurrent savers to different files.",
  "The tests save once to a healthy disk; no test injects a short write, full disk or crash.",
  ["python/polars_ds/modeling/pipeline.py", "python/polars_ds/modeling/_structures.py"],
  [("JSON as the only on-disk form", "Pipeline.to_json/from_json in python/polars_ds/modeling/pipeline.py")], [], ["the file below the given path; exceptions"])

p("C14", "A failing call fails alone: no abort, no hang, no damage",
  """A call with bad data or parameters, or one that meets a failing system call, raises an error to its own caller; the process survives, nothing hangs or
  deadlocks, and every other query running at the same time or afterwards gives its correct result. A column
  of an unsuitable type is an error, and a column of another type that holds the same values gives the same result or an error. Once faults stop, all submitted work completes within a bounded number of scheduling steps.""",
  ["fault_sequences", "schedules", "inputs"],
  "All expressions with invalid arguments, degenerate data (empty, all-null, single-row, NaN), entropy failures, stalled threads, spurious wake-ups, clock jumps, mixed with valid concurrent work.",
  "Tests assert that a few calls raise; none runs failing and healthy work side by side or checks the pool afterwards.",
  ["src/lib.rs", "src/num_ext", "src/str_ext", "src/pymodels", "python/polars_ds"],
  [("panic capture at the plugin boundary", "polars_expr macro of pyo3-polars"), ("shared pool use", "POOL.install sites")], [], ["exceptions, later results, process status"])

p("C15", "No call writes outside its memory or shows memory it did not set",
  """No expression or model call modifies the caller's frames or arrays, writes outside the memory it allocated, frees it wrongly, or lets the result depend on bytes it
  never set: with heap contents varied arbitrarily, results stay the same and heap guards stay intact. This holds for any interleaving of callers and workers.""",
  ["schedules", "inputs", "fault_sequences"],
  "All expressions and model calls, inputs, heap contents before each allocation, interleavings.",
  "Tests run on whatever the allocator returns, usually fresh zero pages, so a read of unset memory passes; they do not compare inputs before and after.",
  ["src/num_ext", "src/linalg", "src/pymodels", "src/str_ext", "src/stats/sample.rs", "src/utils/mod.rs"],
  [("unsafe blocks and unchecked slices", "grep unsafe in src"), ("zero-copy numpy views", "src/pymodels")], [], ["inputs before/after, heap canaries, results"])

p("C16", "Time-series and window features equal their sequential definition",
  """Sliding-window and whole-series features (convolution, streaks, similar-subsequence counts, autocorrelation and change statistics, Lempel-Ziv and the entropy
  family, FFT) computed for each series inside a group-by, window or whole-frame query equal a direct sequential computation over that series' rows in order. They never mix rows of
  neighbouring series, for any interleaving of the groups' workers.""",
  ["schedules", "inputs", "configurations"],
  "All series, parameters, group layouts, contexts, chunk layouts, thread counts and interleavings.",
  "The tests compute each feature on one short series in select; grouped and parallel evaluation against a reference is not covered.",
  ["python/polars_ds/exprs/ts_features.py", "src/num_ext/convolve.rs", "src/num_ext/subseq_sim.rs", "src/num_ext/entrophies.rs", "src/num_ext/lempel_ziv.rs", "src/num_ext/fft.rs"],
  [("plugin functions over one series", "src/num_ext")], [], ["values per group"])

p("C17", "Encoders and model metrics per group equal their definition on those rows",
  """Classification, regression and drift metrics (ROC AUC, confusion counts, losses, PSI, WOE, information value, KS, target encoding and similar) evaluated per group, window or frame give
  what the definition gives for exactly those rows, whatever the row order where the definition ignores it. Grouped evaluations running on several workers do not influence each other.""",
  ["schedules", "inputs", "configurations"],
  "All inputs, groupings, row permutations, contexts, thread counts and interleavings.",
  "The tests compare some metrics with scikit-learn on one frame; per-group evaluation, ties and permutations are not explored.",
  ["python/polars_ds/exprs/metrics.py", "python/polars_ds/exprs/num.py", "src/num_ext/tp_fp.rs", "src/num_ext/psi.rs", "src/num_ext/woe_iv.rs", "src/num_ext/target_encode.rs", "src/stats/ks.rs"],
  [("plugin functions over the group's rows", "src/num_ext, src/stats")], [], ["values per group"])

p("C18", "Tests, statistics and transforms agree with their definition everywhere",
  """Hypothesis tests (t, Welch, KS, Mann-Whitney, normality, chi-squared, F), rank and weighted correlations, means and variances, special functions, row-wise transforms, horizontal norms,
  singular values, principal components, products and combinations give, for every sample, group, window, filtered, chunked or sliced part of a frame, on any number of workers and under any schedule,
  the value of their mathematical definition on exactly those rows: ties, skew, weights and non-finite values included.""",
  ["inputs", "schedules", "fault_sequences"], "Every sample and weighting in the supported domain, every grouping and partition of the rows, every interleaving of the workers and of concurrent queries.",
  "Tests compare a handful of samples with SciPy in a single select; the tie, weight, sign and sample-size errors need particular samples, and the per-group results a partition and several workers.",
  ["src/stats", "src/stats_utils", "src/num_ext/float_extras.rs", "src/num_ext/pca.rs", "src/num_ext/haversine.rs", "src/num_ext/iterations.rs", "python/polars_ds/exprs/stats.py", "python/polars_ds/exprs/num.py"],
  [("closed-form numerics", "src/stats, src/stats_utils"), ("expression compositions", "python/polars_ds/exprs/stats.py")])

p("C19", "String cleaning, tokens, stems and case conversion follow their definition",
  """Case conversion, diacritic removal, normalisation, whitespace and word mapping, number extraction, tokenising, stop words and stemming give for every string the result of their documented rule, and null for
  null, in every context, chunking and schedule, whatever strings the worker handled before (buffers are reused from row to row).""",
  ["inputs", "schedules", "fault_sequences"], "All Unicode strings and word lists, every order and chunking of rows, every interleaving of the workers.",
  "Tests use a few literals in a single select; a buffer or a rule that fails needs a particular string, or a particular string after another.",
  ["src/str_ext/str_cleaning.rs", "src/str_ext/inflections.rs", "src/str_ext/snowball", "src/str_ext/is_stopword.rs", "python/polars_ds/exprs/string.py"],
  [("string functions over an amortised buffer", "src/str_ext/str_cleaning.rs, src/str_ext/snowball_stem.rs")])

p("C20", "Diagnosis reports describe exactly the frame they were made from",
  """Every report of the data inspection assistant (profiles, special values, null and value correlations, inferred kinds of columns, dependencies, row and column validation) equals the same figures computed from the
  rows of the frame: every column that qualifies is there and no other, every row is counted, and the frame, eager, lazy or chunked, is left unchanged. Asking again gives the same report.""",
  ["inputs", "schedules", "histories"], "All frames with nulls, NaN, infinities, empty strings, categoricals and lists, every chunking, every order of report calls on one object.",
  "The class has almost no tests; a report that overlooks rows or columns needs particular data (a bad value past the first row, a column of a kind set aside) to show.",
  ["python/polars_ds/eda/diagnosis.py"],
  [("reports over shared, cached state", "DIA in python/polars_ds/eda/diagnosis.py"), ("conditional entropy of pairs", "query_cond_entropy in src/num_ext/cond_entropy.rs")])

p("C21", "The same call in another form gives the same result",
  """A function of the package gives the same values, of the same type, however the call is written: columns given by name, as an expression, as a derived or literal column, or (through polars_ds.compat) as Series and arrays;
  the rows taken by filtering the frame or by filtering the expression; targets, kernels, points, radii and weights given as a list, tuple, array, Series or column where the signature allows it; a list of one target or the target
  itself; the former names (query_lstsq and the like) or the present ones; a flag or the computation it stands for. The forms agree also when evaluated at the same time by different threads, and none changes the frame.""",
  ["inputs", "schedules", "fault_sequences"], "Every public function, every form its signature allows, every frame, every interleaving of the two evaluations.",
  "Tests call most functions in one form only (by name, in a plain select over the whole frame); an argument lost on the way through an alias, or the height of the frame taken for the length of the expression, needs the other form.",
  ["python/polars_ds/compat", "python/polars_ds/exprs", "python/polars_ds/_utils.py", "python/polars_ds/__init__.py"],
  [("arguments turned into expressions", "str_to_expr in python/polars_ds/_utils.py"), ("compat mode", "_Compat in python/polars_ds/compat/_compat.py"), ("former names", "query_lstsq and others in python/polars_ds/exprs/expr_linear.py")])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
