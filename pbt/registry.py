"""Single source of properties.jsonl and MANIFEST.json.

    python3 pbt/registry.py        rewrites both files
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []


def prop(pid, title, statement, over, text, why, files, mech, note, tech):
    assert len(title) <= 80, (pid, len(title))
    R.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, note=note, tech=tech))


prop(
    "C01", "Every fitted model is a consistent directed acyclic graph",
    "For every data set that an estimator without hidden-variable output accepts, the fitted causal "
    "order is a permutation of all variables and the fitted adjacency matrix is finite, square, has "
    "a zero diagonal, is acyclic, and every non-zero entry [to, from] goes from an earlier to a later "
    "variable of that order. This holds for the direct, kernel, ICA, multi-group, high-dimensional, "
    "nonlinear (residual-based) and bottom-up (alpha=0) estimators, for the instantaneous matrix of "
    "the VAR estimator (pruned or not), and at every fitted time point of the longitudinal estimator.",
    ["inputs", "configurations"],
    "all data matrices (any number of variables, sample size, noise law, scale, location, graph density) and estimator settings",
    "The tests fit one or two fixed data sets per estimator and assert mostly that no exception is raised; acyclicity and agreement between order and matrix must hold for every data set.",
    ["lingam/direct_lingam.py", "lingam/ica_lingam.py", "lingam/multi_group_direct_lingam.py",
     "lingam/high_dim_direct_lingam.py", "lingam/resit.py", "lingam/bottom_up_parce_lingam.py",
     "lingam/var_lingam.py", "lingam/longitudinal_lingam.py", "lingam/base.py"],
    [("regression on predecessors of the causal order", "lingam/base.py:_estimate_adjacency_matrix"),
     ("search for a causal order", "lingam/ica_lingam.py"),
     ("iterative exogenous-variable search", "lingam/direct_lingam.py:fit")],
    "Generated data sets; the graph invariants are decided by an independent topological check.",
    "property-based testing: graph invariants over generated data sets",
)
prop(
    "C02", "Prior knowledge is honoured exactly or rejected",
    "Whenever a consistent prior-knowledge matrix is given, the fitted causal order puts every variable "
    "that is required or implied to come first before the other one, no forbidden entry of the adjacency "
    "matrix is non-zero, and an all-unknown matrix changes nothing compared with giving none. A "
    "contradictory or wrongly shaped matrix is rejected with ValueError instead of being silently "
    "ignored, and the argument is never modified. The helper that builds such matrices sets exactly the "
    "entries implied by its exogenous, sink, path and no-path arguments (exogenous and sink first) "
    "and leaves everything else unknown.",
    ["inputs", "configurations"],
    "all prior-knowledge matrices over {-1,0,1} (int, float or nested list), data sets, and the direct (both measures), soft, multi-group and bottom-up estimators",
    "The tests use a few fixed 4- to 6-variable matrices and mostly check one entry; the set of constraint combinations is exponential.",
    ["lingam/direct_lingam.py", "lingam/multi_group_direct_lingam.py",
     "lingam/bottom_up_parce_lingam.py", "lingam/utils/__init__.py", "lingam/base.py"],
    [("partial orders extracted from the matrix", "lingam/direct_lingam.py:_extract_partial_orders"),
     ("candidate search", "lingam/direct_lingam.py:_search_candidate"),
     ("forbidden predictors dropped", "lingam/base.py:_estimate_adjacency_matrix"),
     ("matrix builder", "lingam/utils/__init__.py:make_prior_knowledge")],
    "Generated matrices are judged against an explicit constraint model (precedence, forbidden edges and paths, contradictions).",
    "property-based testing: generated constraint matrices against a constraint model",
)
prop(
    "C03", "The causal order is the one the published criterion selects",
    "At every step of the direct estimator the chosen variable has the best independence score (pairwise "
    "likelihood-ratio or kernel mutual-information) among the variables that prior knowledge still "
    "admits, scores of several data sets being averaged by sample size in the multi-group estimator. "
    "The ICA estimator's order is the one obtained by permuting its unmixing matrix to the best "
    "diagonal and zeroing the fewest smallest entries that leave an acyclic graph. Consequently, on large "
    "samples that the criterion decides, the generating graph and its coefficients are recovered.",
    ["inputs", "configurations"],
    "all data sets, one or several groups, both measures, all consistent prior knowledge",
    "Tests check at most that a fixed 6-variable example yields some order; choosing the second-best variable in rare cases is invisible to them.",
    ["lingam/direct_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/ica_lingam.py"],
    [("exogenous-variable search", "lingam/direct_lingam.py:_search_causal_order"),
     ("kernel measure", "lingam/direct_lingam.py:_search_causal_order_kernel"),
     ("row permutation and causal order search", "lingam/ica_lingam.py")],
    "Differential against an independent implementation of the published criteria, with slack for ties; ground-truth recovery only where the reference itself is decisive.",
    "property-based testing: differential against a reference implementation",
)
prop(
    "C04", "Every non-zero coefficient is the least-squares value of a selected parent",
    "For every fitted linear model the parents of a variable are exactly the predecessors kept by the "
    "adaptive lasso with BIC (computed on standardized data so that units do not matter), and their "
    "coefficients are the ordinary-least-squares coefficients of the variable on those parents. Other "
    "entries are exactly zero.",
    ["inputs", "configurations"],
    "all data sets and causal orders; direct, ICA and multi-group estimators and the public selection helper",
    "Tests never compare coefficients with an independent regression.",
    ["lingam/base.py", "lingam/utils/__init__.py", "lingam/multi_group_direct_lingam.py"],
    [("adjacency estimation", "lingam/base.py:_estimate_adjacency_matrix"),
     ("adaptive lasso", "lingam/utils/__init__.py:predict_adaptive_lasso")],
    "Differential against an independent adaptive-lasso/OLS reference; near ties of the BIC are skipped.",
    "property-based testing: differential against a reference regression",
)
prop(
    "C05", "Results do not depend on units, labels, row order or container type",
    "Rescaling, shifting or flipping the sign of variables rescales the coefficients of the direct "
    "estimators accordingly and leaves the order unchanged; permuting variables permutes the result; "
    "permuting rows leaves it unchanged (where near ties do not decide); the independence-test based "
    "estimators behave likewise under positive rescaling and row permutation. The same numbers passed "
    "as array, list, data frame with any labels, Fortran-ordered, strided, read-only or integer array "
    "give the same fitted model, and fitting never modifies the caller's data.",
    ["inputs", "configurations"],
    "all data sets, unit changes, permutations and containers; all estimators",
    "Tests use float arrays or default data frames only and never compare two presentations of one data set.",
    ["lingam/direct_lingam.py", "lingam/base.py", "lingam/rcd.py", "lingam/bottom_up_parce_lingam.py",
     "lingam/resit.py", "lingam/camuv.py", "lingam/var_lingam.py", "lingam/longitudinal_lingam.py"],
    [("standardisation", "lingam/direct_lingam.py:fit"), ("input conversion", "lingam/*.py:check_array")],
    "Metamorphic relations; cases whose order the reference finds nearly tied are skipped.",
    "property-based testing: metamorphic relations",
)
prop(
    "C06", "Total effects adjust for the cause's parents and sum over directed paths",
    "For every fitted model and pair of variables, the regression-based total effect equals the "
    "coefficient of the cause when the effect is regressed on the cause together with all parents of the "
    "cause in the fitted graph; the graph-based total effect equals the sum over all directed paths of "
    "the products of coefficients. Effects of variables with unidentified parents are NaN, and a warning "
    "is issued exactly when the destination precedes the source in the fitted order.",
    ["inputs", "configurations"],
    "all data sets, all ordered pairs, direct, ICA, multi-group, high-dimensional, bottom-up and pairwise-confounder (RCD) models; data handed in need not be the training data",
    "Tests call the function once per model and check nothing about the value.",
    ["lingam/base.py", "lingam/multi_group_direct_lingam.py", "lingam/bottom_up_parce_lingam.py",
     "lingam/rcd.py", "lingam/utils/__init__.py"],
    [("regression-based", "estimate_total_effect"), ("path-based", "estimate_total_effect2"),
     ("path sums", "lingam/utils/__init__.py:calculate_total_effect")],
    "Differential against OLS and matrix-inverse references, plus recovery of the generating effects.",
    "property-based testing: differential against OLS and matrix inverse",
)
prop(
    "C07", "Graph helpers agree with plain graph theory",
    "Path enumeration returns each simple directed path whose every |coefficient| exceeds the threshold "
    "exactly once with the product of its coefficients, and raises ValueError when the walk can enter a "
    "cycle; total effects equal the path sums and are refused for discrete variables on the path, "
    "equal endpoints, endpoints that are no variable, or malformed matrices. Root and sink variables and breadth-first distances from the roots (up to the given maximum) are those of "
    "the graph, even when coefficients cancel. Removing the effect of features leaves least-squares "
    "residuals that are uncorrelated with those features and leaves the features themselves unchanged.",
    ["inputs"],
    "all weighted graphs (acyclic with unidentified entries, or cyclic), endpoints, thresholds and data",
    "Tests use one or two fixed graphs.",
    ["lingam/utils/__init__.py"],
    [("paths", "find_all_paths"), ("effects", "calculate_total_effect"),
     ("roots", "get_exo_variables / get_sink_variables / calculate_distance_from_root_nodes"),
     ("residuals", "remove_effect")],
    "Exhaustive recursion over small generated graphs is the oracle.",
    "property-based testing: generated graphs against a recursive reference",
)
prop(
    "C08", "Bootstrap summaries count exactly what the sampled graphs contain",
    "For every collection of sampled matrices, direction counts, graph counts, edge probabilities, total "
    "effects and path lists equal a plain recount of the edges whose |coefficient| exceeds the threshold (split "
    "by sign on request), are sorted by frequency, contain no duplicates, and are truncated to the most "
    "frequent entries when a limit is given. Effects are medians over the samples in which they are non-zero. "
    "Time-series and longitudinal results report the same for lagged variables and time points, and invalid limits or "
    "thresholds are rejected.",
    ["inputs", "configurations"],
    "all lists of sampled graphs (with unidentified entries, repeats, cancelling signs), thresholds, limits and lag structures",
    "Tests look at the summaries of one seeded run and check mostly lengths.",
    ["lingam/bootstrap.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py"],
    [("summaries", "lingam/bootstrap.py"), ("lagged paths", "lingam/var_lingam.py:VARBootstrapResult"),
     ("longitudinal", "lingam/longitudinal_lingam.py:LongitudinalBootstrapResult")],
    "Every summary is recomputed naively from the generated matrices.",
    "property-based testing: generated sample lists against a naive recount",
)

EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "registry_more.py")
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, "exec"))

NOT_APPLICABLE = []

if __name__ == "__main__":
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for r in R:
            f.write(json.dumps({
                "id": r["pid"], "title": r["title"], "statement": r["statement"],
                "quantifier": {"over": r["over"], "text": r["text"]},
                "why_tests_cant": r["why"],
                "anchors": {"files": r["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in r["mech"]],
                            "observe_at": ["public API"], "hook_needed": None},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./pbt/run.py selftest",
        "checks": [{
            "property": r["pid"],
            "quick_cmd": f"./pbt/run.py {r['pid']} --tier quick",
            "thorough_cmd": f"./pbt/run.py {r['pid']} --tier thorough",
            "evidence_file": f"evidence/{r['pid']}.json",
            "technique": r["tech"],
            "level": "exploration",
            "level_note": r["note"] + " Explores finitely many generated cases; trusts numpy, scipy, "
                          "scikit-learn and the reference models under pbt/.",
        } for r in R],
        "not_applicable": NOT_APPLICABLE,
        "notes": "Every check generates inputs with Hypothesis and drives the public API imported from /repo; "
                 "no hooks in /repo are needed. See DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
