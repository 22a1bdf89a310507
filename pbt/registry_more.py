# Entries C09 and later (executed by registry.py).
prop(
    "C09", "Every bootstrap sample is an honest refit of a genuine resample",
    "The bootstrap of every estimator returns exactly the requested number of samples; each is the model "
    "obtained by refitting the estimator, with the caller's settings, to as many rows as the data had, "
    "drawn uniformly with replacement (the recorded indices reproduce it; several groups are resampled "
    "separately, whole subjects across time points in longitudinal data). The time-series bootstrap "
    "resamples the model's residuals and rebuilds a series that obeys the fitted lag coefficients. The "
    "total effects stored with a sample are those of that sample's graph. The caller's data are not "
    "modified and an invalid number of samples is rejected.",
    ["inputs", "configurations"],
    "all data sets, estimators with a bootstrap method, settings and numbers of samples",
    "Tests only check that bootstrap returns without exception for one data set, or rejects invalid counts.",
    ["lingam/bootstrap.py", "lingam/base.py", "lingam/multi_group_direct_lingam.py", "lingam/rcd.py",
     "lingam/bottom_up_parce_lingam.py", "lingam/var_lingam.py", "lingam/varma_lingam.py",
     "lingam/longitudinal_lingam.py", "lingam/multi_group_rcd.py"],
    [("resampling loop", "lingam/bootstrap.py:BootstrapMixin.bootstrap"),
     ("residual resampling", "lingam/var_lingam.py:bootstrap"),
     ("subject resampling", "lingam/longitudinal_lingam.py:bootstrap")],
    "Recorded indices or observed fit calls are replayed through a fresh estimator and compared.",
    "property-based testing: replay of each resample through an independent refit",
)
prop(
    "C10", "Fitted objects carry nothing over from one call to the next",
    "After any sequence of fit, bootstrap, total-effect and independence calls, fitting an estimator to a "
    "data set gives the model that a fresh estimator with the same settings gives: earlier data leave no "
    "trace, two objects do not influence each other, queries do not change the fitted model, the settings "
    "and arrays handed in are not altered, and the same random state gives the same bootstrap twice. "
    "Causal-effect, data-generation, simulation and tuning objects and bootstrap results likewise answer each "
    "question as if it were the first one asked.",
    ["inputs", "histories"],
    "all sequences of calls on one or two objects, of every estimator, over generated data sets of different sizes",
    "Tests use each object once or twice in one fixed sequence.",
    ["lingam/base.py", "lingam/direct_lingam.py", "lingam/var_lingam.py", "lingam/varma_lingam.py",
     "lingam/longitudinal_lingam.py", "lingam/lim.py", "lingam/rcd.py", "lingam/bottom_up_parce_lingam.py",
     "lingam/camuv.py", "lingam/resit.py", "lingam/bootstrap.py"],
    [("fit resets state", "lingam/*.py:fit"), ("stored settings", "lingam/var_lingam.py:__init__")],
    "Generated histories run on one object; after each step its state is compared with a fresh object's.",
    "stateful property-based testing: generated call histories against a fresh object",
)
prop(
    "C11", "VAR models solve the structural time-series equations",
    "For every series the VAR estimator's instantaneous matrix is the direct model of the least-squares "
    "innovations, its lag matrices are (I - B0) times the autoregressive coefficients (of the selected "
    "lag order, or those given by the caller), residuals are the innovations, the lag order has the best "
    "information criterion among those allowed, and a pruned model keeps only adaptive-lasso parents "
    "with their least-squares coefficients in the right lag. Total effects between variables at given lags "
    "equal path sums of the time-unrolled graph and, by regression, adjust for the cause's parents at the proper lags.",
    ["inputs", "configurations"],
    "all series, lag orders, criteria, given coefficient matrices, pruning on or off, pairs and lags",
    "Tests fit one random-walk-like series and assert that nothing raises.",
    ["lingam/var_lingam.py"],
    [("estimation", "fit"), ("lag effects", "_calc_b / _pruning"), ("effects", "estimate_total_effect / estimate_total_effect2")],
    "Differential against least squares, the direct estimator and the inverse of the unrolled system.",
    "property-based testing: differential against least squares and the unrolled graph",
)
prop(
    "C12", "VARMA models solve their structural equations",
    "For every series and every given or estimated set of coefficients, the VARMA estimator's instantaneous "
    "matrix is the direct model of the residuals, psi_k equals (I - psi_0) phi_k and omega_k equals "
    "(I - psi_0) theta_k (I - psi_0)^-1, residuals satisfy the recursion with those coefficients, and total "
    "effects between lags equal path sums of the unrolled system or the adjusted regression coefficient.",
    ["inputs", "configurations"],
    "all series, AR and MA orders up to two, given or estimated coefficients, pairs and lags",
    "Tests fit one series with the default order and compare nothing.",
    ["lingam/varma_lingam.py"],
    [("estimation", "fit"), ("structural matrices", "_calc_psi_and_omega"), ("effects", "estimate_total_effect2")],
    "Differential against the defining recursions.",
    "property-based testing: differential against the defining recursions",
)
prop(
    "C13", "Longitudinal models solve the equations of every time point",
    "For every panel and number of lags, at each time point that has enough history the residuals are those "
    "of the least-squares regression on the previous time points (the first lag being the immediately preceding one), "
    "the contemporaneous matrix is their direct model, the lag matrices are (I - B0) times the regression "
    "coefficients, earlier time points are reported as not estimated, error p-values are per time point, "
    "and total effects between (time, variable) pairs equal path sums of the unrolled graph or the regression "
    "adjusted for the cause's parents. Prior knowledge over time points and lags is honoured.",
    ["inputs", "configurations"],
    "all panels (time points, subjects, variables, lags), measures, prior knowledge and pairs",
    "Tests use one 3-time-point panel with one lag and check shapes only.",
    ["lingam/longitudinal_lingam.py"],
    [("regression on the past", "_compute_residuals"), ("lag matrices", "_estimate_b_tau"), ("effects", "estimate_total_effect / estimate_total_effect2")],
    "Differential against least squares and the unrolled system; recovery on large decisive samples.",
    "property-based testing: differential against least squares and the unrolled graph",
)
prop(
    "C14", "RCD decides ancestors, parents and confounding by its published rules",
    "For every data set (or list of data sets) and setting, the repetitive-causal-discovery estimators find "
    "exactly the ancestors that the published procedure finds (growing explanatory sets, linear correlation, "
    "normality and independence tests at their own levels, minimised-dependence regression where enabled, every "
    "data set having to agree), derive parents from ancestors by residual correlation, mark exactly the "
    "remaining dependent pairs as confounded by NaN (symmetrically), and give parents their least-squares coefficients. "
    "Residual p-values are those of the independence test for pairs free of hidden confounders and NaN otherwise.",
    ["inputs", "configurations"],
    "all data sets, numbers of groups, test levels, independence measures, bandwidths and explanatory-set sizes",
    "Tests run the estimator on one confounded data set and check that nothing raises; each level and branch is selected by the data.",
    ["lingam/rcd.py", "lingam/multi_group_rcd.py", "lingam/utils/_rcd.py", "lingam/utils/__init__.py", "lingam/hsic.py"],
    [("ancestor extraction", "lingam/rcd.py:_extract_ancestors"), ("parents", "lingam/rcd.py:_extract_parents"),
     ("confounded pairs", "lingam/rcd.py:_extract_vars_sharing_confounders"),
     ("joint decision over data sets", "lingam/multi_group_rcd.py")],
    "Differential against an independent implementation of the published procedure; cases within a margin of a test level are skipped.",
    "property-based testing: differential against a reference implementation",
)
prop(
    "C15", "CAM-UV finds parents and confounded pairs by its published rules",
    "For every data set (or list of data sets), significance level, independence measure, maximal number of "
    "explanatory variables and prior knowledge, the additive-model estimators return exactly the parents and "
    "hidden-confounded pairs of the published search: candidate sets by growing size, the most "
    "independent residual chosen as sink, parents without which the residual stays independent removed, and pairs whose "
    "residuals stay dependent marked by NaN in both entries. Parents are 1, everything else 0; forbidden edges never appear.",
    ["inputs", "configurations"],
    "all additive nonlinear data sets with or without hidden common causes, groups, levels, measures, prior knowledge",
    "Tests fit one data set and compare nothing but shapes and exceptions.",
    ["lingam/camuv.py", "lingam/multi_group_camuv.py", "lingam/hsic.py"],
    [("parent search", "lingam/camuv.py:_find_parents"), ("parent pruning", "lingam/camuv.py:_find_parents"),
     ("unobserved pairs", "lingam/camuv.py:fit")],
    "Differential against an independent implementation; near ties and explanatory sets of three under F-correlation are excluded.",
    "property-based testing: differential against a reference implementation",
)
prop(
    "C16", "The bottom-up estimator removes the most independent sink until a test rejects",
    "For every data set, level alpha, independence measure, regressor and prior knowledge, the bottom-up estimator "
    "repeatedly moves the variable whose residual on all remaining variables is most independent of them to the end of the "
    "causal order, and stops exactly when the combined test rejects at alpha; the variables left over form "
    "one unordered block whose mutual entries are NaN, all other entries being the coefficients of the regression on "
    "the predecessors. Residual p-values are NaN inside the block, and without hidden causes "
    "large decisive samples yield the generating order.",
    ["inputs", "configurations"],
    "all data sets, levels, measures, bandwidths, regressors and prior knowledge",
    "Tests run two fixed data sets; when to stop and what is left over depends on every p-value.",
    ["lingam/bottom_up_parce_lingam.py", "lingam/hsic.py", "lingam/base.py"],
    [("sink search", "lingam/bottom_up_parce_lingam.py:_find_exo_vec / _search_causal_order"),
     ("combined p-value", "lingam/bottom_up_parce_lingam.py"), ("unordered block", "_estimate_adjacency_matrix")],
    "Differential against an independent search using the reference independence tests, with margins.",
    "property-based testing: differential against a reference search",
)
prop(
    "C17", "RESIT orders by residual dependence and keeps only the needed edges",
    "For every data set and regressor, the regression-with-subsequent-independence-test estimator builds its order from the back by "
    "repeatedly picking the variable whose residual on all remaining ones depends on them least, then "
    "drops a predecessor exactly when, without it, the residual is still independent (p above alpha) of all preceding "
    "variables. The adjacency matrix contains 1 for kept parents and 0 elsewhere, so on decisive nonlinear pairs the true "
    "direction is found. Total effects and independence p-values remain placeholders of the right shape.",
    ["inputs", "configurations"],
    "all data sets, regressors (linear, polynomial, nearest neighbours) and levels",
    "Tests fit one data set with one regressor and check only that attributes exist.",
    ["lingam/resit.py", "lingam/hsic.py"],
    [("order", "lingam/resit.py:_estimate_order"), ("edge removal", "lingam/resit.py:_remove_edges")],
    "Differential against an independent search; steps within a margin of a tie or of alpha are skipped.",
    "property-based testing: differential against a reference search",
)
prop(
    "C18", "The independence measures are the published ones",
    "For all samples the HSIC test returns the biased V-statistic of Gaussian kernel matrices (widths by median "
    "heuristic, Scott or Silverman) and the p-value of the gamma approximation fitted to its null mean and variance; it is symmetric, "
    "non-negative, unaffected by a common reordering of rows, and the p-value is in [0, 1]. F-correlation is the largest "
    "kernel canonical correlation, also for large samples. Residual p-value matrices of linear models "
    "are symmetric and hold that test's p-value for every pair of residuals. Different lengths are rejected.",
    ["inputs"],
    "all pairs of samples (any length, dimension, scale, dependence)",
    "Tests check only that the p-value of one dependent and one independent pair lies on the right side of a threshold.",
    ["lingam/hsic.py", "lingam/utils/_f_correlation.py", "lingam/base.py"],
    [("kernel width", "lingam/hsic.py:get_kernel_width"), ("gram matrices", "lingam/hsic.py:get_gram_matrix"),
     ("test", "lingam/hsic.py:hsic_test_gamma"), ("F-correlation", "lingam/utils/_f_correlation.py:f_correlation"),
     ("residual p-values", "lingam/base.py:get_error_independence_p_values")],
    "Differential against direct evaluation of the formulas, metamorphic relations, and level and power on fixed designs.",
    "property-based testing: differential against the formulas",
)
prop(
    "C19", "Effects of interventions on predictions follow the causal model",
    "For every causal model and prediction model, the reported expected effect of fixing a variable on a prediction "
    "is the difference of predictions at the expectations under that intervention "
    "(the variable's incoming edges cut, all others following their equations), the recommended optimal intervention is "
    "the value at which the prediction at those expectations equals the desired one, and cyclic or malformed "
    "graphs and unusable models are rejected.",
    ["inputs", "configurations"],
    "all acyclic graphs (also with cancelling coefficients), data, linear, polynomial and logistic prediction models, targets and desired outputs",
    "Tests use one fixed graph and check only the shape of the result.",
    ["lingam/causal_effect.py"],
    [("propagation", "lingam/causal_effect.py:_get_propagated_effects"),
     ("effects", "estimate_effects_on_prediction"), ("optimum", "estimate_optimal_intervention")],
    "Differential against solving the mutilated linear system.",
    "property-based testing: differential against the mutilated linear system",
)
prop(
    "C20", "The simulator rebuilds the data and propagates changes along the graph",
    "For every graph and data set, a trained simulator run without changes returns the training data; with "
    "replaced exogenous values, replaced models or changed parents, each variable equals its (new) model of its simulated "
    "parents plus its residual, in topological order, all others unchanged; shuffling permutes the residuals jointly "
    "over rows and is reproducible by seed. Discrete variables follow their classifiers, lagged graphs "
    "are expanded over time, a run leaves no trace in the simulator, and cyclic, unknown or mis-sized requests are rejected.",
    ["inputs", "configurations", "histories"],
    "all acyclic graphs, lag structures, custom regression models, replacements and seeds",
    "Tests run one graph and check the shapes of the output frame.",
    ["lingam/causal_based_simulator.py"],
    [("training", "train"), ("simulation", "run"), ("lag expansion", "train with VARLiNGAM")],
    "Differential against evaluating the structural equations directly.",
    "property-based testing: differential against the structural equations",
)
prop(
    "C21", "The data generator rebuilds its data and intervenes on the right equation",
    "For every data frame, a fitted generator run without changes returns its data (categorical cause or effect: draws from "
    "the fitted class probabilities, row by row); with replaced errors, the adjustment, cause and effect change "
    "through their models only; an intervened cause or effect takes exactly the given values; a user "
    "function replaces exactly its own equation and sees the generated predictors in order. Index, columns "
    "and category types are kept, results repeat with the random state, the data are not modified, "
    "and unknown names, wrong lengths, non-finite values or unsuitable models are rejected.",
    ["inputs", "configurations", "histories"],
    "all data frames (numeric and categorical variables, any index and column order), models, interventions and seeds",
    "Tests run two data frames and check shapes.",
    ["lingam/experimental/cdg.py"],
    [("training", "fit"), ("generation", "generate")],
    "Differential against evaluating the two equations directly with own design matrices.",
    "property-based testing: differential against the structural equations",
)
prop(
    "C22", "Out-of-sample tuning picks the best or sparsest good configuration",
    "For every list of configurations and every splitter, each causal model is fitted to the training part of each fold only, "
    "every variable is predicted on the held-out part from its Markov blanket (parents, children, spouses; training mean if empty), "
    "a configuration's score is the mean Gaussian mutual information of the out-of-fold predictions and its size the mean "
    "blanket. Without penalty the best score wins; with it, the sparsest configuration that the permutation test "
    "does not find significantly worse. Results repeat with the random state, data stay untouched, malformed "
    "configurations and settings are rejected.",
    ["inputs", "configurations"],
    "all data sets, graphs per fold, splitters, thresholds",
    "Tests run two configurations and check that an index is returned.",
    ["lingam/experimental/oct.py"],
    [("scores", "fit"), ("selection", "best_config_index_")],
    "Stand-in causal models return given graphs and record their data; scores are recomputed (with slack for the forests' seeds).",
    "property-based testing: differential with stand-in models",
)
prop(
    "C23", "Drawings and printed summaries show exactly the graph they are given",
    "For every adjacency matrix (also with NaN pairs), label list, lower limit and prediction section, make_dot "
    "draws each entry above the limit once, from column to row, with its value, bidirected undetermined pairs and the given labels; "
    "make_dot_highlight colours exactly ancestors and descendants of the node within the requested distances; the print "
    "functions list every direction or graph with its share. Labels of the wrong "
    "number and malformed matrices are rejected.",
    ["inputs", "configurations"],
    "all matrices (DAGs, cyclic or NaN entries for make_dot), label types and options",
    "Tests only call the functions and check that no exception is raised.",
    ["lingam/utils/__init__.py"],
    [("drawing", "make_dot"), ("highlighting", "make_dot_highlight"), ("printing", "print_causal_directions, print_dagc")],
    "The DOT source is parsed back and compared with the input graph.",
    "property-based testing: round-trip through a DOT parser",
)
prop(
    "C24", "Bootstrap with imputation is an honest resample-impute-fit pipeline",
    "For every incomplete data set, each bootstrap sample consists of rows drawn uniformly with replacement "
    "and is what the imputer and the model's preparation step receive; the model is fitted to the completed "
    "data sets, orders and matrices are returned per sample unchanged, and imputed values are reported exactly where "
    "values were missing (NaN elsewhere). With the default components the result equals a multi-group direct fit (with the given prior knowledge) "
    "of the reported data. Results repeat with the seed; malformed arguments or component outputs are rejected.",
    ["inputs", "configurations"],
    "all data sets, missing patterns, numbers of samples and repeats, custom and default components",
    "Tests run one data set and check shapes.",
    ["lingam/tools/__init__.py"],
    [("pipeline", "bootstrap_with_imputation"), ("default imputation", "_DefaultMultipleImputation"),
     ("default model", "_DefaultMultiGroupCDModel")],
    "Stand-in components record every call; the default path is compared with an independent fit of the reported data.",
    "property-based testing: recorded call histories and differential",
)
prop(
    "C25", "LiM and LiNA return acyclic graphs that optimise their published scores",
    "For every mixed data set, the discrete/continuous estimator (LiM) returns the graph that its second phase "
    "selects from the first-phase graph: reversals, then single removals or additions, ranked by the BIC of Laplace, "
    "logistic or Poisson likelihoods of all parents, always acyclic. For losses of one kind, and for the latent-factor estimator (LiNA), the weights are the "
    "penalised optimum for their own order, LiNA loadings respect the measurement structure, and exactly weights "
    "below the threshold are dropped. Likelihood helpers equal their formulas. Data are not modified.",
    ["inputs", "configurations"],
    "all mixed continuous/binary/count data sets, losses, penalties and thresholds",
    "Tests fit one data set per loss and check shapes.",
    ["lingam/lim.py", "lingam/lina.py", "lingam/utils/__init__.py"],
    [("global phase", "lingam/lim.py:_estimate_LiM"), ("local phase", "lingam/lim.py:_bic_scoring"),
     ("latent factors", "lingam/lina.py:fit"), ("likelihoods", "lingam/utils/__init__.py:likelihood_i")],
    "Differential against an own search and per-order convex optimum (share of attainable improvement, with slack).",
    "property-based testing: differential against an independent optimum",
)
prop(
    "C26", "Fit indices and effect plots report what graph and data imply",
    "For every acyclic graph with fixed coefficients and every data set in any units, the reported chi-square is "
    "the sample size times the maximum-likelihood discrepancy between the covariances the graph implies and the observed "
    "ones, with matching degrees of freedom, AIC and p-value; hidden common causes (NaN pairs) are fitted, never "
    "making the fit worse, and ordinal variables use their polychoric correlations. Nonlinear-effect plots show, per "
    "bootstrap sample (on its own rows) and position, the mean prediction from cause and its parents in that "
    "sample's graph with the cause set to the position, percentile lines over samples, and one panel per class "
    "for categorical effects. Malformed arguments are rejected.",
    ["inputs", "configurations"],
    "all acyclic graphs, data sets, units, hidden pairs; all bootstrap results, estimators, positions, percentiles, index types",
    "Tests compare two graphs' likelihoods once and check only that a figure is returned.",
    ["lingam/utils/__init__.py", "lingam/utils/_visualize_nonlinear_causal_effect.py"],
    [("fit indices", "lingam/utils/__init__.py:evaluate_model_fit"),
     ("effect plots", "lingam/utils/_visualize_nonlinear_causal_effect.py")],
    "Differential against the closed-form Wishart discrepancy and against own regressions read off the figure's artists.",
    "property-based testing: differential against closed forms and own regressions",
)
prop(
    "C27", "The high-dimensional estimator picks roots by the published statistic",
    "For every data set, at each step the high-dimensional estimator appends the variable whose largest moment "
    "statistic against the remaining ones is smallest; statistics are minima over all conditioning sets of at "
    "most J unpruned predecessors that contain the last root, predecessors being pruned below alpha times the "
    "largest accepted statistic. The order depends neither on the means nor on whether the matrix is estimated, "
    "and with no more samples than variables each row is the least-squares refit on the cross-validated lasso's "
    "selection among predecessors.",
    ["inputs", "configurations"],
    "all data sets (also wide ones), units, means, J, K and alpha",
    "Tests fit one data set and check that an order exists.",
    ["lingam/high_dim_direct_lingam.py"],
    [("statistics", "_calc_taus"), ("conditioning sets", "_get_prune_stats"), ("order", "fit"),
     ("wide data", "_estimate_adjacency_matrix2")],
    "Differential: the order is followed step by step by an independent implementation; near ties stop the comparison.",
    "property-based testing: differential against a reference implementation",
)
prop(
    "C28", "Invalid settings, data and requests are rejected",
    "Every estimator rejects out-of-range settings at construction and, in fit and bootstrap, data with NaN or infinite entries anywhere, "
    "of the wrong dimension, empty, non-numeric, or (several data sets) given as a single set, not as "
    "a list, or with differing numbers of variables, always with ValueError or TypeError; bootstraps reject sample numbers that are no positive integer. "
    "A rejected call never shows up in the fitted results. Valid settings at the ends of "
    "their ranges are usable.",
    ["inputs", "configurations", "histories"],
    "all estimators, settings, positions of the invalid entry, fitted or fresh models",
    "Tests try a few invalid values per estimator, not for the position of the invalid entry or fitted state.",
    ["lingam/rcd.py", "lingam/camuv.py", "lingam/bottom_up_parce_lingam.py", "lingam/resit.py",
     "lingam/high_dim_direct_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/multi_group_rcd.py",
     "lingam/multi_group_camuv.py", "lingam/longitudinal_lingam.py", "lingam/bootstrap.py", "lingam/direct_lingam.py",
     "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/ica_lingam.py"],
    [("settings", "__init__ of each estimator"), ("data", "fit of each estimator"),
     ("several data sets", "lingam/multi_group_direct_lingam.py:_check_X_list"), ("bootstrap", "lingam/bootstrap.py:bootstrap")],
    "Generated invalid inputs against an explicit table of what is valid.",
    "property-based testing: generated invalid inputs against a validity model",
)
prop(
    "C29", "Settings left out mean their documented defaults",
    "For every estimator, helper function and bootstrap query, a call that leaves out optional settings gives the same "
    "result as one that passes their documented default values explicitly, whatever the other settings are and whether "
    "they are given by keyword or by position in the documented order (RCD: cor_alpha = ind_alpha = shapiro_alpha = 0.01; "
    "CAM-UV: alpha 0.01; BottomUpParce: alpha 0.1; RESIT: alpha 0.01; HighDim: J 3, K 4, alpha 0.5; VAR: one lag, BIC, "
    "pruned; graphs: lower limit 0.01; and so on for every documented argument).",
    ["inputs", "configurations"],
    "all estimators and functions with optional settings, all subsets left out, all data sets",
    "Tests only check that a call without settings runs, never that it is the call with the documented ones.",
    ["lingam/direct_lingam.py", "lingam/ica_lingam.py", "lingam/rcd.py", "lingam/multi_group_rcd.py", "lingam/camuv.py",
     "lingam/multi_group_camuv.py", "lingam/bottom_up_parce_lingam.py", "lingam/resit.py", "lingam/high_dim_direct_lingam.py",
     "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py", "lingam/lim.py", "lingam/lina.py",
     "lingam/bootstrap.py", "lingam/utils/__init__.py", "lingam/tools/__init__.py"],
    [("settings", "__init__ of each estimator"), ("functions", "lingam/utils/__init__.py signatures"),
     ("bootstrap queries", "lingam/bootstrap.py:BootstrapResult"), ("tuning", "lingam/experimental/oct.py:__init__")],
    "Metamorphic: the call with omitted settings against the call with the documented values, on data where another "
    "value would change the result.",
    "property-based testing: metamorphic relation (omitted versus explicit documented default)",
)
