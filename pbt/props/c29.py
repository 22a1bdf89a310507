"""C29: settings that are left out mean their documented defaults."""
import warnings

import numpy as np
import pandas as pd
import lingam
from hypothesis import strategies as st
from lingam.experimental import CausalDataGenerator, OutOfSampleCausalTuning
from lingam.hsic import hsic_test_gamma
from lingam.tools import bootstrap_with_imputation
from lingam import utils as ut
from sklearn.linear_model import LinearRegression

import gen
from core import Property, require

P = Property("C29", boost=4)

RCDARGS = [("max_explanatory_num", 2, [1]), ("cor_alpha", 0.01, [0.05, 0.03]), ("ind_alpha", 0.01, [0.05, 0.03]),
           ("shapiro_alpha", 0.01, [0.1, 0.03]), ("MLHSICR", False, [True]), ("bw_method", "mdbs", ["scott", "silverman"]),
           ("independence", "hsic", ["fcorr"]), ("ind_corr", 0.5, [0.3, 0.7])]
CAMARGS = [("alpha", 0.01, [0.05, 0.03]), ("num_explanatory_vals", 2, [1]), ("independence", "hsic", ["fcorr"]),
           ("ind_corr", 0.5, [0.3, 0.7]), ("prior_knowledge", None, [])]
DIRECTARGS = [("random_state", None, []), ("prior_knowledge", None, ["pk"]), ("apply_prior_knowledge_softly", False, [True])]
# class, required arguments, optional arguments in documented order with default and other values
EST = {
    "DirectLiNGAM": (lingam.DirectLiNGAM, [], DIRECTARGS + [("measure", "pwling", ["kernel"])]),
    "MultiGroupDirectLiNGAM": (lingam.MultiGroupDirectLiNGAM, [], DIRECTARGS),
    "ICALiNGAM": (lingam.ICALiNGAM, [], [("random_state", None, [7]), ("max_iter", 1000, [1])]),
    "BottomUpParceLiNGAM": (lingam.BottomUpParceLiNGAM, [], [
        ("random_state", None, []), ("alpha", 0.1, [0.3, 0.02]), ("regressor", None, []), ("prior_knowledge", None, ["pk"]),
        ("independence", "hsic", ["fcorr"]), ("ind_corr", 0.5, [0.2, 0.8])]),
    "RCD": (lingam.RCD, [], RCDARGS),
    "MultiGroupRCD": (lingam.MultiGroupRCD, [], [(a, True, [False]) if a == "MLHSICR" else (a, v, o) for a, v, o in RCDARGS]),
    "CAMUV": (lingam.CAMUV, [], CAMARGS),
    "MultiGroupCAMUV": (lingam.MultiGroupCAMUV, [], CAMARGS),
    "RESIT": (lingam.RESIT, [LinearRegression()], [("random_state", None, []), ("alpha", 0.01, [0.05, 0.03])]),
    "HighDimDirectLiNGAM": (lingam.HighDimDirectLiNGAM, [], [
        ("J", 3, [4]), ("K", 4, [3, 2]), ("alpha", 0.5, [0.9, 0.1]), ("estimate_adj_mat", True, [False]),
        ("random_state", None, [])]),
    "VARLiNGAM": (lingam.VARLiNGAM, [], [
        ("lags", 1, [2, 3]), ("criterion", "bic", ["aic", None]), ("prune", True, [False]), ("ar_coefs", None, []),
        ("lingam_model", None, []), ("random_state", None, [])]),
    "VARMALiNGAM": (lingam.VARMALiNGAM, [], [
        ("order", (1, 1), []), ("criterion", "bic", [None]), ("prune", True, [False]), ("max_iter", 100, [2])]),
    "LongitudinalLiNGAM": (lingam.LongitudinalLiNGAM, [], [
        ("n_lags", 1, [2]), ("prior_knowledge", None, []), ("measure", "pwling", ["kernel"]), ("random_state", None, [])]),
    "LiM": (lingam.LiM, [], [("lambda1", 0.1, [0.02]), ("loss_type", "mixed", ["laplace"]), ("max_iter", 150, [1]),
                             ("h_tol", 1e-8, [1.0]), ("rho_max", 1e16, [10.0]), ("w_threshold", 0.1, [0.4, 0.2])]),
    "LiNA": (lingam.LiNA, [], [("w_threshold", 0.3, [0.6, 0.1]), ("lambda1", 0.1, [2.0]), ("lambda2", 0.1, []),
                               ("loss_type", "laplace", ["l2"]), ("max_iter", 100, [1]), ("h_tol", 1e-8, [1.0]),
                               ("rho_max", 1e16, [10.0])]),
}


def same(a, b):
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (str, type(None), set, bool)) or isinstance(b, (str, type(None), set, bool)):
        return type(a) is type(b) and a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return all(same(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    a, b = a.astype(float), b.astype(float)
    return bool(np.allclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True))


def data_for(name, d, rng):
    p, n = d["p"], d["n"]
    if name == "VARMALiNGAM":
        p, n = 2, 50
    if name == "ICALiNGAM":          # hard cases, so that the number of iterations matters
        p, d = 3 + p, dict(d, noise=2)
    if name == "HighDimDirectLiNGAM":
        p = min(p + 3, 6)
        n = max(n, 40)
    B, order = gen.random_dag(rng, p, 0.6, 0.1, 0.7)
    inv = np.linalg.inv(np.eye(p) - B)
    E = rng.uniform(-1, 1, (n, p)) if d["noise"] else rng.laplace(size=(n, p))
    if d["noise"] == 2:
        E = rng.normal(size=(n, p))
    X = E @ inv.T
    if name.endswith("RCD"):
        E = rng.exponential(size=(n, p)) ** rng.choice([0.3, 0.6, 1.0])
        inv = np.linalg.inv(np.eye(p) - B * 1.5)
        X = E @ inv.T
    if d["hidden"]:
        X[:, :2] += 0.7 * rng.uniform(-1, 1, (n, 1))
    if name in ("CAMUV", "MultiGroupCAMUV", "RESIT"):
        X = np.tanh(X) + 0.3 * rng.uniform(-1, 1, X.shape)
    if name.startswith("MultiGroup"):
        Y = rng.exponential(size=(n + 7, p)) @ inv.T if name.endswith("RCD") else rng.uniform(-1, 1, (n + 7, p)) @ inv.T
        return p, [X, np.tanh(Y) if "CAM" in name else Y]
    if name in ("VARLiNGAM", "VARMALiNGAM"):
        A = rng.uniform(-0.5, 0.5, (2, p, p)) / p
        for t in range(2, n):
            X[t] += A[0] @ X[t - 1] + A[1] @ X[t - 2]
        return p, X
    if name == "LongitudinalLiNGAM":
        return p, [X, X @ rng.uniform(-0.5, 0.5, (p, p)) + rng.uniform(-1, 1, X.shape) @ inv.T,
                   X * 0.4 + rng.uniform(-1, 1, X.shape) @ inv.T, rng.uniform(-1, 1, X.shape) @ inv.T + 0.2 * X]
    if name == "LiM":
        X = X[:, :3]
        X[:, 0] = X[:, 0] > 0
        return X.shape[1], X
    return p, X


def run(name, cls, need, data, args, kw, seed):
    np.random.seed(seed)
    m = cls(*need, *args, **kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if name == "LiM":
            disc = np.array([[0] + [1] * (data.shape[1] - 1)])
            m.fit(data, disc, only_global=True)
            return [m.adjacency_matrix_]
        if name == "LiNA":
            q = data.shape[1]
            G = np.kron(np.eye(q), np.ones((3, 1)))
            m.fit(data @ (0.8 * G.T) + 0.2 * np.sin(np.arange(len(data))[:, None] * np.arange(1, 3 * q + 1) * 1.7),
                  G, np.ones((1, q)))
            return [m.adjacency_matrix_]
        m.fit(data)
    out = []
    for a in ("causal_order_", "causal_orders_", "adjacency_matrix_", "adjacency_matrices_", "ancestors_list_", "residuals_"):
        try:
            v = getattr(m, a)
        except AttributeError:
            continue
        if a == "ancestors_list_":
            v = [sorted(int(x) for x in s) for s in v]
        if a == "causal_order_":
            v = [sorted(map(int, x)) if isinstance(x, (list, tuple, np.ndarray)) else int(x) for x in v]
        out.append(v)
    return out


def attempt(*args):
    """Some estimators cannot fit every small sample; then both calls have to fail alike."""
    try:
        return run(*args)
    except (np.linalg.LinAlgError, ValueError, RuntimeError, FloatingPointError) as e:
        return ["raised", type(e).__name__]


def failed(r):
    return isinstance(r[0], str)


TESTING = {"RCD", "MultiGroupRCD", "CAMUV", "MultiGroupCAMUV", "RESIT", "BottomUpParceLiNGAM", "HighDimDirectLiNGAM"}


@P.clause("estimators", st.fixed_dictionaries({
    "name": st.sampled_from(sorted(EST) + sorted(TESTING) * 2), "seed": gen.SEED, "p": st.integers(2, 4),
    "n": st.integers(25, 60), "noise": st.integers(0, 2), "hidden": st.booleans(),
    "alt": st.sampled_from([None] + list(range(8))), "keep": st.sampled_from([None] + list(range(8))),
    "mode": st.sampled_from(["keyword", "keyword", "position"])}),
    quick=130, thorough=3000, rule="another value of an omitted setting changes the result")
def estimators(d, ctx):
    """alt: the argument that is set to another value; keep: one that is passed all the same."""
    name = d["name"]
    cls, need, args = EST[name]
    rng = np.random.default_rng(d["seed"])
    if name in TESTING and name != "HighDimDirectLiNGAM":
        d["n"], d["p"] = d["n"] if name.endswith("RCD") else min(d["n"], 45), min(d["p"], 3)
    default = {a: v for a, v, _ in args}
    names = list(default)
    full = dict(default)
    ctx.label(name, d["mode"])
    rounds = 8 if name == "ICALiNGAM" else 1 if name not in TESTING else 10 if name.endswith("RCD") else 4
    for _ in range(rounds):
        p, data = data_for(name, d, rng)
        pk = np.full((p, p), -1)
        pk[0, 1:] = 0

        def val(v):
            return pk if isinstance(v, str) and v == "pk" else v

        changed = None
        if d["alt"] is not None and args[d["alt"] % len(args)][2]:
            changed, _, other = args[d["alt"] % len(args)]
            full[changed] = val(other[int(rng.integers(len(other)))])
        seed = int(rng.integers(10000))
        if d["mode"] == "keyword":
            keep = None if d["keep"] is None else names[d["keep"] % len(names)]
            given = {a: v for a, v in full.items() if a in (changed, keep)}
            call = ((), given)
        else:
            upto = 0 if changed is None else names.index(changed) + 1
            given = {a: full[a] for a in names[:upto]}
            call = (tuple(given.values()), {})
        got = attempt(name, cls, need, data, *call, seed)
        want = attempt(name, cls, need, data, (), full, seed)
        require(same(got, want), f"{name}: leaving out {sorted(set(full) - set(given))} is not the documented default",
                dict(given), got, want)
        left = [(a, o) for a, v, o in args if a not in given and o]
        if left:
            a, o = left[int(rng.integers(len(left)))]
            alt = attempt(name, cls, need, data, (), dict(full, **{a: val(o[int(rng.integers(len(o)))])}), seed)
            if not same(alt, want) and not failed(alt) and not failed(want):
                ctx.label(f"{name}.{a} matters")
                ctx.nontrivial()


# ------------------------------------------------------------------ functions and methods
def paths_of(r):
    return {k: [str(x) for x in v] if k == "path" else v for k, v in r.items()}


def f_paths(rng, d):
    B = gen.random_dag(rng, 4, 0.8, 0.2, 1.0)[0] * 10.0 ** -rng.integers(0, 4, (4, 4))
    i, j = rng.choice(4, 2, replace=False)
    return [lambda: ut.find_all_paths(B, i, j), lambda: ut.find_all_paths(B, i, j, 0.0), lambda: ut.find_all_paths(B, i, j, 0.1)]


def f_lasso(rng, d):
    X = rng.normal(size=(60, 5)) @ rng.normal(size=(5, 5))
    return [lambda: ut.predict_adaptive_lasso(X, [0, 1, 2, 3], 4), lambda: ut.predict_adaptive_lasso(X, [0, 1, 2, 3], 4, 1.0),
            lambda: ut.predict_adaptive_lasso(X, [0, 1, 2, 3], 4, gamma=0.3)]


def f_hsic(rng, d):
    x, y = rng.exponential(size=(2, 30))
    return [lambda: hsic_test_gamma(x, y), lambda: hsic_test_gamma(x, y, "mdbs"), lambda: hsic_test_gamma(x, y, bw_method="scott")]


def f_dot(rng, d):
    B = rng.normal(size=(4, 4)) * 10.0 ** -rng.integers(0, 4, (4, 4))
    B[0, 1] = 0.011
    B[1, 0] = -0.009
    a = dict(labels=None, lower_limit=0.01, prediction_feature_indices=[0, 2], prediction_target_label="Y(pred)",
             prediction_line_color="red", prediction_coefs=None, prediction_feature_importance=None, path=None, path_color=None,
             detect_cycle=False, ignore_shape=False)
    other = [("lower_limit", 0.005), ("lower_limit", 0.02), ("prediction_line_color", "blue"), ("prediction_target_label", "Y")]
    k, v = other[int(rng.integers(4))]
    return [lambda: ut.make_dot(B, prediction_feature_indices=[0, 2]).source, lambda: ut.make_dot(B, *a.values()).source,
            lambda: ut.make_dot(B, **dict(a, **{k: v})).source]


def f_highlight(rng, d):
    B = gen.random_dag(rng, 5, 0.6, 0.3, 1.0)[0]
    a = dict(labels=None, max_dsc=None, max_anc=None, lower_limit=None, cmap=None, draw_others=True, detect_cycle=False,
             path=None, path_color=None, vmargin=2, hmargin=2)
    k, v = [("draw_others", False), ("vmargin", 3), ("hmargin", 1), ("max_dsc", 1), ("max_anc", 1)][int(rng.integers(5))]
    return [lambda: ut.make_dot_highlight(B, 2).source, lambda: ut.make_dot_highlight(B, 2, *a.values()).source,
            lambda: ut.make_dot_highlight(B, 2, **dict(a, **{k: v})).source]


def boot(rng, k=8):
    As = np.array([gen.random_dag(rng, 4, 0.6, 0.2, 1.0)[0] * 10.0 ** -rng.integers(0, 3, (4, 4)) for _ in range(k)])
    return lingam.BootstrapResult(As, As.copy())


def f_counts(rng, d):
    r = boot(rng)
    return [lambda: r.get_causal_direction_counts(), lambda: r.get_causal_direction_counts(None, None, False),
            lambda: r.get_causal_direction_counts(split_by_causal_effect_sign=True)]


def f_dags(rng, d):
    r = boot(rng)
    return [lambda: r.get_directed_acyclic_graph_counts(), lambda: r.get_directed_acyclic_graph_counts(None, None, False),
            lambda: r.get_directed_acyclic_graph_counts(n_dags=1)]


def f_prob(rng, d):
    r = boot(rng)
    return [lambda: r.get_probabilities(), lambda: r.get_probabilities(None), lambda: r.get_probabilities(0.05)]


def f_effects(rng, d):
    r = boot(rng)
    return [lambda: r.get_total_causal_effects(), lambda: r.get_total_causal_effects(None), lambda: r.get_total_causal_effects(0.05)]


def f_bootpaths(rng, d):
    r = boot(rng)
    return [lambda: paths_of(r.get_paths(0, 3)), lambda: paths_of(r.get_paths(0, 3, None)), lambda: paths_of(r.get_paths(0, 3, 0.05))]


def f_distance(rng, d):
    B = gen.random_dag(rng, 5, 0.6)[0]
    g = lambda *a: {str(k): v for k, v in ut.calculate_distance_from_root_nodes(B, *a).items()}
    return [lambda: g(), lambda: g(None), lambda: g(1)]


def f_total(rng, d):
    B = gen.random_dag(rng, 4, 0.8)[0]
    def g(*a):
        try:
            return ut.calculate_total_effect(B, 0, 1, *a)
        except ValueError as e:
            return "refused"
    return [lambda: g(), lambda: g(None), lambda: g([False] * 4)]


def f_remove(rng, d):
    X = rng.normal(size=(20, 3)) @ rng.normal(size=(3, 3))
    g = lambda *a: [np.asarray(v).tolist() for v in np.atleast_1d(np.asarray(ut.remove_effect(X, [0], *a), dtype=object)).ravel()]
    return [lambda: ut.remove_effect(X, [0]), lambda: ut.remove_effect(X, [0], False), None]


def f_prior(rng, d):
    return [lambda: ut.make_prior_knowledge(4, [0]), lambda: ut.make_prior_knowledge(4, [0], None, None, None),
            lambda: ut.make_prior_knowledge(4, [0], [3])]


def f_impute(rng, d):
    X = rng.uniform(size=(20, 2))
    X[:, 1] += X[:, 0]
    X[rng.random(X.shape) < 0.1] = np.nan
    s = int(rng.integers(1000))
    return [lambda: bootstrap_with_imputation(X, 1, random_state=s), lambda: bootstrap_with_imputation(X, 1, 10, None, None, None, False, s),
            lambda: bootstrap_with_imputation(X, 1, n_repeats=4, random_state=s)]


class Fixed:
    def __init__(self, g):
        self.adjacency_matrix_ = np.array(g, float)

    def fit(self, X):
        return self


def f_simulate(rng, d):
    B = gen.random_dag(rng, 3, 0.9)[0]
    X = rng.normal(size=(30, 3))
    s = lingam.CausalBasedSimulator
    return [lambda: s().train(X, B).run().values, lambda: s().train(X, B, "DirectLiNGAM", None, None).run(None, None, random_state=None).values,
            lambda: s().train(X, B).run(shuffle_residual=True, random_state=1).values]


def var_series(rng, p=2, n=50):
    X = rng.uniform(-1, 1, (n, p))
    X[:, 1] += 0.8 * X[:, 0]
    for t in range(1, n):
        X[t] += 0.4 * X[t - 1]
    return X


def f_var(rng, d):
    X = var_series(rng)
    m = lingam.VARLiNGAM(lags=1, criterion=None, prune=False).fit(X)
    return [lambda: [m.estimate_total_effect(X, 0, 1), m.estimate_total_effect2(2, 0, 1)],
            lambda: [m.estimate_total_effect(X, 0, 1, 0), m.estimate_total_effect2(2, 0, 1, 0)],
            lambda: [m.estimate_total_effect(X, 0, 1, 1), m.estimate_total_effect2(2, 0, 1, 1)]]


def f_varboot(rng, d):
    As = [np.hstack([gen.random_dag(rng, 2, 1.0, 0.2, 0.9)[0], rng.uniform(-1, 1, (2, 2))]) for _ in range(5)]
    r = lingam.VARBootstrapResult(As, np.array(As))
    return [lambda: paths_of(r.get_paths(0, 1)), lambda: paths_of(r.get_paths(0, 1, 0, 0, None)), lambda: paths_of(r.get_paths(0, 1, 1, 0))]


def f_longboot(rng, d):
    Xs = [rng.uniform(-1, 1, (25, 2)) for _ in range(3)]
    Xs[1] += 0.8 * Xs[0]
    Xs[2] += 0.8 * Xs[1]

    def g(*a):
        np.random.seed(5)
        return lingam.LongitudinalLiNGAM().bootstrap(Xs, 1, *a).total_effects_
    return [lambda: g(), lambda: g(1), lambda: g(2)]


def f_generate(rng, d):
    X = pd.DataFrame(rng.normal(size=(30, 3)), columns=list("abc"))
    g = CausalDataGenerator(random_state=0).fit(X, "a", "b", ["c"])
    v = rng.normal(size=30)
    return [lambda: g.generate(interv_exog={"c": v}).values, lambda: g.generate(None, {"c": v}, None, None, None, None).values,
            lambda: g.generate().values]


def f_tune(rng, d):
    X = rng.normal(size=(20, 2))
    X[:, 1] += 0.7 * X[:, 0]
    cf = [{"model": Fixed, "init_kwargs": {"g": np.eye(2)[::-1] * [1, 0]}}]
    g = lambda *a, **k: OutOfSampleCausalTuning(*a, **k).fit(X, cf).fit_info_["performance"]
    return [lambda: g(random_state=3), lambda: g(10, True, 0.05, 3), lambda: g(cv=3, random_state=3)]


FUN = {k[2:]: v for k, v in globals().items() if k.startswith("f_")}
HEAVY = {"tune", "impute"}


@P.clause("functions", st.fixed_dictionaries({
    "name": st.sampled_from(sorted(set(FUN) - HEAVY)), "seed": gen.SEED}),
    quick=170, thorough=3000, rule="another value changes the result")
def functions(d, ctx):
    omitted(d, ctx)


@P.clause("pipelines", st.fixed_dictionaries({"name": st.sampled_from(sorted(HEAVY)), "seed": gen.SEED}),
          quick=4, thorough=30, rule="another value changes the result")
def pipelines(d, ctx):
    omitted(d, ctx)


def omitted(d, ctx):
    rng = np.random.default_rng(d["seed"])
    ctx.label(d["name"])
    a, b, c = FUN[d["name"]](rng, d)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x, y = a(), b()
        require(same(x, y), f"{d['name']}: omitted settings are not the documented defaults", x, y)
        ctx.nontrivial(c is None or not same(c(), x))
