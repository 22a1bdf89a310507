"""C28: invalid settings, data and requests are rejected and never show up in fitted results."""
import warnings

import numpy as np
import pandas as pd
import lingam
from hypothesis import strategies as st
from sklearn.linear_model import LinearRegression

import gen
from core import Property, require

P = Property("C28", boost=3)
REG = LinearRegression


class NoFit:
    def predict(self, X):
        return X


class NoPredict:
    def fit(self, X, y):
        return self


NEG = st.sampled_from([-1e-9, -0.01, -1.0, -5, -1e300])
WORD = st.sampled_from(["", "HSIC", "pwling", "none", "mdbs2", None, 3])
RCDISH = [("max_explanatory_num", st.sampled_from([0, -1, -7])), ("cor_alpha", NEG), ("ind_alpha", NEG),
          ("shapiro_alpha", NEG), ("bw_method", WORD), ("independence", WORD), ("ind_corr", NEG)]
CAMISH = [("num_explanatory_vals", st.sampled_from([0, -1, -3])), ("alpha", NEG), ("independence", WORD),
          ("ind_corr", NEG)]
SETTINGS = {
    "RCD": (lingam.RCD, {}, RCDISH), "MultiGroupRCD": (lingam.MultiGroupRCD, {}, RCDISH),
    "CAMUV": (lingam.CAMUV, {}, CAMISH), "MultiGroupCAMUV": (lingam.MultiGroupCAMUV, {}, CAMISH),
    "BottomUp": (lingam.BottomUpParceLiNGAM, {}, [
        ("alpha", NEG), ("independence", WORD), ("ind_corr", NEG),
        ("regressor", st.sampled_from(["nofit", "nopredict", "text"]))]),
    "RESIT": (lingam.RESIT, {"regressor": "ok"}, [
        ("alpha", NEG), ("regressor", st.sampled_from(["nofit", "nopredict", "text", "none"]))]),
    "HighDim": (lingam.HighDimDirectLiNGAM, {}, [
        ("J", st.sampled_from([2, 1, 0, -4, 3.5, "3"])), ("K", st.sampled_from([0, -1, 2.5, "4"])),
        ("alpha", st.sampled_from([-0.1, 1.1, "0.5", 7])), ("estimate_adj_mat", st.sampled_from([1, 0, "yes", None]))]),
    "Longitudinal": (lingam.LongitudinalLiNGAM, {}, [("prior_knowledge", st.sampled_from(["2d", "3d", "5d"]))]),
}
GOOD = {
    "RCD": [("max_explanatory_num", [1, 2]), ("cor_alpha", [0, 0.0, 0.5, 1.0]), ("ind_alpha", [0, 0.3]),
            ("shapiro_alpha", [0.0, 1.0]), ("bw_method", ["mdbs", "scott", "silverman"]), ("ind_corr", [0.0, 0.9])],
    "CAMUV": [("num_explanatory_vals", [1, 2]), ("alpha", [0, 0.5]), ("independence", ["hsic", "fcorr"]), ("ind_corr", [0.0, 0.9])],
    "BottomUp": [("alpha", [0, 0.0, 0.9]), ("independence", ["hsic", "fcorr"]), ("ind_corr", [0.0, 0.9])],
    "RESIT": [("alpha", [0, 0.0, 0.5])],
    "MultiGroupRCD": None, "MultiGroupCAMUV": None,
    "HighDim": [("J", [3, 6]), ("K", [4, 3]), ("alpha", [0, 1, 0.3]), ("estimate_adj_mat", [True, False])],
}

GOOD["MultiGroupRCD"], GOOD["MultiGroupCAMUV"] = GOOD["RCD"], GOOD["CAMUV"]


def value(v):
    if isinstance(v, str):
        if v in ("2d", "3d", "5d"):
            return np.full((2,) * int(v[0]), -1)
        return {"nofit": NoFit(), "nopredict": NoPredict(), "ok": REG(), "none": None}.get(v, v)
    return v


@st.composite
def setting(draw):
    name = draw(st.sampled_from(sorted(SETTINGS)))
    par, bad = draw(st.sampled_from(SETTINGS[name][2]))
    return {"name": name, "par": par, "value": draw(bad), "seed": draw(gen.SEED)}


@P.clause("settings", setting(), quick=250, thorough=2000, rule="every case")
def settings(d, ctx):
    cls, base, _ = SETTINGS[d["name"]]
    if d["par"] == "bw_method" and d["value"] in ("mdbs",) or d["par"] == "independence" and d["value"] in ("hsic",):
        ctx.reject("valid")
    kw = {k: value(v) for k, v in base.items()}
    v = d["value"]
    kw[d["par"]] = value(v) if d["par"] in ("regressor", "prior_knowledge") else v
    if d["par"] == "regressor" and d["name"] == "BottomUp" and kw["regressor"] is None:
        ctx.reject("valid")
    ctx.label(f"{d['name']}.{d['par']}")
    try:
        cls(**kw)
    except (ValueError, TypeError):
        ctx.nontrivial()
        return
    require(False, f"{d['name']} accepted {d['par']}={v!r}")


@st.composite
def fine(draw):
    name = draw(st.sampled_from(sorted(GOOD)))
    kw = {k: draw(st.sampled_from(v)) for k, v in GOOD[name] if draw(st.booleans())}
    return {"name": name, "kw": kw, "seed": draw(gen.SEED)}


@P.clause("boundary", fine(), quick=120, thorough=600, rule="a setting differs from its default")
def boundary(d, ctx):
    """Valid settings, including the ends of their ranges, are usable."""
    rng = np.random.default_rng(d["seed"])
    x = rng.uniform(-1, 1, 60)
    X = np.column_stack([x, 0.9 * x + 0.6 * rng.uniform(-1, 1, 60), rng.uniform(-1, 1, 60)])
    cls, base, _ = SETTINGS[d["name"]]
    m = cls(**{k: value(v) for k, v in base.items()}, **d["kw"])
    if d["name"].startswith("MultiGroup"):
        m.fit([X, X[::-1] + rng.uniform(-0.1, 0.1, X.shape)])
        A = [m.adjacency_matrix_] if "CAMUV" in d["name"] else m.adjacency_matrices_
        require(np.shape(A)[1:] == (3, 3), "adjacency matrices")
    else:
        m.fit(X)
        if d["kw"].get("estimate_adj_mat", True):
            require(np.shape(m.adjacency_matrix_) == (3, 3), "adjacency matrix")
    ctx.label(d["name"])
    ctx.nontrivial(bool(d["kw"]))


# ---------------------------------------------------------------- data

SINGLE = {
    "direct": lambda: lingam.DirectLiNGAM(), "kernel": lambda: lingam.DirectLiNGAM(measure="kernel"),
    "ica": lambda: lingam.ICALiNGAM(random_state=1), "highdim": lambda: lingam.HighDimDirectLiNGAM(),
    "resit": lambda: lingam.RESIT(regressor=REG()), "bottomup": lambda: lingam.BottomUpParceLiNGAM(),
    "rcd": lambda: lingam.RCD(), "camuv": lambda: lingam.CAMUV(), "var": lambda: lingam.VARLiNGAM(lags=3),
    "varma": lambda: lingam.VARMALiNGAM(order=(1, 1), max_iter=3),
}
MULTI = {
    "multi": lambda: lingam.MultiGroupDirectLiNGAM(), "multircd": lambda: lingam.MultiGroupRCD(),
    "multicamuv": lambda: lingam.MultiGroupCAMUV(), "long": lambda: lingam.LongitudinalLiNGAM(),
}
BAD1 = ["nan", "inf", "vector", "cube", "empty", "text", "none", "object", "nocolumn"]
BADL = ["nan", "inf", "single", "nolist", "columns", "vector", "none", "emptylist", "text"]


def corrupt(X, kind, rng):
    X = X.copy()
    i, j = int(rng.integers(X.shape[0])), int(rng.integers(X.shape[1]))
    if kind in ("nan", "inf"):
        X[i, j] = np.nan if kind == "nan" else rng.choice([np.inf, -np.inf])
        return X
    if kind == "object":
        F = pd.DataFrame(X, columns=list("abcdef")[:X.shape[1]]).astype(object)
        F.iloc[i, j] = "oops"
        return F
    return {"vector": X[:, j], "cube": X[None], "empty": X[:0], "text": "data", "none": None,
            "nocolumn": X[:, :0]}[kind]


def corrupt_list(Xs, kind, rng):
    Xs = [X.copy() for X in Xs]
    k = int(rng.integers(len(Xs)))
    if kind in ("nan", "inf", "vector"):
        Xs[k] = corrupt(Xs[k], kind, rng)
        return Xs
    if kind == "columns":
        Xs[k] = Xs[k][:, :-1] if rng.random() < 0.5 else np.hstack([Xs[k], Xs[k][:, :1] ** 2])
        return Xs
    return {"single": Xs[:1], "nolist": {0: Xs[0], 1: Xs[1]}, "none": None, "emptylist": [], "text": "data"}[kind]


def queries(m, X, single):
    """What the fitted model answers, so that leftovers of a rejected call show up."""
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if isinstance(m, lingam.LongitudinalLiNGAM):
            out += [m.get_error_independence_p_values(), m.estimate_total_effect(X, 1, 0, 1, 1),
                    m.estimate_total_effect2(1, 0, 1, 1), m.residuals_]
        elif isinstance(m, (lingam.VARLiNGAM, lingam.VARMALiNGAM)):
            out += [m.get_error_independence_p_values(), m.estimate_total_effect2(X.shape[1], 0, 1), m.residuals_]
        elif not isinstance(m, (lingam.CAMUV, lingam.MultiGroupCAMUV)):
            out += [m.get_error_independence_p_values(X), m.estimate_total_effect(X, 0, 1)]
    return repr([np.asarray(v, float).tolist() for v in out])


def state(m):
    out = {}
    for a in ("causal_order_", "causal_orders_", "adjacency_matrix_", "adjacency_matrices_", "ancestors_list_"):
        if hasattr(m, a):
            v = getattr(m, a)
            out[a] = repr(v.tolist() if hasattr(v, "tolist") else v)
    return out


@st.composite
def bad_data(draw):
    model = draw(st.sampled_from(sorted(SINGLE) + sorted(MULTI)))
    return {"model": model, "bad": draw(st.sampled_from(BAD1 if model in SINGLE else BADL)),
            "first": draw(st.booleans()), "seed": draw(gen.SEED), "p": draw(st.integers(2, 3)), "other": draw(st.booleans()),
            "call": draw(st.sampled_from(["fit", "fit", "bootstrap"]))}


@P.clause("data", bad_data(), quick=420, thorough=4000, rule="the model was fitted before the rejected call")
def data(d, ctx):
    rng = np.random.default_rng(d["seed"])
    p, n = d["p"], 40

    def one():
        B, o = gen.random_dag(rng, p, 0.7)
        return gen.sem(rng, B, o, n, "uniform")[0]

    single = d["model"] in SINGLE
    m = (SINGLE if single else MULTI)[d["model"]]()
    if single and d["model"] in ("var", "varma"):
        X = rng.uniform(-1, 1, (n, p))
    else:
        X = one() if single else [one(), one()]
    before = None
    if d["first"]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.fit(X)
        before, asked = state(m), queries(m, X, single)
    Z = X
    if d["other"]:  # data of another size
        Z = X[: n - 7] if single else [x[: n - 7] for x in X] + [X[0][7:]]
    Z = corrupt(Z, d["bad"], rng) if single else corrupt_list(Z, d["bad"], rng)
    call = d["call"] if hasattr(m, "bootstrap") else "fit"
    ctx.label(f"{d['model']}:{call}", d["bad"])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.fit(Z) if call == "fit" else m.bootstrap(Z, 1)
    except (ValueError, TypeError):
        if before is not None:
            # bottom-up clears its order first; what is still shown must be what was fitted
            require(all(v in (before[k], "None") for k, v in state(m).items()),
                    f"{d['model']}: a rejected {call} changed the fitted model", before, state(m))
            if all(v == before[k] for k, v in state(m).items()):
                require(queries(m, X, single) == asked, f"{d['model']}: a rejected {call} changed answers about the fitted model",
                        asked, queries(m, X, single))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            again, fresh = m.fit(X), (SINGLE if single else MULTI)[d["model"]]().fit(X)
        require(state(again) == state(fresh), f"{d['model']}: a rejected {call} changed the next fit", state(fresh), state(again))
        ctx.nontrivial(d["first"])
        return
    except Exception as e:
        require(False, f"{d['model']}: {call} on {d['bad']} data failed with {type(e).__name__} instead of being rejected", e)
    require(False, f"{d['model']}: {call} accepted {d['bad']} data")


@P.clause("n_sampling", st.fixed_dictionaries({
    "model": st.sampled_from(["direct", "ica", "highdim", "resit", "bottomup", "rcd", "multi", "multircd", "var", "varma", "long"]),
    "n": st.sampled_from([0, -1, -100, 1.5, "3", None, 2.0]), "seed": gen.SEED}), quick=150, thorough=800, rule="every case")
def n_sampling(d, ctx):
    rng = np.random.default_rng(d["seed"])
    X = rng.uniform(-1, 1, (30, 2))
    m = {**SINGLE, **MULTI}[d["model"]]()
    if d["model"] in MULTI:
        X = [X, X + rng.uniform(-1, 1, (30, 2))]
    try:
        m.bootstrap(X, n_sampling=d["n"])
    except (ValueError, TypeError):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            again, fresh = m.fit(X), {**SINGLE, **MULTI}[d["model"]]().fit(X)
        require(state(again) == state(fresh), f"{d['model']}: a rejected bootstrap changed the next fit", state(fresh), state(again))
        ctx.label(d["model"])
        ctx.nontrivial()
        return
    require(False, f"{d['model']}: n_sampling={d['n']!r} accepted")
