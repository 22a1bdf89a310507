"""C11: VAR-LiNGAM solves the structural autoregressive equations."""
import warnings

import numpy as np
import lingam
from hypothesis import strategies as st

import gen
import ref
from core import Property, require
from props.c09 import close, series, unrolled

P = Property("C11", boost=3)


def var_ols(X, lag):
    """Least squares without intercept: (M[lag][p][p], residuals)."""
    n, p = X.shape
    Z = np.hstack([X[lag - 1 - j: n - 1 - j] for j in range(lag)])
    C = np.linalg.lstsq(Z, X[lag:], rcond=None)[0]
    return [C[j * p:(j + 1) * p].T for j in range(lag)], X[lag:] - Z @ C


def criterion(X, lag, name):
    _, R = var_ols(X, lag)
    n, p = R.shape
    ld = np.linalg.slogdet(R.T @ R / n)[1]
    k = lag * p * p
    if name == "aic":
        return ld + 2 * k / n
    if name == "bic":
        return ld + np.log(n) * k / n
    if name == "hqic":
        return ld + 2 * np.log(np.log(n)) * k / n
    m = lag * p
    return ((n + m) / (n - m)) ** p * np.exp(ld)


def pruned_rows(X, lag, order):
    """Reference pruning: current predecessors and all lags, adaptive lasso, OLS."""
    n, p = X.shape
    J = np.hstack([X[lag - j: n - j] for j in range(lag + 1)])
    out = np.zeros((p, p * (1 + lag)))
    margin = np.inf
    for k, i in enumerate(order):
        pred = list(order[:k]) + list(range(p, p * (1 + lag)))
        out[i, pred] = ref.pruned_coefs(J, pred, i)
        margin = min(margin, ref.selection_margin(J, pred, i, None))
    return out, margin


# now and then many variables or lags
SIZE = st.sampled_from([2, 3, 4] * 6 + [6, 7])
LAGS = st.sampled_from([1, 2, 3] * 6 + [4, 6])
SPEC = {
    "seed": gen.SEED, "p": SIZE, "n": gen.size(50, 140, 1500),
    "lags": LAGS, "true": st.integers(1, 3),
    "criterion": st.sampled_from([None, "aic", "bic", "hqic", "fpe"]),
    "prune": st.booleans(), "loc": st.sampled_from([0.0, 0.0, 2.0]),
    "model": st.sampled_from(["default", "default", "ica", "kernel"]),
    "given": st.integers(0, 3),
}


def inner(d):
    if d["model"] == "ica":
        return lingam.ICALiNGAM(random_state=1)
    if d["model"] == "kernel":
        return lingam.DirectLiNGAM(measure="kernel")
    return lingam.DirectLiNGAM()


@P.clause(
    "structure", st.fixed_dictionaries(SPEC), quick=350, thorough=5000,
    rule="the fitted model has a contemporaneous and a lagged edge",
)
def structure(d, ctx):
    rng = np.random.default_rng(d["seed"])
    p = d["p"]
    if d["model"] == "kernel":
        p, d["n"] = min(p, 3), min(d["n"], 60)
    d["n"] = max(d["n"], 4 * p * (d["lags"] + 1))
    X, _, A = series(rng, d["n"], p, d["true"], d["loc"])
    lags = d["lags"]
    kw = {}
    if d["model"] != "default":
        kw["lingam_model"] = inner(d)
    given = d["given"] == 0
    if given:
        lags = d["true"]
        kw["ar_coefs"] = [a.tolist() for a in A]
    if not given or d["seed"] % 3:
        kw["lags"] = lags  # else the coefficients alone say how many lags there are
    m = lingam.VARLiNGAM(criterion=d["criterion"], prune=d["prune"], **kw)
    require(m.fit(X) is m, "fit returns the model")
    Bs = np.asarray(m.adjacency_matrices_)
    # chosen lag
    if given or d["criterion"] is None:
        want = lags
    else:
        vals = sorted((criterion(X, q, d["criterion"]), q) for q in range(1, lags + 1))
        if len(vals) > 1 and vals[1][0] - vals[0][0] < 1e-9 * (1 + abs(vals[0][0])):
            ctx.reject("tie")
        want = vals[0][1]
    require(len(Bs) == want + 1, "number of lags", len(Bs) - 1, want, d["criterion"])
    L = want
    ctx.label(f"lags={L}", d["model"], f"prune={d['prune']}", f"criterion={d['criterion']}")
    if given:
        M = A
        n = len(X)
        R = X[L:] - sum(X[L - 1 - j: n - 1 - j] @ A[j].T for j in range(L))
    else:
        M, R = var_ols(X, L)
    sc = 1 + np.abs(X).max()
    require(np.shape(m.residuals_) == R.shape, "shape of the residuals")
    require(np.allclose(m.residuals_, R, atol=1e-8 * sc), "residuals of the autoregression")
    inn = inner(d).fit(np.asarray(m.residuals_))
    require([int(v) for v in inn.causal_order_] == [int(v) for v in m.causal_order_],
            "the order is not the one of the residuals", m.causal_order_, inn.causal_order_)
    order = [int(v) for v in m.causal_order_]
    if not d["prune"]:
        B0 = np.asarray(inn.adjacency_matrix_)
        require(close(Bs[0], B0, 1e-6), "contemporaneous effects", Bs[0], B0)
        for j in range(L):
            W = (np.eye(p) - B0) @ M[j]
            require(np.allclose(Bs[j + 1], W, atol=1e-6), f"effects of lag {j + 1}", Bs[j + 1], W)
    else:
        W, margin = pruned_rows(X, L, order)
        if margin < 1e-7:
            ctx.reject("tie")
        got = np.concatenate(list(Bs), axis=1)
        require(np.allclose(got, W, atol=1e-6, rtol=1e-5), "pruned effects", got, W)
    # independence of the errors
    E = np.asarray(m.residuals_) @ (np.eye(p) - Bs[0]).T
    pv = np.asarray(m.get_error_independence_p_values())
    require(pv.shape == (p, p) and np.array_equal(pv, pv.T), "p-value matrix", pv)
    i, j = int(rng.integers(p)), int(rng.integers(p))
    if i != j:
        q = ref.hsic_ref(E[:, i], E[:, j])[1]
        require(abs(pv[i, j] - q) < 1e-6 + 1e-4 * q, "p-value of a pair of errors", pv[i, j], q)
    ctx.nontrivial(bool(Bs[0].any() and Bs[1:].any()))


def lagged(X, k, wrap):
    return np.roll(X, k, axis=0) if wrap else X


@P.clause(
    "lag_order", st.fixed_dictionaries({
        "seed": gen.SEED, "p": st.integers(2, 3), "n": st.integers(80, 300),
        "true": st.integers(1, 8), "more": st.integers(-2, 4),
        "criterion": st.sampled_from(["aic", "bic", "hqic", "fpe"]),
    }), quick=100, thorough=1500,
    rule="the best order is neither the first nor the last one allowed",
)
def lag_order(d, ctx):
    """Long memory: the best order may be any of those allowed."""
    rng = np.random.default_rng(d["seed"])
    q, p, n = d["true"], d["p"], d["n"]
    X = rng.uniform(-1, 1, (n + q, p))
    for t in range(q, n + q):
        X[t] += rng.choice([0.5, 0.8]) * X[t - q] + 0.2 * X[t - 1]
    X = X[q:]
    lags = max(1, q + d["more"])
    vals = sorted((criterion(X, k, d["criterion"]), k) for k in range(1, lags + 1))
    if len(vals) > 1 and vals[1][0] - vals[0][0] < 1e-9 * (1 + abs(vals[0][0])):
        ctx.reject("tie")
    m = lingam.VARLiNGAM(lags=lags, criterion=d["criterion"], prune=False).fit(X)
    got = len(m.adjacency_matrices_) - 1
    require(got == vals[0][1], "the lag order does not have the best criterion", got, vals[:3])
    ctx.label(f"order={got}")
    ctx.nontrivial(1 < got < lags)


@P.clause(
    "total_effects", st.fixed_dictionaries({
        "seed": gen.SEED, "p": SIZE, "n": gen.size(60, 140, 1500),
        "lags": LAGS, "prune": st.booleans(),
        "fr": st.integers(0, 6), "to": st.integers(0, 6), "lag": st.integers(0, 6),
    }), quick=350, thorough=5000,
    rule="the cause is lagged or has a parent",
)
def effects(d, ctx):
    rng = np.random.default_rng(d["seed"])
    p, L = d["p"], d["lags"]
    d["n"] = max(d["n"], 5 * p * (L + 1))
    fr, to, lag = d["fr"] % p, d["to"] % p, d["lag"] % (L + 1)
    X, *_ = series(rng, d["n"], p, L)
    m = lingam.VARLiNGAM(lags=L, criterion=None, prune=d["prune"]).fit(X)
    Bs = np.asarray(m.adjacency_matrices_)
    order = [int(v) for v in m.causal_order_]
    if lag == 0 and fr == to:
        ctx.reject()
    want = unrolled(Bs)[to, fr + p * lag]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = m.estimate_total_effect2(p, fr, to, lag)
    rev = lag == 0 and order.index(fr) > order.index(to)
    require(any("causal order" in str(x.message) for x in w) == rev, "warning", rev)
    require(abs(got - want) <= 1e-8 * (1 + abs(want)), "path effect", got, want)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = m.estimate_total_effect(X, fr, to, lag)
    require(any("causal order" in str(x.message) for x in w) == rev, "warning", rev)
    n = len(X)
    depth = L + lag
    par = [int(v) for v in np.nonzero(np.concatenate(list(Bs), axis=1)[fr])[0]]
    ok = []
    # rows near the start lack history: either dropped or wrapped around
    for wrap in (True, False):
        if wrap:
            J = np.hstack([np.roll(X, k, axis=0) for k in range(depth + 1)])
        else:
            J = np.hstack([X[depth - k: n - k] for k in range(depth + 1)])
        cols = [fr + p * lag] + [v + p * lag for v in par]
        ok.append(ref.ols(J[:, cols], J[:, to])[0][0])
    require(min(abs(got - v) for v in ok) <= 1e-6 * (1 + abs(ok[0])),
            "regression effect", got, ok, fr, to, lag)
    ctx.label(f"lag={lag}")
    ctx.nontrivial(lag > 0 or bool(par))


@P.clause(
    "truth", st.fixed_dictionaries({
        "seed": gen.SEED, "p": st.integers(2, 3), "lags": st.integers(1, 2),
        "prune": st.booleans(), "bic": st.booleans(),
    }), quick=40, thorough=600,
    rule="the generating process has a contemporaneous edge",
)
def truth(d, ctx):
    rng = np.random.default_rng(d["seed"])
    p, L = d["p"], d["lags"]
    X, B0, A = series(rng, 4000, p, L)
    M, R = var_ols(X, L)
    ro, margin = ref.pw_order([R])
    pos = {v: k for k, v in enumerate(ro)}
    if margin < 1e-9 or any(pos[f] > pos[t] for f, t in ref.edges(B0)):
        ctx.reject("sample not decisive")
    m = lingam.VARLiNGAM(lags=L, criterion="bic" if d["bic"] else None, prune=d["prune"]).fit(X)
    Bs = m.adjacency_matrices_
    require(np.max(np.abs(Bs[0] - B0)) < 0.15, "contemporaneous effects", Bs[0], B0)
    for k in range(min(L, len(Bs) - 1)):
        W = (np.eye(p) - B0) @ A[k]
        require(np.max(np.abs(Bs[k + 1] - W)) < 0.2, f"lag {k + 1}", Bs[k + 1], W)
    ctx.nontrivial(bool(B0.any()))


class NotAModel:
    def fit(self, X):
        return self


@P.clause(
    "bad_model", st.fixed_dictionaries({"which": st.sampled_from(["var", "varma"]),
                                        "what": st.sampled_from(["class", "object", "str", "bu"])}),
    quick=8, thorough=8, rule="every case",
)
def bad_model(d, ctx):
    bad = {"class": lingam.DirectLiNGAM, "object": NotAModel(), "str": "direct",
           "bu": lingam.BottomUpParceLiNGAM()}[d["what"]]
    X = np.random.default_rng(0).uniform(size=(40, 2))
    cls = lingam.VARLiNGAM if d["which"] == "var" else lingam.VARMALiNGAM
    try:
        cls(lingam_model=bad).fit(X)
    except ValueError:
        ctx.nontrivial()
        return
    require(False, "a model that is no LiNGAM model was accepted")
