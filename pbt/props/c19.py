"""C19: effects of interventions on predictions follow the mutilated causal model."""
import numpy as np
import lingam
from hypothesis import strategies as st
from sklearn.linear_model import LinearRegression, LogisticRegression
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import PolynomialFeatures

import gen
from core import Property, require

P = Property("C19", boost=4)


def do_mean(B, Ex, i, value):
    """Expectations under do(x_i = value): row i cut, x_i fixed, the rest solved jointly."""
    p = len(B)
    En = Ex - B @ Ex
    A = np.eye(p) - B
    A[i] = 0
    A[i, i] = 1
    b = En.copy()
    b[i] = value
    return np.linalg.solve(A, b)


class Cubic:
    """A prediction model without coefficients."""

    def __init__(self, w):
        self.w = w

    def predict(self, Z):
        return (np.asarray(Z) @ self.w) ** 3 / 10 + np.asarray(Z)[:, 0]


@st.composite
def spec(draw):
    B = draw(gen.dag_matrix(2, 6, wide=12))
    p = len(B)
    return {
        "B": B, "seed": draw(gen.SEED), "n": draw(gen.size(10, 60, 1500)),
        "target": draw(st.integers(0, p - 1)), "i": draw(st.integers(0, p - 1)),
        "loc": draw(st.sampled_from([0.0, 4.0, -1.5])),
        "pred": draw(st.sampled_from(["linear", "logistic", "cubic", "poly"])),
        "as": draw(st.sampled_from(["array", "list", "direct", "dag"])),
        "want": draw(st.sampled_from([0.0, 1.0, -3.5, 12.0])),
        "frame": draw(st.booleans()),
    }


def setup(d):
    rng = np.random.default_rng(d["seed"])
    B = np.array(d["B"])
    p, n = len(B), d["n"]
    X = rng.uniform(-1, 1, (n, p)) @ np.linalg.inv(np.eye(p) - B).T + d["loc"] * np.arange(1, p + 1)
    if d["as"] == "direct":
        m = lingam.DirectLiNGAM().fit(rng.exponential(size=(60, p)) @ np.linalg.inv(np.eye(p) - B).T)
        B = np.asarray(m.adjacency_matrix_)
        model = m
    elif d["as"] == "list":
        model = d["B"]
    elif d["as"] == "dag":
        model = np.array(d["B"], order="F")
    else:
        model = np.array(d["B"])
    return rng, B, X, model


def predictor(kind, X, target, rng):
    Z = np.delete(X, target, axis=1)
    if kind == "linear":
        return LinearRegression().fit(Z, X[:, target])
    if kind == "logistic":
        y = (X[:, target] > np.median(X[:, target])).astype(int)
        return LogisticRegression().fit(Z, y)
    if kind == "poly":
        return make_pipeline(PolynomialFeatures(2), LinearRegression()).fit(Z, X[:, target])
    return Cubic(rng.normal(size=Z.shape[1]))


def expectation(pm, x, target):
    z = np.delete(x, target).reshape(1, -1)
    if hasattr(pm, "predict_proba"):
        q = pm.predict_proba(z)[0]
        return q[0] - q[1]
    return float(pm.predict(z)[0])


@P.clause("on_prediction", spec(), quick=300, thorough=5000,
          rule="an intervened variable has a descendant other than the target")
def on_prediction(d, ctx):
    rng, B, X, model = setup(d)
    p, t = len(B), d["target"]
    pm = predictor(d["pred"], X, t, rng)
    keep = X.copy()
    import pandas as pd
    arg = pd.DataFrame(X, columns=[f"v{i}" for i in range(p)]) if d["frame"] else X
    ce = lingam.CausalEffect(model)
    got = np.asarray(ce.estimate_effects_on_prediction(arg, t, pm))
    require(np.array_equal(X, keep), "the data were modified")
    require(got.shape == (p, 2), "shape", got.shape)
    Ex = X.mean(axis=0)
    for i in range(p):
        base = expectation(pm, do_mean(B, Ex, i, Ex[i]), t)
        for k, sign in enumerate([1, -1]):
            v = expectation(pm, do_mean(B, Ex, i, Ex[i] + sign * X[:, i].std()), t)
            want = abs(base - v)
            require(abs(got[i, k] - want) <= 1e-7 * (1 + want + abs(base)),
                    f"effect of x{i} ({'+' if sign > 0 else '-'} one standard deviation)",
                    got[i, k], want)
    again = np.asarray(ce.estimate_effects_on_prediction(arg, t, pm))
    require(np.array_equal(again, got), "asking twice")
    ctx.label(d["pred"], d["as"])
    ctx.nontrivial(any(B[j, i] != 0 and j != t for i in range(p) for j in range(p)))


@P.clause("optimal_intervention", spec(), quick=400, thorough=6000,
          rule="the intervened variable has a descendant other than the target")
def optimal(d, ctx):
    """Setting the variable to the answer gives the desired expected prediction."""
    rng, B, X, model = setup(d)
    t, i = d["target"], d["i"]
    pm = predictor("linear", X, t, rng)
    Ex = X.mean(axis=0)
    slope = expectation(pm, do_mean(B, Ex, i, 1.0), t) - expectation(pm, do_mean(B, Ex, i, 0.0), t)
    if abs(slope) < 1e-6:
        ctx.reject("the variable has no influence on the prediction")
    keep = X.copy()
    c = lingam.CausalEffect(model).estimate_optimal_intervention(X, t, pm, i, d["want"])
    require(np.array_equal(X, keep), "the data were modified")
    got = expectation(pm, do_mean(B, Ex, i, float(c)), t)
    require(abs(got - d["want"]) <= 1e-6 * (1 + abs(d["want"]) + abs(c * slope) * 10),
            "expected prediction under the intervention", got, d["want"], float(c))
    ctx.label(d["as"])
    ctx.nontrivial(any(B[j, i] != 0 and j != t for j in range(len(B))))


@P.clause("rejected", st.fixed_dictionaries({
    "kind": st.sampled_from(["cycle", "not_square", "vector", "string", "no_predict", "proba", "no_coef"]),
    "B": gen.dag_matrix(3, 5, coefs=st.sampled_from([1.0, -0.5, 2.0])), "seed": gen.SEED}),
    quick=40, thorough=400, rule="every case")
def rejected(d, ctx):
    rng = np.random.default_rng(d["seed"])
    B = np.array(d["B"])
    p = len(B)
    X = rng.normal(size=(30, p))
    pm = predictor("linear", X, 0, rng)
    model = B
    k = d["kind"]
    if k == "cycle":
        a, b = [(i, j) for i in range(p) for j in range(p) if B[i, j] != 0][0]
        B[b, a] = 1.0
    elif k == "not_square":
        model = B[:-1]
    elif k == "vector":
        model = B[0]
    elif k == "string":
        model = "model"
    elif k == "no_predict":
        pm = object()
    ctx.label(k)
    try:
        ce = lingam.CausalEffect(model)
        if k == "proba":
            ce.estimate_optimal_intervention(X, 0, predictor("logistic", X, 0, rng), 1, 0.0)
        elif k == "no_coef":
            ce.estimate_optimal_intervention(X, 0, Cubic(np.ones(p - 1)), 1, 0.0)
        else:
            ce.estimate_effects_on_prediction(X, 0, pm)
    except ValueError:
        ctx.nontrivial()
        return
    require(False, f"accepted: {k}")
