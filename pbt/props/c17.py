"""C17: RESIT orders by residual dependence and keeps only the edges its test needs."""
import numpy as np
import lingam
from hypothesis import strategies as st
from sklearn.linear_model import LinearRegression
from sklearn.neighbors import KNeighborsRegressor
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import PolynomialFeatures

import gen
import ref
from core import Property, require

P = Property("C17", boost=2)
MARGIN = 1e-4


def regressor(kind):
    return {
        "ols": LinearRegression,
        "poly": lambda: make_pipeline(PolynomialFeatures(3), LinearRegression()),
        "knn": lambda: KNeighborsRegressor(n_neighbors=7),
    }[kind]()


def resid(X, preds, t, reg):
    r = regressor(reg)
    r.fit(X[:, preds], X[:, t])
    return X[:, t] - r.predict(X[:, preds])


def reference(X, reg, alpha):
    S = list(range(X.shape[1]))
    order, pa, margin = [], {}, np.inf
    while len(S) > 1:
        sc = []
        for k in S:
            rest = [i for i in S if i != k]
            sc.append((ref.hsic_ref(resid(X, rest, k, reg), X[:, rest])[0], k))
        sc.sort()
        margin = min(margin, (sc[1][0] - sc[0][0]) / (1e-9 + sc[0][0]))
        k = sc[0][1]
        S.remove(k)
        pa[k] = list(S)
        order.insert(0, k)
    order.insert(0, S[0])
    pa[S[0]] = []
    removed = 0
    for k in range(1, len(order)):
        t = order[k]
        for l in list(pa[t]):
            rest = [i for i in pa[t] if i != l]
            r = resid(X, rest, t, reg) if rest else X[:, t]
            q = ref.hsic_ref(r, X[:, order[:k]])[1]
            if alpha > 0 and q > 0:
                margin = min(margin, abs(np.log(q / alpha)))
            if q > alpha:
                pa[t].remove(l)
                removed += 1
    return order, pa, margin, removed


@P.clause("reference", st.fixed_dictionaries({
    "seed": gen.SEED, "p": st.sampled_from([3, 4, 2, 5]), "n": gen.size(40, 110, 400, 25),
    "density": st.sampled_from([0.6, 0.3, 1.0]), "reg": st.sampled_from(["poly", "ols", "knn"]),
    "alpha": st.sampled_from([0.01, 0.05, 0.2, 0.5, 0.0]), "linear": st.booleans(),
    "perm": st.booleans()}),
    quick=250, thorough=5000, rule="an edge is kept and another one removed")
def resit(d, ctx):
    rng = np.random.default_rng(d["seed"])
    p, n = d["p"], d["n"]
    if d["linear"]:
        B, order = gen.random_dag(rng, p, d["density"])
        X, _ = gen.sem(rng, B, order, n, "exp")
    else:
        X, B, order = gen.nonlinear_data(rng, p, n, d["density"])
    order, pa, margin, removed = reference(X, d["reg"], d["alpha"])
    if margin < MARGIN:
        ctx.reject("nearly tied")
    m = lingam.RESIT(regressor=regressor(d["reg"]), alpha=d["alpha"])
    require(m.fit(X) is m, "fit returns the model")
    A = np.asarray(m.adjacency_matrix_)
    got = [int(v) for v in m.causal_order_]
    ref.check_dag(A, got, p, "RESIT")
    require(set(np.unique(A)) <= {0.0, 1.0}, "entries are 0 or 1", A)
    require(got == order, "causal order", got, order)
    want = np.zeros((p, p))
    for t in pa:
        want[t, pa[t]] = 1
    require(np.array_equal(A, want), "edges", A, want, got)
    if d["alpha"] == 0.0:
        ctx.label("alpha0")
    require(m.estimate_total_effect(X, 0, 1) == 0, "no total effects are claimed")
    require(not np.any(m.get_error_independence_p_values(X)), "no p-values are claimed")
    ctx.label(d["reg"], f"p={p}", f"edges={int(want.sum())}", "removed" if removed else "none")
    ctx.nontrivial(bool(want.any()) and removed > 0)


@P.clause("truth", st.fixed_dictionaries({"seed": gen.SEED}), quick=40, thorough=600,
          rule="every decisive sample")
def truth(d, ctx):
    """A nonlinear pair is oriented correctly when the sample decides it."""
    rng = np.random.default_rng(d["seed"])
    n = 250
    x = rng.uniform(-1, 1, n)
    y = x + 1.5 * x**3 + 0.4 * rng.uniform(-1, 1, n)
    flip = int(rng.integers(2))
    X = np.column_stack([x, y])[:, ::-1] if flip else np.column_stack([x, y])
    cause, effect = (1, 0) if flip else (0, 1)
    order, pa, margin, _ = reference(X, "poly", 0.01)
    if margin < 0.05 or order != [cause, effect]:
        ctx.reject("sample not decisive")
    m = lingam.RESIT(regressor=regressor("poly")).fit(X)
    require([int(v) for v in m.causal_order_] == [cause, effect], "direction", m.causal_order_)
    require(m.adjacency_matrix_[effect, cause] == 1 and m.adjacency_matrix_[cause, effect] == 0,
            "edge", m.adjacency_matrix_)
    ctx.nontrivial()
