"""C12: VARMA-LiNGAM solves the structural ARMA equations."""
import warnings

import numpy as np
import lingam
from hypothesis import strategies as st

import gen
import ref
from core import Property, require
from props.c09 import close, series, unrolled

P = Property("C12", boost=3)


def prune_ref(X, ee, a, b, order, wrap):
    n, p = X.shape
    s = max(a, b)
    if wrap:
        parts = [np.roll(X, k, axis=0) for k in range(a + 1)]
        parts += [np.roll(ee, k + 1, axis=0) for k in range(b)]
    else:
        parts = [X[s - k: n - k] for k in range(a + 1)]
        parts += [ee[s - 1 - k: n - 1 - k] for k in range(b)]
    J = np.hstack(parts)
    out = np.zeros((p, J.shape[1]))
    margin = np.inf
    for k, i in enumerate(order):
        pred = [j for j in range(J.shape[1]) if j not in order[k:]]
        out[i, pred] = ref.pruned_coefs(J, pred, i)
        margin = min(margin, ref.selection_margin(J, pred, i, None))
    return out, margin


def check_structure(m, X, phis, thetas, order_, prune, ctx):
    """Everything that follows from the residuals and the ARMA coefficients."""
    p = X.shape[1]
    a, b = order_
    psis, omegas = m.adjacency_matrices_
    psis, omegas = np.asarray(psis), np.asarray(omegas)
    require(psis.shape == (a + 1, p, p), "shape of psi", psis.shape)
    require(len(omegas) == b, "number of MA matrices", len(omegas))
    R = np.asarray(m.residuals_)
    inn = lingam.DirectLiNGAM().fit(R)
    order = [int(v) for v in m.causal_order_]
    require([int(v) for v in inn.causal_order_] == order, "order of the residuals", order)
    B0 = np.asarray(inn.adjacency_matrix_)
    I = np.eye(p)
    if not prune:
        require(close(psis[0], B0, 1e-6), "contemporaneous effects", psis[0], B0)
        for i in range(a):
            W = (I - B0) @ phis[i]
            require(np.allclose(psis[i + 1], W, atol=1e-6), "AR effects", psis[i + 1], W)
        for j in range(b):
            W = (I - B0) @ thetas[j] @ np.linalg.inv(I - B0)
            require(np.allclose(omegas[j], W, atol=1e-6), "MA effects", omegas[j], W)
    else:
        ee = R @ (I - B0).T
        got = np.hstack(list(psis) + list(omegas))
        cand = []
        for wrap in (True, False):
            W, margin = prune_ref(X[len(X) - len(R):], ee, a, b, order, wrap)
            if margin < 1e-7:
                ctx.reject("tie")
            cand.append(W)
        require(any(np.allclose(got, W, atol=1e-6, rtol=1e-5) for W in cand),
                "pruned effects", got, cand)
    ref.check_dag(psis[0], order, p, "psi0")
    pv = np.asarray(m.get_error_independence_p_values())
    require(pv.shape == (p, p) and np.array_equal(pv, pv.T), "p-value matrix")
    E = R @ (I - psis[0]).T
    q = ref.hsic_ref(E[:, 0], E[:, 1])[1]
    require(abs(pv[0, 1] - q) < 1e-6 + 1e-4 * q, "p-value of a pair of errors", pv[0, 1], q)
    return psis, omegas


@P.clause(
    "given_coefficients",
    st.fixed_dictionaries({
        "seed": gen.SEED, "p": st.sampled_from([2, 3] * 8 + [5, 6]), "n": gen.size(50, 110, 900),
        "a": st.sampled_from([1, 2, 3] * 6 + [5]), "b": st.sampled_from([1, 2, 3] * 6 + [5]), "prune": st.booleans(),
    }),
    quick=200, thorough=3000,
    rule="more than one AR or MA lag",
)
def given_coefs(d, ctx):
    rng = np.random.default_rng(d["seed"])
    p, a, b = d["p"], d["a"], d["b"]
    n = max(d["n"], 4 * p * (a + b + 1))
    X, _, A = series(rng, n, p, a)
    C = [rng.uniform(-0.3, 0.3, (p, p)) / (k + 1) for k in range(b)]
    m = lingam.VARMALiNGAM(order=(a, b), criterion=None, prune=d["prune"],
                           ar_coefs=np.array(A), ma_coefs=np.array(C))
    require(m.fit(X) is m, "fit returns the model")
    R = np.asarray(m.residuals_)
    s = max(a, b)
    require(R.shape == (n - s, p), "shape of the residuals", R.shape)
    for t in range(s + b, n):
        e = X[t] - sum(A[j] @ X[t - 1 - j] for j in range(a))
        e = e - sum(C[j] @ R[t - s - 1 - j] for j in range(b))
        require(np.allclose(R[t - s], e, atol=1e-8 * (1 + np.abs(X).max())),
                f"residual at time {t}", R[t - s], e)
    check_structure(m, X, A, C, (a, b), d["prune"], ctx)
    ctx.label(f"a={a},b={b}", f"prune={d['prune']}")
    ctx.nontrivial(a > 1 or b > 1)


@P.clause(
    "estimated",
    st.fixed_dictionaries({
        "seed": gen.SEED, "n": st.integers(40, 60), "order": st.sampled_from([(1, 1), (1, 1), (2, 1), (1, 2)]),
        "prune": st.booleans(), "criterion": st.sampled_from([None, None, "aic", "bic", "hqic"]),
    }),
    quick=14, thorough=160, shards=8,
    rule="every case",
)
def estimated(d, ctx):
    from statsmodels.tsa.statespace.varmax import VARMAX

    rng = np.random.default_rng(d["seed"])
    a, b = d["order"]
    if d["criterion"]:
        a, b = 1, 1
    X, *_ = series(rng, d["n"], 2, 1)
    m = lingam.VARMALiNGAM(order=(a, b), criterion=d["criterion"], prune=d["prune"], max_iter=6)
    m.fit(X)

    def fit(o):
        return VARMAX(X, order=o, trend="c").fit(maxiter=6, disp=0)

    if d["criterion"]:
        fs = [fit(o) for o in [(0, 1), (1, 0), (1, 1)]]
        vals = [getattr(f, d["criterion"]) for f in fs]
        if sorted(vals)[1] - min(vals) < 1e-6 * abs(min(vals)):
            ctx.reject("tie")
        f = fs[int(np.argmin(vals))]
    else:
        f = fit((a, b))
    o = tuple(f.specification["order"])
    require(np.allclose(m.residuals_, f.resid, atol=1e-6), "residuals of the ARMA fit", o)
    ctx.label(f"order={o}", str(d["criterion"]))
    check_structure(m, X, f.coefficient_matrices_var, f.coefficient_matrices_vma, o,
                    d["prune"], ctx)
    ctx.nontrivial()


@P.clause(
    "total_effects",
    st.fixed_dictionaries({
        "seed": gen.SEED, "p": st.integers(2, 3), "n": gen.size(50, 110, 900),
        "a": st.integers(1, 3), "b": st.integers(1, 2), "prune": st.booleans(),
        "fr": st.integers(0, 2), "to": st.integers(0, 2), "lag": st.integers(0, 3),
    }),
    quick=250, thorough=4000,
    rule="the cause is lagged or has a parent",
)
def effects(d, ctx):
    rng = np.random.default_rng(d["seed"])
    p, n, a, b = d["p"], d["n"], d["a"], d["b"]
    fr, to, lag = d["fr"] % p, d["to"] % p, d["lag"] % (a + 1)
    if lag == 0 and fr == to:
        ctx.reject()
    X, _, A = series(rng, n, p, a)
    C = [rng.uniform(-0.3, 0.3, (p, p)) for k in range(b)]
    m = lingam.VARMALiNGAM(order=(a, b), criterion=None, prune=d["prune"],
                           ar_coefs=np.array(A), ma_coefs=np.array(C)).fit(X)
    psis, omegas = [np.asarray(v) for v in m.adjacency_matrices_]
    order = [int(v) for v in m.causal_order_]
    want = unrolled(psis)[to, fr + p * lag]
    rev = lag == 0 and order.index(fr) > order.index(to)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = m.estimate_total_effect2(p, fr, to, lag)
    require(any("causal order" in str(x.message) for x in w) == rev, "warning", rev)
    require(abs(got - want) <= 1e-8 * (1 + abs(want)), "path effect", got, want)
    # regression form: data and errors aligned row by row
    R = np.asarray(m.residuals_)
    Y = X[n - len(R):]
    E = R @ (np.eye(p) - psis[0]).T
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = m.estimate_total_effect(Y, E, fr, to, lag)
    require(any("causal order" in str(x.message) for x in w) == rev, "warning", rev)
    row = np.concatenate([*psis, *omegas], axis=1)[fr]
    ok = []
    N = len(Y)
    depth = max(a, b) + lag
    for wrap in (True, False):
        def at(Z, k):
            return np.roll(Z, k, axis=0) if wrap else Z[depth - k: N - k]
        cols = [at(Y, lag)[:, fr]]
        for v in np.nonzero(row)[0]:
            blk, j = divmod(int(v), p)
            if blk <= a:
                cols.append(at(Y, lag + blk)[:, j])
            else:
                cols.append(at(E, lag + blk - a)[:, j])
        ok.append(ref.ols(np.column_stack(cols), at(Y, 0)[:, to])[0][0])
    require(min(abs(got - v) for v in ok) <= 1e-6 * (1 + abs(ok[0])),
            "regression effect", got, ok, fr, to, lag)
    ctx.nontrivial(lag > 0 or bool(row.any()))
