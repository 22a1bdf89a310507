"""C13: longitudinal models solve the per-time-point structural equations."""
import warnings

import numpy as np
import lingam
from hypothesis import strategies as st

import gen
import ref
from core import Property, require
from props.c09 import close, long_data, long_expand

P = Property("C13", boost=3)

SPEC = {
    "seed": gen.SEED, "T": st.sampled_from([2, 3, 4, 5] * 5 + [7, 9]), "p": st.sampled_from([2, 3] * 8 + [5, 6]),
    "n": gen.size(40, 100, 1300), "lags": st.sampled_from([1, 2, 3] * 6 + [4, 5]), "measure": st.sampled_from(["pwling", "pwling", "pwling", "kernel"]),
    "loc": st.sampled_from([0.0, 3.0]), "asarray": st.booleans(),
}


def make(d):
    rng = np.random.default_rng(d["seed"])
    T, lags = d["T"], d["lags"]
    d["n"] = max(d["n"], 4 * d["p"] * (lags + 1))
    if T <= lags:
        T = lags + 1
    Xs = [X + d["loc"] * (t + 1) for t, X in enumerate(long_data(rng, T, d["n"], d["p"], lags))]
    return rng, T, Xs


@P.clause(
    "structure", st.fixed_dictionaries(SPEC), quick=250, thorough=4000,
    rule="more than one estimated time point or lag",
)
def structure(d, ctx):
    if d["measure"] == "kernel":
        d["n"], d["T"] = min(d["n"], 45), min(d["T"], 3)
    rng, T, Xs = make(d)
    p, n, L = d["p"], d["n"], d["lags"]
    m = lingam.LongitudinalLiNGAM(n_lags=L, measure=d["measure"])
    require(m.fit(np.array(Xs) if d["asarray"] else Xs) is m, "fit returns the model")
    A = np.asarray(m.adjacency_matrices_)
    require(A.shape == (T, L + 1, p, p), "shape", A.shape)
    require(len(m.causal_orders_) == T, "one order per time point", len(m.causal_orders_))
    require(len(m.residuals_) == T, "residuals per time point")
    ctx.label(f"lags={L}", d["measure"])
    for t in range(T):
        if t < L:
            require(np.isnan(A[t]).all(), f"time {t} has no estimates", A[t])
            require(np.isnan(np.asarray(m.causal_orders_[t], float)).all()
                    and len(m.causal_orders_[t]) == p, "no order at the first time points")
            continue
        Z = np.hstack([Xs[t - 1 - k] for k in range(L)])
        C = np.array([ref.ols(Z, Xs[t][:, i])[0] for i in range(p)])
        N = Xs[t] - Z @ C.T
        got = np.asarray(m.residuals_[t])
        require(got.shape == (n, p), "shape of the residuals", got.shape)
        sc = 1e-7 * (1 + np.abs(Xs[t]).max())
        require(np.allclose(got - got.mean(0), N - N.mean(0), atol=sc), f"residuals at {t}")
        inn = lingam.DirectLiNGAM(measure=d["measure"]).fit(got)
        require([int(v) for v in inn.causal_order_] == [int(v) for v in m.causal_orders_[t]],
                f"order at time {t}", m.causal_orders_[t], inn.causal_order_)
        B = np.asarray(inn.adjacency_matrix_)
        require(close(A[t, 0], B, 1e-6), f"contemporaneous effects at {t}", A[t, 0], B)
        for k in range(L):
            W = (np.eye(p) - B) @ C[:, k * p:(k + 1) * p]
            require(np.allclose(A[t, k + 1], W, atol=1e-6), f"effects of lag {k + 1} at {t}",
                    A[t, k + 1], W)
    pv = np.asarray(m.get_error_independence_p_values())
    require(pv.shape == (T, p, p), "shape of the p-values")
    require(np.isnan(pv[:L]).all(), "no p-values at the first time points")
    t = int(rng.integers(L, T))
    E = np.asarray(m.residuals_[t]) @ (np.eye(p) - A[t, 0]).T
    i, j = [int(v) for v in rng.choice(p, 2, replace=False)]
    q = ref.hsic_ref(E[:, i], E[:, j])[1]
    require(np.array_equal(pv[t], pv[t].T), "symmetry")
    require(abs(pv[t, i, j] - q) < 1e-6 + 1e-4 * q, "p-value of a pair of errors", pv[t, i, j], q)
    ctx.nontrivial(T - L > 1 or L > 1)


@P.clause(
    "total_effects", st.fixed_dictionaries(dict(
        SPEC, ft=st.integers(0, 8), tt=st.integers(0, 8), fr=st.integers(0, 5),
        to=st.integers(0, 5))),
    quick=350, thorough=5000,
    rule="the effect crosses time points or the cause has a parent",
)
def effects(d, ctx):
    d["measure"] = "pwling"
    rng, T, Xs = make(d)
    p, n, L = d["p"], d["n"], d["lags"]
    ft, tt = L + d["ft"] % (T - L), L + d["tt"] % (T - L)
    fr, to = d["fr"] % p, d["to"] % p
    if ft > tt:
        ft, tt = tt, ft
    if ft == tt and fr == to:
        ctx.reject()
    m = lingam.LongitudinalLiNGAM(n_lags=L).fit(Xs)
    A = np.asarray(m.adjacency_matrices_)
    order = [int(v) for v in m.causal_orders_[tt]]
    rev = ft == tt and order.index(fr) > order.index(to)
    W = long_expand(A, L)[ft * p:(tt + 1) * p, ft * p:(tt + 1) * p]
    want = np.linalg.inv(np.eye(len(W)) - W)[(tt - ft) * p + to, fr]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = m.estimate_total_effect2(ft, fr, tt, to)
    require(any("causal order" in str(x.message) for x in w) == rev, "warning", rev)
    require(abs(got - want) <= 1e-8 * (1 + abs(want)), "path effect", got, want, (ft, fr, tt, to))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = m.estimate_total_effect(Xs, ft, fr, tt, to)
    require(any("causal order" in str(x.message) for x in w) == rev, "warning", rev)
    cols = [Xs[ft][:, fr]]
    npar = 0
    for k in range(L + 1):
        for j in np.nonzero(A[ft, k][fr])[0]:
            cols.append(Xs[ft - k][:, j])
            npar += k == 0
    want = ref.ols(np.column_stack(cols), Xs[tt][:, to])[0][0]
    require(abs(got - want) <= 1e-6 * (1 + abs(want)), "regression effect", got, want,
            (ft, fr, tt, to))
    ctx.label(f"steps={tt - ft}")
    ctx.nontrivial(tt > ft or npar > 0)


@P.clause(
    "prior_knowledge", st.fixed_dictionaries({
        "seed": gen.SEED, "T": st.integers(2, 3), "p": st.integers(2, 3), "n": gen.size(60, 120, 1300),
        "lags": st.integers(1, 2),
        "cons": st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2), st.integers(0, 2),
                                   st.integers(0, 2), st.sampled_from([0, 0, 1])), min_size=1, max_size=6),
    }), quick=150, thorough=2500,
    rule="at least one constraint inside the estimated window",
)
def prior(d, ctx):
    d["loc"] = 0.0
    rng, T, Xs = make(d)
    p, n, L = d["p"], d["n"], d["lags"]
    pk = -np.ones((T, L + 1, p, p))
    used = 0
    for t, k, a, b, v in d["cons"]:
        t, k, a, b = t % T, k % (L + 1), a % p, b % p
        if t >= k and (k > 0 or a != b):
            if v == 1 and k == 0 and not a < b:
                continue  # required contemporaneous paths only upwards: never contradictory
            if v == 0 and k == 0 and a > b:
                pk[t, k, b, a] = 0
                used += t >= L
            elif v == 1 or k > 0:
                pk[t, k, b, a] = v
                used += t >= L
    keep = pk.copy()
    m = lingam.LongitudinalLiNGAM(n_lags=L, prior_knowledge=pk).fit(Xs)
    require(np.array_equal(pk, keep), "prior knowledge modified")
    A = np.asarray(m.adjacency_matrices_)
    require(A.shape == (T, L + 1, p, p), "shape", A.shape)
    require(len(m.causal_orders_) == T, "one order per time point")
    full = np.hstack(Xs)
    for t in range(T):
        if t < L:
            require(np.isnan(A[t]).all(), "time points without estimates")
            continue
        require(np.isfinite(A[t]).all(), "estimates are finite")
        order = [int(v) for v in m.causal_orders_[t]]
        ref.check_dag(A[t, 0], order, p, f"time {t}")
        for k in range(L + 1):
            for b in range(p):
                for a in range(p):
                    if k == 0 and a == b:
                        continue
                    v = pk[t, k, b, a]
                    if v == 0:
                        require(A[t, k, b, a] == 0, f"forbidden effect x{a}({t - k}) -> x{b}({t})")
                    if k == 0 and (v == 1 or (pk[t, 0, a, b] == 0 and v != 0)):
                        require(order.index(a) < order.index(b), "required order", order)
        # coefficients: least squares on the kept parents of the stacked data
        for b in range(p):
            par = [(t - k) * p + a for k in range(L + 1) for a in np.nonzero(A[t, k][b])[0]]
            if par:
                c, _ = ref.ols(full[:, par], full[:, t * p + b])
                got = np.array([A[t, k][b, a] for k in range(L + 1)
                                for a in np.nonzero(A[t, k][b])[0]])
                require(np.allclose(got, c, atol=1e-6, rtol=1e-5), f"coefficients of x{b}({t})",
                        got, c)
    ctx.label(f"used={min(used, 3)}")
    ctx.nontrivial(used > 0)


@P.clause(
    "truth", st.fixed_dictionaries({
        "seed": gen.SEED, "T": st.integers(2, 4), "p": st.integers(2, 3), "lags": st.integers(1, 2),
    }), quick=25, thorough=400,
    rule="some generating contemporaneous graph has an edge",
)
def truth(d, ctx):
    rng = np.random.default_rng(d["seed"])
    T, p, L, n = max(d["T"], d["lags"] + 1), d["p"], d["lags"], 4000
    Xs, Bs, Cs = [], [], []
    for t in range(T):
        B, order = gen.random_dag(rng, p, 0.7, 0.6, 1.0)
        B = np.abs(B)
        e = rng.uniform(-1.7, 1.7, (n, p))
        C = [rng.uniform(-0.8, 0.8, (p, p)) for _ in range(L)]
        for k in range(L):
            if t - 1 - k >= 0:
                e = e + Xs[t - 1 - k] @ C[k].T
        Xs.append(e @ np.linalg.inv(np.eye(p) - B).T)
        Bs.append(B)
        Cs.append(C)
    m = lingam.LongitudinalLiNGAM(n_lags=L).fit(Xs)
    A = np.asarray(m.adjacency_matrices_)
    for t in range(L, T):
        Z = np.hstack([Xs[t - 1 - k] for k in range(L)])
        N = np.column_stack([ref.ols_resid(Z, Xs[t][:, i]) for i in range(p)])
        ro, margin = ref.pw_order([N])
        pos = {v: k for k, v in enumerate(ro)}
        if margin < 1e-9 or any(pos[f] > pos[q] for f, q in ref.edges(Bs[t])):
            ctx.reject("sample not decisive")
        require(np.max(np.abs(A[t, 0] - Bs[t])) < 0.15, f"contemporaneous, time {t}", A[t, 0], Bs[t])
        for k in range(L):
            require(np.max(np.abs(A[t, k + 1] - Cs[t][k])) < 0.25, f"lag {k + 1}, time {t}",
                    A[t, k + 1], Cs[t][k])
    ctx.nontrivial(any(B.any() for B in Bs[L:]))
