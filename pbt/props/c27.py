"""C27: the high-dimensional estimator picks roots by the published moment statistic."""
import itertools
import warnings

import numpy as np
import lingam
from hypothesis import strategies as st
from sklearn.linear_model import LassoLarsCV, LinearRegression

import gen
from core import Property, require

P = Property("C27", boost=2)


def tau(r, u, K):
    """Moment statistic; zero in the population if r is independent of the rest of u."""
    return abs(np.mean(r ** (K - 1) * u) * np.mean(r ** 2) - np.mean(r ** K) * np.mean(r * u))


def follow(X, order, J, K, alpha):
    """Check an order step by step; returns the number of decisive steps."""
    Y = X - X.mean(axis=0)
    n, p = Y.shape
    stat = np.full((p, p), np.inf)
    done, left, cut, decisive = [], list(range(p)), 0.0, 0
    while len(left) > 1:
        for v in left:
            others = [u for u in left if u != v]
            if not done:
                for u in others:
                    stat[v, u] = tau(Y[:, v], Y[:, u], K)
                continue
            last = done[-1]
            pool = []
            for u in done[:-1]:
                if abs(stat[v, u] - cut) <= 1e-7 * max(cut, 1e-300) and cut > 0:
                    return decisive, "tie"
                if stat[v, u] > cut:
                    pool.append(u)
            for sub in itertools.combinations(pool, min(J - 1, len(pool))):
                C = [last, *sub]
                b = np.linalg.lstsq(Y[:, C], Y[:, v], rcond=None)[0]
                r = Y[:, v] - Y[:, C] @ b
                for u in others + [last] + [a for a in pool if a not in sub]:
                    stat[v, u] = min(stat[v, u], tau(r, Y[:, u], K))
        worst = {v: max(stat[v, u] for u in left if u != v) for v in left}
        best = min(worst.values())
        r = order[len(done)]
        require(r in left, "order is a permutation", order)
        floor = 1e-9 * max(worst.values())
        require(worst[r] <= best * (1 + 1e-6) + floor, "the chosen root has the smallest statistic",
                r, worst, done)
        if sum(w <= best * (1 + 1e-6) + floor for w in worst.values()) > 1:
            return decisive, "tie"
        decisive += 1
        cut = max(cut, best * alpha)
        done.append(r)
        left.remove(r)
    return decisive, "full"


@P.clause("order", gen.data_spec(pmin=2, pmax=8, nmin=40, nmax=250, noises=["uniform", "laplace", "exp", "bimodal", "gauss"],
                                 J=st.sampled_from([3, 3, 4, 5]), K=st.sampled_from([4, 3, 4, 5]),
                                 alpha=st.sampled_from([0.5, 0.0, 0.1, 0.9, 1.0]),
                                 q=st.sampled_from([4, 3, 5, 6, 7, 8, 2]), box=st.sampled_from(["array", "list", "int"])),
          quick=300, thorough=6000, rule="every step is decided and conditioning sets exceed J, or at least four variables")
def order(d, ctx):
    d = dict(d, p=d["q"], scale=1.0)
    X, *_ = gen.make_data(d)
    if d["box"] == "int":
        X = np.round(X * 20)
    if np.linalg.matrix_rank(X - X.mean(axis=0)) < d["p"] or np.linalg.cond(np.corrcoef(X.T)) > 1e5:
        ctx.reject("collinear")
    arg = X.tolist() if d["box"] == "list" else X.astype(int) if d["box"] == "int" else X
    keep = X.copy()
    m = lingam.HighDimDirectLiNGAM(J=d["J"], K=d["K"], alpha=d["alpha"], estimate_adj_mat=False)
    require(m.fit(arg) is m, "fit returns the model")
    require(np.array_equal(X, keep), "the data were modified")
    o = [int(v) for v in m.causal_order_]
    require(sorted(o) == list(range(d["p"])), "permutation", o)
    steps, why = follow(X, o, d["J"], d["K"], d["alpha"])
    full = lingam.HighDimDirectLiNGAM(J=d["J"], K=d["K"], alpha=d["alpha"])
    full.fit(arg)
    require([int(v) for v in full.causal_order_] == o, "skipping the matrix does not change the order")
    ctx.label(why, f"p={d['p']}", f"J={d['J']}")
    ctx.nontrivial(why == "full" and d["p"] >= 4)


@P.clause("location", gen.data_spec(pmin=2, pmax=5, nmin=60, nmax=250, noises=["uniform", "laplace", "exp"],
                                    shift=st.sampled_from([1.0, -20.0, 300.0])),
          quick=120, thorough=2000, rule="every case")
def location(d, ctx):
    X, B, o, rng = gen.make_data(dict(d, scale=1.0, loc=0.0))
    a = lingam.HighDimDirectLiNGAM().fit(X)
    Z = X + d["shift"] * rng.uniform(0.5, 1.5, d["p"])
    b = lingam.HighDimDirectLiNGAM().fit(Z)
    steps, why = follow(X, [int(v) for v in a.causal_order_], 3, 4, 0.5)
    if why != "full":
        ctx.reject("tie")
    if list(a.causal_order_) != list(b.causal_order_):
        # rounding may decide a near tie; the shifted order must then be optimal as well
        follow(X, [int(v) for v in b.causal_order_], 3, 4, 0.5)
        ctx.reject("near tie")
    ctx.nontrivial()


@P.clause("wide", st.fixed_dictionaries({"seed": gen.SEED, "n": st.integers(8, 14), "extra": st.integers(0, 3)}),
          quick=40, thorough=400, rule="a selection that does not hinge on rounding is compared")
def wide(d, ctx):
    """n_samples <= n_features: selection by cross-validated lasso, refitted by least squares."""
    rng = np.random.default_rng(d["seed"])
    n = d["n"]
    p = n + d["extra"]
    B, o = gen.random_dag(rng, p, 1.5 / p, 0.8, 1.5)
    X, _ = gen.sem(rng, B, o, n, "uniform")
    m = lingam.HighDimDirectLiNGAM(J=3, K=4, alpha=0.5)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(X)
        A = np.asarray(m.adjacency_matrix_)
        order = [int(v) for v in m.causal_order_]
        require(A.shape == (p, p) and np.isfinite(A).all(), "matrix")
        noise = rng.normal(size=X.shape)
        judged = 0
        S = (X - X.mean(axis=0)) / X.std(axis=0)
        for k, t in enumerate(order):
            pre = order[:k]
            rest = [j for j in range(p) if j not in pre]
            require(not A[t, rest].any(), "a parent that does not precede", t, A[t], order)
            if not pre:
                continue
            sets = []
            for eps in (0.0, 1e-12, 1e-10, 1e-9, 1e-8):
                Q = S + eps * noise
                w = np.abs(LinearRegression().fit(Q[:, pre], Q[:, t]).coef_)
                reg = LassoLarsCV().fit(Q[:, pre] * w, Q[:, t])
                c = np.abs(reg.coef_ * w)
                sets.append([j for j, v in zip(pre, c) if v > 0])
                if c[c > 0].min(initial=1) < 1e-7:
                    sets.append(None)
            sel = sets[0]
            if any(v != sel for v in sets) or len(sel) >= n - 1:
                continue            # the selection is decided by rounding
            judged += bool(sel)
            got = sorted(j for j in range(p) if A[t, j] != 0)
            # the chosen penalty is a kink of the path, where one more coefficient is zero up to rounding
            require(len(set(got) ^ set(sel)) <= 1, "selected parents", t, got, sel)
            sel = got
            if sel:
                want = np.linalg.lstsq(X[:, sel] - X[:, sel].mean(axis=0), X[:, t] - X[:, t].mean(), rcond=None)[0]
                require(np.allclose(A[t, sel], want, rtol=1e-5, atol=1e-6 * (1 + np.abs(want).max())),
                        "least-squares refit", A[t, sel], want)
    ctx.nontrivial(judged > 0)
