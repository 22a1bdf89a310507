"""C01: every estimator returns a consistent DAG."""
import numpy as np
import lingam
from hypothesis import strategies as st
from sklearn.linear_model import LinearRegression

import gen
import ref
from core import Property, require

P = Property("C01", boost=4)

MODELS = ["direct", "direct_kernel", "ica", "multigroup", "highdim", "resit", "bottomup"]


def edges_label(ctx, B):
    k = len(ref.edges(B))
    ctx.label("edges=" + ("0" if k == 0 else "1-2" if k < 3 else "3+"))
    return k


@P.clause(
    "estimators",
    gen.data_spec(pmin=2, pmax=6, nmin=20, nmax=150, pwide=12, nlong=1500, model=st.sampled_from(MODELS),
                  noises=["uniform", "laplace", "exp", "bimodal", "cubic", "gauss"]),
    quick=420, thorough=6000,
    rule="the fitted graph has at least one edge",
)
def estimators(d, ctx):
    kind = d["model"]
    ctx.label(kind)
    if kind == "resit":
        d["p"] = min(d["p"], 4 if d["seed"] % 3 else 6)
        d["n"] = min(d["n"], 80)
    if kind == "direct_kernel":
        d["p"] = min(d["p"], 4)
        d["n"] = min(d["n"], 60)
    if kind == "bottomup":
        d["p"] = min(d["p"], 4 if d["seed"] % 3 else 6)
        d["n"] = min(d["n"], 80)
    X, B, order, rng = gen.make_data(d)
    p = d["p"]
    if kind == "multigroup":
        X2, *_ = gen.make_data(d, n=max(20, d["n"] // 2), seed_shift=7)
        m = lingam.MultiGroupDirectLiNGAM()
        m.fit([X, X2])
        Bs = m.adjacency_matrices_
        require(len(Bs) == 2, "one matrix per dataset expected", len(Bs))
        for Bh in Bs:
            ref.check_dag(Bh, m.causal_order_, p, kind)
        ctx.nontrivial(edges_label(ctx, Bs[0]) > 0)
        return
    if kind == "direct":
        m = lingam.DirectLiNGAM()
    elif kind == "direct_kernel":
        m = lingam.DirectLiNGAM(measure="kernel")
    elif kind == "ica":
        m = lingam.ICALiNGAM(random_state=d["seed"] % 100)
    elif kind == "highdim":
        m = lingam.HighDimDirectLiNGAM()
    elif kind == "resit":
        m = lingam.RESIT(regressor=LinearRegression())
    else:
        m = lingam.BottomUpParceLiNGAM(alpha=0.0)
    r = m.fit(X)
    require(r is m, "fit must return the model")
    Bh = np.asarray(m.adjacency_matrix_)
    if kind == "resit":
        require(set(np.unique(Bh)) <= {0.0, 1.0}, "RESIT entries must be 0/1", Bh)
    ref.check_dag(Bh, m.causal_order_, p, kind)
    ctx.nontrivial(edges_label(ctx, Bh) > 0)


def spoil(X, kind, rng):
    n, p = X.shape
    j, k = rng.choice(p, 2, replace=False)
    if kind == "constant":
        X[:, j] = rng.choice([0.0, 5.0])
    elif kind == "duplicate":
        X[:, j] = X[:, k] * rng.choice([1, -1, 3])
    elif kind == "dependent":
        X[:, j] = X[:, [i for i in range(p) if i != j]] @ rng.choice([-1, 1, 2, 0.3], p - 1)
    elif kind == "integers":
        X = np.round(X * rng.choice([0.5, 1, 2]))
    elif kind == "binary":
        X = (X > np.median(X)).astype(int)
    elif kind == "few":
        X = X[:p + int(rng.integers(1, 4))]
    elif kind == "outlier":
        X[rng.integers(n), j] = rng.choice([1e6, -1e9, 1e12])
    elif kind == "repeated":
        X = X[rng.integers(0, max(p + 1, n // 3), n)]
    elif kind == "units":
        X = X * 10.0 ** rng.integers(-9, 9, p)
    elif kind == "sparse":
        X = X * (rng.random(X.shape) < 0.2)
    elif kind == "offset":
        X = X + 1e7
    return X


SPOILS = ["constant", "duplicate", "dependent", "integers", "binary", "few", "outlier", "repeated", "units", "sparse", "offset"]


@P.clause(
    "degenerate",
    gen.data_spec(pmin=2, pmax=5, nmin=20, nmax=80, model=st.sampled_from(MODELS + ["direct", "ica", "multigroup"]),
                  noises=["uniform", "laplace", "exp", "gauss"],
                  how=st.lists(st.sampled_from(SPOILS), min_size=1, max_size=2, unique=True)),
    quick=300, thorough=5000,
    rule="the data set was accepted and the graph has an edge",
)
def degenerate(d, ctx):
    """Awkward data: either refused with an exception or fitted to a consistent graph."""
    kind = d["model"]
    if kind in ("resit", "direct_kernel", "bottomup"):
        d["p"], d["n"] = min(d["p"], 3), min(d["n"], 45)
    X, B, order, rng = gen.make_data(d)
    p = d["p"]
    for h in d["how"]:
        X = spoil(X, h, rng)
    ctx.label(kind, *d["how"])
    m = {"direct": lambda: lingam.DirectLiNGAM(), "direct_kernel": lambda: lingam.DirectLiNGAM(measure="kernel"),
         "ica": lambda: lingam.ICALiNGAM(random_state=1), "highdim": lambda: lingam.HighDimDirectLiNGAM(),
         "resit": lambda: lingam.RESIT(regressor=LinearRegression()), "multigroup": lambda: lingam.MultiGroupDirectLiNGAM(),
         "bottomup": lambda: lingam.BottomUpParceLiNGAM(alpha=0.0)}[kind]()
    try:
        with np.errstate(all="ignore"):
            m.fit([X, gen.make_data(d, seed_shift=7)[0]] if kind == "multigroup" else X)
    except Exception as e:
        ctx.label("refused:" + type(e).__name__)
        return
    Bs = m.adjacency_matrices_ if kind == "multigroup" else [m.adjacency_matrix_]
    for Bh in Bs:
        ref.check_dag(Bh, m.causal_order_, p, kind)
    ctx.nontrivial(edges_label(ctx, Bs[0]) > 0)


@P.clause(
    "timeseries",
    st.fixed_dictionaries({
        "seed": gen.SEED, "p": st.sampled_from([2, 3, 4] * 5 + [7]), "n": st.integers(60, 200),
        "lags": st.sampled_from([1, 2] * 6 + [4]), "prune": st.booleans(),
        "kind": st.sampled_from(["var", "var", "long"]),
        "T": st.sampled_from([3, 4] * 6 + [7]), "pk": st.sampled_from(["none", "free", "some"]),
        "criterion": st.sampled_from([None, None, "bic", "aic"]),
        "model": st.sampled_from([None, None, "ica", "kernel"]),
    }),
    quick=84, thorough=1200,
    rule="the instantaneous graph has at least one edge",
)
def timeseries(d, ctx):
    rng = np.random.default_rng(d["seed"])
    p = d["p"]
    ctx.label(d["kind"], f"prune={d['prune']}")
    if d["kind"] == "var":
        B0, order = gen.random_dag(rng, p, 0.6)
        A = [rng.uniform(-0.3, 0.3, (p, p)) / (k + 1) for k in range(d["lags"])]
        n = d["n"] + 50
        X = np.zeros((n, p))
        inv = np.linalg.inv(np.eye(p) - B0)
        E = np.column_stack([gen.noise(rng, "uniform", n, j) for j in range(p)])
        size = sum(np.linalg.norm(inv @ a, 2) for a in A)
        for t in range(d["lags"], n):
            v = E[t].copy()
            for k, a in enumerate(A):
                v = v + a @ X[t - k - 1] * min(0.5, 0.9 / size)
            X[t] = inv @ v
        X = X[50:]
        est = {None: None, "ica": lingam.ICALiNGAM(random_state=0),
               "kernel": lingam.DirectLiNGAM(measure="kernel")}[d["model"] if p < 4 else None]
        m = lingam.VARLiNGAM(lags=d["lags"], criterion=d["criterion"], prune=d["prune"], lingam_model=est)
        m.fit(X)
        Bs = m.adjacency_matrices_
        ctx.label(f"model={d['model']}", f"criterion={d['criterion']}")
        require(np.isfinite(Bs).all(), "not finite")
        require(Bs.shape[1:] == (p, p) and 1 <= len(Bs) <= d["lags"] + 1, "shape", Bs.shape)
        require(d["criterion"] or len(Bs) == d["lags"] + 1, "number of lags", Bs.shape)
        ref.check_dag(Bs[0], m.causal_order_, p, "VARLiNGAM B0")
        ctx.nontrivial(edges_label(ctx, Bs[0]) > 0)
    else:
        T, n = d["T"], d["n"]
        Xs = []
        prev = None
        B0, order = gen.random_dag(rng, p, 0.6)
        inv = np.linalg.inv(np.eye(p) - B0)
        for t in range(T):
            e = np.column_stack([gen.noise(rng, "uniform", n, j) for j in range(p)])
            if prev is not None:
                e = e + prev @ rng.uniform(-0.4, 0.4, (p, p))
            prev = e @ inv.T
            Xs.append(prev)
        L = min(d["lags"], T - 1)
        pk = None
        if d["pk"] != "none":
            pk = np.full((T, L + 1, p, p), -1.0)
        if d["pk"] == "some":
            reach = np.linalg.inv(np.eye(p) - (B0 != 0)).round() > 0
            for t in range(T):
                for i in range(p):
                    for j in range(p):
                        u = rng.random()
                        if u < 0.15:
                            pk[t, 0, i, j] = 1 if reach[i, j] and i != j else -1 if order.index(j) < order.index(i) else 0
                        if u < 0.1 and t > 0:
                            pk[t, 1, i, j] = rng.integers(2)
        m = lingam.LongitudinalLiNGAM(n_lags=L, prior_knowledge=pk)
        m.fit(Xs)
        ctx.label("pk=" + d["pk"], f"long lags={L}")
        Bs = np.asarray(m.adjacency_matrices_)
        orders = m.causal_orders_
        require(Bs.shape == (T, L + 1, p, p), "shape", Bs.shape)
        tot = 0
        for t in range(L, T):
            ref.check_dag(Bs[t, 0], orders[t], p, f"Longitudinal B({t},{t})")
            require(np.isfinite(Bs[t, 1:]).all(), "lagged effects not finite")
            tot += len(ref.edges(Bs[t, 0]))
        ctx.nontrivial(tot > 0)
