"""C04: connection strengths are least squares on adaptively selected causes."""
import numpy as np
import lingam
from hypothesis import strategies as st
from lingam.utils import predict_adaptive_lasso

import gen
import ref
from core import Property, require

P = Property("C04", boost=4)


def check_rows(X, order, B, pk=None, ctx=None, what=""):
    """Every row of B against the reference; returns (edges, pruned)."""
    order = [int(v) for v in order]
    n_edges = n_pruned = 0
    for k, target in enumerate(order):
        preds = order[:k]
        if pk is not None:
            preds = [q for q in preds if pk[target, q] != 0]
        row = np.asarray(B[target], float)
        others = [j for j in range(len(order)) if j not in preds]
        require(np.all(row[others] == 0), f"{what}: edge from a non-predecessor", row, order)
        if not preds:
            continue
        kept = [q for q in preds if row[q] != 0]
        want = ref.adaptive_lasso(X, preds, target)
        if set(kept) != set(want):
            if ref.selection_margin(X, preds, target, kept) < 1e-6:
                ctx.label("near_tie")
                continue
            require(False, f"{what}: causes of x{target}", sorted(kept), sorted(want), order)
        if kept:
            c, _ = ref.ols(X[:, kept], X[:, target])
            scale = 1 + np.abs(c).max()
            require(np.allclose(row[kept], c, atol=1e-6 * scale, rtol=1e-6),
                    f"{what}: strengths into x{target}", row[kept], c)
        n_edges += len(kept)
        n_pruned += len(preds) - len(kept)
    return n_edges, n_pruned


@P.clause(
    "fitted_rows",
    gen.data_spec(pmin=2, pmax=6, nmin=30, nmax=300, pwide=12, nlong=3000,
                  model=st.sampled_from(["direct", "direct", "multi", "ica", "highdim"]),
                  pk=st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)), max_size=3)),
    quick=900, thorough=15000,
    rule="at least one edge kept and one candidate pruned",
)
def fitted_rows(d, ctx):
    X, *_ = gen.make_data(d)
    p = d["p"]
    kind = d["model"]
    ctx.label(kind)
    pk = None
    if d["pk"] and kind in ("direct", "multi"):
        pk = -np.ones((p, p), int)
        for a, b in d["pk"]:
            if a < b < p:
                pk[a, b] = 0      # no path b -> a: a is placed before b
            elif b < a < p:       # neither direction: only the edge is excluded
                pk[a, b] = pk[b, a] = 0
        ctx.label("pk")
    if kind == "multi":
        Xs = [X, gen.make_data(d, n=50, seed_shift=2)[0]]
        m = lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk).fit(Xs)
        pairs = list(zip(Xs, m.adjacency_matrices_))
    else:
        m = {"direct": lambda: lingam.DirectLiNGAM(prior_knowledge=pk),
             "ica": lambda: lingam.ICALiNGAM(random_state=3),
             "highdim": lambda: lingam.HighDimDirectLiNGAM()}[kind]()
        m.fit(X)
        pairs = [(X, m.adjacency_matrix_)]
    e = q = 0
    for Xi, B in pairs:
        a, b = check_rows(Xi, m.causal_order_, B, pk, ctx, kind)
        e += a
        q += b
    ctx.label("edges" if e else "no_edges", "pruned" if q else "none_pruned")
    ctx.nontrivial(e > 0 and q > 0)


@P.clause(
    "adaptive_lasso",
    gen.data_spec(pmin=2, pmax=7, nmin=30, nmax=300, pwide=14, nlong=3000, target=st.integers(0, 6),
                  skew=st.sampled_from([0, 0, 0, 1, 2, 3]), drop=st.lists(st.integers(0, 6), max_size=3), shuffle=st.integers(0, 1000)),
    quick=900, thorough=15000,
    rule="at least two candidate predictors",
)
def adaptive(d, ctx):
    X, *_ = gen.make_data(d)
    p = d["p"]
    t = d["target"] % p
    if d["skew"]:
        # parents of very different strength
        rng = np.random.default_rng([d["seed"], 5])
        w = 10 ** rng.uniform(-d["skew"], 0.5, p) * rng.choice([-1, 1], p) * (rng.random(p) < 0.8)
        w[t] = 0
        X[:, t] = X @ w + 10 ** -float(d["skew"]) * X.std() * rng.uniform(-1, 1, len(X))
        ctx.label("skew")
    preds = [i for i in range(p) if i != t and i not in d["drop"]]
    if not preds:
        ctx.reject()
    preds = [int(v) for v in np.random.default_rng(d["shuffle"]).permutation(preds)]
    Xc = X.copy()
    got = np.asarray(predict_adaptive_lasso(X, preds, t))
    require(np.array_equal(X, Xc), "input modified")
    require(got.shape == (len(preds),), "shape", got.shape)
    want = ref.pruned_coefs(X, preds, t)
    if set(np.nonzero(got)[0]) != set(np.nonzero(want)[0]):
        if ref.selection_margin(X, preds, t, None) < 1e-6:
            ctx.reject("near tie")
        require(False, "selected predictors", got, want)
    require(np.allclose(got, want, rtol=1e-6, atol=1e-6 * (1 + np.abs(want).max())),
            "coefficients", got, want)
    ctx.nontrivial(len(preds) > 1)
