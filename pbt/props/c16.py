"""C16: the bottom-up estimator removes the most independent sink until a test rejects."""
import numpy as np
import lingam
from hypothesis import strategies as st
from scipy.stats import chi2
from sklearn.linear_model import LinearRegression
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import PolynomialFeatures

import gen
import ref
import ref_ind
from core import Property, require
from props.c04 import check_rows

P = Property("C16", boost=2)


def regressor(kind):
    return {"none": lambda: None, "ols": LinearRegression,
            "poly": lambda: make_pipeline(PolynomialFeatures(2), LinearRegression())}[kind]()


def residual(X, preds, t, reg):
    r = regressor("ols" if reg == "none" else reg)
    r.fit(X[:, preds], X[:, t])
    return X[:, t] - r.predict(X[:, preds])


def search(X, alpha, reg, ind, ind_corr, pk):
    """Reference search: (bottom of the order, unordered rest, margin)."""
    p = X.shape[1]
    X = X - X.mean(axis=0)
    U = list(range(p))
    bottom, margin = [], np.inf
    while len(U) > 1:
        cand = [i for i in U if pk is None or not any(ref.must_precede(pk, i, j) for j in U if j != i)]
        score = []
        for i in cand:
            rest = [u for u in U if u != i]
            R = residual(X, rest, i, reg)
            if ind == "fcorr":
                f = max(ref_ind.fcorr(X[:, j], R) for j in rest)
                score.append((f, -f, i))
            elif len(rest) == 1:
                s, q = ref.hsic_ref(X[:, rest[0]], R)
                score.append((s, q, i))
            else:
                ps = [ref.hsic_ref(X[:, j], R)[1] for j in rest]
                with np.errstate(divide="ignore"):
                    s = -2 * np.sum(np.log(ps))
                score.append((s, float(chi2.sf(s, 2 * len(rest))), i))
        score.sort()
        if len(score) > 1:
            if not np.isfinite(score[0][0]):
                return bottom, U, 0.0
            margin = min(margin, (score[1][0] - score[0][0]) / (1e-3 + abs(score[0][0])))
        _, q, i = score[0]
        if ind == "fcorr":
            margin = min(margin, abs(-q - ind_corr))
            rejected = -q >= ind_corr
        else:
            thr = alpha / (p - 1)
            if thr > 0:
                margin = min(margin, abs(q - thr) / thr)
            rejected = q < thr
        if rejected:
            return bottom, U, margin
        bottom.insert(0, i)
        U.remove(i)
    return U + bottom, [], margin


@st.composite
def spec(draw):
    p = draw(st.sampled_from([3, 4, 2, 5] * 6 + [7]))
    d = {
        "seed": draw(gen.SEED), "p": p, "n": draw(gen.size(50, 130, 500, 30)),
        "noise": draw(st.sampled_from(["uniform", "exp", "laplace", "mixed", "gauss"])),
        "density": draw(st.sampled_from([0.7, 0.3, 1.0])), "latent": draw(st.integers(0, 2)),
        "alpha": draw(st.sampled_from([0.1, 0.5, 0.01, 0.0, 0.9])),
        "reg": draw(st.sampled_from(["none", "none", "ols", "poly"])),
        "ind": draw(st.sampled_from(["hsic", "hsic", "fcorr"])),
        "ind_corr": draw(st.sampled_from([0.5, 0.35, 0.7])),
        "scale": draw(st.sampled_from([1.0, 30.0])), "loc": draw(st.sampled_from([0.0, 5.0])),
        "pk": [], "bend": [],
    }
    if draw(st.integers(0, 3)) == 0:
        # nonlinear dependence: p-values far below any rounding floor
        d["bend"] = draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4),
                                            st.sampled_from([0, 1])), min_size=1, max_size=3))
        d["n"] = draw(st.integers(120, 220))
        d["alpha"] = draw(st.sampled_from([0.0, 0.0, 1e-12, 0.1]))
    if draw(st.booleans()):
        d["pk"] = draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4),
                                          st.sampled_from([0, 0, 1])), max_size=4))
        d["sink"] = draw(st.sampled_from([0, 0, 1, 2]))
    return d


def make(d):
    rng = np.random.default_rng(d["seed"])
    p, n = d["p"], d["n"]
    B, order = gen.random_dag(rng, p, d["density"])
    E = np.column_stack([gen.noise(rng, d["noise"], n, j) for j in range(p)])
    for k in range(d["latent"]):
        f = gen.noise(rng, "exp", n)
        for i in rng.choice(p, 2, replace=False):
            E[:, i] += rng.uniform(0.8, 1.5) * f
    X = np.zeros((n, p))
    for i in order:
        X[:, i] = E[:, i] + X @ B[i]
    for a, b, k in d.get("bend", []):
        a, b = a % p, b % p
        if a != b:
            X[:, a] *= (0.3 if k > 1 else 0.0) + (X[:, b] ** 2 if k % 2 else np.abs(X[:, b]))
            X[:, a] /= X[:, a].std()
    X = X * d["scale"] + d["loc"]
    pk = None
    if d["pk"] or d.get("sink"):
        pk = -np.ones((p, p))
        pos = {v: k for k, v in enumerate(rng.permutation(p))}
        for a, b, v in d["pk"]:
            a, b = a % p, b % p
            if a == b:
                continue
            if pos[a] < pos[b]:
                if v == 1:
                    pk[b, a] = 1      # a -> b
                else:
                    pk[a, b] = 0      # no b -> a
            elif v == 0 and pk[b, a] != 1 and pk[a, b] != 1:
                pk[a, b] = pk[b, a] = 0
        last = max(pos, key=pos.get)
        if d.get("sink"):             # one variable is known to come last
            for a in range(p):
                if a != last:
                    pk[(last, a) if d["sink"] == 1 else (a, last)] = 1 if d["sink"] == 1 else 0
    return X, pk


@st.composite
def bent(draw):
    """Every variable depends on the others nonlinearly: p-values far below any rounding floor."""
    p = draw(st.integers(3, 4))
    return {
        "seed": draw(gen.SEED), "p": p, "n": draw(st.integers(150, 300)),
        "noise": draw(st.sampled_from(["uniform", "exp", "laplace"])), "density": draw(st.sampled_from([0.3, 0.7])),
        "latent": 0, "alpha": draw(st.sampled_from([0.0, 0.0, 0.0, 1e-10])), "reg": "none", "ind": "hsic",
        "ind_corr": 0.5, "scale": 1.0, "loc": 0.0, "pk": [],
        "bend": [(a, (a + 1 + draw(st.integers(0, p - 2))) % p, draw(st.sampled_from([2, 3]))) for a in range(p)],
    }


@P.clause("dependent", bent(), quick=60, thorough=1200,
          rule="at least one variable is placed and there are three or more")
def dependent(d, ctx):
    bottom_up(d, ctx)


@P.clause("search", spec(), quick=250, thorough=5000,
          rule="at least one variable is placed and there are three or more")
def bottom_up(d, ctx):
    X, pk = make(d)
    p = d["p"]
    kw = dict(alpha=d["alpha"], regressor=regressor(d["reg"]), independence=d["ind"],
              ind_corr=d["ind_corr"], prior_knowledge=pk)
    m = lingam.BottomUpParceLiNGAM(**kw)
    require(m.fit(X) is m, "fit returns the model")
    got = list(m.causal_order_)
    B = np.asarray(m.adjacency_matrix_)
    # structural facts
    group = []
    if hasattr(got[0], "__iter__"):
        group = sorted(int(v) for v in got[0])
        require(len(group) > 1, "an unordered group of one", got)
        got = got[1:]
    require(not any(hasattr(v, "__iter__") for v in got), "only the top is unordered", got)
    got = [int(v) for v in got]
    require(sorted(group + got) == list(range(p)), "order is no partition", m.causal_order_)
    for i in range(p):
        for j in range(p):
            require(np.isnan(B[i, j]) == (i != j and i in group and j in group),
                    "NaN exactly between unordered variables", B, m.causal_order_)
    full = group + got
    check_rows(X, full, np.where(np.isnan(B), 0.0, B), pk, ctx, "bottom-up") if not group else \
        rows(X, group, got, B, pk, ctx)
    if d["alpha"] == 0 and d["ind"] == "hsic":
        require(not group, "alpha = 0 never rejects", m.causal_order_)
    # the search itself
    bottom, rest, margin = search(X, d["alpha"], d["reg"], d["ind"], d["ind_corr"], pk)
    if margin < 1e-4:
        ctx.reject("nearly tied")
    require(got == bottom and group == sorted(rest), "causal order", m.causal_order_, rest, bottom)
    ctx.label(f"group={len(group)}", d["ind"], d["reg"], "pk" if pk is not None else "no_pk",
              "bend" if d.get("bend") else "linear")
    ctx.nontrivial(len(got) > 0 and p > 2)


def rows(X, group, got, B, pk, ctx):
    """Rows of the ordered variables when the top of the order is unordered."""
    for k, t in enumerate(got):
        preds = group + got[:k]
        if pk is not None:
            preds = [q for q in preds if pk[t, q] != 0]
        others = [j for j in range(len(B)) if j not in preds]
        require(np.all(B[t, others] == 0), "edge from a non-predecessor", B)
        if not preds:
            continue
        want = ref.pruned_coefs(X, preds, t)
        row = B[t, preds]
        if set(np.nonzero(row)[0]) != set(np.nonzero(want)[0]):
            if ref.selection_margin(X, preds, t, None) < 1e-6:
                continue
            require(False, f"causes of x{t}", row, want)
        require(np.allclose(row, want, rtol=1e-6, atol=1e-6 * (1 + np.abs(want).max())),
                f"strengths into x{t}", row, want)
    for t in group:
        require(np.all(np.nan_to_num(B[t]) == 0), "an unordered variable has no causes", B)


@P.clause("error_p_values", spec(), quick=60, thorough=1000, rule="some pair has a p-value")
def pvalues(d, ctx):
    X, pk = make(d)
    m = lingam.BottomUpParceLiNGAM(alpha=d["alpha"], independence=d["ind"],
                                   ind_corr=d["ind_corr"], prior_knowledge=pk).fit(X)
    B = np.asarray(m.adjacency_matrix_)
    pv = np.asarray(m.get_error_independence_p_values(X))
    p = d["p"]
    bad = np.isnan(B).any(axis=0)
    E = X - X @ np.nan_to_num(B).T
    require(pv.shape == (p, p), "shape")
    for i in range(p):
        for j in range(p):
            if i == j:
                require(pv[i, j] == 0, "diagonal")
            elif bad[i] or bad[j]:
                require(np.isnan(pv[i, j]), "p-value of an unordered variable", pv, B)
            else:
                q = ref.hsic_ref(E[:, i], E[:, j])[1]
                require(abs(pv[i, j] - q) <= 1e-6 + 1e-3 * q, "p-value", pv[i, j], q)
                ctx.nontrivial()
    ctx.label("nan" if bad.any() else "all")


@P.clause("truth", st.fixed_dictionaries({
    "seed": gen.SEED, "p": st.integers(2, 4), "noise": st.sampled_from(["uniform", "exp", "bimodal"])}),
    quick=16, thorough=300, rule="the generating graph has an edge")
def truth(d, ctx):
    """Without hidden causes, large decisive samples recover the generating model."""
    rng = np.random.default_rng(d["seed"])
    p = d["p"]
    B, order = gen.random_dag(rng, p, 0.8, 0.6, 1.2)
    X, _ = gen.sem(rng, B, order, 500, d["noise"])
    bottom, rest, margin = search(X, 0.0, "none", "hsic", 0.5, None)
    pos = {v: k for k, v in enumerate(bottom)}
    if rest or margin < 1e-3 or any(pos[f] > pos[t] for f, t in ref.edges(B)):
        ctx.reject("sample not decisive")
    m = lingam.BottomUpParceLiNGAM(alpha=0.0).fit(X)
    require(np.max(np.abs(m.adjacency_matrix_ - B)) < 0.5, "generating model", m.adjacency_matrix_, B)
    ctx.nontrivial(bool(B.any()))


@P.clause("underflow", st.fixed_dictionaries({
    "seed": gen.SEED, "n": st.integers(2600, 3200), "clusters": st.sampled_from([5, 5, 7, 0]),
    "alpha": st.sampled_from([0.1, 0.01, 0.5]), "extra": st.booleans()}),
    quick=4, thorough=60, rule="every candidate is dependent beyond any doubt")
def underflow(d, ctx):
    """However extreme the dependence (p-values of exactly 0), it is a rejection."""
    rng = np.random.default_rng(d["seed"])
    n = d["n"]
    k = d["clusters"]
    th = 2 * np.pi * rng.integers(0, k, n) / k if k else rng.uniform(0, 2 * np.pi, n)
    X = np.column_stack([np.cos(th), np.sin(th), np.cos(2 * th)])
    X = X @ (np.eye(3) + 0.25 * rng.normal(size=(3, 3))) + 0.02 * rng.normal(size=(n, 3))
    sub = X[:600]
    for i in range(3):
        rest = [u for u in range(3) if u != i]
        R = residual(sub, rest, i, "ols")
        if min(ref.hsic_ref(sub[:, j], R)[1] for j in rest) > 1e-25:
            ctx.reject("not decisive")
    if d["extra"]:
        # an effect of the dependent variables is placed last, the others stay together
        X = np.column_stack([X, X @ [1.0, -0.8, 0.6] + 0.3 * gen.noise(rng, "uniform", n)])
    m = lingam.BottomUpParceLiNGAM(alpha=d["alpha"]).fit(X)
    o = list(m.causal_order_)
    require(hasattr(o[0], "__iter__"), "dependent variables were ordered", o)
    require({0, 1, 2} <= {int(v) for v in o[0]}, "dependent variables were ordered", o)
    B = np.asarray(m.adjacency_matrix_)
    for i in range(3):
        for j in range(3):
            require(np.isnan(B[i, j]) == (i != j), "NaN between unordered variables", B)
    ctx.label(f"group={len(o[0])}")
    ctx.nontrivial()
