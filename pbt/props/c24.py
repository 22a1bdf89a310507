"""C24: bootstrap with imputation is an honest pipeline of resampling, imputing and fitting."""
import warnings

import numpy as np
import lingam
from hypothesis import strategies as st
from lingam.tools import BaseMultiGroupCDModel, BaseMultipleImputation, bootstrap_with_imputation

import gen
import ref
from core import Property, require

P = Property("C24", boost=2)


class Imp(BaseMultipleImputation):
    def __init__(self, repeats, log):
        self.repeats, self.log = repeats, log

    def fit_transform(self, X):
        self.log.append(("imp", np.array(X)))
        out = []
        for r in range(self.repeats):
            Z = np.array(X)
            Z[np.isnan(Z)] = 100 + r + 0.01 * len(self.log)
            out.append(Z)
        return out


class CD(BaseMultiGroupCDModel):
    def __init__(self, orders, mats, log):
        self.orders, self.mats, self.log, self.i = orders, mats, log, 0

    def before_imputation(self, X):
        self.log.append(("before", np.array(X)))

    def fit(self, X_list):
        self.log.append(("fit", [np.array(x) for x in X_list]))
        self.i += 1
        return self.orders[self.i - 1], self.mats[self.i - 1]


def missing(rng, X, share):
    X = X.copy()
    mask = rng.random(X.shape) < share
    mask[:4] = False
    X[mask] = np.nan
    return X


def eq(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)


@P.clause("pipeline", st.fixed_dictionaries({
    "seed": gen.SEED, "n": gen.size(3, 30, 1200), "p": gen.size(1, 4, 12), "k": gen.size(1, 5, 25),
    "repeats": st.integers(1, 4), "share": st.sampled_from([0.0, 0.2, 0.6]), "lists": st.booleans(),
    "rs": st.sampled_from(["int", "state"])}), quick=300, thorough=5000,
    rule="a value is missing and there are two or more bootstrap samples")
def pipeline(d, ctx):
    rng = np.random.default_rng(d["seed"])
    n, p, k, R = d["n"], d["p"], d["k"], d["repeats"]
    X = missing(rng, rng.normal(size=(n, p)), d["share"])
    orders = [list(map(int, rng.permutation(p))) for _ in range(k)]
    mats = [rng.normal(size=(R, p, p)) for _ in range(k)]
    log = []
    arg = X.tolist() if d["lists"] else X
    keep = X.copy()
    seed = int(rng.integers(1000))

    def run(log):
        rs = seed if d["rs"] == "int" else np.random.RandomState(seed)
        return bootstrap_with_imputation(arg, k, n_repeats=7, imp=Imp(R, log),
                                         cd_model=CD(orders, mats, log), random_state=rs)

    co, am, idx, res = run(log)
    idx = np.asarray(idx)
    require(idx.shape == (k, n) and idx.min() >= 0 and idx.max() < n, "resampled indices", idx)
    require([a for a, _ in log] == ["before", "imp", "fit"] * k, "sequence of calls", [a for a, _ in log])
    require(eq(co, orders), "causal orders", co, orders)
    require(eq(am, mats), "adjacency matrices")
    require(np.shape(res) == (k, R, n, p), "shape of the imputation results", np.shape(res))
    for i in range(k):
        want = X[idx[i]]
        require(eq(log[3 * i][1], want), "the model is shown the bootstrap sample before imputation")
        require(eq(log[3 * i + 1][1], want), "the imputation gets the bootstrap sample")
        fit = log[3 * i + 2][1]
        require(len(fit) == R, "number of imputed data sets", len(fit))
        for r in range(R):
            pos = np.isnan(want)
            full = want.copy()
            full[pos] = 100 + r + 0.01 * (3 * i + 2)
            require(eq(fit[r], full), "the model is fitted to the imputed data set")
            expect = np.full((n, p), np.nan)
            expect[pos] = full[pos]
            require(eq(res[i][r], expect), "imputed values are reported where values are missing only")
    require(eq(X, keep), "the data were modified")
    again = run([])
    require(np.array_equal(again[2], idx), "the same random state gives the same samples")
    if n >= 15 and k >= 2:
        require(any(len(set(r)) < n for r in idx), "rows are drawn with replacement")
        require(not np.array_equal(idx[0], idx[1]), "samples differ")
    ctx.nontrivial(bool(np.isnan(X).any()) and k > 1)


@P.clause("uniform", st.fixed_dictionaries({"seed": gen.SEED, "n": st.integers(5, 12)}), quick=25, thorough=300,
          rule="every case")
def uniform(d, ctx):
    rng = np.random.default_rng(d["seed"])
    n, k = d["n"], 60
    X = rng.normal(size=(n, 2))
    log = []
    _, _, idx, _ = bootstrap_with_imputation(X, k, imp=Imp(1, log),
                                             cd_model=CD([[0, 1]] * k, [np.zeros((1, 2, 2))] * k, log),
                                             random_state=int(rng.integers(10**6)))
    c = np.bincount(np.asarray(idx).ravel(), minlength=n)
    chi = ((c - k) ** 2 / k).sum()
    require(chi < n + 8 * np.sqrt(2 * n), "rows are drawn uniformly", c)
    ctx.nontrivial()


@P.clause("default", st.fixed_dictionaries({
    "seed": gen.SEED, "n": gen.size(40, 90, 700), "p": gen.size(2, 4, 7), "k": st.integers(1, 3),
    "repeats": st.integers(2, 3), "share": st.sampled_from([0.05, 0.15, 0.0]), "pk": st.booleans(),
    "soft": st.booleans(), "only": st.sampled_from(["both", "imp", "cd"])}), quick=60, thorough=800,
    rule="a value is missing")
def default(d, ctx):
    """With the default components the result is the multi-group fit of the reported data sets."""
    rng = np.random.default_rng(d["seed"])
    n, p, k, R = d["n"], d["p"], d["k"], d["repeats"]
    B, order = gen.random_dag(rng, p, 0.8, 0.8, 1.5)
    X, _ = gen.sem(rng, B, order, n, "uniform")
    X = missing(rng, X, d["share"])
    pk = None
    if d["pk"]:
        pk = np.full((p, p), -1)
        a, b = rng.choice(p, 2, replace=False)
        pk[a, b] = 0 if rng.random() < 0.5 else 1
    kw = dict(n_repeats=R, prior_knowledge=pk, apply_prior_knowledge_softly=d["soft"],
              random_state=int(rng.integers(1000)))
    own_imp, own_cd = d["only"] == "cd", d["only"] == "imp"
    log = []
    if own_imp:
        kw["imp"] = Imp(R, log)
        kw["imp"].fit_transform = lambda Z: [np.where(np.isnan(Z), np.nanmean(Z) + 0.1 * r, Z) for r in range(R)]
    if own_cd:
        kw["cd_model"] = CD([list(range(p))] * k, [np.zeros((R, p, p))] * k, log)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        co, am, idx, res = bootstrap_with_imputation(X, k, **kw)
    res = np.asarray(res)
    require(np.shape(co) == (k, p) and np.shape(am) == (k, R, p, p) and res.shape == (k, R, n, p), "shapes",
            np.shape(co), np.shape(am), res.shape)
    for i in range(k):
        Z = X[np.asarray(idx)[i]]
        pos = np.isnan(Z)
        require((np.isnan(res[i]) == ~pos[None]).all(), "imputed values where values are missing only")
        sets = [np.where(pos, r, Z) for r in res[i]]
        if own_imp:
            for r, s in enumerate(sets):
                require(eq(s, np.where(pos, np.nanmean(Z) + 0.1 * r, Z)), "values of the given imputation")
        elif pos.any():
            for s in sets:
                lo, hi = np.nanmean(Z, axis=0) - 8 * np.nanstd(Z, axis=0), np.nanmean(Z, axis=0) + 8 * np.nanstd(Z, axis=0)
                require(((s >= lo) & (s <= hi))[pos].all(), "imputed values are plausible")
            if R > 1:
                require(not np.array_equal(sets[0], sets[1]), "repeated imputations differ")
        if own_cd:
            require(eq([x for x in log[2 * i + 1][1]], sets), "the given model sees the imputed data sets")
            continue
        m = lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=d["soft"])
        m.fit(sets)
        require([int(v) for v in co[i]] == [int(v) for v in m.causal_order_], "causal order of a bootstrap sample",
                co[i], m.causal_order_)
        require(np.allclose(am[i], m.adjacency_matrices_, rtol=1e-7, atol=1e-9), "adjacency matrices of a sample")
        for A in am[i]:
            ref.check_dag(np.asarray(A), [int(v) for v in co[i]], p, "imputation")
    ctx.label(d["only"], "pk" if pk is not None else "nopk")
    ctx.nontrivial(bool(np.isnan(X).any()))


@P.clause("imputes", st.fixed_dictionaries({"seed": gen.SEED}), quick=12, thorough=150, rule="every case")
def imputes(d, ctx):
    """The default imputation uses the relation between the variables."""
    rng = np.random.default_rng(d["seed"])
    n = 120
    x = rng.uniform(-3, 3, n)
    X = np.column_stack([x, 2 * x + 1 + 0.05 * rng.uniform(-1, 1, n)])
    full = X.copy()
    X[:, 1][rng.random(n) < 0.2] = np.nan
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _, _, idx, res = bootstrap_with_imputation(X, 1, n_repeats=2, random_state=int(rng.integers(1000)))
    Z = full[np.asarray(idx)[0]]
    for r in np.asarray(res)[0]:
        e = (r - Z)[~np.isnan(r)]
        require(np.abs(e).max(initial=0) < 1.0, "imputed values follow the observed relation", np.abs(e).max(initial=0))
    ctx.nontrivial()


class Broken(BaseMultipleImputation):
    def __init__(self, out):
        self.out = out

    def fit_transform(self, X):
        return self.out


BAD = ["n0", "nneg", "nfloat", "r0", "imp", "cd", "pk_shape", "inf", "imp_shape", "imp_more", "imp_fewer", "imp_nan", "cd_tuple", "cd_len",
       "cd_dup", "cd_shape", "cd_nan", "vector"]


@P.clause("rejected", st.fixed_dictionaries({"kind": st.sampled_from(BAD), "seed": gen.SEED}), quick=60,
          thorough=400, rule="every case")
def rejected(d, ctx):
    rng = np.random.default_rng(d["seed"])
    n, p = 20, 3
    X = missing(rng, rng.normal(size=(n, p)), 0.1)
    k = d["kind"]
    log = []
    kw = dict(n_sampling=1, n_repeats=1, imp=Imp(1, log), cd_model=CD([[0, 1, 2]], [np.zeros((1, p, p))], log))
    kw.update({
        "n0": {"n_sampling": 0}, "nneg": {"n_sampling": -2}, "nfloat": {"n_sampling": 1.5}, "r0": {"n_repeats": 0},
        "imp": {"imp": lingam.DirectLiNGAM()}, "cd": {"cd_model": lingam.DirectLiNGAM()},
        "pk_shape": {"prior_knowledge": np.full((p, p + 1), -1)},
        "imp_shape": {"imp": Broken([np.zeros((n, p + 1))])},
        "imp_more": {"imp": Broken([np.zeros((n + 1, p))])}, "imp_fewer": {"imp": Broken([np.zeros((n - 1, p))])},
        "imp_nan": {"imp": Broken([np.full((n, p), np.nan)])},
        "cd_tuple": {"cd_model": CD([[0, 1, 2]], [np.zeros((1, p, p))], log)},
        "cd_len": {"cd_model": CD([[0, 1]], [np.zeros((1, p, p))], log)},
        "cd_dup": {"cd_model": CD([[0, 1, 1]], [np.zeros((1, p, p))], log)},
        "cd_shape": {"cd_model": CD([[0, 1, 2]], [np.zeros((1, p, p - 1))], log)},
        "cd_nan": {"cd_model": CD([[0, 1, 2]], [np.full((1, p, p), np.nan)], log)},
    }.get(k, {}))
    if k == "cd_tuple":
        kw["cd_model"].fit = lambda s: [0, 1, 2]
    if k == "inf":
        X[0, 0] = np.inf
    if k == "vector":
        X = X[:, 0]
    ctx.label(k)
    try:
        bootstrap_with_imputation(X, **kw)
    except (TypeError, ValueError):
        ctx.nontrivial()
        return
    require(False, f"accepted: {k}")
