"""C09: bootstrap samples are refits of genuine resamples."""
import numpy as np
import lingam
from hypothesis import strategies as st
from sklearn.linear_model import LinearRegression

import gen
import ref
from core import Property, require

P = Property("C09", boost=4)


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    a, b = np.nan_to_num(a), np.nan_to_num(b)
    return bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def build(kind):
    return {
        "direct": lambda c=lingam.DirectLiNGAM: c(),
        "kernel": lambda c=lingam.DirectLiNGAM: c(measure="kernel"),
        "ica": lambda c=lingam.ICALiNGAM: c(random_state=3),
        "highdim": lambda c=lingam.HighDimDirectLiNGAM: c(),
        "resit": lambda c=lingam.RESIT: c(regressor=LinearRegression(), alpha=0.05),
        "bottomup": lambda c=lingam.BottomUpParceLiNGAM: c(alpha=0.1),
        "bottom0": lambda c=lingam.BottomUpParceLiNGAM: c(alpha=0.0),
        "rcd": lambda c=lingam.RCD: c(cor_alpha=0.05, ind_alpha=0.02),
        "multi": lambda c=lingam.MultiGroupDirectLiNGAM: c(),
        "multircd": lambda c=lingam.MultiGroupRCD: c(cor_alpha=0.05, ind_alpha=0.02),
    }[kind]


def rows_of(X):
    return {np.ascontiguousarray(r).tobytes(): i for i, r in enumerate(np.asarray(X, float))}


def indices(sample, table, what):
    out = []
    for r in np.asarray(sample, float):
        k = np.ascontiguousarray(r).tobytes()
        require(k in table, f"{what}: a resampled row is not a row of the data")
        out.append(table[k])
    return out


def check_effects(te, B, what, anc=None):
    """Entries with an unidentified cause are NaN (or left 0 inside an unordered block); others are path sums.

    anc: the ancestors the model reports; only their effects are listed."""
    T = ref.total_effects(B)
    p = len(B)
    for fr in range(p):
        for to in range(p):
            if fr == to:
                require(te[to, fr] == 0, f"{what}: self effect")
            elif anc is not None and fr not in anc[to]:
                require(te[to, fr] == 0, f"{what}: effect of a variable that is no ancestor")
            elif np.isnan(B[fr]).any():
                require(np.isnan(te[to, fr]) or (te[to, fr] == 0 and anc is None and np.isnan(B[to, fr])),
                        f"{what}: effect of an unidentified cause", te[to, fr])
            else:
                require(abs(te[to, fr] - T[to, fr]) <= 1e-7 * (1 + abs(T[to, fr])),
                        f"{what}: total effect x{fr} -> x{to}", te[to, fr], T[to, fr], B)


@P.clause(
    "resampled_indices",
    gen.data_spec(pmin=2, pmax=4, nmin=20, nmax=60, noises=["uniform", "exp", "laplace"],
                  pwide=11, nlong=2400, k=gen.size(1, 5, 30),
                  model=st.sampled_from(["direct", "direct", "kernel", "ica", "highdim", "resit"])),
    quick=160, thorough=3000,
    rule="two or more samples, at least one of them with an edge",
)
def resampled(d, ctx):
    kind = d["model"]
    ctx.label(kind)
    if kind in ("kernel", "resit"):
        d["p"], d["n"] = min(3, d["p"]), min(40, d["n"])
    X, *_ = gen.make_data(d)
    n, p, k = d["n"], d["p"], d["k"]
    keep = X.copy()
    m = build(kind)()
    r = m.bootstrap(X, n_sampling=k)
    require(np.array_equal(X, keep), "the data were modified")
    ams, te, idx = r.adjacency_matrices_, r.total_effects_, r.resampled_indices_
    require(len(ams) == len(te) == len(idx) == k, "one entry per sample", len(ams), len(idx))
    require(np.shape(ams) == (k, p, p) and np.shape(te) == (k, p, p), "shapes")
    some = False
    for i in range(k):
        ix = np.asarray(idx[i])
        require(ix.shape == (n,), "a resample has as many rows as the data", ix.shape)
        require(ix.min() >= 0 and ix.max() < n, "index out of range")
        require(len(set(ix.tolist())) < n, "rows are drawn with replacement")
        f = build(kind)().fit(X[ix])
        require(close(f.adjacency_matrix_, ams[i], 1e-6 if kind != "ica" else 1e-4),
                f"{kind}: sample {i} is not the model of its resampled rows",
                f.adjacency_matrix_, ams[i])
        check_effects(np.asarray(te[i]), np.asarray(ams[i]), kind)
        some = some or bool(np.any(ams[i]))
    for i in range(k):
        for j in range(i):
            require(not np.array_equal(idx[i], idx[j]), "two samples are identical")
    ctx.nontrivial(k > 1 and some)


def recording(cls):
    """The model with a log of the data every fit received."""
    log = []

    class Rec(cls):
        def fit(self, X, *a, **k):
            log.append([np.array(x, float) for x in X] if isinstance(X, list)
                       else np.array(X, float))
            return super().fit(X, *a, **k)

    return Rec, log


CLS = {"bottomup": lingam.BottomUpParceLiNGAM, "bottom0": lingam.BottomUpParceLiNGAM,
       "rcd": lingam.RCD, "multi": lingam.MultiGroupDirectLiNGAM,
       "multircd": lingam.MultiGroupRCD}


UNI = ["direct", "ica", "highdim", "resit", "bottomup", "rcd", "multi", "multircd", "long", "var", "varma"]


@P.clause(
    "uniform_draws",
    st.fixed_dictionaries({"seed": gen.SEED, "n": st.integers(10, 16), "kind": st.sampled_from(UNI),
                           "equal": st.booleans()}),
    quick=33, thorough=300,
    rule="the draws could be observed",
)
def uniform(d, ctx):
    """Every row can be drawn, about equally often and independently between groups."""
    rng = np.random.default_rng(d["seed"])
    n, k, kind = d["n"], 60, d["kind"]
    X = rng.uniform(size=(n, 2))
    X[:, 1] += X[:, 0]
    ctx.label(kind)
    draws = []
    if kind in ("direct", "ica", "highdim", "resit"):
        sizes = [n]
        draws = [[np.asarray(ix)] for ix in build(kind)().bootstrap(X, n_sampling=k).resampled_indices_]
    elif kind == "var":
        n = 20
        X, _, A = series(rng, n, 2, 1)
        Rec, log = recording(lingam.VARLiNGAM)
        Rec(lags=1, criterion=None, ar_coefs=np.array(A)).bootstrap(X, n_sampling=k)
        if len(log) != k + 1:
            ctx.reject("fits not observable")
        R = X[1:] - X[:-1] @ A[0].T
        sizes = [n - 1]
        require(len({tuple(Y[0]) for Y in log[1:]}) > 1, "every resampled series starts alike")
        for Y in log[1:]:
            E = Y[1:] - Y[:-1] @ A[0].T
            draws.append([np.argmin(np.abs(E[:, None, :] - R[None]).max(axis=2), axis=1)])
    elif kind == "varma":
        n = 20
        X, _, A = series(rng, n, 2, 1)
        C = [rng.uniform(-0.2, 0.2, (2, 2))]
        models = []

        class Direct(lingam.DirectLiNGAM):
            def fit(self, Z):
                models.append(np.array(Z, float))
                return super().fit(Z)

        Rec, log = recording(lingam.VARMALiNGAM)
        Rec(order=(1, 1), criterion=None, ar_coefs=np.array(A), ma_coefs=np.array(C),
            lingam_model=Direct()).bootstrap(X, n_sampling=k)
        if len(log) != k + 1 or len(models) != k + 1:
            ctx.reject("fits not observable")
        R = models[0]
        sizes = [len(R)]
        require(len({tuple(Y[0]) for Y in log[1:]}) > 1, "every resampled series starts alike")
        for Y in log[1:]:
            E = Y.copy()
            for t in range(1, n):
                E[t] = Y[t] - A[0] @ Y[t - 1] - C[0] @ E[t - 1]
            draws.append([np.argmin(np.abs(E[:, None, :] - R[None]).max(axis=2), axis=1)])
    elif kind == "long":
        Rec, log = recording(lingam.LongitudinalLiNGAM)
        Xs = [X, X @ rng.uniform(-1, 1, (2, 2)) + rng.uniform(size=(n, 2))]
        Rec(n_lags=1).bootstrap(Xs, n_sampling=k)
        sizes = [n]
        draws = [[np.array(indices(z[0], rows_of(X), kind))] for z in log]
    else:
        Rec, log = recording(CLS[kind])
        multi = kind.startswith("multi")
        n2 = n if d["equal"] else n + 3
        X2 = rng.uniform(size=(n2, 2))
        X2[:, 1] -= X2[:, 0]
        build(kind)(Rec).bootstrap([X, X2] if multi else X, n_sampling=k)
        sizes = [n, n2] if multi else [n]
        for z in log:
            z = z if multi else [z]
            draws.append([np.array(indices(a, rows_of(b), kind)) for a, b in zip(z, [X, X2])])
    if len(draws) != k:
        ctx.reject("fits not observable")
    for g, size in enumerate(sizes):
        c = np.bincount(np.concatenate([v[g] for v in draws]), minlength=size)
        # 60 draws per row expected, standard deviation below 8
        require(len(c) == size and c.min() >= 12 and c.max() <= 120, "rows are not drawn uniformly", c.tolist())
        pos = np.array([v[g] for v in draws])
        for t in range(pos.shape[1]):
            require(len(set(pos[:, t])) > 1, "a position always holds the same row")
    if len(sizes) == 2:
        m = min(sizes)
        hits = sum(int(np.sum(a[:m] == b[:m])) for a, b in draws)
        require(hits <= 60 + 8 * 8, "the groups are not resampled separately", hits)
    ctx.nontrivial()


@P.clause(
    "refits",
    gen.data_spec(pmin=2, pmax=4, nmin=25, nmax=60, noises=["uniform", "exp", "laplace"],
                  k=gen.size(1, 4, 12), n2=st.one_of(st.none(), gen.size(25, 60, 200)),
                  model=st.sampled_from(sorted(CLS))),
    quick=140, thorough=2500,
    rule="two or more samples, at least one of them with an edge",
)
def refits(d, ctx):
    kind = d["model"]
    ctx.label(kind)
    if kind != "multi":
        d["p"] = min(3, d["p"])
    X, *_ = gen.make_data(d)
    X2 = gen.make_data(d, n=d["n2"] or d["n"], seed_shift=3)[0]
    k, p = d["k"], d["p"]
    Rec, log = recording(CLS[kind])
    m = build(kind)(Rec)
    multi = kind.startswith("multi")
    data = [X, X2] if multi else X
    keep = X.copy()
    try:
        r = m.bootstrap(data, n_sampling=k)
    except ValueError:
        # path effects of a model that orients variables in a cycle are refused
        if kind in ("rcd", "multircd") and log:
            f = build(kind)().fit(log[-1])
            Bs = f.adjacency_matrices_ if multi else [f.adjacency_matrix_]
            if any(not ref.is_acyclic(B) for B in Bs):
                ctx.reject("cyclic sample")
        raise
    require(np.array_equal(X, keep), "the data were modified")
    rs = r if multi else [r]
    require(len(rs) == (2 if multi else 1), "one result per dataset")
    for q in rs:
        require(np.shape(q.adjacency_matrices_) == (k, p, p), "shape")
        require(np.shape(q.total_effects_) == (k, p, p), "shape")
    some = False
    for q in rs:
        for i in range(k):
            B = np.asarray(q.adjacency_matrices_[i])
            if ref.is_acyclic(B) and not kind.endswith("rcd"):
                check_effects(np.asarray(q.total_effects_[i]), B, kind)
            some = some or bool(np.nansum(np.abs(B)))
    if len(log) != k:
        ctx.label("fits not observable")
        return
    tables = [rows_of(Z) for Z in ([X, X2] if multi else [X])]
    seen = set()
    for i, data_i in enumerate(log):
        parts = data_i if multi else [data_i]
        key = []
        for Z, tab in zip(parts, tables):
            ix = indices(Z, tab, kind)
            require(len(ix) == len(tab), "a resample has as many rows as the data", len(ix))
            require(len(set(ix)) < len(ix), "rows are drawn with replacement")
            key.append(tuple(ix))
        require(tuple(key) not in seen, "two samples are identical")
        require(len(set(key)) == len(key), "the groups are not resampled separately")
        seen.add(tuple(key))
        f = build(kind)().fit(data_i)
        Bs = f.adjacency_matrices_ if multi else [f.adjacency_matrix_]
        for q, B in zip(rs, Bs):
            require(close(q.adjacency_matrices_[i], B, 1e-6),
                    f"{kind}: sample {i} is not the model of its resampled rows",
                    q.adjacency_matrices_[i], B)
            if kind.endswith("rcd") and ref.is_acyclic(B):
                check_effects(np.asarray(q.total_effects_[i]), B, kind, f.ancestors_list_)
    ctx.nontrivial(k > 1 and some)


# ------------------------------------------------------------------ longitudinal
def long_data(rng, T, n, p, lags):
    Xs = []
    for t in range(T):
        B, order = gen.random_dag(rng, p, 0.6)
        e = rng.uniform(-1, 1, (n, p))
        for l in range(1, lags + 1):
            if t - l >= 0:
                e = e + Xs[t - l] @ rng.uniform(-0.5, 0.5, (p, p))
        Xs.append(e @ np.linalg.inv(np.eye(p) - B).T)
    return Xs


def long_expand(am, lags):
    """Full (T p, T p) matrix; unidentified blocks are zero."""
    T, _, p, _ = am.shape
    W = np.zeros((T * p, T * p))
    for t in range(lags, T):
        for l in range(lags + 1):
            W[t * p:(t + 1) * p, (t - l) * p:(t - l + 1) * p] = am[t, l]
    return W


@P.clause(
    "longitudinal",
    st.fixed_dictionaries({
        "seed": gen.SEED, "T": st.integers(3, 4), "p": st.integers(2, 3),
        "n": gen.size(25, 60, 1200), "lags": st.integers(1, 2), "k": gen.size(1, 3, 12),
        "start": st.integers(1, 2),
    }),
    quick=80, thorough=1200,
    rule="two or more samples",
)
def longitudinal(d, ctx):
    rng = np.random.default_rng(d["seed"])
    T, p, n, lags, k = d["T"], d["p"], d["n"], d["lags"], d["k"]
    Xs = long_data(rng, T, n, p, lags)
    Rec, log = recording(lingam.LongitudinalLiNGAM)
    m = Rec(n_lags=lags)
    r = m.bootstrap(Xs, n_sampling=k, start_from_t=d["start"])
    ams, te = np.asarray(r.adjacency_matrices_), np.asarray(r.total_effects_)
    require(ams.shape == (k, T, lags + 1, p, p), "shape", ams.shape)
    require(te.shape == (k, T * p, T * p), "shape", te.shape)
    first = max(d["start"], lags)
    for i in range(k):
        require(np.isnan(ams[i, :lags]).all(), "time points without estimates are NaN")
        require(np.isfinite(ams[i, lags:]).all(), "estimates are finite")
        W = long_expand(ams[i], lags)
        for ft in range(T):
            for tt in range(ft, T):
                if ft < first:
                    want = np.zeros((p, p))
                else:
                    # only the steps from ft to tt matter
                    sub = W[ft * p:(tt + 1) * p, ft * p:(tt + 1) * p]
                    full = np.linalg.inv(np.eye(len(sub)) - sub)
                    want = full[-p:, :p] - (np.eye(p) if ft == tt else 0)
                got = te[i, tt * p:(tt + 1) * p, ft * p:(ft + 1) * p]
                require(close(got, want, 1e-7), f"total effects {ft} -> {tt}", got, want)
    if len(log) != k:
        ctx.label("fits not observable")
        return
    tables = [rows_of(Z) for Z in Xs]
    seen = set()
    for i, data_i in enumerate(log):
        ixs = [tuple(indices(Z, tab, "longitudinal")) for Z, tab in zip(data_i, tables)]
        require(len(set(ixs)) == 1, "the rows of one subject were torn apart")
        require(len(ixs[0]) == n and len(set(ixs[0])) < n, "drawn with replacement")
        require(ixs[0] not in seen, "two samples are identical")
        seen.add(ixs[0])
        f = lingam.LongitudinalLiNGAM(n_lags=lags).fit([np.array(z) for z in data_i])
        require(close(f.adjacency_matrices_, ams[i], 1e-6), f"sample {i} is not its refit")
    ctx.nontrivial(k > 1)


# ------------------------------------------------------------------ time series
def series(rng, n, p, lags, loc=0.0):
    B0, order = gen.random_dag(rng, p, 0.6, 0.4, 0.9)
    inv = np.linalg.inv(np.eye(p) - B0)
    A = [rng.uniform(-0.5, 0.5, (p, p)) / (p * (k + 1)) for k in range(lags)]
    X = np.zeros((n + 30, p))
    E = rng.uniform(-1, 1, (n + 30, p)) @ inv.T
    for t in range(lags, n + 30):
        X[t] = E[t] + sum(A[k] @ X[t - k - 1] for k in range(lags))
    return X[30:] + loc, B0, A


def unrolled(blocks):
    """(p, p * (1 + lags)) total effects on time t of (t, t-1, ...)."""
    L, p = len(blocks), len(blocks[0])
    W = np.zeros((L * p, L * p))
    for i in range(L):
        for j in range(i, L):
            W[i * p:(i + 1) * p, j * p:(j + 1) * p] = blocks[j - i]
    return (np.linalg.inv(np.eye(L * p) - W) - np.eye(L * p))[:p]


def row_in(v, R, tol):
    return np.min(np.max(np.abs(R - v), axis=1)) <= tol


@P.clause(
    "var",
    st.fixed_dictionaries({
        "seed": gen.SEED, "p": st.integers(2, 3), "n": gen.size(40, 90, 900),
        "lags": st.integers(1, 3), "k": gen.size(1, 3, 12), "prune": st.booleans(),
        "given": st.booleans(),
    }),
    quick=100, thorough=1500,
    rule="two or more samples",
)
def var(d, ctx):
    rng = np.random.default_rng(d["seed"])
    p, n, lags, k = d["p"], d["n"], d["lags"], d["k"]
    X, _, A = series(rng, n, p, lags)
    kw = {"lags": lags, "criterion": None, "prune": d["prune"]}
    if d["given"]:
        kw["ar_coefs"] = np.array(A)
    Rec, log = recording(lingam.VARLiNGAM)
    keep = X.copy()
    r = Rec(**dict(kw, criterion="bic")).bootstrap(X, n_sampling=k)
    require(np.array_equal(X, keep), "the data were modified")
    ams, te = r.adjacency_matrices_, np.asarray(r.total_effects_)
    require(len(ams) == k and te.shape == (k, p, p * (1 + lags)), "shapes", te.shape)
    for i in range(k):
        B = np.asarray(ams[i])
        require(B.shape == (p, p * (1 + lags)), "sample shape", B.shape)
        blocks = np.split(B, 1 + lags, axis=1)
        require(close(te[i], unrolled(blocks), 1e-7), "total effects", te[i], unrolled(blocks))
    fits = log[1:]
    if len(fits) != k or not np.array_equal(log[0], X):
        ctx.label("fits not observable")
        return
    f0 = lingam.VARLiNGAM(**kw).fit(X)
    R = np.asarray(f0.residuals_)
    if d["given"]:
        M = np.array(A)
    else:
        # least squares without intercept
        Z = np.hstack([X[lags - 1 - j: n - 1 - j] for j in range(lags)])
        M = np.split(np.linalg.lstsq(Z, X[lags:], rcond=None)[0].T, lags, axis=1)
    for i, Y in enumerate(fits):
        require(Y.shape == X.shape, "a resampled series has the length of the data", Y.shape)
        for t in range(lags, n):
            e = Y[t] - sum(M[j] @ Y[t - 1 - j] for j in range(lags))
            require(row_in(e, R, 1e-6 * (1 + np.abs(Y).max())),
                    "an innovation of a resampled series is not a residual of the fit", i, t)
        for j in range(i):
            require(not np.array_equal(fits[j], Y), "two samples are identical")
        f = lingam.VARLiNGAM(**kw).fit(Y)
        want = np.concatenate(list(f.adjacency_matrices_), axis=1)
        require(close(ams[i], want, 1e-6), f"sample {i} is not its refit", ams[i], want)
    ctx.nontrivial(k > 1)


@P.clause(
    "varma",
    st.fixed_dictionaries({
        "seed": gen.SEED, "p": st.just(2), "n": gen.size(40, 60, 500),
        "order": st.tuples(st.integers(1, 2), st.integers(1, 2)), "k": st.integers(1, 3),
        "prune": st.booleans(), "estimate": st.integers(0, 7),
    }),
    quick=48, thorough=500,
    rule="two or more samples",
)
def varma(d, ctx):
    rng = np.random.default_rng(d["seed"])
    p, n, k = d["p"], d["n"], d["k"]
    a, b = d["order"]
    est = d["estimate"] == 0
    if est:
        a, b, k = 1, 1, 1
        ctx.label("estimated")
    X, _, A = series(rng, n, p, a)
    C = [rng.uniform(-0.2, 0.2, (p, p)) for _ in range(b)]
    kw = {"order": (a, b), "criterion": None, "prune": d["prune"], "max_iter": 20}
    if not est:
        kw.update(ar_coefs=np.array(A), ma_coefs=np.array(C))
    Rec, log = recording(lingam.VARMALiNGAM)
    models = []

    class Direct(lingam.DirectLiNGAM):
        def fit(self, Z):
            models.append(np.array(Z, float))
            return super().fit(Z)

    r = Rec(lingam_model=Direct(), **kw).bootstrap(X, n_sampling=k)
    ams, te = r.adjacency_matrices_, np.asarray(r.total_effects_)
    require(len(ams) == k and te.shape == (k, p, p * (1 + a)), "shapes", te.shape)
    for i in range(k):
        B = np.asarray(ams[i])
        require(B.shape == (p, p * (1 + a + b)), "sample shape", B.shape)
        blocks = np.split(B, 1 + a + b, axis=1)[:1 + a]
        require(close(te[i], unrolled(blocks), 1e-7), "total effects", te[i], unrolled(blocks))
    ctx.nontrivial(k > 1)
    fits = log[1:]
    if len(fits) != k or len(models) != k + 1 or est:
        ctx.label("innovations not observable")
        return
    R = models[0]
    s = max(a, b)
    for i, Y in enumerate(fits):
        require(Y.shape == X.shape, "a resampled series has the length of the data", Y.shape)
        E = np.zeros_like(Y)
        for t in range(n):
            E[t] = Y[t]
            if t >= s:
                E[t] -= sum(A[j] @ Y[t - 1 - j] for j in range(a))
                E[t] -= sum(C[j] @ E[t - 1 - j] for j in range(b))
            require(row_in(E[t], R, 1e-6 * (1 + np.abs(Y).max())),
                    "an innovation of a resampled series is not a residual of the fit", i, t)
