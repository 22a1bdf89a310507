"""C25: LiM and LiNA return acyclic graphs that are optimal in the sense of their scores."""
import contextlib
import io
import itertools
import warnings

import numpy as np
import lingam
import scipy.optimize as so
from hypothesis import strategies as st
from lingam.utils import likelihood_i, log_p_super_gaussian, variance_i
from scipy.special import gammaln
from sklearn.linear_model import LinearRegression, LogisticRegression, PoissonRegressor

import gen
from core import Property, require

P = Property("C25", boost=1)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def order_of(W, tol):
    """A topological order of the edges |W[from, to]| > tol, or None."""
    d = len(W)
    left, order = list(range(d)), []
    while left:
        r = [v for v in left if not any(abs(W[u, v]) > tol for u in left if u != v)]
        if not r:
            return None
        order.append(r[0])
        left.remove(r[0])
    return order


def column(kind, f, P_, j, l1, scale):
    """Best penalised coefficients of column j on the predecessors P_ (a convex problem)."""
    Z, y, k = f[:, P_], f[:, j], len(P_)

    def g(w):
        M = Z @ (w[:k] - w[k:])
        if kind == "l2":
            v, D = 0.5 * ((y - M) ** 2).sum(), -Z.T @ (y - M)
        elif kind == "laplace":
            R = y - M
            v, D = (np.logaddexp(R, -R) - np.log(2)).sum(), -Z.T @ np.tanh(R)
        elif kind == "logistic":
            v, D = (np.logaddexp(0, M) - y * M).sum(), Z.T @ (1 / (1 + np.exp(-M)) - y)
        else:
            v, D = (np.exp(np.minimum(M, 50)) - y * M).sum(), Z.T @ (np.exp(np.minimum(M, 50)) - y)
        return v * scale + l1 * w.sum(), np.concatenate([D * scale + l1, -D * scale + l1])

    s = so.minimize(g, np.zeros(2 * k), jac=True, method="L-BFGS-B", bounds=[(0, None)] * (2 * k),
                    options=dict(maxiter=5000, ftol=1e-15, gtol=1e-10))
    return s.x[:k] - s.x[k:]


def optimum(kind, f, order, l1, scale):
    d = f.shape[1]
    W = np.zeros((d, d))
    for pos, j in enumerate(order):
        if pos:
            W[order[:pos], j] = column(kind, f, order[:pos], j, l1, scale)
    return W


def objective(kind, f, W, l1, scale):
    M = f @ W
    v = {"l2": lambda: 0.5 * ((f - M) ** 2), "laplace": lambda: np.logaddexp(f - M, M - f) - np.log(2),
         "logistic": lambda: np.logaddexp(0, M) - f * M, "poisson": lambda: np.exp(np.minimum(M, 50)) - f * M}[kind]()
    return v.sum() * scale + l1 * np.abs(W).sum()


def shortfall(kind, f, W, best, order, l1, scale):
    """Share of the attainable improvement over the empty graph that W misses (0 = optimal).

    The augmented Lagrangian is not convex and may stop a little short of the
    optimum, so a share is judged instead of single weights (on the unchanged code
    it stays below 0.002 in thousands of runs; the bounds below leave ample room).
    """
    pos = {v: i for i, v in enumerate(order)}
    V = np.array([[W[a, b] if pos[a] < pos[b] else 0.0 for b in range(len(W))] for a in range(len(W))])
    zero = objective(kind, f, np.zeros_like(V), l1, scale)
    top = objective(kind, f, best, l1, scale)
    if zero - top < 1e-3 * abs(zero):
        return None
    return (objective(kind, f, V, l1, scale) - top) / (zero - top)


# ---------------------------------------------------------------- LiNA

@P.clause("lina", st.fixed_dictionaries({
    "seed": gen.SEED, "d": st.sampled_from([3, 2]), "k": st.sampled_from([3, 4]), "n": st.integers(150, 350),
    "loss": st.sampled_from(["laplace", "l2"]), "l1": st.sampled_from([0.1, 0.02, 0.3]),
    "thr": st.sampled_from([0.3, 0.1, 0.6]), "density": st.sampled_from([1.0, 0.6])}),
    quick=80, thorough=1200, rule="a latent edge is found")
def lina(d, ctx):
    rng = np.random.default_rng(d["seed"])
    q, k, n = d["d"], d["k"], d["n"]
    B, order = gen.random_dag(rng, q, d["density"], 0.6, 1.4)
    f, _ = gen.sem(rng, B, order, n, "laplace")
    G = np.zeros((q * k, q))
    for j in range(q):
        G[j * k:(j + 1) * k, j] = rng.uniform(0.8, 1.5, k) * rng.choice([-1, 1])
    X = f @ G.T + 0.5 * rng.normal(size=(n, q * k))
    X = X - X.mean(axis=0)
    scale = rng.uniform(1.0, 2.5, (1, q))
    keep = X.copy()
    sign = np.sign(G)

    def fit(thr):
        m = lingam.LiNA(loss_type=d["loss"], lambda1=d["l1"], w_threshold=thr)
        return m, np.asarray(quiet(m.fit, X, sign, scale))

    m, W = fit(0.0)
    require(np.array_equal(X, keep), "the data were modified")
    H = np.asarray(m.measurement_matrix_)
    require(H.shape == G.shape and not H[sign == 0].any(), "loadings respect the measurement structure")
    require(np.array_equal(m.adjacency_matrix_, W), "adjacency_matrix_ is what fit returns")
    fs = np.linalg.lstsq(H, X.T, rcond=None)[0].T * scale
    if not np.isfinite(fs).all() or fs.std(axis=0).max() > 30 or fs.std(axis=0).min() < 0.1:
        ctx.reject("degenerate factor analysis")
    require(not np.diag(W).any(), "zero diagonal", W)
    # the acyclicity constraint holds up to its tolerance, so tiny weights may still form a cycle
    require(order_of(W, 0.1) is not None, "acyclic", W)
    o = order_of(W, 0.01)
    if o is None:
        ctx.reject("tiny weights form a cycle")
    # penalised optimum for the order that was found
    unit = 1.0 if d["loss"] == "laplace" else 1.0 / n
    best = optimum(d["loss"], fs, o, d["l1"], unit)
    miss = shortfall(d["loss"], fs, W, best, o, d["l1"], unit)
    require(miss is None or miss < 0.05, "weights are the penalised optimum of their own order", W, best, miss)
    m2, V = fit(d["thr"])
    if np.any(np.abs(np.abs(W) - d["thr"]) < 1e-9):
        ctx.reject("on the threshold")
    require(np.allclose(V, np.where(np.abs(W) < d["thr"], 0, W)), "only weights below the threshold are dropped", V, W)
    require(np.allclose(m2.measurement_matrix_, H), "measurement matrix")
    ctx.label(d["loss"], f"latents={q}", f"edges={int((V != 0).sum())}")
    ctx.nontrivial(bool((V != 0).any()))


# ---------------------------------------------------------------- LiM

def mixed_data(rng, p, n, disc, poisson, density=0.8, collider=False):
    W = np.zeros((p, p))
    order = rng.permutation(p)
    if collider:                # one effect of everything else
        order = np.r_[[j for j in order if not disc[j]], [j for j in order if disc[j]]].astype(int)
        W[order[:-1], order[-1]] = rng.uniform(0.8, 1.4, p - 1) * rng.choice([-1, 1], p - 1)
        density = 0.0
    for a in range(p):
        for b in range(a):
            if rng.random() < density:
                W[order[b], order[a]] = rng.uniform(0.8, 1.8) * rng.choice([-1, 1])
    X = np.zeros((n, p))
    for j in order:
        m = X @ W[:, j]
        if not disc[j]:
            X[:, j] = m + rng.laplace(size=n)
        elif poisson:
            X[:, j] = rng.poisson(np.exp(np.clip(0.4 * m + 1.0, -2, 3)))
        else:
            X[:, j] = (rng.random(n) < 1 / (1 + np.exp(-m))).astype(float)
    return X, W


def bic(W, X, disc, poisson):
    n, p = X.shape
    s = -np.log(n) / 2 * (int((W != 0).sum()) + p)
    for i in range(p):
        pa = [j for j in range(p) if W[j, i] != 0]
        y = X[:, i]
        if disc[i]:
            if not pa:
                _, c = np.unique(y, return_counts=True)
                s += (c * np.log(c / n)).sum()
            elif not poisson:
                pr = LogisticRegression().fit(X[:, pa], y)
                q = pr.predict_proba(X[:, pa])
                k = np.searchsorted(pr.classes_, y)
                s += np.log(np.clip(q[np.arange(n), k], 1e-300, 1)).sum()
            else:
                f = PoissonRegressor().fit(X[:, pa], y)
                eta = X[:, pa] @ f.coef_ + f.intercept_
                s += (y * eta - np.exp(eta) - gammaln(y + 1)).sum()
        else:
            r = y - y.mean()
            if pa:
                r = y - LinearRegression().fit(X[:, pa], y).predict(X[:, pa])
            sd = r.std()
            s += (-np.sqrt(2) * np.abs(r / sd) - 0.35).sum() - n * np.log(sd)
    return s


def acyclic(W):
    return order_of(W, 0.0) is not None and not np.diag(W).any()


def search(W0, X, disc, poisson):
    """The published second phase; returns graph, score and the smallest score gap met."""
    p = len(W0)
    cache = {}

    def score(W):
        k = (W != 0).tobytes()
        if k not in cache:
            cache[k] = bic(W, X, disc, poisson)
        return cache[k]

    best, top, gap = W0.copy(), score(W0), np.inf

    def offer(W):
        nonlocal best, top, gap
        if not acyclic(W):
            return
        s = score(W)
        if ((W != 0) != (best != 0)).any():
            gap = min(gap, abs(s - top))
        if s > top + 1e-9:
            best, top = W.copy(), s

    edges = list(zip(*np.nonzero(W0)))
    for flips in itertools.product((0, 1), repeat=len(edges)):
        W = W0.copy()
        for f, (a, b) in zip(flips, edges):
            if f:
                W[a, b] = 0
                W[b, a] = 1
        if any(flips):
            offer(W)

    def remove(base):
        for a, b in zip(*np.nonzero(base)):
            W = base.copy()
            W[a, b] = 0
            offer(W)

    def add(base):
        for a in range(p):
            for b in range(p):
                if a != b and base[a, b] + base[b, a] == 0:
                    W = base.copy()
                    W[a, b] = 1
                    offer(W)

    if p > 2 and len(edges) > p - 1:
        remove(best.copy())
        if ((best != 0) != (W0 != 0)).any():
            remove(W0)
    if p > 2 and len(edges) < p * (p - 1) / 2:
        add(best.copy())
        if ((best != 0) != (W0 != 0)).any():
            add(W0)
    return best, top, gap


@P.clause("lim_local", st.fixed_dictionaries({
    "seed": gen.SEED, "p": st.sampled_from([3, 2, 4, 4]), "n": st.integers(60, 140),
    "disc": st.lists(st.booleans(), min_size=4, max_size=4), "poisson": st.booleans(), "collider": st.booleans(),
    "thr": st.sampled_from([0.1, 0.3, 0.05]), "l1": st.sampled_from([0.1, 0.05]),
    "loss": st.sampled_from(["mixed", "mixed", "laplace", "logistic"])}),
    quick=160, thorough=2500, rule="the second phase changes the graph")
def lim_local(d, ctx):
    rng = np.random.default_rng(d["seed"])
    p, n = d["p"], d["n"]
    disc = np.array(d["disc"][:p])
    X, _ = mixed_data(rng, p, n, disc, d["poisson"], collider=d["collider"])
    if any(len(np.unique(X[:, j])) < 2 for j in range(p)):
        ctx.reject("constant variable")
    dis_con = (1.0 - disc)[None]
    keep = X.copy()

    def fit(**kw):
        np.random.seed(d["seed"] % 1000)
        m = lingam.LiM(w_threshold=d["thr"], lambda1=d["l1"], loss_type=d["loss"], max_iter=8, rho_max=1e6)
        out = np.asarray(quiet(m.fit, X, dis_con, is_poisson=d["poisson"], **kw))
        require(np.array_equal(m.adjacency_matrix_, out), "adjacency_matrix_ is what fit returns")
        return out

    W1 = fit(only_global=True)
    if not np.isfinite(W1).all() or np.diag(W1).any():
        ctx.reject("the optimisation of the first phase failed")
    require(((W1 == 0) | (np.abs(W1) >= d["thr"])).all(), "weights below the threshold are dropped", W1)
    if (W1 != 0).sum() > 5:
        ctx.reject("too many orientations")
    W2 = fit()
    require(np.array_equal(X, keep), "the data were modified")
    start_ok = acyclic(W1)
    require(not np.diag(W2).any(), "zero diagonal", W2)
    if start_ok:
        require(acyclic(W2), "acyclic", W2)
    best, top, gap = search(W1, X, disc, d["poisson"])
    got = bic(W2, X, disc, d["poisson"])
    require(got >= top - 1e-4 * (1 + abs(top)), "the second phase returns the best-scoring graph it may reach",
            W1, W2, best, got, top)
    require(got <= top + 1e-4 * (1 + abs(top)), "the graph is one the second phase may reach", W1, W2, best)
    if gap > 1e-3 * (1 + abs(top)):
        require(np.array_equal(W2 != 0, best != 0), "graph of the second phase", W2, best)
    for a, b in zip(*np.nonzero(W2)):
        require(W2[a, b] == W1[a, b] or W2[a, b] == 1, "new edges are marked by 1, old ones keep their weight", W1, W2)
    changed = bool(((W1 != 0) != (W2 != 0)).any())
    ctx.label("changed" if changed else "same", "poisson" if d["poisson"] else "binary", d["loss"], f"p={p}")
    ctx.nontrivial(changed)


@P.clause("lim_global", st.fixed_dictionaries({
    "seed": gen.SEED, "p": st.sampled_from([2, 3]), "n": st.integers(150, 400),
    "loss": st.sampled_from(["laplace", "logistic", "poisson"]), "l1": st.sampled_from([0.05, 0.02]),
    "thr": st.sampled_from([0.02, 0.1, 0.4])}),
    quick=120, thorough=2000, rule="an edge is found")
def lim_global(d, ctx):
    """Losses of one kind: the weights are the penalised optimum of the order that was found."""
    rng = np.random.default_rng(d["seed"])
    p, n = d["p"], d["n"]
    disc = np.full(p, d["loss"] != "laplace")
    X, _ = mixed_data(rng, p, n, disc, d["loss"] == "poisson", 1.0)
    np.random.seed(d["seed"] % 1000)
    m = lingam.LiM(w_threshold=0.0, lambda1=d["l1"], loss_type=d["loss"])
    W = np.asarray(quiet(m.fit, X, (1.0 - disc)[None], only_global=True))
    np.random.seed(d["seed"] % 1000)
    cut = np.asarray(quiet(lingam.LiM(w_threshold=d["thr"], lambda1=d["l1"], loss_type=d["loss"]).fit,
                           X, (1.0 - disc)[None], only_global=True))
    if (np.abs(np.abs(W) - d["thr"]) > 1e-6).all():
        require(np.allclose(cut, np.where(np.abs(W) < d["thr"], 0, W), rtol=1e-6, atol=1e-9),
                "exactly the weights below the threshold are dropped", W, cut)
    o = order_of(W, 0.01)
    require(not np.diag(W).any(), "zero diagonal", W)
    require(order_of(W, 0.1) is not None, "acyclic", W)
    if o is None:
        ctx.reject("tiny weights form a cycle")
    best = optimum(d["loss"], X, o, d["l1"], 1.0 / n)
    if np.abs(best).sum() < 0.2:
        ctx.reject("nearly empty graph")
    miss = shortfall(d["loss"], X, W, best, o, d["l1"], 1.0 / n)
    if miss is None:
        ctx.reject("nearly empty graph")
    require(miss < 0.03, "weights are the penalised optimum of their own order", W, best, miss)
    ctx.label("exact" if miss < 0.01 else "close" if miss < 0.1 else "far")
    ctx.label(d["loss"], f"p={p}")
    ctx.nontrivial(bool((np.abs(best) > 0.1).any()))


@P.clause("likelihood", gen.data_spec(pmin=2, pmax=5, nmin=10, nmax=80, i=st.integers(0, 4), c=st.sampled_from([0.0, 1.5, -2.0])),
          quick=150, thorough=2000, rule="some coefficient is non-zero")
def likelihood(d, ctx):
    X, B, order, rng = gen.make_data(d)
    i = d["i"] % d["p"]
    b = B[i] + 0.1 * rng.normal(size=d["p"]) * (rng.random(d["p"]) < 0.5)
    b[i] = 0
    r = X[:, i] - X @ b
    v = variance_i(X.T, i, b)
    require(np.isclose(v, r.var(), rtol=1e-9), "variance of a disturbance", v, r.var())
    s = (r - d["c"]) / r.std()
    require(np.allclose(log_p_super_gaussian(s), -np.sqrt(2) * np.abs(s) - 0.35, rtol=1e-12), "log density")
    want = (-np.sqrt(2) * np.abs(s) - 0.35).sum() - len(X) * np.log(r.std())
    got = likelihood_i(X.T, i, b, d["c"])
    require(np.isclose(got, want, rtol=1e-8, atol=1e-8), "log-likelihood of a component", got, want)
    ctx.nontrivial(bool(b.any()))
