"""Generators: small JSON-able specs drawn by Hypothesis, expanded to data."""
import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2**31 - 1)
NOISES = ["uniform", "laplace", "exp", "bimodal", "cubic", "gauss", "mixed"]
NONGAUSS = ["uniform", "laplace", "exp", "bimodal", "mixed"]


def noise(rng, kind, n, j=0):
    if kind == "mixed":
        kind = ["uniform", "laplace", "exp", "bimodal"][j % 4]
    if kind == "uniform":
        return rng.uniform(-1, 1, n) * np.sqrt(3)
    if kind == "laplace":
        return rng.laplace(0, 1 / np.sqrt(2), n)
    if kind == "exp":
        return rng.exponential(1.0, n) - 1
    if kind == "bimodal":
        return rng.choice([-1.0, 1.0], n) * 0.9 + rng.normal(0, 0.43, n)
    if kind == "cubic":
        z = rng.normal(0, 1, n)
        return np.sign(z) * np.abs(z) ** 1.8
    if kind == "gauss":
        return rng.normal(0, 1, n)
    raise ValueError(kind)


def random_dag(rng, p, density=0.5, lo=0.5, hi=1.5):
    """Random DAG in a random variable order; B[to, from]."""
    order = rng.permutation(p)
    B = np.zeros((p, p))
    for a in range(p):
        for b in range(a):
            if rng.random() < density:
                B[order[a], order[b]] = rng.uniform(lo, hi) * rng.choice([-1, 1])
    return B, [int(i) for i in order]


def sem(rng, B, order, n, kind="uniform", scales=None, loc=None):
    p = len(B)
    E = np.column_stack([noise(rng, kind, n, j) for j in range(p)])
    if scales is not None:
        E = E * np.asarray(scales)
    X = np.zeros((n, p))
    for i in order:
        X[:, i] = E[:, i] + X @ B[i]
    if loc is not None:
        X = X + np.asarray(loc)
    return X, E


def size(lo, hi, large, one_in=15):
    """A whole number, now and then a large one."""
    return st.integers(1, one_in).flatmap(
        lambda k: st.integers(lo, hi) if k < one_in else st.integers((hi + large) // 2, large))


@st.composite
def data_spec(draw, pmin=2, pmax=5, nmin=30, nmax=200, noises=NOISES, pwide=None, nlong=None,
              **extra):
    """pwide / nlong: now and then many variables (two-digit labels) or a large sample."""
    d = {
        "seed": draw(SEED),
        "p": draw(st.integers(pmin, pmax)),
        "n": draw(st.integers(nmin, nmax)),
        "noise": draw(st.sampled_from(noises)),
        "density": draw(st.sampled_from([0.0, 0.3, 0.6, 1.0])),
        "scale": draw(st.sampled_from([1.0, 1.0, 1e-3, 50.0])),
        "hetero": draw(st.booleans()),
        "loc": draw(st.sampled_from([0.0, 0.0, 7.0])),
    }
    for k, v in extra.items():
        d[k] = draw(v)
    if pwide and draw(st.integers(0, 14)) == 14:
        d["p"] = draw(st.integers(max(pmax + 1, pwide - 4), pwide))
        d["n"] = max(d["n"], 6 * d["p"])
        d["density"] = min(d["density"], 0.3)
    if nlong and draw(st.integers(0, 14)) == 14:
        d["n"] = draw(st.integers(nlong // 2, nlong))
    return d


def make_data(d, n=None, seed_shift=0, lo=0.5, hi=1.5):
    """Expand a data_spec: X, B, order, rng."""
    rng = np.random.default_rng([d["seed"], seed_shift])
    p = d["p"]
    B, order = random_dag(np.random.default_rng([d["seed"], 0]), p, d["density"], lo, hi)
    scales = rng.uniform(0.5, 2.0, p) if d.get("hetero") else np.ones(p)
    X, _ = sem(rng, B, order, n or d["n"], d["noise"], scales)
    X = X * d.get("scale", 1.0) + d.get("loc", 0.0) * d.get("scale", 1.0)
    return X, B, order, rng


def nonlinear_data(rng, p, n, density=0.6):
    """Additive nonlinear SEM (for RESIT / CAMUV)."""
    B, order = random_dag(rng, p, density)
    X = np.zeros((n, p))
    fs = [np.tanh, lambda v: v**2, np.sin, lambda v: v]
    for i in order:
        x = rng.uniform(-1, 1, n)
        for j in np.nonzero(B[i])[0]:
            f = fs[rng.integers(len(fs))]
            x = x + 1.5 * f(2 * X[:, j])
        X[:, i] = (x - x.mean()) / x.std()
    return X, (B != 0).astype(float), order


# matrices drawn entry by entry, so that failures shrink to small graphs
COEFS = st.sampled_from(
    [0.0, 0.0, 0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 0.25, -0.1, 1e-3, 3.0]
)


def chained(rng, p, order, density=0.12):
    """A DAG with a path through all variables and a few further edges."""
    B = np.zeros((p, p))
    for k in range(1, p):
        B[order[k], order[k - 1]] = rng.choice([-1, 1]) * rng.uniform(0.2, 1.5)
        for m in range(k - 1):
            if rng.random() < density:
                B[order[k], order[m]] = rng.uniform(-1.5, 1.5)
    return B


@st.composite
def dag_matrix(draw, pmin=2, pmax=6, coefs=COEFS, permute=True, wide=None):
    """A DAG adjacency matrix (list of lists), B[to][from]; wide: now and then up to that many variables."""
    if wide and draw(st.integers(0, 11)) == 11:
        rng = np.random.default_rng(draw(SEED))
        p = int(rng.integers(pmax + 1, wide + 1))
        if rng.random() < 0.3:
            return np.round(chained(rng, p, rng.permutation(p)), 3).tolist()
        return np.round(random_dag(rng, p, float(rng.uniform(0.1, 0.4)), 0.02, 1.8)[0], 3).tolist()
    p = draw(st.integers(pmin, pmax))
    order = draw(st.permutations(range(p))) if permute else list(range(p))
    B = [[0.0] * p for _ in range(p)]
    for a in range(p):
        for b in range(a):
            B[order[a]][order[b]] = draw(coefs)
    return B


@st.composite
def any_matrix(draw, pmin=2, pmax=5, coefs=COEFS, diag=False):
    p = draw(st.integers(pmin, pmax))
    B = [[draw(coefs) for _ in range(p)] for _ in range(p)]
    if not diag:
        for i in range(p):
            B[i][i] = 0.0
    return B
