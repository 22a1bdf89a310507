"""C18: the independence measures are the published ones."""
import numpy as np
import lingam
from hypothesis import strategies as st
from lingam.hsic import get_gram_matrix, get_kernel_width, hsic_test_gamma, hsic_teststat
from lingam.utils import f_correlation

import gen
import ref
import ref_ind
from core import HarnessError, Property, require

P = Property("C18", boost=4)

RELS = ["independent", "linear", "square", "sine", "equal", "scale"]


@st.composite
def pair_spec(draw, nmin=8, nmax=180):
    return {
        "seed": draw(gen.SEED), "n": draw(gen.size(nmin, nmax, nmax + 200)),
        "rel": draw(st.sampled_from(RELS)),
        "noise": draw(st.sampled_from(["uniform", "gauss", "laplace", "exp", "bimodal"])),
        "sx": draw(st.sampled_from([1.0, 1e-4, 300.0])), "sy": draw(st.sampled_from([1.0, 20.0])),
        "lx": draw(st.sampled_from([0.0, 3.0])), "dx": draw(gen.size(1, 3, 9, 6)),
        "dy": draw(gen.size(1, 2, 7, 6)), "bw": draw(st.sampled_from(["mdbs", "mdbs", "scott", "silverman"])),
        "flat": draw(st.booleans()), "grid": draw(st.sampled_from([0, 0, 0, 2, 5])),
    }


def pair(d, dx=1, dy=1):
    rng = np.random.default_rng(d["seed"])
    n = d["n"]
    X = np.column_stack([gen.noise(rng, d["noise"], n) for _ in range(dx)])
    e = np.column_stack([gen.noise(rng, d["noise"], n) for _ in range(dy)])
    b = X[:, [0]]
    Y = {"independent": e, "linear": e + b, "square": 0.5 * e + b**2, "sine": 0.3 * e + np.sin(3 * b),
         "equal": b + 0 * e, "scale": e * (0.2 + np.abs(b))}[d["rel"]]
    if d.get("grid"):
        # repeated values
        X, Y = np.round(d["grid"] * X), np.round(d["grid"] * Y)
        if dx > 1 or dy > 1:
            return rng, X, Y
    return rng, X * d["sx"] + d["lx"] * d["sx"], Y * d["sy"]


@P.clause("hsic", pair_spec(), quick=700, thorough=12000,
          rule="the two samples are dependent or the p-value is neither 0 nor 1")
def hsic(d, ctx):
    multi = d["bw"] == "mdbs"
    rng, X, Y = pair(d, d["dx"] if multi else 1, d["dy"] if multi else 1)
    n = d["n"]
    ax, ay = X, Y
    if d["flat"] and X.shape[1] == 1 and Y.shape[1] == 1:
        ax, ay = X[:, 0], Y[:, 0]
    ks, ys = ax.copy(), ay.copy()
    s, p = hsic_test_gamma(ax, ay, bw_method=d["bw"])
    require(np.array_equal(ks, ax) and np.array_equal(ys, ay), "the samples were modified")
    rs, rp = ref.hsic_ref(X, Y, bw=d["bw"])
    if not (np.isfinite(rs) and np.isfinite(rp)):
        raise HarnessError("reference not finite")
    require(abs(s - rs) <= 1e-6 * (1 + abs(rs)), "statistic", s, rs)
    require(abs(p - rp) <= 1e-7 + 1e-4 * rp, "p-value", p, rp)
    require(0 <= p <= 1, "p-value outside [0, 1]", p)
    # small p-values are no rounding error
    require(rp < 1e-200 or abs(np.log(max(p, 1e-300) / rp)) < 0.05, "order of a p-value", p, rp)
    # symmetric in its arguments
    s2, p2 = hsic_test_gamma(ay, ax, bw_method=d["bw"])
    require(abs(s2 - s) <= 1e-7 * (1 + s) and abs(p2 - p) <= 1e-7 + 1e-4 * p, "symmetry", (s, p), (s2, p2))
    # units and location do not matter
    s3, p3 = hsic_test_gamma(ax * 4.0 + X.std() * 2, ay * 0.25, bw_method=d["bw"])
    require(abs(s3 - s) <= 1e-5 * (1 + s) and abs(p3 - p) <= 1e-6 + 1e-3 * p, "units", (s, p), (s3, p3))
    # the order of the observations does not matter (the width uses at most 100 of them)
    if n <= 100 or d["bw"] != "mdbs":
        o = rng.permutation(n)
        s4, p4 = hsic_test_gamma(ax[o], ay[o], bw_method=d["bw"])
        require(abs(s4 - s) <= 1e-6 * (1 + s) and abs(p4 - p) <= 1e-7 + 1e-4 * p, "row order", p, p4)
    if multi:
        w = get_kernel_width(X)
        rw = ref.kernel_width_ref(X)
        require(abs(w - rw) <= 1e-6 * rw, "kernel width", w, rw)
        K, Kc = get_gram_matrix(X, w)
        L, Lc = get_gram_matrix(Y, get_kernel_width(Y))
        require(np.allclose(np.diag(K), 1) and np.allclose(K, K.T), "Gram matrix")
        require(abs(Kc.sum(axis=0)).max() < 1e-8 * n, "centring")
        require(abs(hsic_teststat(Kc, Lc, n) - s) <= 1e-8 * (1 + s), "statistic from the matrices")
    ctx.label(d["rel"], d["bw"], "n>100" if n > 100 else "n<=100")
    ctx.nontrivial(d["rel"] != "independent" or 1e-6 < p < 1)


@P.clause("fcorr", pair_spec(nmin=10, nmax=250), quick=250, thorough=4000,
          rule="dependent samples, or a value strictly between 0 and 1")
def fcorr(d, ctx):
    rng, X, Y = pair(d)
    x, y = X[:, 0], Y[:, 0]
    n = d["n"]
    v = f_correlation(x.reshape(-1, 1), y) if not d["flat"] else f_correlation(x, y)
    r = ref_ind.fcorr(x, y)
    require(abs(v - r) < 2e-3, "F-correlation", v, r)
    e = ref_ind.fcorr_exact(x, y)
    require(abs(v - e) < 0.06, "F-correlation against the full kernel matrices", v, e)
    require(-1e-9 <= v <= 1 + 1e-9, "outside [0, 1]", v)
    v2 = f_correlation(y, x)
    require(abs(v2 - v) < 2e-3, "symmetry", v, v2)
    v3 = f_correlation(-3.0 * x + 5 * d["sx"], y * 0.1)
    require(abs(v3 - v) < 2e-3, "units", v, v3)
    o = rng.permutation(n)
    v4 = f_correlation(x[o], y[o])
    require(abs(v4 - v) < 0.06, "row order", v, v4)
    if d["rel"] == "equal":
        require(v > 0.75, "a sample with itself", v)
    ctx.label(d["rel"])
    ctx.nontrivial(d["rel"] != "independent" or 0.01 < v < 0.99)


@P.clause("fcorr_large", st.fixed_dictionaries({
    "seed": gen.SEED, "n": st.sampled_from([999, 1000, 1001, 1002, 1100]),
    "rel": st.sampled_from(RELS), "noise": st.sampled_from(["uniform", "laplace"]),
    "sx": st.just(1.0), "sy": st.just(1.0), "lx": st.just(0.0)}),
    quick=6, thorough=60, rule="every case")
def fcorr_large(d, ctx):
    """The regularisation changes above 1000 observations."""
    rng, X, Y = pair(d)
    v, r = f_correlation(X[:, 0], Y[:, 0]), ref_ind.fcorr(X[:, 0], Y[:, 0])
    require(abs(v - r) < 2e-3, "F-correlation", v, r)
    ctx.label("n>1000" if d["n"] > 1000 else "n<=1000")
    ctx.nontrivial()


@P.clause("different_lengths", st.fixed_dictionaries({
    "seed": gen.SEED, "n": st.integers(10, 40), "m": st.integers(10, 40)}), quick=10, thorough=60,
    rule="the lengths differ")
def lengths(d, ctx):
    if d["n"] == d["m"]:
        ctx.reject()
    rng = np.random.default_rng(d["seed"])
    try:
        f_correlation(rng.normal(size=d["n"]), rng.normal(size=d["m"]))
    except ValueError:
        ctx.nontrivial()
        return
    require(False, "samples of different lengths were accepted")


@P.clause("power", st.fixed_dictionaries({"seed": gen.SEED}), quick=8, thorough=60, rule="every case")
def power(d, ctx):
    """The test keeps its level under independence and finds strong dependence."""
    rng = np.random.default_rng(d["seed"])
    n, reps = 80, 150
    ps = []
    for _ in range(reps):
        x = gen.noise(rng, ["uniform", "gauss", "laplace"][int(rng.integers(3))], n)
        y = gen.noise(rng, ["uniform", "gauss", "laplace"][int(rng.integers(3))], n)
        ps.append(hsic_test_gamma(x, y)[1])
    ps = np.array(ps)
    # binomial(150, 0.05..0.1): far outside these bounds only if the test is off
    require((ps < 0.05).mean() < 0.17, "rejects independent samples too often", (ps < 0.05).mean())
    require((ps < 0.5).mean() > 0.25, "hardly ever a small p-value", (ps < 0.5).mean())
    x = rng.uniform(-1, 1, n)
    require(hsic_test_gamma(x, x**2 + 0.1 * rng.normal(size=n))[1] < 0.01, "misses a parabola")
    require(hsic_test_gamma(x, x + 0.3 * rng.normal(size=n))[1] < 0.01, "misses a line")
    ctx.nontrivial()


@P.clause("model_errors", gen.data_spec(
    pmin=2, pmax=4, nmin=30, nmax=120, noises=["uniform", "exp", "laplace", "gauss"],
    model=st.sampled_from(["direct", "ica", "multi", "highdim", "kernel"]), other=st.booleans()),
    quick=100, thorough=2000, rule="the model has an edge")
def model_errors(d, ctx):
    """The p-value of two errors is the test applied to X - BX of the data handed in."""
    if d["model"] == "kernel":
        d["n"], d["p"] = min(d["n"], 45), min(d["p"], 3)
    X, *_ = gen.make_data(d)
    p = d["p"]
    ctx.label(d["model"])
    if d["model"] == "multi":
        Xs = [X, gen.make_data(d, n=d["n"] + 5, seed_shift=3)[0]]
        m = lingam.MultiGroupDirectLiNGAM().fit(Xs)
        Bs = m.adjacency_matrices_
        if d["other"]:
            Xs = [Xs[0][::-1], Xs[1][: d["n"]]]
        pvs = m.get_error_independence_p_values(Xs)
        require(len(pvs) == 2, "one matrix per data set")
    else:
        m = {"direct": lambda: lingam.DirectLiNGAM(), "ica": lambda: lingam.ICALiNGAM(random_state=1),
             "highdim": lambda: lingam.HighDimDirectLiNGAM(),
             "kernel": lambda: lingam.DirectLiNGAM(measure="kernel")}[d["model"]]().fit(X)
        Bs = [m.adjacency_matrix_]
        Xs = [gen.make_data(d, n=40, seed_shift=4)[0] if d["other"] else X]
        pvs = [m.get_error_independence_p_values(Xs[0])]
    for Xi, B, pv in zip(Xs, Bs, pvs):
        pv = np.asarray(pv)
        require(pv.shape == (p, p), "shape", pv.shape)
        require(np.array_equal(pv, pv.T) and not np.any(np.diag(pv)), "symmetry and diagonal", pv)
        E = Xi - Xi @ np.asarray(B).T
        for i in range(p):
            for j in range(i):
                q = ref.hsic_ref(E[:, i], E[:, j])[1]
                require(abs(pv[i, j] - q) <= 1e-6 + 1e-3 * q, f"errors {i},{j}", pv[i, j], q)
    ctx.nontrivial(any(np.any(B) for B in Bs))
