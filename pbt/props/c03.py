"""C03: the causal order is the one the published criterion selects."""
import numpy as np
import lingam
from hypothesis import strategies as st

import gen
import ref
from core import Property, require

P = Property("C03", boost=4)


@P.clause(
    "pairwise_measure",
    gen.data_spec(pmin=2, pmax=6, nmin=30, nmax=300, pwide=12, nlong=3000, groups=st.integers(1, 3)),
    quick=500, thorough=8000,
    rule="at least one step of the order is decided by comparing scores of several variables",
)
def pairwise(d, ctx):
    X, *_ = gen.make_data(d)
    if d["groups"] == 1:
        m = lingam.DirectLiNGAM().fit(X)
        k = ref.direct_order_check(X, m.causal_order_)
    else:
        Xs = [X] + [gen.make_data(d, n=20 + 37 * g, seed_shift=g)[0]
                    for g in range(1, d["groups"])]
        m = lingam.MultiGroupDirectLiNGAM().fit(Xs)
        k = ref.direct_order_check(None, m.causal_order_, datasets=Xs)
    ctx.label(f"groups={d['groups']}", d["noise"])
    ctx.nontrivial(k > 0)


@P.clause(
    "kernel_measure",
    gen.data_spec(pmin=2, pmax=4, nmin=20, nmax=60),
    quick=120, thorough=2000,
    rule="at least one step of the order is decided by comparing scores of several variables",
)
def kernel(d, ctx):
    X, *_ = gen.make_data(d)
    m = lingam.DirectLiNGAM(measure="kernel").fit(X)
    ctx.nontrivial(ref.direct_order_check(X, m.causal_order_, "kernel") > 0)


@P.clause(
    "kernel_parameters",
    st.fixed_dictionaries({"seed": gen.SEED, "n": st.sampled_from([300, 500, 700, 800, 900, 1000]) | st.integers(120, 1000)}),
    quick=9, thorough=200,
    rule="the published parameters and those for large samples lead to different orders",
)
def kernel_parameters(d, ctx):
    """Pairs on which the parameters of the kernel measure matter."""
    rng = np.random.default_rng(d["seed"])
    n, small = d["n"], 60
    for _ in range(40):
        u, v = (0.4 * rng.laplace(size=small) + 0.3 * rng.normal(size=small) for _ in range(2))
        X = np.column_stack([u, u * rng.uniform(0.3, 1.5) + v])
        Z = (X - X.mean(0)) / X.std(0)
        a, b = ([ref.kernel_mi(Z[:, j], ref._res(Z[:, 1 - j], Z[:, j]), small, k) for j in (0, 1)] for k in ((2e-2, 1.0), (2e-3, 0.5)))
        if (a[0] - a[1]) * (b[0] - b[1]) < 0:
            ctx.nontrivial()
            break
    # repeating rows keeps the measure, so the larger sample is decided alike
    X = X[np.arange(n) % small] + 1e-3 * rng.normal(size=(n, 2))
    m = lingam.DirectLiNGAM(measure="kernel").fit(X)
    ref.direct_order_check(X, m.causal_order_, "kernel")


@P.clause(
    "kernel_sizes",
    gen.data_spec(pmin=3, pmax=4, nmin=90, nmax=260, huge=st.sampled_from([False] * 5 + [True])),
    quick=12, thorough=300,
    rule="at least one step of the order is decided by comparing scores of several variables",
)
def kernel_sizes(d, ctx):
    """The regularisation of the measure changes above 1000 observations only."""
    if d["huge"]:
        d = dict(d, n=1001 + d["n"] % 30, p=2)
    X, *_ = gen.make_data(d)
    m = lingam.DirectLiNGAM(measure="kernel").fit(X)
    ctx.label("above 1000" if d["huge"] else "up to 1000")
    ctx.nontrivial(ref.direct_order_check(X, m.causal_order_, "kernel") > 0)


@P.clause(
    "with_prior_knowledge",
    gen.data_spec(pmin=3, pmax=5, nmin=30, nmax=120,
                  pairs=st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4),
                                           st.sampled_from(["path", "nopath"])),
                                 min_size=1, max_size=3),
                  groups=st.integers(1, 2)),
    quick=300, thorough=5000,
    rule="the prior knowledge is consistent and some step is still decided by the score",
)
def with_pk(d, ctx):
    p = d["p"]
    pk = -np.ones((p, p), int)
    for a, b, k in d["pairs"]:
        if a < p and b < p and a != b:
            pk[b, a] = 1 if k == "path" else 0
    C = np.zeros((p, p))
    for a in range(p):
        for b in range(p):
            if a != b and (ref.must_precede(pk, a, b) or (pk[b, a] == 1 and pk[a, b] == 1)):
                C[b, a] = 1
    if not ref.is_acyclic(C):
        ctx.reject("inconsistent")
    X, *_ = gen.make_data(d)
    if d["groups"] == 1:
        m = lingam.DirectLiNGAM(prior_knowledge=pk).fit(X)
        k = ref.direct_order_check(X, m.causal_order_, pk=pk)
    else:
        Xs = [X, gen.make_data(d, n=70, seed_shift=3)[0]]
        m = lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk).fit(Xs)
        k = ref.direct_order_check(None, m.causal_order_, pk=pk, datasets=Xs)
    ctx.nontrivial(k > 0 and C.any())


@P.clause(
    "with_soft_knowledge",
    gen.data_spec(pmin=3, pmax=5, nmin=30, nmax=120,
                  entries=st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4), st.sampled_from([0, 0, 1])),
                                   max_size=8),
                  whole=st.lists(st.tuples(st.sampled_from(["row", "column"]), st.integers(0, 4)), max_size=2),
                  groups=st.integers(1, 2)),
    quick=200, thorough=4000,
    rule="knowledge is given and some step is still decided by the score",
)
def with_soft(d, ctx):
    """Known exogenous variables first, known sinks and effects later, known zeros in the scores."""
    p = d["p"]
    pk = -np.ones((p, p), int)
    for kind, i in d["whole"]:
        if i < p and kind == "row":
            pk[i] = 0
        elif i < p:
            pk[:, i] = 0
    for a, b, v in d["entries"]:
        if a < p and b < p and a != b:
            pk[b, a] = v
    C = (pk == 1).astype(float)
    np.fill_diagonal(C, 0)
    if not ref.is_acyclic(C):
        ctx.reject("inconsistent")
    X, *_ = gen.make_data(d)
    if d["groups"] == 1:
        m = lingam.DirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=True).fit(X)
        k = ref.direct_order_check(X, m.causal_order_, pk=pk, soft=True)
    else:
        Xs = [X, gen.make_data(d, n=70, seed_shift=3)[0]]
        m = lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=True).fit(Xs)
        k = ref.direct_order_check(None, m.causal_order_, pk=pk, datasets=Xs, soft=True)
    if len(ref.candidates_soft(pk, list(range(p)))[1]):
        ctx.label("unaffected")
    ctx.nontrivial(k > 0 and (pk >= 0).any())


RECOVERY = {
    "seed": gen.SEED,
    "p": st.integers(2, 4),
    "noise": st.sampled_from(["uniform", "exp", "laplace"]),
    "density": st.sampled_from([0.4, 0.8, 1.0]),
    "loc": st.sampled_from([0.0, 5.0]),
    "model": st.sampled_from(["direct", "direct", "multi"]),
    "int": st.booleans(),
}


@P.clause(
    "recovers_truth",
    st.fixed_dictionaries(RECOVERY),
    quick=150, thorough=3000,
    rule="the generating graph has at least one edge",
)
def recovers(d, ctx):
    """Large samples from an identifiable linear non-Gaussian DAG."""
    rng = np.random.default_rng(d["seed"])
    B, order = gen.random_dag(rng, d["p"], d["density"], 0.6, 1.2)
    B = np.abs(B)  # positive strengths: no cancelling paths
    n = 6000
    X, _ = gen.sem(rng, B, order, n, d["noise"])
    ctx.label(d["model"], d["noise"])
    X = X + d["loc"]
    if d["model"] == "multi":
        Xs = [X[: n // 3], X[n // 3 :]]
        m = lingam.MultiGroupDirectLiNGAM().fit(Xs)
        Bs = m.adjacency_matrices_
    else:
        m = lingam.DirectLiNGAM().fit(np.round(X * 1000).astype(int) if d["int"] else X)
        Bs = [m.adjacency_matrix_]
    # judge only samples whose order the criterion itself decides clearly and rightly
    ro, margin = ref.pw_order([X] if d["model"] == "direct" else Xs)
    rp = {v: k for k, v in enumerate(ro)}
    if margin < 1e-9 or any(rp[f] > rp[t] for f, t in ref.edges(B)):
        ctx.reject("sample not decisive")
    pos = {int(v): k for k, v in enumerate(m.causal_order_)}
    for f, t in ref.edges(B):
        require(pos[f] < pos[t], f"true edge x{f} -> x{t} contradicted", m.causal_order_, B)
    for Bh in Bs:
        tol = 0.15 if len(Bs) == 1 else 0.25
        require(np.max(np.abs(Bh - B)) < tol, "coefficients far from the truth", Bh, B)
    ctx.nontrivial(bool(ref.edges(B)))


@P.clause(
    "ica_order",
    gen.data_spec(pmin=2, pmax=6, nmin=80, nmax=400, pwide=9, nlong=2000, noises=["uniform", "exp", "bimodal"],
                  rs=st.integers(0, 50)),
    quick=300, thorough=5000,
    rule="the unmixing matrix had to be made triangular by zeroing further entries",
)
def ica_order(d, ctx):
    """Reference post-processing of the same FastICA unmixing matrix."""
    import itertools
    from sklearn.decomposition import FastICA
    from core import HarnessError

    X, *_ = gen.make_data(d)
    p = d["p"]
    m = lingam.ICALiNGAM(random_state=d["rs"]).fit(X)
    W = FastICA(max_iter=1000, random_state=d["rs"]).fit(X).components_
    # best row permutation: smallest sum of 1/|diagonal|
    best, bestv, second = None, np.inf, np.inf
    with np.errstate(divide="ignore"):
        cost = 1 / np.abs(W)
    for perm in itertools.permutations(range(p)):
        v = sum(cost[perm[i], i] for i in range(p))
        if v < bestv:
            best, bestv, second = perm, v, bestv
        elif v < second:
            second = v
    if second - bestv < 1e-6 * bestv:
        ctx.reject("near tie")
    V = W[list(best)]
    Bm = np.eye(p) - V / np.diag(V)[:, None]
    mags = np.abs(Bm)
    ranked = sorted(((mags[i, j], i, j) for i in range(p) for j in range(p)))
    vals = [r[0] for r in ranked]
    k = p * (p + 1) // 2
    extra = 0
    while True:
        keep = {(j, i) for _, i, j in ranked[k:]}
        D = np.zeros((p, p))
        for f, t in keep:
            D[t, f] = 1
        if ref.is_acyclic(D):
            break
        k += 1
        extra += 1
    if 0 < k < p * p and vals[k] - vals[k - 1] < 1e-7 * (1 + vals[k]):
        ctx.reject("near tie")
    pos = {int(v): q for q, v in enumerate(m.causal_order_)}
    require(sorted(pos) == list(range(p)), "not a permutation", m.causal_order_)
    for f, t in keep:
        require(pos[f] < pos[t],
                f"order puts x{t} before x{f} against the strongest entries", m.causal_order_)
    ctx.label("extra_zeros" if extra else "triangular_at_once")
    ctx.nontrivial(extra > 0 or bool(keep))
