"""C06: total causal effects."""
import warnings

import numpy as np
import lingam
from hypothesis import strategies as st
from lingam.utils import calculate_total_effect

import gen
import ref
from core import Property, require

P = Property("C06", boost=3)


def expected_regression(X, B, fr, to):
    row = np.asarray(B[fr], float)
    if np.isnan(row).any():
        return np.nan
    parents = [int(j) for j in np.nonzero(row)[0]]
    c, _ = ref.ols(X[:, [fr] + parents], X[:, to])
    return c[0]


def same(a, b, tol=1e-6):
    a, b = float(a), float(b)
    if np.isnan(a) or np.isnan(b):
        return np.isnan(a) and np.isnan(b)
    return abs(a - b) <= tol * (1 + abs(b))


def build(kind):
    return {
        "direct": lambda: lingam.DirectLiNGAM(),
        "ica": lambda: lingam.ICALiNGAM(random_state=0),
        "multi": lambda: lingam.MultiGroupDirectLiNGAM(),
        "bottomup": lambda: lingam.BottomUpParceLiNGAM(alpha=0.2),
        "rcd": lambda: lingam.RCD(cor_alpha=0.05, ind_alpha=0.02),
        "highdim": lambda: lingam.HighDimDirectLiNGAM(),
        "multircd": lambda: lingam.MultiGroupRCD(cor_alpha=0.05, ind_alpha=0.02, MLHSICR=False),
    }[kind]()


def confounded(d):
    """Linear data in which some variables share a hidden cause."""
    X, B, order, rng = gen.make_data(d)
    if d.get("latent"):
        h = rng.uniform(-1, 1, len(X)) * X.std()
        a, b = rng.choice(d["p"], 2, replace=False)
        X[:, a] += 2 * h
        X[:, b] += 2 * h
    return X


def position(order):
    pos = {}
    for k, g in enumerate(order):
        for v in (g if np.ndim(g) else [g]):
            pos[int(v)] = k
    return pos


@P.clause(
    "fitted_models",
    gen.data_spec(pmin=2, pmax=5, nmin=40, nmax=120, pwide=11, noises=["uniform", "exp", "laplace"],
                  latent=st.booleans(), other=st.booleans(), units=st.booleans(), npidx=st.booleans(),
                  model=st.sampled_from(
                      ["direct", "direct", "ica", "multi", "bottomup", "rcd", "highdim", "multircd"])),
    quick=700, thorough=10000,
    rule="some source variable has a parent in the fitted graph",
)
def fitted(d, ctx):
    kind = d["model"]
    ctx.label(kind)
    if kind in ("bottomup", "rcd", "multircd"):
        d["p"] = min(d["p"], 4)
        d["n"] = min(d["n"], 80)
    X = confounded(d)
    multi = kind.startswith("multi")
    p = d["p"]
    m = build(kind)
    X2 = gen.make_data(d, seed_shift=9)[0] if kind != "multircd" else confounded(dict(d, seed=d["seed"] + 1))
    # every variable in units of its own: coefficients of any size
    u = 10.0 ** np.random.default_rng(d["seed"]).integers(-3, 4, p) if d.get("units") else np.ones(p)
    X, X2 = X * u, X2 * u
    if multi:
        m.fit([X, X2])
    else:
        m.fit(X)
    Bs = m.adjacency_matrices_ if multi else [m.adjacency_matrix_]
    # the data handed in later need not be the training data
    Y = gen.make_data(d, n=d["n"] + 13, seed_shift=11)[0] * u if d["other"] else X
    data = [Y, X2] if multi else Y
    pos = position(m.causal_order_) if not kind.endswith("rcd") else None
    has_parent = False
    conv = np.int64 if d["npidx"] else int
    for fr in range(p):
        for to in range(p):
            if fr == to:
                continue
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                got = m.estimate_total_effect(data, conv(fr), conv(to))
            order_warned = any("causal order" in str(x.message) for x in w)
            if kind.endswith("rcd"):
                reversed_ = to in m.ancestors_list_[fr]
            else:
                reversed_ = pos[fr] > pos[to]
            require(order_warned == reversed_, f"{kind}: warning about reversed order",
                    order_warned, reversed_, fr, to)
            got = got if multi else [got]
            require(len(got) == len(Bs), "one effect per dataset")
            for g, B, Z in zip(got, Bs, [Y, X2]):
                want = expected_regression(Z, B, fr, to)
                require(same(g, want), f"{kind}: total effect x{fr} -> x{to}", g, want, B)
                has_parent = has_parent or bool(np.nansum(np.abs(B[fr])) > 0)
                if np.isnan(want):
                    ctx.label("nan_" + kind)
            if kind in ("multi", "bottomup", "rcd", "multircd"):
                # effects along directed paths of the fitted graph
                if any(not ref.is_acyclic(B) for B in Bs):
                    ctx.label("cyclic")
                    continue
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    got2 = m.estimate_total_effect2(conv(fr), conv(to))
                require(any("causal order" in str(x.message) for x in w) == reversed_,
                        f"{kind}: warning about reversed order (paths)")
                got2 = got2 if multi else [got2]
                for g, B in zip(got2, Bs):
                    if np.isnan(B[fr]).any():
                        want = np.nan
                    else:
                        want = ref.total_effects(B)[to, fr]
                    require(same(g, want), f"{kind}: path effect x{fr} -> x{to}", g, want, B)
    ctx.nontrivial(has_parent)


@P.clause(
    "truth",
    st.fixed_dictionaries({
        "seed": gen.SEED, "p": st.integers(2, 5), "density": st.sampled_from([0.5, 1.0]),
        "loc": st.sampled_from([0.0, 4.0]),
    }),
    quick=120, thorough=2500,
    rule="some pair is connected by a path of two or more edges",
)
def truth(d, ctx):
    """With the generating graph recovered, the estimate approaches the true effect."""
    rng = np.random.default_rng(d["seed"])
    B, order = gen.random_dag(rng, d["p"], d["density"], 0.5, 1.0)
    X, _ = gen.sem(rng, B, order, 5000, "uniform")
    X = X + d["loc"]
    m = lingam.DirectLiNGAM().fit(X)
    T = ref.total_effects(B)
    pos = position(m.causal_order_)
    if any(pos[f] > pos[t] for f, t in ref.edges(B)):
        ctx.reject("graph not recovered")
    for fr in range(d["p"]):
        for to in range(d["p"]):
            if fr != to and pos[fr] < pos[to]:
                g = m.estimate_total_effect(X, fr, to)
                require(abs(g - T[to, fr]) < 0.12 * (1 + abs(T).max()),
                        f"effect x{fr} -> x{to}", g, T[to, fr])
                g2 = calculate_total_effect(m.adjacency_matrix_, fr, to)
                require(abs(g2 - T[to, fr]) < 0.12 * (1 + abs(T).max()), "path effect", g2)
    ctx.nontrivial(bool((np.abs(B @ B) > 0).any()))
