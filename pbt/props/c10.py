"""C10: a fit depends only on its data and settings, not on what happened before."""
import copy
import warnings

import numpy as np
import pandas as pd
import lingam
from hypothesis import strategies as st
from lingam import CausalEffect
from lingam.experimental import CausalDataGenerator, OutOfSampleCausalTuning
from lingam.utils import make_prior_knowledge
from sklearn.linear_model import LinearRegression

import gen
import ref
from core import Property, require
from props.c09 import long_data, series

P = Property("C10", boost=3)

PLAIN = ["direct", "direct_pk", "soft_pk", "kernel", "ica", "highdim", "resit", "bottomup",
         "bottomup_pk", "rcd", "rcd_fcorr", "camuv", "camuv_pk"]
SERIES = ["var", "var_bic", "var_given", "var_ica", "varma_given", "varma"]
LISTS = ["multi", "multi_pk", "multircd", "multicamuv", "long", "long2", "long_pk"]
OTHER = ["lim", "lina"]


def pk_for(p):
    return make_prior_knowledge(p, exogenous_variables=[0])


def build(kind, p):
    if kind == "direct":
        return lingam.DirectLiNGAM()
    if kind == "direct_pk":
        return lingam.DirectLiNGAM(prior_knowledge=pk_for(p))
    if kind == "soft_pk":
        return lingam.DirectLiNGAM(prior_knowledge=pk_for(p), apply_prior_knowledge_softly=True)
    if kind == "kernel":
        return lingam.DirectLiNGAM(measure="kernel")
    if kind == "ica":
        return lingam.ICALiNGAM(random_state=2)
    if kind == "highdim":
        return lingam.HighDimDirectLiNGAM()
    if kind == "highdim_wide":
        return lingam.HighDimDirectLiNGAM(J=6, K=3)
    if kind == "camuv_wide":
        return lingam.CAMUV(alpha=0.05, num_explanatory_vals=3)
    if kind == "rcd_wide":
        return lingam.RCD(max_explanatory_num=3, cor_alpha=0.05, MLHSICR=True)
    if kind == "resit":
        return lingam.RESIT(regressor=LinearRegression(), alpha=0.05)
    if kind == "bottomup":
        return lingam.BottomUpParceLiNGAM(alpha=0.1)
    if kind == "bottomup_pk":
        return lingam.BottomUpParceLiNGAM(alpha=0.05, prior_knowledge=pk_for(p))
    if kind == "rcd":
        return lingam.RCD(cor_alpha=0.05)
    if kind == "rcd_fcorr":
        return lingam.RCD(independence="fcorr", ind_corr=0.5)
    if kind == "camuv":
        return lingam.CAMUV(alpha=0.05)
    if kind == "camuv_pk":
        return lingam.CAMUV(alpha=0.05, prior_knowledge=[(0, 1)])
    if kind == "var":
        return lingam.VARLiNGAM(lags=2, criterion=None)
    if kind == "var_bic":
        return lingam.VARLiNGAM(lags=3, criterion="bic")
    if kind == "var_given":
        return lingam.VARLiNGAM(lags=1, ar_coefs=0.2 * np.ones((1, p, p)), prune=False)
    if kind == "var_ica":
        return lingam.VARLiNGAM(lags=1, lingam_model=lingam.ICALiNGAM(random_state=2))
    if kind == "varma_given":
        return lingam.VARMALiNGAM(order=(1, 1), criterion=None, ar_coefs=0.2 * np.ones((1, p, p)),
                                  ma_coefs=0.1 * np.ones((1, p, p)))
    if kind == "varma":
        return lingam.VARMALiNGAM(order=(1, 1), criterion=None, max_iter=8)
    if kind == "multi":
        return lingam.MultiGroupDirectLiNGAM()
    if kind == "multi_pk":
        return lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk_for(p))
    if kind == "multircd":
        return lingam.MultiGroupRCD(cor_alpha=0.05)
    if kind == "multicamuv":
        return lingam.MultiGroupCAMUV(alpha=0.05)
    if kind == "long":
        return lingam.LongitudinalLiNGAM()
    if kind == "long2":
        return lingam.LongitudinalLiNGAM(n_lags=2)
    if kind == "long_pk":
        pk = -np.ones((3, 2, p, p))
        pk[:, 0, 0, 1:] = 0
        return lingam.LongitudinalLiNGAM(prior_knowledge=pk)
    if kind == "lim":
        return lingam.LiM(max_iter=5)
    if kind == "lina":
        return lingam.LiNA(max_iter=5)
    raise ValueError(kind)


def data(kind, seed, p, n, density=0.7):
    rng = np.random.default_rng(seed)
    if kind in SERIES:
        return series(rng, n, p, 1 + seed % 2)[0]
    if kind.startswith("long"):
        return long_data(rng, 3, n, p, 1)
    B, order = gen.random_dag(rng, p, density)
    X, _ = gen.sem(rng, B, order, n, ["uniform", "exp", "laplace"][seed % 3])
    if kind == "lim":
        X[:, 0] = X[:, 0] > 0
        return X
    if kind == "lina":
        return np.repeat(X, 3, axis=1) + 0.3 * rng.normal(size=(n, 3 * p))
    if kind in LISTS:
        X2, _ = gen.sem(rng, B, order, n + 11, "uniform")
        return [X, X2]
    return X


def fit(m, kind, X, p):
    np.random.seed(11)
    if kind == "lim":
        return m.fit(X, np.array([[0] + [1] * (p - 1)]))
    if kind == "lina":
        return m.fit(X, np.kron(np.eye(p), np.ones((3, 1))), np.ones((1, p)))
    return m.fit(X)


def snapshot(m):
    out = {}
    for a in ("causal_order_", "causal_orders_", "adjacency_matrix_", "adjacency_matrices_",
              "ancestors_list_", "residuals_"):
        if hasattr(type(m), a):
            try:
                out[a] = copy.deepcopy(getattr(m, a))
            except AttributeError:
                pass
    return out


def flat(v):
    if isinstance(v, (list, tuple, set)):
        v = sorted(v) if isinstance(v, set) else v
        return [flat(x) for x in v]
    if isinstance(v, np.ndarray):
        return v.tolist()
    return v


def equal(a, b, tol=1e-9):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y, tol) for x, y in zip(a, b))
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= tol * (1 + abs(b))


def same(s, t, what, tol=1e-9):
    for k in s:
        require(k in t, f"{what}: {k} missing")
        require(equal(flat(s[k]), flat(t[k]), tol), f"{what}: {k} differs", s[k], t[k])


OPS = ["fit_other", "fit_same", "fit_shape", "fit_bigger", "fit_smaller", "fit_plain", "bootstrap", "pvalues", "effect",
       "fit_bad", "mutate_data"]


def queries(m, kind, X, p, rng):
    """What the fitted model answers, for comparison between objects."""
    out = []
    if kind in OTHER or "camuv" in kind:
        return out
    i, j = (int(v) for v in rng.choice(p, 2, replace=False))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind != "long_pk" and hasattr(m, "get_error_independence_p_values"):
            out.append(m.get_error_independence_p_values(*(() if kind in SERIES or kind.startswith("long") else (X,))))
        if hasattr(m, "estimate_total_effect"):
            out.append(m.estimate_total_effect(X, 2, i, 2, j) if kind.startswith("long") else
                       m.estimate_total_effect(X, X, i, j) if kind.startswith("varma") else m.estimate_total_effect(X, i, j))
        if hasattr(m, "estimate_total_effect2"):
            try:
                out.append(m.estimate_total_effect2(2, i, 2, j) if kind.startswith("long") else
                           m.estimate_total_effect2(p, i, j) if kind in SERIES else m.estimate_total_effect2(i, j))
            except ValueError:
                out.append(-77.0)
    return [flat(np.asarray(v, float)) for v in out]


@P.clause(
    "histories",
    st.fixed_dictionaries({
        "kind": st.sampled_from(PLAIN + PLAIN + SERIES + LISTS + OTHER),
        "seed": gen.SEED, "p": st.integers(2, 3), "n": st.integers(30, 60),
        "ops": st.lists(st.sampled_from(OPS), min_size=1, max_size=4), "reuse": st.booleans(),
    }),
    quick=700, thorough=8000,
    rule="another data set was fitted, or a bootstrap run, on the same object before the final fit",
)
def histories(d, ctx):
    kind, p, n = d["kind"], d["p"], d["n"]
    ctx.label(kind)
    X = data(kind, d["seed"], p, n)
    keep = copy.deepcopy(X)
    fresh = build(kind, p)
    fit(fresh, kind, copy.deepcopy(X), p)
    want = snapshot(fresh)

    m = build(kind, p)
    last = None
    touched = False
    slow = kind in ("varma", "lim", "camuv", "camuv_pk", "camuv_wide", "multicamuv")
    for q, op in enumerate(d["ops"]):
        Z = data(kind, d["seed"] + 1 + q, p, n + 5)
        if op in ("fit_bigger", "fit_smaller") and "pk" not in kind and "given" not in kind:
            k = p + 1 if op == "fit_bigger" or p == 2 else p - 1
            fit(m, kind, data(kind, d["seed"] + 7, k, n + 20), k)
            last, touched = None, True
        elif op == "fit_tiny":
            fit(m, kind, data(kind, d["seed"] + 60 + q, 2, n), 2)
            last, touched = None, True
        elif op == "fit_plain":
            # no relation between the variables
            fit(m, kind, data(kind, d["seed"] + 40 + q, p, n, 0.0), p)
            last, touched = None, True
        elif op == "fit_shape":
            fit(m, kind, data(kind, d["seed"] + 20 + q, p, n), p)
            last, touched = None, True
        elif op in ("fit_other", "mutate_data"):
            fit(m, kind, Z, p)
            last, touched = Z, True
            if op == "mutate_data":
                # results must not be views of the caller's data
                before = snapshot(m)
                for W in (Z if isinstance(Z, list) else [Z]):
                    W *= 3.0
                same(before, snapshot(m), f"{kind}: results changed with the caller's data")
        elif op == "fit_same":
            fit(m, kind, X, p)
            last = X
        elif op == "fit_bad":
            bad = copy.deepcopy(Z)
            (bad[0] if isinstance(bad, list) else bad)[0, 0] = np.nan
            if kind in OTHER:
                continue
            try:
                fit(m, kind, bad, p)
            except ValueError:
                last = None
                continue
            require(False, f"{kind}: NaN accepted")
        elif op == "bootstrap" and hasattr(m, "bootstrap") and not slow:
            np.random.seed(3)
            try:
                m.bootstrap(Z, n_sampling=1 + (d["seed"] + q) % 2)
            except ValueError:
                if "rcd" not in kind:  # RCD refuses path effects on cyclic samples
                    raise
            last, touched = None, True
        elif op == "pvalues" and last is not None and hasattr(m, "get_error_independence_p_values"):
            if kind in ("long_pk",):
                continue
            args = () if kind in SERIES or kind.startswith("long") else (last,)
            s0 = snapshot(m)
            m.get_error_independence_p_values(*args)
            same(s0, snapshot(m), f"{kind}: p-values changed the model", 0)
        elif op == "effect" and last is not None and hasattr(m, "estimate_total_effect"):
            s0 = snapshot(m)
            if kind.startswith("long"):
                m.estimate_total_effect(last, 2, 0, 2, 1)
            elif kind.startswith("varma"):
                m.estimate_total_effect(last, last, 0, 1)
            else:
                m.estimate_total_effect(last, 0, 1)
            same(s0, snapshot(m), f"{kind}: effect estimation changed the model", 0)
    old = {k: getattr(m, k) for k in ("adjacency_matrix_", "adjacency_matrices_")
           if last is not None and hasattr(type(m), k)}
    frozen = copy.deepcopy(old)
    if d["reuse"]:
        # the same array object held other numbers before
        Y = copy.deepcopy(X)
        other = data(kind, d["seed"] + 31, p, n)
        for a, b in zip(Y, other) if isinstance(Y, list) else [(Y, other)]:
            a[...] = b
        fit(m, kind, Y, p)
        queries(m, kind, Y, p, np.random.default_rng(d["seed"]))
        for a, b in zip(Y, X) if isinstance(Y, list) else [(Y, X)]:
            a[...] = b
        fit(m, kind, Y, p)
        touched = True
    else:
        fit(m, kind, X, p)
    same(want, snapshot(m), f"{kind}: the fit depends on the object's history {d['ops']}")
    for k in old:
        require(equal(flat(old[k]), flat(frozen[k]), 0),
                f"{kind}: an earlier result was overwritten by the next fit")
    a, b = (queries(v, kind, X, p, np.random.default_rng(d["seed"])) for v in (fresh, m))
    require(equal(a, b, 1e-8), f"{kind}: answers depend on the object's history {d['ops']}", a, b)
    require(equal(flat(X), flat(keep), 0), f"{kind}: the data were modified")
    ctx.nontrivial(touched)


@P.clause(
    "rich",
    st.fixed_dictionaries({
        "kind": st.sampled_from(["rcd", "rcd", "rcd_fcorr", "bottomup", "camuv", "highdim", "resit", "multircd",
                                 "camuv_wide", "rcd_wide"]),
        "seed": gen.SEED, "p": st.just(4), "n": st.integers(120, 200),
        "ops": st.lists(st.sampled_from(["fit_plain", "fit_plain", "fit_other", "fit_smaller", "fit_tiny"]), min_size=1, max_size=1),
        "reuse": st.just(False),
    }),
    quick=60, thorough=1000,
    rule="another data set was fitted on the same object before the final fit",
)
def rich(d, ctx):
    """Data whose analysis needs several explanatory variables at once."""
    histories(d, ctx)


@P.clause(
    "wide",
    st.fixed_dictionaries({
        "kind": st.sampled_from(["highdim_wide", "direct", "ica"]),
        "seed": gen.SEED, "p": st.just(7), "n": st.integers(150, 220),
        "ops": st.lists(st.sampled_from(["fit_plain", "fit_other", "fit_smaller", "fit_tiny", "bootstrap"]),
                        min_size=1, max_size=2),
        "reuse": st.just(False),
    }),
    quick=60, thorough=800,
    rule="another data set was fitted on the same object before the final fit",
)
def wide(d, ctx):
    """Seven dense variables after a history of smaller data sets."""
    histories(d, ctx)


@P.clause(
    "two_objects",
    st.fixed_dictionaries({
        "kind": st.sampled_from(PLAIN + SERIES + LISTS), "seed": gen.SEED,
        "p": st.integers(2, 3), "n": st.integers(30, 50),
    }),
    quick=150, thorough=2000,
    rule="every case",
)
def two_objects(d, ctx):
    """Objects do not share state, and one object gives one answer."""
    kind, p, n = d["kind"], d["p"], d["n"]
    ctx.label(kind)
    X = data(kind, d["seed"], p, n)
    a = build(kind, p)
    fit(a, kind, X, p)
    s = snapshot(a)
    b = build(kind, p)
    fit(b, kind, data(kind, d["seed"] + 5, p, n), p)
    same(s, snapshot(a), f"{kind}: fitting one object changed another", 0)
    c = build(kind, p)
    fit(c, kind, X, p)
    same(s, snapshot(c), f"{kind}: not reproducible")
    ctx.nontrivial()


@P.clause(
    "seeded_bootstrap",
    st.fixed_dictionaries({
        "kind": st.sampled_from(["direct", "ica", "highdim", "resit", "bottomup", "rcd", "var", "var_bic",
                                 "var_given", "multi", "multircd", "long", "long2"]),
        "seed": gen.SEED, "p": st.integers(2, 3), "n": st.integers(30, 45),
        "before": st.booleans(), "s": st.integers(0, 1000),
    }),
    quick=120, thorough=2000,
    rule="the object had been fitted before the bootstrap",
)
def seeded(d, ctx):
    """With the same global seed a bootstrap repeats, whatever the object did before."""
    kind, p, n = d["kind"], d["p"], d["n"]
    ctx.label(kind)
    X = data(kind, d["seed"], p, n)

    def run(m):
        np.random.seed(d["s"])
        try:
            r = m.bootstrap(X, n_sampling=2)
        except ValueError:
            if "rcd" in kind:
                return None
            raise
        r = r if isinstance(r, list) else [r]
        return [[flat(np.asarray(q.adjacency_matrices_)), flat(np.asarray(q.total_effects_))]
                for q in r]

    m1, m2 = build(kind, p), build(kind, p)
    if d["before"]:
        fit(m2, kind, data(kind, d["seed"] + 3, p, n + 4), p)
    a, b = run(m1), run(m2)
    if a is None or b is None:
        require(a is None and b is None, "only one of two runs failed")
        ctx.reject("cyclic sample")
    require(equal(a, b), f"{kind}: the bootstrap is not reproducible", a, b)
    ctx.nontrivial(d["before"])


# ---------------------------------------------------------------- helper objects

class Fixed:
    def __init__(self, g):
        self.adjacency_matrix_ = np.array(g, float)

    def fit(self, X):
        return self


def small(seed, p=3, n=25):
    rng = np.random.default_rng(seed)
    B, order = gen.random_dag(rng, p, 0.7)
    return gen.sem(rng, B, order, n, "uniform")[0], B


def h_effect(o, seed, rng, first):
    X, B = small(seed)
    t = int(rng.integers(3))
    reg = LinearRegression().fit(np.delete(X, t, axis=1), X[:, t])
    return flat(o.estimate_effects_on_prediction(X, t, reg)), \
        [o.estimate_optimal_intervention(X, t, reg, (t + 1) % 3, 1.5)] if rng.random() < 0.5 else []


def h_cdg(o, seed, rng, first):
    X, _ = small(seed, n=20 + int(rng.integers(3)))
    X = pd.DataFrame(X, columns=["a", "b", "c"])
    if first:
        o.fit(X, "a", "b", ["c"])
    v = rng.normal(size=len(X))
    k = int(rng.integers(3))
    if k == 0:
        return flat(o.generate().values)
    if k == 1 and len(o.generate()) == len(X):
        return flat(o.generate(interv_exog={"c": v}).values)
    return flat(o.generate().values)


def h_oct(o, seed, rng, first):
    X, _ = small(seed, n=24)
    g = np.zeros((3, 3))
    g[1, 0] = 1
    h = g.copy()
    h[2, 1] = 1
    o.fit(X, [{"model": Fixed, "init_kwargs": {"g": g}}, {"model": Fixed, "init_kwargs": {"g": h}}][:1 + int(rng.integers(2))])
    return [float(o.best_idx_), [float(v) for v in o.fit_info_["performance"]], [float(v) for v in o.fit_info_["mb_size"]]]


def h_sim(o, seed, rng, first):
    X, B = small(seed, p=int(rng.integers(2, 4)), n=20 + int(rng.integers(3)))
    if first or rng.random() < 0.5:
        o.train(X, B)
    k = int(rng.integers(3))
    cols = o.run().columns
    n = len(o.run())
    if k == 0:
        return flat(o.run(changing_exog={cols[0]: rng.normal(size=n)}).values.astype(float))
    if k == 1:
        return flat(o.run(changing_models={cols[1]: {"parent_names": []}}, shuffle_residual=True, random_state=3).values.astype(float))
    return flat(o.run().values.astype(float))


def h_boot(o, seed, rng, first):
    k = int(rng.integers(6))
    thr = [None, 0.3, 0.8][int(rng.integers(3))]
    if k == 0:
        c = o.get_causal_direction_counts(n_directions=int(rng.integers(1, 9)), min_causal_effect=thr,
                                          split_by_causal_effect_sign=bool(rng.random() < 0.5))
        return [c[x] for x in sorted(c)]
    if k == 1:
        c = o.get_directed_acyclic_graph_counts(n_dags=int(rng.integers(1, 5)), min_causal_effect=thr,
                                                split_by_causal_effect_sign=bool(rng.random() < 0.5))
        return [[[e[x] for x in sorted(e)] for e in c["dag"]], c["count"]]
    if k == 2:
        return flat(np.asarray(o.get_probabilities(thr), float))
    if k == 3:
        c = o.get_total_causal_effects(thr)
        return [c[x] for x in sorted(c)]
    c = o.get_paths(0, 2, min_causal_effect=thr) if type(o) is lingam.BootstrapResult else o.get_paths(0, 1, min_causal_effect=thr)
    return [[list(map(float, v)) for v in c["path"]], list(map(float, c["effect"])), list(map(float, c["probability"]))]


def make_helper(kind, seed):
    rng = np.random.default_rng(seed)
    if kind == "effect":
        return CausalEffect(small(seed)[1])
    if kind == "cdg":
        return CausalDataGenerator(random_state=4)
    if kind == "oct":
        return OutOfSampleCausalTuning(cv=2, random_state=4)
    if kind == "sim":
        return lingam.CausalBasedSimulator()
    As = np.array([gen.random_dag(rng, 3, 0.7, 0.2, 1.0)[0] for _ in range(4)])[rng.integers(0, 4, 9)]
    if kind == "boot":
        return lingam.BootstrapResult(As, As @ As + As)
    Ls = [np.hstack([A[:2, :2], rng.uniform(-1, 1, (2, 2))]) for A in As]
    return lingam.VARBootstrapResult(Ls, np.array(Ls))


HELP = {"effect": h_effect, "cdg": h_cdg, "oct": h_oct, "sim": h_sim, "boot": h_boot, "varboot": h_boot}


@P.clause(
    "helpers",
    st.fixed_dictionaries({
        "kind": st.sampled_from(["boot", "varboot", "effect", "cdg", "sim", "boot", "varboot", "effect", "cdg", "sim", "boot", "varboot", "effect", "cdg", "sim", "oct"]), "seed": gen.SEED,
        "before": st.integers(1, 4),
    }),
    quick=150, thorough=3000,
    rule="every case",
)
def helpers(d, ctx):
    """Causal effects, generator, tuning, simulator and bootstrap results answer as if asked first."""
    kind, f = d["kind"], HELP[d["kind"]]
    ctx.label(kind)
    used = make_helper(kind, d["seed"])
    for k in range(d["before"] if kind != "oct" else 1):
        f(used, d["seed"] + 1 + k, np.random.default_rng([d["seed"], k]), True)
    fresh = make_helper(kind, d["seed"])
    if kind == "sim":
        X, B = small(d["seed"])
        used.train(X, B)
        fresh.train(X, B)
    a, b = (f(o, d["seed"], np.random.default_rng(d["seed"]), kind != "sim") for o in (fresh, used))
    require(equal(a, b, 1e-9), f"{kind}: the answer depends on earlier calls", a, b)
    ctx.nontrivial()
