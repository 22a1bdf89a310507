"""C05: units, labels, row order and container type do not matter; inputs survive."""
import copy

import numpy as np
import pandas as pd
import lingam
from hypothesis import strategies as st
from sklearn.linear_model import LinearRegression

import gen
import ref
from core import Property, require

P = Property("C05", boost=3)


def near_tie(X, order, B):
    """True if some adaptive-lasso selection along the order is numerically undecided."""
    order = [int(v) for v in order]
    for k in range(1, len(order)):
        if ref.selection_margin(X, order[:k], order[k], None) < 1e-6:
            return True
    return False


def close(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    a, b = np.nan_to_num(a), np.nan_to_num(b)
    return np.allclose(a, b, rtol=tol, atol=tol * (1 + np.abs(b).max(initial=0)))


@P.clause(
    "direct_transforms",
    gen.data_spec(pmin=2, pmax=5, nmin=30, nmax=200, pwide=10, nlong=2000, groups=st.integers(1, 2),
                  what=st.sampled_from(["columns", "units", "rows", "double"]),
                  tseed=gen.SEED, big=st.booleans()),
    quick=700, thorough=12000,
    rule="the order is decided by a clear margin and the transform is not the identity",
)
def direct_transforms(d, ctx):
    X, *_ = gen.make_data(d)
    p = d["p"]
    Xs = [X] if d["groups"] == 1 else [X, gen.make_data(d, n=60, seed_shift=5)[0]]
    rng = np.random.default_rng(d["tseed"])
    order, margin = ref.pw_order(Xs)
    if margin < 1e-10:
        ctx.reject("undecided order")

    def fit(data):
        if d["groups"] == 1:
            m = lingam.DirectLiNGAM().fit(data[0])
            return [int(v) for v in m.causal_order_], [m.adjacency_matrix_]
        m = lingam.MultiGroupDirectLiNGAM().fit(data)
        return [int(v) for v in m.causal_order_], m.adjacency_matrices_

    o1, B1 = fit(Xs)
    skip_B = any(near_tie(Xi, o1, Bi) for Xi, Bi in zip(Xs, B1))
    what = d["what"]
    ctx.label(what, f"groups={d['groups']}")
    if what == "columns":
        perm = rng.permutation(p)            # new column k is old column perm[k]
        o2, B2 = fit([Xi[:, perm] for Xi in Xs])
        require([int(perm[v]) for v in o2] == o1, "order changed with the column labels", o1, o2)
        if not skip_B:
            for a, b in zip(B1, B2):
                require(close(b, a[np.ix_(perm, perm)]), "strengths changed with labels", a, b)
        ctx.nontrivial(not np.array_equal(perm, np.arange(p)))
    elif what == "units":
        hi = 3 if d["big"] else 1
        s = 10.0 ** rng.uniform(-hi, hi, p) * rng.choice([-1, 1], p)
        c = rng.uniform(-3, 3, p) * np.abs(s) * X.std(0)
        o2, B2 = fit([Xi * s + c for Xi in Xs])
        require(o2 == o1, "order changed with units", o1, o2, s.tolist())
        if not skip_B:
            for a, b in zip(B1, B2):
                want = a * s[:, None] / s[None, :]
                back = b / s[:, None] * s[None, :]
                require(close(back, a, 1e-5), "strengths not rescaled", back, a, want)
        ctx.nontrivial()
    elif what == "rows":
        o2, B2 = fit([Xi[rng.permutation(len(Xi))] for Xi in Xs])
        require(o2 == o1, "order changed with the row order", o1, o2)
        if not skip_B:
            for a, b in zip(B1, B2):
                require(close(b, a), "strengths changed with the row order", a, b)
        ctx.nontrivial()
    else:
        o2, _ = fit([np.vstack([Xi, Xi]) for Xi in Xs])
        require(o2 == o1, "order changed by repeating the sample", o1, o2)
        ctx.nontrivial()


def kernel_order(X):
    """Reference order of the kernel measure and its smallest gap."""
    X = (X - X.mean(0)) / X.std(0)
    U, order, margin = list(range(X.shape[1])), [], np.inf
    while len(U) > 1:
        sc = sorted((ref.kernel_score(X, i, U), i) for i in U)
        margin = min(margin, sc[1][0] - sc[0][0])
        m = sc[0][1]
        xm = X[:, m].copy()
        for i in U:
            if i != m:
                X[:, i] = ref._res(X[:, i], xm)
        order.append(m)
        U.remove(m)
    return order + U, margin


@P.clause(
    "kernel_transforms",
    gen.data_spec(pmin=2, pmax=4, nmin=25, nmax=70, what=st.sampled_from(["units", "columns", "rows"]),
                  tseed=gen.SEED, hi=st.sampled_from([1, 3])),
    quick=60, thorough=1500,
    rule="the order is decided by a clear margin and the transform is not the identity",
)
def kernel_transforms(d, ctx):
    X, *_ = gen.make_data(d)
    p, what = d["p"], d["what"]
    rng = np.random.default_rng(d["tseed"])
    if kernel_order(X)[1] < 1e-6:
        ctx.reject("undecided order")
    o1 = [int(v) for v in lingam.DirectLiNGAM(measure="kernel").fit(X).causal_order_]
    perm = np.arange(p)
    if what == "units":
        s = 10.0 ** rng.uniform(-d["hi"], d["hi"], p) * rng.choice([-1, 1], p)
        Y = X * s + rng.uniform(-3, 3, p) * np.abs(s) * X.std(0)
    elif what == "columns":
        perm = rng.permutation(p)
        Y = X[:, perm]
    else:
        Y = X[rng.permutation(len(X))]
    o2 = [int(perm[v]) for v in lingam.DirectLiNGAM(measure="kernel").fit(Y).causal_order_]
    require(o1 == o2, f"{what} changed the order of the kernel measure", o1, o2)
    ctx.label(what)
    ctx.nontrivial(what != "columns" or not np.array_equal(perm, np.arange(p)))


@P.clause(
    "tests_transforms",
    gen.data_spec(pmin=2, pmax=4, nmin=40, nmax=90, what=st.sampled_from(["units", "rows", "columns"]),
                  model=st.sampled_from(["bottomup", "rcd", "resit", "camuv"]), tseed=gen.SEED),
    quick=260, thorough=3000,
    rule="the transform is not the identity",
)
def tests_transforms(d, ctx):
    """Independence-test based models: positive rescaling, row order, labels."""
    rng = np.random.default_rng(d["tseed"])
    if d["model"] == "camuv":
        d["p"] = min(d["p"], 3)
    X, *_ = gen.make_data(d)
    p, kind, what = d["p"], d["model"], d["what"]
    if what == "columns" and kind in ("rcd", "camuv"):
        what = "rows"
    if kind == "camuv" and what == "units":
        what = "rows"
    orders = []

    def fit(Y):
        if kind == "bottomup":
            m = lingam.BottomUpParceLiNGAM(alpha=0.05)
        elif kind == "rcd":
            m = lingam.RCD(max_explanatory_num=2)
        elif kind == "camuv":
            m = lingam.CAMUV()
        else:
            m = lingam.RESIT(regressor=LinearRegression())
        m.fit(Y)
        orders.append(getattr(m, "causal_order_", None))
        return np.asarray(m.adjacency_matrix_, float)

    ctx.label(kind, what)
    A = fit(X)
    if what == "units":
        if kind == "resit":
            s = np.full(p, 10.0 ** rng.uniform(-1, 1))
        else:
            s = 10.0 ** rng.uniform(-1, 1, p)
        Bt = fit(X * s)
        want = A if kind == "resit" else A * s[:, None] / s[None, :]
        back = Bt if kind == "resit" else Bt / s[:, None] * s[None, :]
        del want
        require(np.array_equal(np.isnan(A), np.isnan(back)), "unit change altered NaNs", A, Bt)
        require(np.array_equal(np.nan_to_num(A) != 0, np.nan_to_num(back) != 0),
                "unit change altered the graph", A, Bt)
        require(close(back, A, 1e-5), "unit change altered strengths", A, back)
    elif what == "rows":
        q = rng.permutation(len(X))
        Bt = fit(X[q])
        require(close(Bt, A, 1e-5), "row order altered the result", A, Bt)
    else:
        perm = rng.permutation(p)
        Bt = fit(X[:, perm])
        if kind == "resit":
            # edges are removed one after the other, so only the order is label free
            require([int(perm[v]) for v in orders[1]] == [int(v) for v in orders[0]],
                    "labels altered the order", orders)
            ctx.nontrivial()
            return
        require(close(Bt, A[np.ix_(perm, perm)], 1e-5), "labels altered the result", A, Bt)
    ctx.nontrivial()


def model_for(kind):
    return {
        "direct": lambda: lingam.DirectLiNGAM(),
        "kernel": lambda: lingam.DirectLiNGAM(measure="kernel"),
        "ica": lambda: lingam.ICALiNGAM(random_state=1),
        "highdim": lambda: lingam.HighDimDirectLiNGAM(),
        "resit": lambda: lingam.RESIT(regressor=LinearRegression()),
        "bottomup": lambda: lingam.BottomUpParceLiNGAM(),
        "rcd": lambda: lingam.RCD(),
        "camuv": lambda: lingam.CAMUV(),
        "var": lambda: lingam.VARLiNGAM(lags=1, criterion=None),
        "multi": lambda: lingam.MultiGroupDirectLiNGAM(),
        "multircd": lambda: lingam.MultiGroupRCD(),
        "multicamuv": lambda: lingam.MultiGroupCAMUV(),
        "long": lambda: lingam.LongitudinalLiNGAM(),
    }[kind]()


LISTS = ("multi", "multircd", "multicamuv", "long")


def matrices(m):
    if hasattr(m, "adjacency_matrices_"):
        return [np.asarray(B, float) for B in m.adjacency_matrices_]
    return [np.asarray(m.adjacency_matrix_, float)]


@P.clause(
    "containers",
    gen.data_spec(pmin=2, pmax=3, nmin=40, nmax=80, noises=["uniform", "exp", "bimodal"],
                  model=st.sampled_from(
                      ["direct", "kernel", "ica", "highdim", "resit", "bottomup", "rcd", "camuv",
                       "var", "multi", "multircd", "multicamuv", "long"]),
                  box=st.sampled_from(["frame", "frame_index", "list", "fortran", "strided", "int",
                                       "readonly"])),
    quick=420, thorough=5000,
    rule="every case (two containers of the same numbers are compared)",
)
def containers(d, ctx):
    kind, box = d["model"], d["box"]
    ctx.label(kind, box)
    d = dict(d, scale=1.0)
    X, *_ = gen.make_data(d)
    X2 = gen.make_data(d, seed_shift=1)[0]
    if box == "int":
        X, X2 = np.round(X * 8), np.round(X2 * 8)
        if kind in ("highdim",):
            X, X2 = X * 1.0, X2 * 1.0

    def wrap(Y):
        if box == "frame":
            return pd.DataFrame(Y, columns=[f"v{i}" for i in range(Y.shape[1])])
        if box == "frame_index":
            return pd.DataFrame(Y, index=[f"r{i}" for i in range(len(Y))][::-1])
        if box == "list":
            return Y.tolist()
        if box == "fortran":
            return np.asfortranarray(Y)
        if box == "strided":
            Z = np.zeros((2 * len(Y), 2 * Y.shape[1]))
            Z[::2, ::2] = Y
            return Z[::2, ::2]
        if box == "readonly":
            Z = Y.copy()
            Z.setflags(write=False)
            return Z
        return Y.astype(np.int64)

    a, b = model_for(kind), model_for(kind)
    if kind in LISTS:
        plain, boxed = [X.copy(), X2.copy()], [wrap(X), wrap(X2)]
    else:
        plain, boxed = X.copy(), wrap(X)
    keep = copy.deepcopy(boxed)
    np.random.seed(5)
    a.fit(plain)
    np.random.seed(5)
    b.fit(boxed)
    orig = [X, X2] if kind in LISTS else [X]
    for p_, o_ in zip(plain if kind in LISTS else [plain], orig):
        require(np.array_equal(p_, o_), f"{kind}: fit modified its input")
    for p_, o_ in zip(boxed if kind in LISTS else [boxed], keep if kind in LISTS else [keep]):
        require(np.array_equal(np.asarray(p_), np.asarray(o_)), f"{kind}: fit modified its input")
        if isinstance(p_, pd.DataFrame):
            require(p_.equals(o_), "DataFrame changed")
    tol = 1e-4 if kind == "ica" else 1e-6
    for x, y in zip(matrices(a), matrices(b)):
        require(close(y, x, tol), f"{kind}: result depends on the container ({box})", x, y)
    ctx.nontrivial()


@P.clause(
    "integers",
    gen.data_spec(pmin=3, pmax=5, nmin=60, nmax=150, noises=["uniform", "exp", "bimodal"],
                  levels=st.sampled_from([2.0, 1.0, 4.0]),
                  dtype=st.sampled_from(["int64", "int32", "int16"]),
                  model=st.sampled_from(["direct", "multi", "rcd", "multircd", "camuv", "rcd",
                                         "rcd", "camuv", "camuv", "multicamuv",
                                         "remove_effect", "ancestors"])),
    quick=330, thorough=5000,
    rule="every case (counts stored as integers and as floats are compared)",
)
def integers(d, ctx):
    """Counts stored as integers give what the same numbers stored as floats give."""
    kind = d["model"]
    if kind in ("camuv", "multicamuv"):
        d["p"] = 3
        d["n"] = min(d["n"], 80)
    elif "rcd" in kind or kind == "ancestors":
        d["p"] = min(d["p"], 4)
    d = dict(d, scale=1.0)
    ctx.label(kind)
    X = np.round(gen.make_data(d)[0] * d["levels"])
    X2 = np.round(gen.make_data(d, seed_shift=1)[0] * d["levels"])
    if any(len(np.unique(c)) < 3 for c in np.vstack([X.T, X2.T])) or any(
        np.linalg.cond(np.corrcoef(x.T)) > 1e4 for x in (X, X2)
    ):
        ctx.reject("degenerate counts")
    XI, XI2 = X.astype(d["dtype"]), X2.astype(d["dtype"])
    if not (np.array_equal(XI, X) and np.array_equal(XI2, X2)):
        ctx.reject("overflow")
    if kind == "remove_effect":
        from lingam.utils import remove_effect

        rm = [int(v) for v in np.random.default_rng(d["seed"]).permutation(d["p"])[: d["p"] - 2]]
        a, b = remove_effect(X.copy(), rm), remove_effect(XI, rm)
        require(np.allclose(a, b, rtol=1e-8, atol=1e-8), "remove_effect truncates integers", rm)
    elif kind == "ancestors":
        from lingam.utils import extract_ancestors

        a, b = extract_ancestors(X.copy()), extract_ancestors(XI)
        require([set(v) for v in a] == [set(v) for v in b], "ancestors of integer data", a, b)
    else:
        a, b = model_for(kind), model_for(kind)
        a.fit([X.copy(), X2.copy()] if kind in LISTS else X.copy())
        b.fit([XI, XI2] if kind in LISTS else XI)
        if hasattr(a, "causal_order_"):
            require([int(v) for v in a.causal_order_] == [int(v) for v in b.causal_order_],
                    "order of integer data", a.causal_order_, b.causal_order_)
        if hasattr(a, "ancestors_list_"):
            require([set(v) for v in a.ancestors_list_] == [set(v) for v in b.ancestors_list_],
                    "ancestors of integer data", a.ancestors_list_, b.ancestors_list_)
        for x, y in zip(matrices(a), matrices(b)):
            require(close(y, x), f"{kind}: integer data give another result", x, y)
    ctx.nontrivial()
