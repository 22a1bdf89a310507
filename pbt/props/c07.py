"""C07: graph helpers agree with plain graph theory."""
import numpy as np
import lingam
from hypothesis import strategies as st
from lingam.utils import (
    calculate_distance_from_root_nodes, calculate_total_effect, find_all_paths,
    get_exo_variables, get_sink_variables, remove_effect,
)

import gen
import ref
from core import Property, require

P = Property("C07", boost=4)

NANCOEF = st.sampled_from([0.0, 0.0, 0.0, 1.0, -1.0, 0.5, -2.0, 0.1, float("nan")])


def with_nan(M):
    return np.array([[np.nan if v is None else v for v in r] for r in M], float)


@st.composite
def unit_dag(draw, pmin, pmax, wide=None):
    """A DAG in which some variables are measured in very large or very small units."""
    B = draw(gen.dag_matrix(pmin, pmax, wide=wide))
    p = len(B)
    if draw(st.integers(0, 3)) == 3:
        e = draw(st.lists(st.integers(-7, 7), min_size=p, max_size=p))
        B = [[B[i][j] * 10.0 ** (e[i] - e[j]) for j in range(p)] for i in range(p)]
    return B


@st.composite
def dag_maybe_nan(draw, pmin=2, pmax=6):
    B = draw(unit_dag(pmin, pmax, wide=13))
    p = len(B)
    for _ in range(draw(st.integers(0, 2))):
        i, j = draw(st.integers(0, p - 1)), draw(st.integers(0, p - 1))
        if i != j:
            B[i][j] = B[j][i] = None
    return B


@P.clause(
    "paths",
    st.fixed_dictionaries({
        "B": dag_maybe_nan(), "a": st.integers(0, 12), "b": st.integers(0, 12),
        "thr": st.sampled_from([0.0, 0.0, 0.05, 0.3, 0.5, 1.0]),
    }),
    quick=3000, thorough=60000,
    rule="at least one path exists",
)
def paths(d, ctx):
    B = with_nan(d["B"])
    p = len(B)
    a, b = d["a"] % p, d["b"] % p
    if a == b:
        ctx.reject()
    keep = B.copy()
    got_paths, got_eff = find_all_paths(B, a, b, min_causal_effect=d["thr"])
    require(np.array_equal(B, keep, equal_nan=True), "matrix modified")
    want = ref.simple_paths(ref.edges(B, d["thr"]), a, b, p)
    got = [tuple(int(v) for v in q) for q in got_paths]
    require(len(got) == len(set(got)), "a path is listed twice", got)
    require(set(got) == set(want), "paths", sorted(got), sorted(want), d["thr"])
    require(len(got_eff) == len(got), "one effect per path")
    for q, e in zip(got, got_eff):
        prod = 1.0
        for x, y in zip(q, q[1:]):
            prod *= B[y, x]
        require(abs(e - prod) <= 1e-9 * abs(prod), "effect of a path", q, e, prod)
    ctx.nontrivial(len(got) > 0)
    ctx.label("paths=" + ("0" if not got else "1" if len(got) == 1 else "2+"),
              "nan" if np.isnan(B).any() else "no_nan")


@P.clause(
    "cyclic_paths",
    st.fixed_dictionaries({"B": gen.any_matrix(2, 5), "a": st.integers(0, 4),
                           "b": st.integers(0, 4)}),
    quick=600, thorough=8000,
    rule="a cycle can be entered from the start without passing the end",
)
def cyclic_paths(d, ctx):
    """A cycle that the walk can enter must be reported, not looped on."""
    B = np.array(d["B"])
    p = len(B)
    a, b = d["a"] % p, d["b"] % p
    if a == b:
        ctx.reject()
    # b is never expanded: look for a cycle reachable from a in the graph without b's out-edges
    C = B.copy()
    C[:, b] = 0
    seen = ref.reach(ref.edges(C), a) | {a}
    sub = np.zeros_like(C)
    for f, t in ref.edges(C):
        if f in seen and t in seen:
            sub[t, f] = 1
    if ref.is_acyclic(sub):
        got, _ = find_all_paths(B, a, b)
        want = ref.simple_paths(ref.edges(B), a, b, p)
        require({tuple(map(int, q)) for q in got} == set(want), "paths", got, want)
        return
    try:
        got = find_all_paths(B, a, b)
    except ValueError:
        ctx.nontrivial()
        return
    require(False, "a cyclic graph was not reported", got)


@P.clause(
    "total_effect",
    st.fixed_dictionaries({
        "B": dag_maybe_nan(), "a": st.integers(0, 12), "b": st.integers(0, 12),
        "cont": st.lists(st.booleans(), min_size=13, max_size=13), "use": st.booleans(),
    }),
    quick=2500, thorough=50000,
    rule="the effect is not zero",
)
def total_effect(d, ctx):
    B = with_nan(d["B"])
    p = len(B)
    a, b = d["a"] % p, d["b"] % p
    if a == b:
        try:
            calculate_total_effect(B, a, b)
        except ValueError:
            return
        require(False, "same source and destination accepted")
    prods = [np.prod([B[y, x] for x, y in zip(q, q[1:])])
             for q in ref.simple_paths(ref.edges(B), a, b, p)]
    want, size = float(sum(prods)), float(sum(np.abs(prods)))
    if d["use"]:
        cont = d["cont"][:p]
        on = {v for q in ref.simple_paths(ref.edges(B), a, b, p) for v in q[1:]}
        bad = any(not cont[v] for v in on)
        try:
            got = calculate_total_effect(B, a, b, is_continuous=cont)
        except ValueError:
            require(bad, "rejected although every variable on the paths is continuous", cont)
            ctx.label("discrete")
            ctx.nontrivial()
            return
        require(not bad, "a discrete variable on a path was accepted", cont)
    else:
        got = calculate_total_effect(B, a, b)
    require(abs(got - want) <= 1e-9 * size, f"x{a} -> x{b}", got, want, d["B"])
    ctx.nontrivial(want != 0)


@P.clause(
    "malformed",
    st.fixed_dictionaries({
        "B": unit_dag(2, 5), "what": st.sampled_from(["from", "to", "flags", "shape", "inf", "word"]),
        "f": st.sampled_from(["effect", "distance"]), "k": st.integers(0, 4), "sign": st.booleans()}),
    quick=600, thorough=6000,
    rule="every case",
)
def malformed(d, ctx):
    """Requests about variables that do not exist are refused, not answered."""
    B = np.array(d["B"], float)
    p = len(B)
    a, b, cont = 0, 1, [True] * p
    if d["what"] == "from":
        a = -1 - d["k"] if d["sign"] else p + d["k"]
    elif d["what"] == "to":
        b = -1 - d["k"] if d["sign"] else p + d["k"]
    elif d["what"] == "flags":
        cont = [True] * min(d["k"], p - 1)
    elif d["what"] == "shape":
        B = np.zeros((p, p + 1)) if d["sign"] else np.zeros(p)
    elif d["what"] == "inf":
        B[1, 0] = np.inf if d["sign"] else -np.inf
    else:
        a = "0" if d["sign"] else 0.0
    if d["f"] == "distance" and d["what"] not in ("shape", "inf"):
        d["f"] = "effect"
    ctx.label(d["f"], d["what"])
    ctx.nontrivial()
    try:
        got = calculate_total_effect(B, a, b, is_continuous=cont) if d["f"] == "effect" else \
            calculate_distance_from_root_nodes(B)
    except (ValueError, TypeError):
        return
    require(False, "a malformed request was answered", d["what"], got)


@P.clause(
    "roots_and_sinks",
    st.fixed_dictionaries({"B": unit_dag(2, 7, wide=14), "diag": st.booleans(),
                           "max": st.none() | st.integers(1, 4) | st.integers(5, 9)}),
    quick=2500, thorough=50000,
    rule="the graph has an edge",
)
def roots(d, ctx):
    B = np.array(d["B"])
    p = len(B)
    E = ref.edges(B)
    A = B.copy()
    if d["diag"]:
        np.fill_diagonal(A, 1.0)
    keep = A.copy()
    exo = sorted(i for i in range(p) if not any(t == i for _, t in E))
    sink = sorted(i for i in range(p) if not any(f == i for f, _ in E))
    require(sorted(int(v) for v in get_exo_variables(A)) == exo, "exogenous", B.tolist())
    require(sorted(int(v) for v in get_sink_variables(A)) == sink, "sinks", B.tolist())
    require(np.array_equal(A, keep), "matrix modified")
    # breadth-first distance from the nearest root
    dist = {i: 0 for i in exo}
    layer = list(exo)
    k = 0
    while layer:
        k += 1
        layer = sorted({t for f, t in E if f in layer and t not in dist})
        for v in layer:
            dist[v] = k
    want = {}
    for v, q in dist.items():
        if d["max"] is None or q <= d["max"]:
            want.setdefault(q, []).append(v)
    got = calculate_distance_from_root_nodes(B, max_distance=d["max"])
    got = {int(q): sorted(int(v) for v in vs) for q, vs in got.items()}
    require(got == {q: sorted(v) for q, v in want.items()}, "distances", got, want, B.tolist())
    ctx.nontrivial(bool(E))


@P.clause(
    "remove_effect",
    gen.data_spec(pmin=2, pmax=6, nmin=20, nmax=100, pwide=12, nlong=2000, rem=st.lists(
        st.integers(0, 5), min_size=1, max_size=3, unique=True), integer=st.booleans()),
    quick=500, thorough=8000,
    rule="at least one variable remains",
)
def removal(d, ctx):
    X, *_ = gen.make_data(dict(d, scale=1.0))
    p = d["p"]
    rem = [r for r in d["rem"] if r < p]
    if not rem:
        ctx.reject()
    if d["integer"]:
        X = np.round(X * 10).astype(int)
    keep = X.copy()
    got = remove_effect(X, rem)
    got2, coefs = remove_effect(X, rem, return_coefs=True)
    require(np.array_equal(X, keep), "input modified")
    require(np.allclose(got, got2), "the two forms differ")
    rest = [i for i in range(p) if i not in rem]
    require(sorted(int(k) for k in coefs) == rest, "coefficient keys", list(coefs))
    require(np.allclose(got[:, rem], X[:, rem]), "removed variables changed")
    for i in rest:
        c, _ = ref.ols(X[:, rem], X[:, i])
        want = ref.ols_resid(X[:, rem], X[:, i])
        sc = 1 + np.abs(X).max()
        require(np.allclose(got[:, i], want, atol=1e-7 * sc), f"residual of x{i}")
        require(np.allclose(coefs[i], c, rtol=1e-5, atol=1e-6 * (1 + np.abs(c).max())),
                "coefficients", coefs[i], c)
        for r in rem:
            q = np.mean((got[:, i] - got[:, i].mean()) * (X[:, r] - X[:, r].mean()))
            require(abs(q) < 1e-7 * sc * sc, "residual correlated with a removed variable", q)
    ctx.nontrivial(bool(rest))
