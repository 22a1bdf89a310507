"""C02: prior knowledge is honoured exactly or rejected."""
import numpy as np
import lingam
from hypothesis import strategies as st
from lingam.utils import make_prior_knowledge

import gen
import ref
from core import Property, require

P = Property("C02", boost=4)


@st.composite
def pk_matrix(draw, pmin=2, pmax=5):
    if draw(st.integers(0, 19)) == 19:
        # many variables, few constraints
        rng = np.random.default_rng(draw(gen.SEED))
        p = int(rng.integers(8, 13))
        pos = rng.permutation(p)
        M = -np.ones((p, p), int)
        for i in range(p):
            for j in range(p):
                if pos[j] < pos[i] and rng.random() < 0.15:
                    M[i, j] = 1
                elif pos[j] > pos[i] and M[j, i] != 0 and rng.random() < 0.15:
                    M[i, j] = 0
                elif i < j and rng.random() < 0.05:
                    M[i, j] = M[j, i] = 0
        return M.tolist()
    p = draw(st.integers(pmin, pmax))
    mode = draw(st.sampled_from(["consistent", "consistent", "consistent", "free"]))
    if mode == "free":
        M = [[draw(st.sampled_from([-1, -1, -1, 0, 1])) for _ in range(p)] for _ in range(p)]
        for i in range(p):
            M[i][i] = draw(st.sampled_from([-1, -1, 0]))
        return M
    order = draw(st.permutations(range(p)))
    pos = {v: k for k, v in enumerate(order)}
    M = [[-1] * p for _ in range(p)]
    for i in range(p):
        for j in range(p):
            if i == j:
                continue
            if pos[j] < pos[i]:
                M[i][j] = draw(st.sampled_from([-1, -1, 1, 0]))
            else:
                M[i][j] = draw(st.sampled_from([-1, -1, 0]))
    # a lone "no path" later->earlier would contradict the order only if not mirrored
    for i in range(p):
        for j in range(p):
            if i != j and pos[j] < pos[i] and M[i][j] == 0 and M[j][i] != 0:
                M[j][i] = 0
    return M


def constraint_cycle(pk):
    p = len(pk)
    B = np.zeros((p, p))
    for a in range(p):
        for b in range(p):
            if a != b and ref.must_precede(pk, a, b):
                B[b, a] = 1
    return not ref.is_acyclic(B)


def path_cycle(pk):
    p = len(pk)
    B = np.zeros((p, p))
    for a in range(p):
        for b in range(p):
            if a != b and pk[b, a] == 1:
                B[b, a] = 1
    return not ref.is_acyclic(B)


def build(kind, pk):
    if kind == "direct":
        return lingam.DirectLiNGAM(prior_knowledge=pk)
    if kind == "kernel":
        return lingam.DirectLiNGAM(prior_knowledge=pk, measure="kernel")
    if kind == "multi":
        return lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk)
    if kind == "bottom0":
        return lingam.BottomUpParceLiNGAM(prior_knowledge=pk, alpha=0.0)
    if kind == "bottom":
        return lingam.BottomUpParceLiNGAM(prior_knowledge=pk, alpha=0.1)
    if kind == "soft":
        return lingam.DirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=True)
    if kind == "multisoft":
        return lingam.MultiGroupDirectLiNGAM(
            prior_knowledge=pk, apply_prior_knowledge_softly=True)
    raise ValueError(kind)


def data_for(d, p):
    rng = np.random.default_rng(d["seed"])
    B, order = gen.random_dag(rng, p, 1.0)
    X, _ = gen.sem(rng, B, order, d["n"], "uniform")
    X2, _ = gen.sem(rng, B, order, d["n"] + 7, "uniform")
    return X, X2


def flat_positions(order):
    pos = {}
    for k, g in enumerate(order):
        for v in (g if np.ndim(g) else [g]):
            pos[int(v)] = k
    return pos


@P.clause(
    "honoured",
    st.fixed_dictionaries({
        "pk": pk_matrix(), "seed": gen.SEED, "n": st.integers(40, 90),
        "kind": st.sampled_from(
            ["direct", "direct", "kernel", "multi", "bottom0", "bottom", "soft", "multisoft"]),
        "astype": st.sampled_from(["int", "float", "list"]),
    }),
    quick=1400, thorough=20000,
    rule="the matrix orders or forbids at least one pair and is consistent",
)
def honoured(d, ctx):
    pk = np.array(d["pk"])
    p = len(pk)
    kind = d["kind"]
    ctx.label(kind)
    X, X2 = data_for(d, p)
    arg = {"int": pk.astype(int), "float": pk.astype(float), "list": d["pk"]}[d["astype"]]
    before = np.array(arg, copy=True)
    soft = kind in ("soft", "multisoft")
    both = any(pk[i, j] == 1 and pk[j, i] == 1 for i in range(p) for j in range(i))
    bad = (path_cycle(pk) if soft else both or constraint_cycle(pk))

    def run():
        m = build(kind, arg)
        m.fit([X, X2] if kind.startswith("multi") else X)
        return m

    if bad:
        ctx.label("inconsistent")
        if kind == "bottom" and not both:
            return  # the search may stop before it meets the contradiction
        try:
            m = run()
        except ValueError:
            return
        require(False, f"{kind}: inconsistent prior knowledge was accepted", m.causal_order_)
    m = run()
    require(np.array_equal(before, np.array(arg)), "the prior knowledge argument was modified")
    pos = flat_positions(m.causal_order_)
    require(sorted(pos) == list(range(p)), "order is not a permutation", m.causal_order_)
    Bs = m.adjacency_matrices_ if kind.startswith("multi") else [m.adjacency_matrix_]
    used = 0
    if soft:
        # known exogenous variables come first, known sinks and effects not before the others
        left = list(range(p))
        for v in m.causal_order_:
            require(int(v) in ref.candidates_soft(pk, left)[0], f"{kind}: x{v} is not admitted yet",
                    m.causal_order_, d["pk"])
            left.remove(int(v))
    for a in range(p):
        for b in range(p):
            if a == b:
                continue
            if (pk[b, a] == 1) if soft else ref.must_precede(pk, a, b):
                used += 1
                require(
                    pos[a] < pos[b] or (kind == "bottom" and pos[a] == pos[b]),
                    f"{kind}: x{a} must come before x{b}", m.causal_order_, d["pk"],
                )
            if pk[b, a] == 0:
                used += 1
                for B in Bs:
                    v = B[b, a]
                    require(
                        v == 0 or (kind == "bottom" and np.isnan(v) and pos[a] == pos[b]),
                        f"{kind}: forbidden edge x{a} -> x{b}", B, d["pk"],
                    )
                    if pk[a, b] != 0 and not soft and kind != "bottom":
                        require(b not in ref.reach(ref.edges(B), a),
                                f"{kind}: forbidden path x{a} -> x{b}", B, d["pk"])
    ctx.nontrivial(used > 0)
    ctx.label("constraints=" + ("0" if used == 0 else "1-3" if used < 4 else "4+"))


@P.clause(
    "uninformative",
    st.fixed_dictionaries({
        "p": st.integers(2, 4), "seed": gen.SEED, "n": st.integers(40, 90),
        "kind": st.sampled_from(["direct", "kernel", "multi", "bottom", "soft"]),
    }),
    quick=120, thorough=2000,
    rule="the fitted graph has an edge",
)
def uninformative(d, ctx):
    """A matrix of -1 must give the same result as no prior knowledge."""
    p = d["p"]
    X, X2 = data_for(d, p)
    arg = [X, X2] if d["kind"] == "multi" else X
    a = build(d["kind"], make_prior_knowledge(p)).fit(arg)
    b = build(d["kind"], None).fit(arg)
    require(str(a.causal_order_) == str(b.causal_order_), "orders differ",
            a.causal_order_, b.causal_order_)
    Ba = a.adjacency_matrices_ if d["kind"] == "multi" else a.adjacency_matrix_
    Bb = b.adjacency_matrices_ if d["kind"] == "multi" else b.adjacency_matrix_
    require(np.allclose(Ba, Bb, equal_nan=True), "matrices differ", Ba, Bb)
    ctx.nontrivial(np.nansum(np.abs(np.asarray(Ba))) > 0)


@P.clause(
    "wrong_shape",
    st.fixed_dictionaries({
        "p": st.integers(2, 4), "q": st.integers(1, 5), "r": st.integers(1, 5),
        "kind": st.sampled_from(["direct", "multi", "bottom", "soft"]),
    }),
    quick=60, thorough=300,
    rule="the shape does not match the data",
)
def wrong_shape(d, ctx):
    p, q, r = d["p"], d["q"], d["r"]
    if (q, r) == (p, p):
        ctx.reject()
    X, X2 = data_for({"seed": 1, "n": 30}, p)
    try:
        build(d["kind"], -np.ones((q, r))).fit([X, X2] if d["kind"] == "multi" else X)
    except ValueError:
        ctx.nontrivial()
        return
    require(False, "prior knowledge of the wrong shape was accepted", (q, r), p)


IDX = st.integers(0, 4) | st.integers(0, 4) | st.integers(0, 12)


@P.clause(
    "make_prior_knowledge",
    st.fixed_dictionaries({
        "p": st.integers(5, 7) | st.integers(13, 15),
        "exo": st.none() | st.lists(IDX, max_size=3),
        "sink": st.none() | st.lists(IDX, max_size=3),
        "paths": st.none() | st.lists(st.tuples(IDX, IDX), max_size=4),
        "no_paths": st.none() | st.lists(st.tuples(IDX, IDX), max_size=4),
        "asarray": st.booleans(),
    }),
    quick=1500, thorough=20000,
    rule="at least one argument is non-empty",
)
def mkpk(d, ctx):
    p = d["p"]
    for k in ("exo", "sink", "paths", "no_paths"):
        if d[k]:
            d[k] = [[u % p for u in v] if isinstance(v, list) else v % p for v in d[k]]
    def conv(v):
        return np.array(v, int) if d["asarray"] and v else v
    got = make_prior_knowledge(
        p, exogenous_variables=conv(d["exo"]), sink_variables=conv(d["sink"]),
        paths=conv(d["paths"]), no_paths=conv(d["no_paths"]))
    require(np.asarray(got).shape == (p, p), "shape")
    for to in range(p):
        for fr in range(p):
            if to == fr:
                want = -1
            elif to in (d["exo"] or []) or fr in (d["sink"] or []):
                want = 0
            elif [fr, to] in (d["paths"] or []):
                want = 1
            elif [fr, to] in (d["no_paths"] or []):
                want = 0
            else:
                want = -1
            require(got[to, fr] == want, f"entry for x{fr} -> x{to}", got[to, fr], want)
    ctx.nontrivial(any(d[k] for k in ("exo", "sink", "paths", "no_paths")))
