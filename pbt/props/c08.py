"""C08: bootstrap summaries count exactly what the sampled graphs contain."""
import collections

import numpy as np
import lingam
from hypothesis import strategies as st

import gen
import ref
from core import Property, require

P = Property("C08", boost=3)

COEF = st.sampled_from([0.0, 0.0, 1.0, -1.0, 0.5, -0.5, 0.2, -0.2, 0.05, -3e-4, 1e-7])
THR = st.sampled_from([None, None, 0.01, 0.1, 0.3, 0.5, 0.7, 1.0, 2.0])
TOP = st.none() | st.integers(1, 6) | st.integers(7, 40)


@st.composite
def dag_list(draw, pmin=2, pmax=4, kmax=6, nan=True):
    """Samples that repeat, so that counts above one occur."""
    if draw(st.integers(0, 19)) == 19:
        # two-digit labels, many samples
        rng = np.random.default_rng(draw(gen.SEED))
        p = int(rng.integers(8, 14))
        pool = []
        chain = rng.permutation(p) if rng.random() < 0.5 else None
        for _ in range(int(rng.integers(1, 9))):
            B, o = gen.random_dag(rng, p, float(rng.uniform(0.05, 0.3)), 0.02, 1.5)
            if chain is not None:
                B = gen.chained(rng, p, chain)
            pool.append(np.round(B, 3).tolist())
        w = rng.dirichlet(np.ones(len(pool)))
        return [pool[k] for k in rng.choice(len(pool), size=int(rng.choice([rng.integers(10, 60), rng.integers(100, 260)])), p=w)]
    if draw(st.integers(0, 11)) == 11:
        # many different graphs, few of them often
        rng = np.random.default_rng(draw(gen.SEED))
        p = int(rng.integers(max(3, pmin), max(4, pmax) + 1))
        pool = [np.round(gen.random_dag(rng, p, float(rng.uniform(0.2, 0.9)), 0.02, 1.5)[0], 2).tolist()
                for _ in range(int(rng.integers(6, 40)))]
        w = np.ones(len(pool))
        w[rng.integers(0, len(pool), size=int(rng.integers(0, 4)))] = len(pool)
        return [pool[k] for k in rng.choice(len(pool), size=int(rng.integers(len(pool), 3 * len(pool))), p=w / w.sum())]
    p = draw(st.integers(pmin, pmax))
    pool = []
    for _ in range(draw(st.integers(1, 3))):
        order = draw(st.permutations(range(p)))
        B = [[0.0] * p for _ in range(p)]
        for a in range(p):
            for b in range(a):
                B[order[a]][order[b]] = draw(COEF)
        if nan and draw(st.integers(0, 4)) == 0:
            i, j = draw(st.integers(0, p - 1)), draw(st.integers(0, p - 1))
            if i != j:
                B[i][j] = B[j][i] = None
        pool.append(B)
    k = draw(st.integers(1, kmax))
    return [pool[draw(st.integers(0, len(pool) - 1))] for _ in range(k)]


def arr(x):
    return np.array(
        [[[np.nan if v is None else v for v in r] for r in B] for B in x], float)


def result(ams, te=None, cls=None):
    te = np.zeros((len(ams), ams.shape[1], ams.shape[2])) if te is None else te
    return lingam.BootstrapResult(ams, te)


def naive_directions(ams, thr, sign):
    c = collections.Counter()
    for B in ams:
        for i in range(B.shape[0]):
            for j in range(B.shape[1]):
                v = B[i, j]
                if v == v and abs(v) > thr:
                    c[(j, i, int(np.sign(v))) if sign else (j, i)] += 1
    return c


def check_directions(cdc, want, top, sign):
    keys = ["from", "to", "count"] + (["sign"] if sign else [])
    require(set(cdc) == set(keys), "keys", list(cdc))
    rows = list(zip(*[cdc[k] for k in (["from", "to", "sign"] if sign else ["from", "to"])]))
    require(len({len(cdc[k]) for k in keys}) == 1, "columns of different length", cdc)
    rows = [tuple(int(v) for v in r) for r in rows]
    counts = [int(v) for v in cdc["count"]]
    require(len(set(rows)) == len(rows), "a direction is listed twice", rows)
    require(counts == sorted(counts, reverse=True), "not sorted by count", counts)
    for r, c in zip(rows, counts):
        require(want.get(r) == c, "count of a direction", r, c, want.get(r))
    n = len(want) if top is None else min(top, len(want))
    require(len(rows) == n, "number of directions", len(rows), n)
    require(counts == sorted(want.values(), reverse=True)[:n], "not the most frequent", counts)


def naive_dags(ams, thr, sign):
    c = collections.Counter()
    for B in ams:
        c[frozenset(naive_directions([B], thr, sign))] += 1
    return c


def check_dags(res, want, top, sign):
    require(set(res) == {"dag", "count"}, "keys", list(res))
    counts = [int(v) for v in res["count"]]
    require(len(res["dag"]) == len(counts), "lengths")
    seen = set()
    for g, c in zip(res["dag"], counts):
        cols = ["from", "to", "sign"] if sign else ["from", "to"]
        rows = [tuple(int(v) for v in r) for r in zip(*[g[k] for k in cols])]
        require(len(set(rows)) == len(rows), "edge repeated", rows)
        require(all(len(g[k]) == len(rows) for k in cols), "lengths in a graph")
        key = frozenset(rows)
        require(key not in seen, "a graph is listed twice", rows)
        seen.add(key)
        require(want.get(key) == c, "count of a graph", sorted(rows), c, want.get(key))
    require(counts == sorted(counts, reverse=True), "not sorted", counts)
    n = len(want) if top is None else min(top, len(want))
    require(counts == sorted(want.values(), reverse=True)[:n], "not the most frequent", counts)


def nontriv(ctx, ams):
    E = naive_directions(ams, 0.0, False)
    ctx.nontrivial(len(ams) > 1 and bool(E))
    ctx.label("repeated" if any(c > 1 for c in E.values()) else "single")


@P.clause(
    "counts",
    st.fixed_dictionaries({"ams": dag_list(), "thr": THR, "top": TOP, "sign": st.booleans()}),
    quick=3000, thorough=50000,
    rule="more than one sample and at least one edge",
)
def counts(d, ctx):
    ams = arr(d["ams"])
    keep = ams.copy()
    r = result(ams)
    thr = d["thr"] or 0.0
    check_directions(
        r.get_causal_direction_counts(
            n_directions=d["top"], min_causal_effect=d["thr"],
            split_by_causal_effect_sign=d["sign"]),
        naive_directions(ams, thr, d["sign"]), d["top"], d["sign"])
    check_dags(
        r.get_directed_acyclic_graph_counts(
            n_dags=d["top"], min_causal_effect=d["thr"], split_by_causal_effect_sign=d["sign"]),
        naive_dags(ams, thr, d["sign"]), d["top"], d["sign"])
    pr = np.asarray(r.get_probabilities(min_causal_effect=d["thr"]))
    require(pr.shape == ams.shape[1:], "shape of the probabilities", pr.shape)
    nd = naive_directions(ams, thr, False)
    for i in range(ams.shape[1]):
        for j in range(ams.shape[2]):
            require(abs(pr[i, j] - nd.get((j, i), 0) / len(ams)) < 1e-12, "probability", i, j)
    require(np.array_equal(ams, keep, equal_nan=True), "the samples were modified")
    require(np.array_equal(r.adjacency_matrices_, keep, equal_nan=True), "stored samples changed")
    nontriv(ctx, ams)


def check_total(res, te, thr):
    want = {}
    k, p, q = te.shape
    for to in range(p):
        for fr in range(q):
            vals = [te[s, to, fr] for s in range(k)]
            hit = sum(1 for v in vals if v == v and abs(v) > thr)
            if hit:
                nz = [v for v in vals if v == v and v != 0]
                want[(fr, to)] = (float(np.median(nz)), hit / k)
    require(set(res) == {"from", "to", "effect", "probability"}, "keys", list(res))
    rows = [(int(a), int(b)) for a, b in zip(res["from"], res["to"])]
    require(len(rows) == len(set(rows)) == len(want), "directions", rows, list(want))
    pr = list(res["probability"])
    require(pr == sorted(pr, reverse=True), "not sorted by probability", pr)
    for r, e, q in zip(rows, res["effect"], pr):
        require(r in want, "unexpected direction", r)
        require(abs(want[r][0] - e) < 1e-12 and abs(want[r][1] - q) < 1e-12,
                "effect / probability", r, (e, q), want[r])


@P.clause(
    "total_effects",
    st.fixed_dictionaries({"te": dag_list(), "thr": THR, "which": st.sampled_from(["boot", "long"])}),
    quick=1500, thorough=25000,
    rule="more than one sample and at least one effect",
)
def total(d, ctx):
    te = arr(d["te"])
    if d["which"] == "boot":
        r = result(te.copy(), te)
    else:
        r = lingam.LongitudinalBootstrapResult(2, te[:, None, None] * 0, te)
    check_total(r.get_total_causal_effects(min_causal_effect=d["thr"]), te, d["thr"] or 0.0)
    nontriv(ctx, te)


def check_paths(res, per_sample, k):
    """per_sample: list of {path: effect}."""
    occ = collections.defaultdict(list)
    for s in per_sample:
        for q, e in s.items():
            occ[q].append(e)
    require(set(res) == {"path", "effect", "probability"}, "keys", list(res))
    got = [tuple(int(v) for v in q) for q in res["path"]]
    require(len(got) == len(set(got)), "a path is listed twice", got)
    require(set(got) == set(occ), "paths", sorted(got), sorted(occ))
    pr = list(res["probability"])
    require(pr == sorted(pr, reverse=True), "not sorted by probability", pr)
    for q, e, x in zip(got, res["effect"], pr):
        require(abs(x - len(occ[q]) / k) < 1e-12, "probability of a path", q, x)
        m = float(np.median(occ[q]))
        require(abs(e - m) <= 1e-9 * (1 + abs(m)), "effect of a path", q, e, m)


def longest(B, a, b):
    """Length of the longest path from a to b in an acyclic graph."""
    A = (np.nan_to_num(np.abs(B)) > 0).T.astype(float)
    n, M = 0, np.eye(len(A))
    for k in range(1, len(A)):
        M = np.minimum(M @ A, 1)
        n = k if M[a, b] > 0 else n
    return n


def path_effects(B, a, b, thr):
    out = {}
    for q in ref.simple_paths(ref.edges(B, thr), a, b, len(B)):
        v = 1.0
        for x, y in zip(q, q[1:]):
            v *= B[y, x]
        out[q] = v
    return out


@P.clause(
    "paths",
    st.fixed_dictionaries({"ams": dag_list(3, 5, 5), "a": st.integers(0, 12), "b": st.integers(0, 12),
                           "thr": THR}),
    quick=2000, thorough=30000,
    rule="at least one path in some sample",
)
def paths(d, ctx):
    ams = arr(d["ams"])
    p = ams.shape[1]
    a, b = d["a"] % p, d["b"] % p
    if p > 7 and d["a"] % 2:  # the longest path
        far = max(((i, j) for i in range(p) for j in range(p)), key=lambda e: longest(ams[0], *e))
        a, b = far
    if a == b:
        ctx.reject()
    per = [path_effects(B, a, b, d["thr"] or 0.0) for B in ams]
    check_paths(result(ams).get_paths(a, b, min_causal_effect=d["thr"]), per, len(ams))
    ctx.nontrivial(any(per))
    ctx.label("long" if any(len(q) > 2 for s in per for q in s) else "short")


@st.composite
def lagged_spec(draw):
    p = draw(st.integers(2, 3))
    L = draw(st.integers(1, 3))
    q = draw(st.integers(0, 2))
    pool = []
    for _ in range(draw(st.integers(1, 2))):
        order = draw(st.permutations(range(p)))
        rows = [[0.0] * (p * (L + 1 + q)) for _ in range(p)]
        for a in range(p):
            for b in range(a):
                rows[order[a]][order[b]] = draw(COEF)
        for i in range(p):
            for j in range(p, p * (L + 1 + q)):
                rows[i][j] = draw(COEF)
        pool.append(rows)
    k = draw(st.integers(1, 4))
    return {
        "p": p, "L": L, "q": q,
        "ams": [pool[draw(st.integers(0, len(pool) - 1))] for _ in range(k)],
        "a": draw(st.integers(0, p - 1)), "b": draw(st.integers(0, p - 1)),
        "fl": draw(st.integers(0, L)), "tl": draw(st.integers(0, L)),
        "thr": draw(THR), "cls": draw(st.sampled_from(["var", "varma"])),
    }


@P.clause(
    "lagged_paths", lagged_spec(), quick=900, thorough=15000,
    rule="at least one path in some sample",
)
def lagged(d, ctx):
    p, L = d["p"], d["L"]
    q = d["q"] if d["cls"] == "varma" else 0
    ams = arr(d["ams"])[:, :, : p * (L + 1 + q)]
    te = ams[:, :, : p * (L + 1)].copy()
    if d["cls"] == "var":
        r = lingam.VARBootstrapResult(ams, te)
    else:
        r = lingam.VARMABootstrapResult(ams, te, (L, q))
    args = dict(from_lag=d["fl"], to_lag=d["tl"], min_causal_effect=d["thr"])
    if d["tl"] > d["fl"] or (d["tl"] == d["fl"] and d["a"] == d["b"]):
        try:
            r.get_paths(d["a"], d["b"], **args)
        except ValueError:
            ctx.label("rejected")
            return
        require(False, "impossible lags accepted", d["fl"], d["tl"])
    per = []
    for A in ams:
        big = np.zeros((p * (L + 1), p * (L + 1)))   # node (lag, variable)
        for to_lag in range(L + 1):
            for fr_lag in range(to_lag, L + 1):
                for i in range(p):
                    for j in range(p):
                        big[to_lag * p + i, fr_lag * p + j] = A[i, (fr_lag - to_lag) * p + j]
        per.append(path_effects(big, d["fl"] * p + d["a"], d["tl"] * p + d["b"], d["thr"] or 0.0))
    check_paths(r.get_paths(d["a"], d["b"], **args), per, len(ams))
    # probability matrices: one per block
    pr = r.get_probabilities(min_causal_effect=d["thr"])
    require(len(pr) == L + 1 + q, "one probability matrix per lag", len(pr))
    for blk, M in enumerate(pr):
        want = (np.abs(ams[:, :, blk * p:(blk + 1) * p]) > (d["thr"] or 0.0)).mean(axis=0)
        require(np.allclose(M, want), "probabilities of a lag", blk, M, want)
    check_directions(
        r.get_causal_direction_counts(min_causal_effect=d["thr"]),
        naive_directions(ams, d["thr"] or 0.0, False), None, False)
    check_directions(
        r.get_causal_direction_counts(n_directions=3, min_causal_effect=d["thr"],
                                      split_by_causal_effect_sign=True),
        naive_directions(ams, d["thr"] or 0.0, True), 3, True)
    check_dags(
        r.get_directed_acyclic_graph_counts(min_causal_effect=d["thr"],
                                            split_by_causal_effect_sign=True),
        naive_dags(ams, d["thr"] or 0.0, True), None, True)
    check_total(r.get_total_causal_effects(min_causal_effect=d["thr"]), te, d["thr"] or 0.0)
    ctx.nontrivial(any(per))
    ctx.label(d["cls"])


@st.composite
def long_spec(draw):
    p = draw(st.integers(2, 3))
    T = draw(st.integers(2, 4))
    L = draw(st.integers(1, 2))
    pool = []
    for _ in range(draw(st.integers(1, 2))):
        am = []
        for t in range(T):
            order = draw(st.permutations(range(p)))
            B0 = [[0.0] * p for _ in range(p)]
            for a in range(p):
                for b in range(a):
                    B0[order[a]][order[b]] = draw(COEF)
            lag = [[[draw(COEF) for _ in range(p)] for _ in range(p)] for _ in range(L)]
            am.append([B0] + lag if t >= L else [[[None] * p for _ in range(p)]] * (L + 1))
        pool.append(am)
    k = draw(st.integers(1, 4))
    return {"p": p, "T": T, "L": L,
            "ams": [pool[draw(st.integers(0, len(pool) - 1))] for _ in range(k)],
            "a": draw(st.integers(0, p - 1)), "b": draw(st.integers(0, p - 1)),
            "ft": draw(st.integers(0, T - 1)), "tt": draw(st.integers(0, T - 1)),
            "thr": draw(THR), "top": draw(TOP), "sign": draw(st.booleans())}


@P.clause(
    "longitudinal", long_spec(), quick=900, thorough=15000,
    rule="more than one sample",
)
def longi(d, ctx):
    p, T, L, thr = d["p"], d["T"], d["L"], d["thr"] or 0.0
    ams = np.array([arr(sum(a, [])).reshape(T, L + 1, p, p) for a in d["ams"]])
    te = np.zeros((len(ams), p * T, p * T))
    r = lingam.LongitudinalBootstrapResult(T, ams, te)
    cd = r.get_causal_direction_counts(
        n_directions=d["top"], min_causal_effect=d["thr"], split_by_causal_effect_sign=d["sign"])
    dg = r.get_directed_acyclic_graph_counts(
        n_dags=d["top"], min_causal_effect=d["thr"], split_by_causal_effect_sign=d["sign"])
    require(len(cd) == len(dg) == T, "one summary per time point", len(cd), len(dg))
    for t in range(T):
        flat = [np.hstack(list(a[t])) for a in ams]
        check_directions(cd[t], naive_directions(flat, thr, d["sign"]), d["top"], d["sign"])
        check_dags(dg[t], naive_dags(flat, thr, d["sign"]), d["top"], d["sign"])
    pr = np.asarray(r.get_probabilities(min_causal_effect=d["thr"]))
    want = (np.abs(np.nan_to_num(ams)) > thr).mean(axis=0)
    require(pr.shape == want.shape and np.allclose(pr, want), "probabilities", pr, want)
    a, b, ft, tt = d["a"], d["b"], d["ft"], d["tt"]
    if tt < ft or (tt == ft and a == b):
        try:
            r.get_paths(a, b, ft, tt, min_causal_effect=d["thr"])
        except ValueError:
            ctx.label("rejected")
            return
        require(False, "impossible time points accepted", ft, tt)
    per = []
    for am in ams:
        N = p * (tt - ft + 1)
        big = np.zeros((N, N))
        for t in range(ft, tt + 1):
            for s in range(ft, t + 1):
                if t - s <= L:
                    big[(t - ft) * p:(t - ft + 1) * p, (s - ft) * p:(s - ft + 1) * p] = am[t, t - s]
        per.append(path_effects(big, a, (tt - ft) * p + b, thr))
    check_paths(r.get_paths(a, b, ft, tt, min_causal_effect=d["thr"]), per, len(ams))
    ctx.nontrivial(len(ams) > 1)
    ctx.label("path" if any(per) else "no_path")


@P.clause(
    "arguments",
    st.fixed_dictionaries({
        "ams": dag_list(2, 3, 3), "bad": st.sampled_from([0, -1, 1.5, "3", -0.5, 0.0]),
        "which": st.sampled_from(["dir", "dag", "dir_thr", "dag_thr", "prob", "total", "path"]),
        "long": st.booleans(),
    }),
    quick=300, thorough=2000, rule="every case",
)
def arguments(d, ctx):
    ams = arr(d["ams"])
    bad, w = d["bad"], d["which"]
    if w not in ("dir", "dag"):
        if isinstance(bad, str) or bad > 0:
            bad = -0.25
    if d["long"]:
        r = lingam.LongitudinalBootstrapResult(1, ams[:, None, None], np.nan_to_num(ams))
    else:
        r = result(ams)
    call = {
        "dir": lambda: r.get_causal_direction_counts(n_directions=bad),
        "dag": lambda: r.get_directed_acyclic_graph_counts(n_dags=bad),
        "dir_thr": lambda: r.get_causal_direction_counts(min_causal_effect=bad),
        "dag_thr": lambda: r.get_directed_acyclic_graph_counts(min_causal_effect=bad),
        "prob": lambda: r.get_probabilities(min_causal_effect=bad),
        "total": lambda: r.get_total_causal_effects(min_causal_effect=bad),
        "path": lambda: (r.get_paths(0, 1, 0, 0, min_causal_effect=bad) if d["long"]
                         else r.get_paths(0, 1, min_causal_effect=bad)),
    }[w]
    try:
        call()
    except ValueError:
        ctx.nontrivial()
        return
    require(False, "an invalid argument was accepted", w, bad)
