"""C22: out-of-sample tuning scores Markov-blanket predictions and picks the sparsest good model."""
import os

os.environ["LOKY_MAX_CPU_COUNT"] = "1"   # the forests use all cores; shards run in parallel already

import numpy as np
from hypothesis import strategies as st
from lingam.experimental import OutOfSampleCausalTuning
from sklearn.ensemble import RandomForestRegressor
from sklearn.model_selection import KFold

import gen
from core import Property, require

P = Property("C22", boost=1)


class Fixed:
    """A stand-in for a causal discovery algorithm that returns given graphs in turn."""

    def __init__(self, graphs=None, log=None):
        self.graphs, self.log = graphs, log

    def fit(self, X, tag=None):
        self.log.append((np.array(X), tag))
        self.adjacency_matrix_ = np.array(self.graphs[(len(self.log) - 1) % len(self.graphs)])
        return self


def blanket(G, i):
    p = len(G)
    s = set()
    for j in range(p):
        if j != i and (G[i, j] != 0 or G[j, i] != 0):
            s.add(j)
        if any(G[k, i] != 0 and G[k, j] != 0 for k in range(p)) and j != i:
            s.add(j)
    return sorted(s)


def mi(x, y):
    return -0.5 * np.log(1 - np.corrcoef(x, y)[0, 1] ** 2)


def reference(X, blankets, splits, seed):
    """Scores and out-of-fold predictions of one configuration."""
    n, p = X.shape
    preds = np.zeros((p, n))
    for b, (tr, te) in zip(blankets, splits):
        for v in range(p):
            if b[v]:
                f = RandomForestRegressor(random_state=seed, n_estimators=100).fit(X[tr][:, b[v]], X[tr, v])
                preds[v, te] = f.predict(X[te][:, b[v]])
            else:
                preds[v, te] = X[tr, v].mean()
    idx = np.concatenate([te for _, te in splits])
    return np.mean([mi(X[idx, v], preds[v, idx]) for v in range(p)]), preds


SPARSE = st.sampled_from([0.0, 0.0, 0.0, 1.0, -0.5, 1e-3])


@st.composite
def spec(draw, edges=True, same=True):
    p = draw(st.integers(2, 4 if not edges else 3)) if draw(st.integers(0, 24)) else 8
    nconf = draw(st.integers(1, 3))
    confs = []
    for _ in range(nconf):
        kind = draw(st.sampled_from(["graph", "empty", "all"] if edges else ["empty"]))
        gs = [draw(gen.dag_matrix(p, p, coefs=SPARSE)) for _ in range(draw(st.integers(1, 2)))]
        confs.append({"kind": kind, "graphs": gs})
    return {"seed": draw(gen.SEED), "p": p, "n": draw(gen.size(24, 50, 400, 20)), "confs": confs,
            "cv": draw(st.sampled_from(["2", "3", "shuffle", "list"])),
            "near": draw(st.booleans()), "strong": draw(st.booleans()), "density": draw(st.sampled_from([0.7, 0.0, 0.3]))}


def setup(d):
    rng = np.random.default_rng(d["seed"])
    p, n = d["p"], d["n"]
    B, order = gen.random_dag(rng, p, d["density"], 0.8, 1.6)
    X, _ = gen.sem(rng, B, order, n, "uniform", scales=[0.3 if d["strong"] else 1.0] * p)
    if d["cv"] in ("2", "3"):
        cv = int(d["cv"])
        splits = list(KFold(cv).split(X))
    elif d["cv"] == "shuffle":
        cv = KFold(2, shuffle=True, random_state=7)
        splits = list(KFold(2, shuffle=True, random_state=7).split(X))
    else:
        perm = rng.permutation(n)
        k = n // 3
        cv = [(perm[k:], perm[:k]), (perm[:k + 2], perm[k + 2:])]
        splits = cv
    logs, configs, blankets = [], [], []
    for i, c in enumerate(d["confs"]):
        log = []
        logs.append(log)
        if c["kind"] == "all":
            configs.append({"all_others": True})
            gs = None
        else:
            gs = [np.array(g) if c["kind"] == "graph" else np.zeros((p, p)) for g in c["graphs"]]
            if (d["seed"] + i) % 3:
                configs.append({"model": Fixed, "init_kwargs": {"graphs": gs, "log": log},
                                "fit_kwargs": {"tag": i}})
            else:
                configs.append({"model": lambda gs=gs, log=log: Fixed(gs, log), "fit_kwargs": {"tag": i}})
        blankets.append([[blanket(gs[f % len(gs)], v) if gs is not None else [j for j in range(p) if j != v]
                          for v in range(p)] for f in range(len(splits))])
    return rng, X, cv, splits, logs, configs, blankets


def check(d, ctx, penalty, thr=0.05):
    rng, X, cv, splits, logs, configs, blankets = setup(d)
    p = d["p"]
    keep = X.copy()
    seed = int(rng.integers(1000))
    t = OutOfSampleCausalTuning(cv=cv, sparsity_penalty=penalty, thr=thr, random_state=seed)
    require(t.fit(X, configs) is t, "fit returns the tuner")
    s = t.scores_
    k = len(configs)
    require(len(s["performance"]) == k and len(s["mb_size"]) == k, "one score per configuration")
    refs = []
    for i in range(k):
        if d["confs"][i]["kind"] != "all":
            require(len(logs[i]) == len(splits), "one causal model per fold", len(logs[i]))
            for (Z, tag), (tr, _) in zip(logs[i], splits):
                require(tag == i, "fit_kwargs")
                require(np.array_equal(Z, X[tr]), "the causal model of a fold sees the training part only")
        want = np.mean([len(b) for f in blankets[i] for b in f])
        require(np.isclose(s["mb_size"][i], want), "average Markov blanket", s["mb_size"][i], want)
        score, preds = reference(X, blankets[i], splits, 12345)
        refs.append(preds)
        got = s["performance"][i]
        if not any(b for f in blankets[i] for b in f):
            require(np.isclose(got, score, rtol=1e-8, atol=1e-10), "score of an empty graph", got, score)
        else:
            require(abs(got - score) <= 0.2 * abs(score) + 0.12, "score", got, score)
    perf = np.array(s["performance"])
    top = int(np.argmax(perf))
    best = t.best_config_index_
    if not penalty:
        require(s["sp_score"] is None, "no permutation test without penalty")
        require(perf[int(best)] == perf.max(), "the best score wins", perf, best)
    else:
        ps = {int(a): float(b) for a, b in s["sp_score"].items()}
        require(set(ps) == set(range(k)) - {top}, "every other configuration is tested", ps, top)
        idx = np.concatenate([te for _, te in splits])
        for i, v in ps.items():
            require(0 <= v <= 1, "p-value", v)
            obs = perf[top] - perf[i]
            prng = np.random.default_rng(5)
            ts = [np.mean([mi(X[idx, q], prng.permutation(refs[top][q, idx]))
                           - mi(X[idx, q], prng.permutation(refs[i][q, idx])) for q in range(p)])
                  for _ in range(150)]
            share, loose, tight = (np.mean(np.array(ts) > obs + e) for e in (0, -0.02, 0.02))
            require(tight - 0.17 <= v <= loose + 0.17, "permutation p-value", v, share)
        cand = [top] + sorted(i for i, v in ps.items() if v > thr)
        small = min(s["mb_size"][i] for i in cand)
        require(int(best) in cand and s["mb_size"][int(best)] == small,
                "the sparsest configuration that is not significantly worse wins", best, cand, s["mb_size"])
        if s["mb_size"][top] == small:
            require(int(best) == top, "a tie is not given away", best, top)
        ctx.label("sparser" if int(best) != top else "same")
    require(np.array_equal(X, keep), "the data were modified")
    return t, X, configs, logs, perf


@P.clause("scores", spec(), quick=40, thorough=600, rule="a graph with an edge among two or more configurations")
def scores(d, ctx):
    t, X, configs, logs, perf = check(d, ctx, False)
    kinds = [c["kind"] for c in d["confs"]]
    ctx.label(*kinds)
    ctx.nontrivial(len(kinds) > 1 and ("all" in kinds or "graph" in kinds))


@P.clause("wide", st.fixed_dictionaries({
    "seed": gen.SEED, "p": st.integers(7, 10), "n": st.integers(40, 90), "graph": st.booleans()}),
    quick=6, thorough=60, rule="every case")
def wide(d, ctx):
    """Many variables, so that the blankets are large."""
    rng = np.random.default_rng(d["seed"])
    p = d["p"]
    G, _ = gen.random_dag(rng, p, 0.5, 0.8, 1.6)
    confs = [{"kind": "all", "graphs": []}]
    if d["graph"]:
        confs.append({"kind": "graph", "graphs": [G.tolist()]})
    check(dict(d, confs=confs, cv="2", near=False, strong=True, density=0.7), ctx, False)
    ctx.nontrivial()


@P.clause("penalty", spec(), quick=30, thorough=400, rule="two or more configurations")
def penalty(d, ctx):
    thr = [0.05, 0.01, 0.3, 0.6][d["seed"] % 4]
    if d["near"]:
        # a second configuration that differs by one edge, so that the scores are close
        G = np.array(d["confs"][0]["graphs"][0])
        c = list(zip(*np.nonzero(G)))
        if c:
            H = G.copy()
            H[c[d["seed"] % len(c)]] = 0
            gs = [[G, H], [G, H, 0 * G], [G, H, 0 * G, 0 * G]][d["seed"] // 3 % 3]
            d = dict(d, confs=[{"kind": "graph", "graphs": [g.tolist()]} for g in gs][::1 if d["seed"] % 3 else -1])
    check(d, ctx, True, thr)
    ctx.nontrivial(len(d["confs"]) > 1)


@P.clause("empty", spec(edges=False), quick=80, thorough=1500, rule="three or more folds or own splits")
def empty(d, ctx):
    check(d, ctx, False)
    ctx.nontrivial(d["cv"] != "2")


@P.clause("reproducible", spec(), quick=10, thorough=100, rule="a forest is used")
def reproducible(d, ctx):
    out = []
    for _ in range(2):
        rng, X, cv, splits, logs, configs, blankets = setup(d)
        t = OutOfSampleCausalTuning(cv=cv, sparsity_penalty=True, thr=0.05, random_state=3).fit(X, configs)
        out.append((t.scores_, t.best_config_index_))
    require(out[0] == out[1] or (np.array_equal(out[0][0]["performance"], out[1][0]["performance"])
                                 and out[0][1] == out[1][1]), "same random state, same result", out)
    ctx.nontrivial(any(c["kind"] != "empty" for c in d["confs"]))


BAD = {
    "not_list": lambda m: dict(configs=({"model": m},)), "empty": lambda m: dict(configs=[]),
    "not_dict": lambda m: dict(configs=[m]), "unknown_key": lambda m: dict(configs=[{"model": m, "x": 1}]),
    "not_callable": lambda m: dict(configs=[{"model": 3}]), "init": lambda m: dict(configs=[{"model": m, "init_kwargs": [1]}]),
    "fit": lambda m: dict(configs=[{"model": m, "fit_kwargs": 2}]),
    "all_others": lambda m: dict(configs=[{"all_others": 1}]), "no_model": lambda m: dict(configs=[{}]),
    "thr0": lambda m: dict(init={"thr": 0.0}), "thr1": lambda m: dict(init={"thr": 1.0}),
    "thr_str": lambda m: dict(init={"thr": "a"}), "sp": lambda m: dict(init={"sparsity_penalty": 1}),
    "one_feature": lambda m: dict(cols=1), "nan": lambda m: dict(nan=True),
}


@P.clause("rejected", st.fixed_dictionaries({"kind": st.sampled_from(sorted(BAD)), "seed": gen.SEED}),
          quick=40, thorough=200, rule="every case")
def rejected(d, ctx):
    rng = np.random.default_rng(d["seed"])
    X = rng.normal(size=(20, 3))
    log = []

    def make():
        return Fixed([np.zeros((3, 3))], log)

    a = BAD[d["kind"]](make)
    if a.get("cols"):
        X = X[:, :1]
    if a.get("nan"):
        X[0, 0] = np.nan
    init = {"cv": 2, **a.get("init", {})}
    ctx.label(d["kind"])
    try:
        OutOfSampleCausalTuning(**init).fit(X, a.get("configs", [{"model": make}]))
    except (TypeError, ValueError):
        ctx.nontrivial()
        return
    require(False, f"accepted: {d['kind']}")
