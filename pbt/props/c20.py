"""C20: the simulator rebuilds the data and propagates changes along the graph."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from lingam import CausalBasedSimulator
from scipy.special import expit
from sklearn.linear_model import LinearRegression, LogisticRegression, Perceptron, Ridge
from sklearn.tree import DecisionTreeClassifier
from sklearn.model_selection import GridSearchCV
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import PolynomialFeatures

import gen
import ref
from core import Property, require

P = Property("C20", boost=6)


def poly():
    return make_pipeline(PolynomialFeatures(2), LinearRegression())


def search():
    return GridSearchCV(LinearRegression(), {"fit_intercept": [True, False]}, cv=2)


def wrap(values, how):
    values = values.copy()
    return {"array": lambda v: v, "list": lambda v: [float(x) for x in v],
            "series": lambda v: pd.Series(v, index=np.arange(len(v))[::-1] + 3),
            "column": lambda v: v.reshape(-1, 1)}[how](values)


@st.composite
def spec(draw, lags=0):
    G = draw(gen.dag_matrix(2, 5, coefs=st.sampled_from([0.0, 1.0, -0.7, 0.0, 2.0, 1e-3]), wide=12))
    p = len(G)
    d = {
        "G": G, "seed": draw(gen.SEED), "n": draw(gen.size(25, 60, 1500)),
        "algo": draw(st.sampled_from([None, "DirectLiNGAM", "ICALiNGAM", "BottomUpParceLiNGAM"])),
        "frame": draw(st.booleans()),
        "poly": draw(st.lists(st.integers(0, p - 1), max_size=3)),
        "exog": draw(st.lists(st.integers(0, p - 1), max_size=2, unique=True)),
        "change": draw(st.lists(st.tuples(st.integers(0, p - 1), st.sampled_from(
            ["coef", "model", "none"]), st.lists(st.integers(0, p - 1), min_size=1, max_size=2, unique=True)),
            max_size=2)),
        "shuffle": draw(st.booleans()),
        "nan": draw(st.booleans()),
        "disc": draw(st.sampled_from([[], [], [0], [1], [2], [3], [0, 1], [1, 2], [0, 3]])),
        "dmodel": draw(st.booleans()),
        "classes": draw(st.sampled_from([2, 2, 3])),
        "search": draw(st.sampled_from([False, False, False, True])),
        "values": draw(st.sampled_from(["array", "list", "series", "column"])),
    }
    edges = [(i, j) for i in range(p) for j in range(p) if abs(G[i][j]) > 1e-8]
    if edges and draw(st.integers(0, 3)) == 0:
        # turn an edge round
        i, j = draw(st.sampled_from(edges))
        keep = [q for q in range(p) if abs(G[i][q]) > 1e-8 and q != j]
        d["change"] = [(i, draw(st.sampled_from(["coef", "model"])) if keep else "none", keep),
                       (j, draw(st.sampled_from(["coef", "model"])), [i])]
    return d


def build(d):
    rng = np.random.default_rng(d["seed"])
    G = np.array(d["G"])
    p, n = len(G), d["n"]
    X = rng.uniform(-1, 1, (n, p)) @ np.linalg.inv(np.eye(p) - G).T + rng.normal(size=p)
    names = [f"{i}" for i in range(p)]
    if d["frame"]:
        names = [f"v{p - i}" for i in range(p)]
    return rng, G, X, names


def CLS():
    return DecisionTreeClassifier(max_depth=2, min_samples_leaf=3, random_state=0)


def classify(X, i, k):
    q = np.quantile(X[:, i], np.arange(1, k) / k)
    X[:, i] = np.searchsorted(q, X[:, i]).astype(float)


def topo(parents, names):
    order, left = [], list(names)
    while left:
        nxt = [v for v in left if not any(q in left for q in parents[v])]
        if not nxt:
            return None
        order.append(nxt[0])
        left.remove(nxt[0])
    return order


def closef(a, b, s=1.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-7 * (1 + s))


@P.clause("simulate", spec(), quick=350, thorough=5000,
          rule="an edge exists and something is changed or shuffled")
def simulate(d, ctx):
    rng, G, X, names = build(d)
    p, n = len(G), d["n"]
    disc = {i for i in d["disc"] if i < p}
    for i in disc:
        classify(X, i, d["classes"])
    dn = {names[i] for i in disc}
    graph = G.copy()
    if d["algo"] == "BottomUpParceLiNGAM" and d["nan"]:
        roots = [i for i in range(p) if not G[i].any()]
        for a in roots:
            for b in roots:
                if a != b:
                    graph[a, b] = np.nan
    arg = pd.DataFrame(X, columns=names) if d["frame"] else X
    keepX, keepG = X.copy(), graph.copy()
    mk = search if d["search"] else poly
    one = mk()  # one estimator object may be named for several variables
    models = {names[i]: one if d["seed"] % 2 else mk() for i in d["poly"] if i not in disc}
    if d["dmodel"]:
        models.update({v: CLS() for v in dn})
    sim = CausalBasedSimulator()
    flags = [i in disc for i in range(p)] if disc else None
    if disc and d["values"] == "array":
        flags = np.array(flags)
    out = sim.train(arg, graph, cd_algo_name=d["algo"], models=models or None, is_discrete=flags)
    require(out is sim, "train returns the simulator")
    parents = {names[i]: [names[j] for j in range(p) if abs(G[i, j]) > 1e-8] for i in range(p)}
    data = {names[i]: X[:, i] for i in range(p)}
    # training
    fitted, resid = {}, {}
    for v in names:
        r = sim.train_result_[v]
        require(list(r["parent_names"]) == parents[v], "parents", v, r["parent_names"], parents[v])
        if not parents[v]:
            require(closef(r["residual"], data[v]), "an exogenous variable keeps its values")
            resid[v] = data[v]
            continue
        Z = np.column_stack([data[q] for q in parents[v]])
        if v in dn:
            fitted[v] = (CLS() if d["dmodel"] else LogisticRegression()).fit(Z, data[v])
            require(np.array_equal(np.asarray(r["predicted"], float), fitted[v].predict(Z)),
                    "predicted classes")
            resid[v] = None
            continue
        fitted[v] = (mk() if v in models else LinearRegression()).fit(Z, data[v])
        resid[v] = data[v] - fitted[v].predict(Z)
        require(closef(r["residual"], resid[v], np.abs(data[v]).max()), f"residuals of {v}")
        require(closef(np.asarray(r["predicted"]) + np.asarray(r["residual"]), data[v]), "fit")
    sc = np.abs(X).max()
    if not disc:
        base = sim.run()
        require(list(base.columns) == names, "columns", base.columns)
        require(closef(base.values, X, sc), "without changes the data are rebuilt")
    # changes
    exog, changed = {}, {}
    for i in d["exog"]:
        if i not in disc:
            exog[names[i]] = rng.normal(size=n) * 2
    arg_models = {}
    newpar = dict(parents)
    for t, how, par in d["change"]:
        t, par = names[t], [names[j] for j in par]
        if t in par or t in arg_models:
            continue
        isdisc = t in dn
        if how == "none":
            if isdisc:
                continue
            arg_models[t] = {"parent_names": []}
            newpar[t] = []
            continue
        trial = dict(newpar)
        trial[t] = par
        if topo(trial, names) is None:
            continue
        newpar = trial
        if how == "coef":
            w = [float(v) for v in rng.normal(size=len(par))]
            arg_models[t] = {"parent_names": par, "coef": w}
            changed[t] = (lambda Z, w=w: expit(Z @ np.array(w)) >= 0.5) if isdisc else \
                (lambda Z, w=w: Z @ np.array(w))
        else:
            Z = np.column_stack([data[q] for q in par])
            f = (LogisticRegression() if isdisc else LinearRegression()).fit(Z, data[t])
            arg_models[t] = {"parent_names": par, "model": f}
            changed[t] = f.predict
        if isdisc and not parents[t]:
            resid[t] = None
    rs = int(rng.integers(1000))
    got = sim.run(changing_exog={k: wrap(v, d["values"]) for k, v in exog.items()} or None,
                  changing_models=arg_models or None, shuffle_residual=d["shuffle"], random_state=rs)
    require(list(got.columns) == names and len(got) == n, "shape of the simulated data")

    def propagate(index):
        want = {}
        for v in topo(newpar, names):
            isdisc = v in dn
            e = exog.get(v, resid[v])
            if e is not None:
                e = e[index]
            if not newpar[v]:
                want[v] = data[v] if isdisc else e
                continue
            Z = np.column_stack([np.asarray(want[q], float) for q in newpar[v]])
            f = changed[v](Z) if v in changed else fitted[v].predict(Z)
            want[v] = np.asarray(f, float) if isdisc else f + e
        return want

    index = np.arange(n)
    if d["shuffle"]:
        index = np.random.RandomState(rs).choice(np.arange(n), size=n, replace=False)
    want = propagate(index)
    if d["shuffle"] and not all(
            closef(got[v].values.astype(float), np.asarray(want[v], float), sc * 10) for v in names):
        # another way to draw the permutation: recover it from a root variable
        root = [v for v in names if not newpar[v] and v not in dn]
        if not root:
            ctx.reject("the permutation cannot be observed")
        e = exog.get(root[0], resid[root[0]])
        index = np.array([int(np.argmin(np.abs(e - x))) for x in got[root[0]].values.astype(float)])
        require(sorted(index) == list(range(n)), "shuffled residuals are no permutation")
        want = propagate(index)
    for v in names:
        a, b = got[v].values.astype(float), np.asarray(want[v], float)
        if v in dn:
            require(np.mean(a != b) <= 0.05, f"simulated classes of {v}", a, b)
            if (a != b).any():
                ctx.reject("a class is nearly tied")
            continue
        require(closef(a, b, np.abs(b).max()), f"simulated {v}", v, newpar[v], a[:4], b[:4])
    require(np.array_equal(X, keepX), "the data were modified")
    require(np.array_equal(graph, keepG, equal_nan=True), "the graph was modified")
    same = sim.run(changing_exog={k: wrap(v, d["values"]) for k, v in exog.items()} or None,
                   changing_models=arg_models or None, shuffle_residual=d["shuffle"], random_state=rs)
    require(closef(same.values.astype(float), got.values.astype(float)), "the same seed gives the same data")
    if not disc:
        require(closef(sim.run().values, X, sc), "a run leaves a trace in the simulator")
    if exog:
        ctx.label("exog", "exog:" + d["values"])
    for t in arg_models.values():
        ctx.label("model:" + ("none" if not t["parent_names"] else "coef" if "coef" in t else "model"))
    ctx.label("shuffle" if d["shuffle"] else "plain", "discrete" if disc else "continuous")
    ctx.nontrivial(bool(G.any()) and bool(exog or arg_models or d["shuffle"]))


@P.clause("time_series", st.fixed_dictionaries({
    "seed": gen.SEED, "p": st.integers(2, 3), "lags": st.integers(1, 3), "n": gen.size(30, 60, 1200),
    "frame": st.sampled_from([None, "str", "int"]), "exog": st.integers(0, 2),
    "change": st.sampled_from([None, "coef", "model", "none"]), "shuffle": st.booleans(),
    "disc": st.sampled_from([None, None, 0, 1]), "flags": st.sampled_from(["list", "array"]), "custom": st.booleans(),
    "density": st.sampled_from([0.4, 0.8])}),
    quick=140, thorough=2000, rule="a lagged or instantaneous edge exists")
def time_series(d, ctx):
    rng = np.random.default_rng(d["seed"])
    p, L, n = d["p"], d["lags"], d["n"]
    B0, _ = gen.random_dag(rng, p, d["density"])
    Bs = np.array([B0] + [rng.uniform(-0.4, 0.4, (p, p)) * (rng.random((p, p)) < d["density"])
                          for _ in range(L)])
    X = rng.normal(size=(n, p))
    disc = d["disc"]
    if disc is not None:
        classify(X, disc, 2)
    base = {"str": [f"c{i}" for i in range(p)], "int": [10 * (p - i) for i in range(p)],
            None: list(range(p))}[d["frame"]]
    arg = pd.DataFrame(X, columns=base) if d["frame"] else X
    base = [str(v) for v in base]
    keep = Bs.copy()
    name = {(k, i): f"{base[i]}[t]" if k == 0 else f"{base[i]}[t-{k}]"
            for k in range(L + 1) for i in range(p)}
    names = list(name.values())
    dn = {name[k, disc] for k in range(L + 1)} if disc is not None else set()
    flags = None if disc is None else [i == disc for i in range(p)]
    if flags and d["flags"] == "array":
        flags = np.array(flags)
    one = poly()
    own = {name[0, i]: CLS() if i == disc else one if d["seed"] % 3 else poly() for i in range(p) if d["custom"] and (i + d["seed"]) % 4}
    sim = CausalBasedSimulator().train(arg, Bs, cd_algo_name="VARLiNGAM", models=own or None, is_discrete=flags)
    cols = {name[k, i]: X[L - k: n - k, i] for k, i in name}
    out = sim.run()
    require(sorted(out.columns) == sorted(names) and len(out) == n - L, "shape", out.shape)
    for v in names:
        require(dn or closef(out[v].values, cols[v], np.abs(X).max()), f"{v} is rebuilt")
    parents = {v: [] for v in names}
    models, resid = {}, dict(cols)
    for i in range(p):
        v = name[0, i]
        par = [name[k, j] for k in range(L + 1) for j in range(p) if Bs[k][i, j] != 0]
        got = sim.train_result_[v]["parent_names"]
        require(sorted(got) == sorted(par), f"parents of {v}", got, par)
        if par:
            parents[v] = par
            Z = np.column_stack([cols[q] for q in par])
            kind = CLS if v in dn and v in own else poly if v in own else LogisticRegression if v in dn else LinearRegression
            models[v] = kind().fit(Z, cols[v]).predict
            resid[v] = np.zeros(n - L) if v in dn else cols[v] - models[v](Z)
    exog = {names[int(k)]: rng.normal(size=n - L)
            for k in rng.choice(len(names), size=d["exog"], replace=False) if names[int(k)] not in dn}
    change = {}
    if d["change"]:
        t = name[0, int(rng.choice([i for i in range(p) if i != disc]))]
        if d["change"] == "none":
            par = []
            change[t] = {"parent_names": []}
        else:
            par = [names[int(k)] for k in rng.choice(len(names), size=2, replace=False)]
            trial = dict(parents)
            trial[t] = par
            if t in par or topo(trial, names) is None:
                par = [name[int(rng.integers(1, L + 1)), int(rng.integers(p))]]
            if d["change"] == "coef":
                w = rng.normal(size=len(par))
                change[t] = {"parent_names": par, "coef": list(map(float, w))}
                models[t] = lambda Z: Z @ w
            else:
                f = LinearRegression().fit(np.column_stack([cols[q] for q in par]), cols[t])
                change[t] = {"parent_names": par, "model": f}
                models[t] = f.predict
        parents[t] = par
    rs = int(rng.integers(1000))
    out = sim.run(changing_exog={k: v.copy() for k, v in exog.items()} or None,
                  changing_models=change or None, shuffle_residual=d["shuffle"], random_state=rs)

    def propagate(index):
        want = {}
        for v in topo(parents, names):
            e = exog.get(v, resid[v])[index]
            want[v] = cols[v] if v in dn else e
            if parents[v]:
                want[v] = models[v](np.column_stack([want[q] for q in parents[v]])) + e
        return want

    index = np.arange(n - L)
    if d["shuffle"]:
        last = names[-2 if disc == p - 1 else -1]
        e = exog.get(last, resid[last])
        index = np.array([int(np.argmin(np.abs(e - x))) for x in out[last].values.astype(float)])
        require(sorted(index) == list(range(n - L)), "shuffled residuals are no permutation")
        require((index != np.arange(n - L)).any(), "the residuals are not shuffled")
    want = propagate(index)
    for v in names:
        if v in dn:
            a = out[v].values.astype(float)
            require(np.mean(a != want[v]) <= 0.1, f"simulated classes of {v}", a, want[v])
            if (a != want[v]).any():
                ctx.reject("a class is nearly tied")
            continue
        require(closef(out[v].values.astype(float), want[v], np.abs(want[v]).max()), f"simulated {v}")
    require(np.array_equal(Bs, keep), "the graph was modified")
    ctx.label(f"lags={L}", "change:" + str(d["change"]), "shuffle" if d["shuffle"] else "plain",
              "discrete" if dn else "continuous", "custom" if own else "default")
    ctx.nontrivial(bool(Bs.any()))


@P.clause("rejected", st.fixed_dictionaries({
    "kind": st.sampled_from(["cycle", "shape", "algo", "unknown_exog", "length", "discrete_exog",
                             "unknown_model", "no_parents", "coef_length", "new_cycle", "classifier",
                             "nan", "models_list", "models_name", "models_pipe", "models_search",
                             "models_discrete", "models_noproba", "exog_list", "changes_list",
                             "change_info", "change_key", "change_name", "parents_str", "no_model",
                             "model_none", "model_kind", "dims", "lag_cycle", "lag_shape", "exog_nan",
                             "lag_exog_length", "data_nan"]),
    "B": gen.dag_matrix(3, 4, coefs=st.sampled_from([1.0, -0.5])), "seed": gen.SEED}),
    quick=140, thorough=800, rule="every case")
def rejected(d, ctx):
    rng = np.random.default_rng(d["seed"])
    G = np.array(d["B"])
    p = len(G)
    X = rng.normal(size=(30, p))
    edges = [(i, j) for i in range(p) for j in range(p) if G[i, j] != 0]
    k = d["kind"]
    ctx.label(k)
    algo, flags, kw, tk = "DirectLiNGAM", None, {}, {}
    if k == "cycle":
        i, j = edges[0]
        G[j, i] = 1
    elif k == "shape":
        G = G[:, :-1]
    elif k == "algo":
        algo = "NoSuch"
    elif k == "nan":
        G[0, 1] = np.nan
    elif k == "unknown_exog":
        kw = {"changing_exog": {"zzz": np.zeros(30)}}
    elif k == "length":
        kw = {"changing_exog": {"0": np.zeros(29)}}
    elif k == "discrete_exog":
        X[:, 0] = (X[:, 0] > 0).astype(float)
        flags = [True] + [False] * (p - 1)
        kw = {"changing_exog": {"0": np.zeros(30)}}
    elif k == "unknown_model":
        kw = {"changing_models": {"0": {"parent_names": ["zzz"], "coef": [1.0]}}}
    elif k == "no_parents":
        kw = {"changing_models": {"0": {"coef": [1.0]}}}
    elif k == "coef_length":
        kw = {"changing_models": {"0": {"parent_names": ["1"], "coef": [1.0, 2.0]}}}
    elif k == "new_cycle":
        i, j = edges[0]
        kw = {"changing_models": {str(j): {"parent_names": [str(i)], "coef": [1.0]}}}
    elif k == "models_list":
        tk = {"models": [LinearRegression()]}
    elif k == "models_name":
        tk = {"models": {"zzz": LinearRegression()}}
    elif k == "models_pipe":
        tk = {"models": {"0": make_pipeline(PolynomialFeatures(2), LogisticRegression())}}
    elif k == "models_search":
        tk = {"models": {"0": GridSearchCV(LogisticRegression(), {"C": [1, 2]})}}
    elif k in ("models_discrete", "models_noproba"):
        X[:, 0] = (X[:, 0] > 0).astype(float)
        flags = [True] + [False] * (p - 1)
        tk = {"models": {"0": Ridge() if k == "models_discrete" else Perceptron()}}
    elif k == "exog_list":
        kw = {"changing_exog": [np.zeros(30)]}
    elif k == "exog_nan":
        kw = {"changing_exog": {"0": np.r_[np.nan, np.zeros(29)]}}
    elif k == "changes_list":
        kw = {"changing_models": [{"parent_names": ["0"], "coef": [1.0]}]}
    elif k == "change_info":
        kw = {"changing_models": {"0": ["1"]}}
    elif k == "change_key":
        kw = {"changing_models": {0: {"parent_names": ["1"], "coef": [1.0]}}}
    elif k == "change_name":
        kw = {"changing_models": {"zzz": {"parent_names": ["1"], "coef": [1.0]}}}
    elif k == "parents_str":
        kw = {"changing_models": {"0": {"parent_names": "1", "coef": [1.0]}}}
    elif k == "no_model":
        kw = {"changing_models": {"0": {"parent_names": ["1"]}}}
    elif k == "model_none":
        kw = {"changing_models": {"0": {"parent_names": ["1"], "model": None}}}
    elif k == "model_kind":
        kw = {"changing_models": {"0": {"parent_names": ["1"],
                                        "model": LogisticRegression().fit(X[:, 1:2], X[:, 0] > 0)}}}
    elif k == "dims":
        algo = "VARLiNGAM"
    elif k == "lag_cycle":
        i, j = edges[0]
        G[j, i] = 1
        G, algo = np.array([G, np.zeros((p, p))]), "VARLiNGAM"
    elif k == "lag_shape":
        G, algo = np.array([G, np.zeros((p, p))])[:, :, :-1], "VARLiNGAM"
    elif k == "lag_exog_length":
        G, algo = np.array([G, np.zeros((p, p))]), "VARLiNGAM"
        kw = {"changing_exog": {"0[t]": np.zeros(30)}}
    elif k == "data_nan":
        X[3, 1] = np.nan
    elif k == "classifier":
        tk = {"models": {"0": LogisticRegression()}}
    try:
        s = CausalBasedSimulator()
        s.train(X, G, cd_algo_name=algo, is_discrete=flags, **tk)
        s.run(**kw)
    except (ValueError, RuntimeError, KeyError, TypeError):
        ctx.nontrivial()
        return
    require(False, f"accepted: {k}")
