"""C21: the data generator rebuilds its data and applies interventions to the right equation."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from lingam.experimental import CausalDataGenerator
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin
from sklearn.linear_model import LinearRegression, LogisticRegression

import gen
from core import Property, require

P = Property("C21", boost=4)


class Reg(RegressorMixin, BaseEstimator):
    """A regressor with a visible, order-sensitive prediction rule."""

    def __init__(self, shift=0.0):
        self.shift = shift

    def fit(self, X, y):
        self.fit_ = (list(X.columns), len(X), float(np.mean(np.asarray(y, float))))
        return self

    def predict(self, X):
        return self.shift + self.fit_[2] + num(X) @ np.arange(1.0, X.shape[1] + 1)


class Clf(ClassifierMixin, BaseEstimator):
    """A classifier whose probabilities are 0 or 1, so that draws are determined."""

    def __init__(self, k=0):
        self.k = k

    def fit(self, X, y):
        self.classes_ = np.array(sorted(set(y)))
        return self

    def labels(self, X):
        s = np.floor(np.abs(num(X) @ np.arange(1.0, X.shape[1] + 1)) * 3).astype(int) + self.k
        return s % len(self.classes_)

    def predict_proba(self, X):
        return np.eye(len(self.classes_))[self.labels(X)]

    def predict(self, X):
        return self.classes_[self.labels(X)]


VALUE = {"lo": 0.0, "mid": 1.0, "up": 2.0, "x": 0.0, "y": 1.0, "z": 2.0, "no": 0.0, "yes": 1.0}


def num(X):
    return np.column_stack([
        np.array([VALUE[v] for v in X[c]]) if str(X[c].dtype) == "category"
        else X[c].values.astype(float) for c in X.columns]) if X.shape[1] else np.zeros((len(X), 0))


def onehot(X, cats):
    cols = []
    for c in X.columns:
        if c in cats:
            cols += [np.asarray(X[c] == k, float) for k in cats[c]]
        else:
            cols.append(X[c].values.astype(float))
    return np.column_stack(cols)


@st.composite
def spec(draw):
    na = draw(st.sampled_from([1, 2, 0, 3]))
    return {
        "seed": draw(gen.SEED), "n": draw(gen.size(25, 70, 1500)), "na": na,
        "cat": [draw(st.booleans()) and draw(st.booleans()) for _ in range(na)],
        "ccat": draw(st.sampled_from([False, False, True])),
        "ecat": draw(st.sampled_from([False, False, True])),
        "mc": draw(st.booleans()), "me": draw(st.booleans()),
        "index": draw(st.sampled_from(["range", "shuffled", "str", "repeated"])),
        "columns": draw(st.permutations(range(na + 2))),
        "exog": draw(st.lists(st.integers(0, na + 1), max_size=2, unique=True)),
        "endog": draw(st.sampled_from([[], [], [0], [1], [0, 1]])),
        "cf": draw(st.booleans()) and draw(st.booleans()),
        "ef": draw(st.booleans()) and draw(st.booleans()),
        "levels": draw(st.sampled_from(["sorted", "sorted", "mixed", "spare"])),
    }


def close(a, b, s=1.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-7 * (1 + s), equal_nan=True)


def categorical(d, rng, names, codes):
    """Categories in any order, one of them perhaps never taken."""
    values = np.array(names)[codes]
    if d.get("levels", "sorted") == "sorted":
        return pd.Categorical(values)
    levels = list(names) + (["never"] if d["levels"] == "spare" else [])
    return pd.Categorical(values, categories=[levels[i] for i in rng.permutation(len(levels))])


def build(d, rng):
    n, na = d["n"], d["na"]
    adj = [f"a{na - i}" for i in range(na)]
    A = {}
    eff = np.zeros(n)
    for i, a in enumerate(adj):
        if d["cat"][i]:
            k = rng.integers(0, 3, n)
            k[:3] = [0, 1, 2]
            A[a] = categorical(d, rng, ["x", "y", "z"], k)
            eff += k
        else:
            A[a] = rng.normal(size=n) * 2 + 1
            eff += A[a] * rng.uniform(0.3, 1)
    c = eff + rng.uniform(-1, 1, n)
    if d["ccat"]:
        cc = np.digitize(c, np.quantile(c, [0.4, 0.7]))
        A["cause"] = categorical(d, rng, ["lo", "mid", "up"], cc)
        c = cc
    else:
        A["cause"] = c
    e = 1.5 * c - eff + rng.uniform(-1, 1, n) + 3
    if d["ecat"]:
        ec = (e > np.median(e)).astype(int)
        A["effect"] = categorical(d, rng, ["no", "yes"], ec)
    else:
        A["effect"] = e
    names = ["cause", "effect"] + adj
    X = pd.DataFrame(A)[[names[i] for i in d["columns"]]]
    if d["index"] == "repeated":  # as in a bootstrap sample
        X.index = rng.integers(0, max(1, n // 2), n)
    elif d["index"] == "shuffled":
        X.index = rng.permutation(n) + 5
    elif d["index"] == "str":
        X.index = [f"r{i}" for i in rng.permutation(n)]
    return X, adj


class Model:
    """The reference: fitted rule, residuals and whether draws are determined."""

    def __init__(self, X, preds, y, given):
        self.preds, self.given = preds, given
        self.cat = str(X[y].dtype) == "category"
        self.cats = {c: sorted(set(X[c])) for c in preds if str(X[c].dtype) == "category"}
        self.classes = sorted(set(X[y])) if self.cat else None
        if given is not None:
            given.fit(X[preds], X[y])
        elif not self.cat:
            Z = np.column_stack([np.ones(len(X)), onehot(X[preds], self.cats)])
            need = 1 + sum(len(self.cats[c]) - 1 if c in self.cats else 1 for c in preds)
            self.ok = np.linalg.matrix_rank(Z) == need
            self.w = np.linalg.lstsq(Z, X[y].values.astype(float), rcond=None)[0]
        else:
            self.lr = LogisticRegression().fit(onehot(X[preds], self.cats), np.asarray(X[y]))
        self.resid = None if self.cat else X[y].values.astype(float) - self.predict(X)

    def predict(self, X):
        if self.given is not None:
            return np.asarray(self.given.predict(X[self.preds]))
        if self.cat:
            return None
        return np.column_stack([np.ones(len(X)), onehot(X[self.preds], self.cats)]) @ self.w

    def proba(self, X):
        if self.given is not None:
            return self.given.predict_proba(X[self.preds])
        return self.lr.predict_proba(onehot(X[self.preds], self.cats))


def f_cause(X, error, args):
    e = np.zeros(len(X)) if str(error.dtype) == "category" else np.nan_to_num(np.asarray(error, float))
    v = args["k"] * num(X).sum(axis=1) + 2 * e
    if args["cat"]:
        return np.array(args["cat"])[(np.abs(v) * 5).astype(int) % len(args["cat"])]
    return v


@P.clause("generate", spec(), quick=350, thorough=5000,
          rule="something is intervened on or replaced, with an adjustment or a categorical variable")
def generate(d, ctx):
    rng = np.random.default_rng(d["seed"])
    X, adj = build(d, rng)
    n = len(X)
    keep = X.copy()
    mc = (Clf() if d["ccat"] else Reg(0.5)) if d["mc"] and adj else None
    me = (Clf(1) if d["ecat"] else Reg(-2.0)) if d["me"] else None
    rc = Model(X, adj, "cause", (Clf() if d["ccat"] else Reg(0.5)) if mc is not None else None) if adj else None
    re = Model(X, ["cause"] + adj, "effect", (Clf(1) if d["ecat"] else Reg(-2.0)) if me is not None else None)
    if not getattr(rc, "ok", True) or not getattr(re, "ok", True):
        ctx.reject("rank deficient design")
    seed = int(rng.integers(1000))

    def fresh():
        g = CausalDataGenerator(random_state=seed)
        out = g.fit(X, "cause", "effect", adjustments=adj or None, model_cause=mc, model_effect=me)
        require(out is g, "fit returns the generator")
        return g

    g = fresh()
    sc = 10.0
    # residuals
    if rc is None:
        require(list(g.error_cause_) == list(X["cause"]), "without adjustments the cause is its own error")
    elif rc.cat:
        require(np.isnan(np.asarray(g.error_cause_, float)).all(), "a categorical cause has no error")
    else:
        require(close(g.error_cause_, rc.resid, sc), "errors of the cause")
        require(list(g.error_cause_.index) == list(X.index), "index of the errors")
    if re.cat:
        require(np.isnan(np.asarray(g.error_effect_, float)).all(), "a categorical effect has no error")
    else:
        require(close(g.error_effect_, re.resid, sc), "errors of the effect")
        require(list(g.error_effect_.index) == list(X.index), "index of the errors")

    names = ["cause", "effect"] + adj

    def draw(name, like):
        if str(X[name].dtype) == "category":
            k = sorted(set(X[name]))
            return pd.Categorical(np.array(k)[rng.integers(0, len(k), n)], categories=k)
        return rng.normal(size=n) * 3

    exog, endog = {}, {}
    for i in d["exog"]:
        v = names[i]
        if str(X[v].dtype) == "category" and v in ("cause", "effect"):
            continue     # a categorical variable has no error to replace
        exog[v] = draw(v, X[v])
    for i in d["endog"]:
        endog[names[i]] = draw(names[i], X[names[i]])
    cargs = {"k": 2.0, "cat": sorted(set(X["cause"])) if d["ccat"] else None}
    eargs = {"k": -1.0, "cat": sorted(set(X["effect"])) if d["ecat"] else None}
    seen = []

    def wrap(kind):
        def f(Z, error, args):
            seen.append((kind, list(Z.columns), args))
            return f_cause(Z, error, args)
        return f

    kw = {}
    if d["cf"]:
        kw.update(cause_model=wrap("cause"), cause_model_args=cargs)
    if d["ef"]:
        kw.update(effect_model=wrap("effect"), effect_model_args=eargs)

    def run(gen_):
        return gen_.generate(interv_endog=dict(endog) or None, interv_exog=dict(exog) or None, **kw)

    def judge(got, endog, exog, cf, ef):
        require(list(got.columns) == list(X.columns), "columns", list(got.columns))
        require(list(got.index) == list(X.index), "index")
        W = X[adj].copy()
        for a in adj:
            if a in exog:
                W[a] = exog[a]
            if str(X[a].dtype) == "category":
                require(list(got[a]) == list(W[a]), f"adjustment {a}")
            else:
                require(close(got[a], W[a], sc), f"adjustment {a}")
        for v, model, preds, fun, args in (("cause", rc, adj, cf, cargs),
                                           ("effect", re, ["cause"] + adj, ef, eargs)):
            cat = str(X[v].dtype) == "category"
            if model is None:
                err = exog.get(v, X[v].values)
            elif cat:
                err = np.full(n, np.nan)
            else:
                err = exog.get(v, model.resid)
            if v in endog:
                want = endog[v]
            elif fun:
                want = f_cause(W[preds], pd.Series(err), args)
            elif model is None:
                want = err
            elif cat:
                pr = model.proba(W)
                if model.given is None:
                    labels = list(got[v])
                    require(set(labels) <= set(model.classes), "drawn classes", set(labels))
                    idx = np.array([model.classes.index(k) for k in labels])
                    z(pr, idx, v)
                    want = None
                else:
                    want = np.array(model.classes)[pr.argmax(axis=1)]
            else:
                want = model.predict(W) + err
            if want is not None:
                if cat:
                    require(list(map(str, got[v])) == list(map(str, want)), f"{v} (categorical)",
                            list(got[v])[:5], list(want)[:5])
                else:
                    require(close(got[v], want, sc), f"{v}", np.asarray(got[v])[:3], np.asarray(want)[:3])
            if cat:
                require(str(got[v].dtype) == "category", f"{v} stays categorical")
                W[v] = pd.Categorical(np.asarray(got[v]), categories=sorted(set(X[v])))
                if getattr(me, "k", None) is not None or ef or d["ef"]:
                    if list(got[v].cat.categories) != sorted(set(X[v])):
                        ctx.reject("a class was not drawn")
            else:
                W[v] = np.asarray(got[v], float)

    def z(pr, idx, v):
        for k in range(pr.shape[1]):
            q = pr[:, k]
            sd = np.sqrt((q * (1 - q)).sum())
            require(abs((idx == k).sum() - q.sum()) <= 7 * sd + 1.5, f"frequency of class {k} of {v}")
        require((pr[np.arange(n), idx] > 1e-7).all(), f"an impossible class of {v} was drawn")

    plain = g.generate()
    judge(plain, {}, {}, False, False)
    if not d["ccat"] and not d["ecat"]:
        for v in names:
            if str(X[v].dtype) != "category":
                require(close(plain[v], X[v], sc), f"without changes {v} is rebuilt")
    try:
        got = run(g)
    except ValueError as e:
        if "unknown categories" in str(e):
            ctx.reject("a class is missing")
        raise
    judge(got, endog, exog, d["cf"], d["ef"])
    for kind, cols, args in seen:
        require(cols == (adj if kind == "cause" else ["cause"] + adj), f"columns seen by the {kind} model", cols)
        require(args is (cargs if kind == "cause" else eargs), "arguments of the model")
    a, b = run(fresh()), run(fresh())
    require(a.equals(b), "the same random state gives the same data")
    require(X.equals(keep), "the data were modified")
    judge(g.generate(), {}, {}, False, False)
    for k in ("ccat", "ecat", "cf", "ef", "mc", "me"):
        if d[k]:
            ctx.label(k)
    ctx.label(f"adjustments={len(adj)}", "exog" if exog else "noexog", "endog" if endog else "noendog")
    ctx.nontrivial(bool(exog or endog or d["cf"] or d["ef"]) and (bool(adj) or d["ccat"] or d["ecat"]))


@P.clause("draws", st.fixed_dictionaries({
    "seed": gen.SEED, "which": st.sampled_from(["cause", "effect"])}), quick=16, thorough=200,
    rule="the class probabilities vary over the rows")
def draws(d, ctx):
    """Categorical values follow the fitted class probabilities, row by row."""
    rng = np.random.default_rng(d["seed"])
    n = 60
    s = {"n": n, "na": 1, "cat": [False], "ccat": d["which"] == "cause", "ecat": d["which"] == "effect",
         "index": "range", "columns": [0, 1, 2], "levels": ["sorted", "mixed", "spare"][d["seed"] % 3]}
    X, adj = build(s, rng)
    v = d["which"]
    m = Model(X, adj if v == "cause" else ["cause"] + adj, v, None)
    pr = m.proba(X)
    g = CausalDataGenerator(random_state=int(rng.integers(1000)))
    g.fit(X, "cause", "effect", adjustments=adj)
    reps = 60
    count = np.zeros_like(pr)
    for _ in range(reps):
        try:
            out = g.generate()
        except ValueError as e:
            if "unknown categories" in str(e):
                ctx.reject("a class is missing")
            raise
        count[np.arange(n), [m.classes.index(k) for k in out[v]]] += 1
    sd = np.sqrt(reps * pr * (1 - pr))
    require((np.abs(count - reps * pr) <= 6.5 * sd + 3).all(), "class frequencies of single rows")
    require((np.abs((count - reps * pr).sum(axis=0)) <= 6 * np.sqrt((sd**2).sum(axis=0)) + 2).all(),
            "class frequencies")
    ctx.label(v)
    ctx.nontrivial(float(np.ptp(pr[:, 0])) > 0.3)


BAD = ["array", "cause", "effect", "regressor_for_class", "classifier_for_number", "no_proba",
       "endog_type", "endog_key", "endog_length", "exog_length", "exog_key", "model_call",
       "effect_call", "model_raises", "nan", "key_type"]


class NoProba(ClassifierMixin, BaseEstimator):
    def fit(self, X, y):
        return self

    def predict(self, X):
        return np.zeros(len(X))


def boom(X, error, args):
    raise KeyError("x")


@P.clause("rejected", st.fixed_dictionaries({"seed": gen.SEED, "kind": st.sampled_from(BAD),
                                            "which": st.booleans()}),
          quick=60, thorough=400, rule="every case")
def rejected(d, ctx):
    rng = np.random.default_rng(d["seed"])
    k = d["kind"]
    s = {"n": 30, "na": 2, "cat": [False, False], "ccat": k in ("regressor_for_class", "no_proba") and d["which"],
         "ecat": k in ("regressor_for_class", "no_proba") and not d["which"], "index": "range",
         "columns": [0, 1, 2, 3]}
    X, adj = build(s, rng)
    fit, run = {"adjustments": adj}, {}
    cause, effect, data = "cause", "effect", X
    slot = "model_cause" if d["which"] else "model_effect"
    want = (TypeError, ValueError)
    if k == "array":
        data, want = X.values, TypeError
    elif k == "cause":
        cause, want = "zzz", ValueError
    elif k == "effect":
        effect, want = "zzz", ValueError
    elif k == "regressor_for_class":
        fit[slot], want = LinearRegression(), TypeError
    elif k == "classifier_for_number":
        fit[slot], want = LogisticRegression(), TypeError
    elif k == "no_proba":
        fit[slot], want = NoProba(), RuntimeError
    elif k == "endog_type":
        run["interv_endog" if d["which"] else "interv_exog"], want = [1], TypeError
    elif k == "endog_key":
        run["interv_endog"], want = {"zzz": np.zeros(30)}, ValueError
    elif k == "exog_key":
        run["interv_exog"], want = {"zzz": np.zeros(30)}, ValueError
    elif k == "key_type":
        run["interv_exog"], want = {3: np.zeros(30)}, (TypeError, ValueError)
    elif k == "endog_length":
        run["interv_endog"], want = {"cause": np.zeros(29)}, ValueError
    elif k == "exog_length":
        run["interv_exog"], want = {"effect": np.zeros(31)}, ValueError
    elif k == "model_call":
        run["cause_model"], want = 3, TypeError
    elif k == "effect_call":
        run["effect_model"], want = "f", TypeError
    elif k == "model_raises":
        run["cause_model" if d["which"] else "effect_model"], want = boom, RuntimeError
    elif k == "nan":
        data = X.copy()
        data.loc[3, "a1"] = np.nan
        want = ValueError
    ctx.label(k)
    try:
        CausalDataGenerator().fit(data, cause, effect, **fit).generate(**run)
    except want:
        ctx.nontrivial()
        return
    require(False, f"accepted: {k}")
