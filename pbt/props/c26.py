"""C26: fit indices and nonlinear-effect plots report what the given graph and data imply."""
import warnings

import matplotlib

matplotlib.use("Agg")

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import semopy
from hypothesis import strategies as st
from lingam import BootstrapResult
from lingam.utils import evaluate_model_fit, visualize_nonlinear_causal_effect
from scipy.stats import chi2
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin
from sklearn.linear_model import LinearRegression, LogisticRegression

import gen
import ref
from core import Property, require

P = Property("C26", boost=2)


# ---------------------------------------------------------------- fit indices

def discrepancy(N, X, also=None):
    """Minimum of the Wishart discrepancy for fixed coefficients and disjoint hidden pairs."""
    B = np.nan_to_num(N)
    nan = np.isnan(N)
    also = nan if also is None else also      # pairs that belong to the model, fitted or not
    used = [i for i in range(len(N)) if B[i].any() or B[:, i].any() or also[i].any()]
    B, nan, also = (M[np.ix_(used, used)] for M in (B, nan, also))
    Z = X[:, used] - X[:, used].mean(axis=0)
    n, p = Z.shape
    S = Z.T @ Z / n
    free = [i for i in range(p) if not B[i].any() and not also[i].any()]
    R = Z - Z @ B.T
    SR = R.T @ R / n
    psi = np.where(nan, SR, 0.0)
    psi[np.ix_(free, free)] = S[np.ix_(free, free)]
    psi[np.diag_indices(p)] = np.diag(SR)
    A = np.linalg.inv(np.eye(p) - B)
    sigma = A @ psi @ A.T
    d = np.sqrt(np.diag(S))
    C, T = S / np.outer(d, d), sigma / np.outer(d, d)
    return (np.linalg.slogdet(T)[1] - np.linalg.slogdet(C)[1] + np.trace(C @ np.linalg.inv(T)) - p,
            len(free), p)


def referee(N, X, flip, ordinal=(), index="chi2"):
    """chi-square from semopy for an equivalent model description."""
    p = len(N)
    parts = [f"x{i} ~ " + " + ".join(f"{N[i, j]:.25f} * x{j}" for j in range(p) if np.isfinite(N[i, j]) and N[i, j] != 0)
             for i in range(p) if np.nan_to_num(N[i]).any()]
    if flip:
        parts.reverse()
    parts += [f"h{i}{j} =~ x{i} + x{j}" for i in range(p) for j in range(i + 1, p) if np.isnan(N[i, j])]
    if len(ordinal):
        parts.insert(0 if flip else len(parts), "DEFINE(ordinal) " + " ".join(f"x{i}" for i in ordinal))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = semopy.Model("\n".join(parts) + "\n")
        m.fit(pd.DataFrame(X, columns=[f"x{i}" for i in range(p)]))
        return float(semopy.calc_stats(m).iloc[0][index])


def evaluate(N, X, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return evaluate_model_fit(N, X, **k)


@P.clause("indices", gen.data_spec(pmin=2, pmax=5, nmin=40, nmax=400, noises=gen.NONGAUSS + ["gauss"],
                                   pairs=st.integers(0, 2), wrong=st.sampled_from(["none", "drop", "scale", "reverse"]),
                                   units=st.sampled_from([0, 3, 6]), hidden=st.booleans(),
                                   asint=st.booleans(), form=st.sampled_from(["array", "list", "frame"])),
          quick=220, thorough=4000, rule="a wrong graph, a hidden common cause or rescaled units")
def indices(d, ctx):
    X, B, order, rng = gen.make_data(d)
    n, p = X.shape
    X = X / X.std(axis=0)
    perm = list(rng.permutation(p))
    if d["hidden"] and p > 2:
        h = rng.normal(size=n)
        X[:, perm[-1]] += h
        X[:, perm[-2]] -= h
        X = X / X.std(axis=0)
    N = np.zeros((p, p))
    for i in range(p):
        pa = np.nonzero(B[i])[0]
        if len(pa):
            N[i, pa] = ref.ols(X[:, pa], X[:, i])[0][:len(pa)]
    if d["wrong"] == "drop" and N.any():
        a, b = list(zip(*np.nonzero(N)))[int(rng.integers(int((N != 0).sum())))]
        N[a, b] = 0
    elif d["wrong"] == "scale":
        N = N * rng.uniform(0.5, 1.5, N.shape)
    elif d["wrong"] == "reverse":
        N = N.T.copy()
    if d["asint"]:
        N = np.round(N)
    for k in range(d["pairs"]):
        if len(perm) >= 2:
            a, b = perm.pop(), perm.pop()
            N[a, b] = N[b, a] = np.nan
    if not np.isnan(N).any() and not N.any():
        ctx.reject("empty graph")
    # only the units of exogenous variables differ a lot: semopy's optimiser needs
    # comparable scales for the variances that it estimates
    unit = 10.0 ** np.array([rng.uniform(-d["units"], d["units"]) if not np.isnan(N[i]).any() and not N[i].any()
                             else rng.uniform(-0.15, 0.15) for i in range(p)])
    X = X * unit + rng.normal(size=p) * unit
    N = unit[:, None] * N / unit[None, :]
    big = np.abs(N[np.isfinite(N) & (N != 0)])
    if len(big) and (big.min() < 2e-8 or big.max() > 1e9):
        ctx.reject("coefficient counts as zero")
    if not ref.is_acyclic(np.nan_to_num(N)):
        ctx.reject("cyclic")
    f, nfree, q = discrepancy(N, X)
    if not np.isfinite(f) or f > 50:
        ctx.reject("extreme misfit")
    if d["asint"] and not np.isnan(N).any() and d["units"] == 0 and np.array_equal(N, N.astype(int)):
        N = N.astype(int)
    argN = N.tolist() if d["form"] == "list" else N
    argX = pd.DataFrame(X, columns=[f"v{p - i}" for i in range(p)]) if d["form"] == "frame" else X
    keepN, keepX = N.copy(), X.copy()
    r = evaluate(argN, argX)
    require(isinstance(r, pd.DataFrame) and len(r) == 1, "one row of fit indices")
    r = r.iloc[0]
    tol = 2e-3 * f + 2e-4
    if np.isnan(N).any():
        # several latent variables may covary, so they can only fit better; none may fit worse than leaving them out
        worse = discrepancy(np.nan_to_num(N), X, np.isnan(N))[0]
        lower = f - 2e-2 * f - 2e-2 if int(np.isnan(N).sum()) == 2 else -1e-2
        upper, near = worse + 2e-2 * worse + 2e-2, f + 2e-2 * f + 2e-2
    else:
        lower, upper, near = f - tol, f + tol, f + tol
    if not lower <= r["chi2"] / n <= near:
        # semopy's optimiser sometimes stops early; then it does so for an equivalent description, too
        alt = [referee(N, X, flip) for flip in (False, True)]
        same = any(abs(r["chi2"] - v) <= 1e-2 * abs(v) + 1e-2 * n for v in alt)
        require(same or lower <= r["chi2"] / n <= upper and min(alt) / n > near,
                "chi-square is the discrepancy of the graph and the data", r["chi2"], n * f, alt)
        ctx.label("solver")
        f = r["chi2"] / n
    elif np.isnan(N).any():
        ctx.label("decisive" if worse > 2 * near else "indecisive")
        f = r["chi2"] / n
    require(abs(r["chi2"] / n - f) <= tol, "chi-square is the discrepancy of the graph and the data", r["chi2"], n * f)
    require(abs(r["LogLik"] - f) <= tol, "discrepancy", r["LogLik"], f)
    if not np.isnan(N).any():
        dof = q * (q + 1) // 2 - (q - nfree)
        require(r["DoF"] == dof, "degrees of freedom", r["DoF"], dof)
        require(abs(r["AIC"] - 2 * ((q - nfree) - f)) <= 2 * tol + 1e-6, "AIC", r["AIC"])
        require(abs(r["BIC"] - ((q - nfree) * np.log(n) - 2 * f)) <= 2 * tol + 1e-6, "BIC", r["BIC"])
    if r["DoF"] > 0:
        require(abs(r["chi2 p-value"] - chi2.sf(r["chi2"], r["DoF"])) < 1e-6, "p-value")
    require(np.array_equal(N, keepN, equal_nan=True) and np.array_equal(X, keepX), "the arguments were modified")
    ctx.label(d["wrong"], f"hidden={int(np.isnan(N).sum()) // 2}", f"units={d['units']}")
    ctx.nontrivial(d["wrong"] != "none" or bool(np.isnan(N).any()) or d["units"] > 0)


@P.clause("group", gen.data_spec(pmin=3, pmax=5, nmin=60, nmax=200, noises=["uniform"], size=st.integers(3, 4)),
          quick=16, thorough=300, rule="every case")
def group(d, ctx):
    """Several variables that share hidden causes pairwise: one latent variable for each pair."""
    X, B, order, rng = gen.make_data(d)
    p = X.shape[1]
    k = min(d["size"], p)
    X = X / X.std(axis=0)
    N = np.zeros((p, p))
    top, rest = order[:k], order[k:]
    for a in top:
        for b in top:
            if a != b:
                N[a, b] = np.nan
    for i, t in enumerate(rest):
        pa = list(top) + list(rest[:i])
        N[t, pa] = ref.ols(X[:, pa], X[:, t])[0][:len(pa)]
    try:
        want = referee(N, X, False, index="DoF")
    except Exception:                       # semopy cannot deal with these data
        ctx.reject("no fit")
    got = float(evaluate(N, X).iloc[0]["DoF"])
    require(got == want, "degrees of freedom: one hidden cause for each unordered pair", got, want)
    ctx.label(f"size={k}")
    ctx.nontrivial()


@P.clause("ordinal", gen.data_spec(pmin=2, pmax=4, nmin=80, nmax=250, noises=["uniform", "gauss"],
                                   mask=st.lists(st.sampled_from([0, 1, 2]), min_size=4, max_size=4),
                                   levels=st.sampled_from([2, 3, 5])), quick=40, thorough=500,
          rule="some but not all variables are ordinal")
def ordinal(d, ctx):
    X, B, order, rng = gen.make_data(d)
    n, p = X.shape
    X = X / X.std(axis=0)
    mask = [d["mask"][i] for i in range(p)]
    for i in range(p):
        if mask[i]:
            X[:, i] = np.searchsorted(np.quantile(X[:, i], np.linspace(0, 1, d["levels"] + 1)[1:-1]), X[:, i])
    N = B * 0.5
    if not N.any():
        ctx.reject("empty graph")
    used = [i for i in range(p) if N[i].any() or N[:, i].any()]
    if not any(mask[i] for i in used) or any(mask[i] for i in range(p) if i not in used):
        ctx.reject("no ordinal variable in the graph")
    got = evaluate(N, X, is_ordinal=mask if rng.random() < 0.5 else np.array(mask)).iloc[0]
    want = [referee(N, X, flip, [i for i in range(p) if mask[i]]) for flip in (False, True)]
    if not np.isfinite(want).all():
        ctx.reject("solver")
    plain = evaluate(N, X).iloc[0]
    require(any(abs(got["chi2"] - v) <= 1e-3 * abs(v) + 1e-2 for v in want), "chi-square with ordinal variables",
            got["chi2"], want)
    require(abs(got["LogLik"] * n - got["chi2"]) <= 1e-6 * abs(got["chi2"]) + 1e-6, "discrepancy")
    ctx.label("differs from continuous" if abs(plain["chi2"] - got["chi2"]) > 1e-3 else "same as continuous")
    ctx.nontrivial(0 < sum(map(bool, mask)) < p)


# ---------------------------------------------------------------- plots

class Smooth(BaseEstimator):
    """Kernel smoother: nonlinear, without ties or random parts."""

    def fit(self, X, y):
        self.X_, self.y_ = np.asarray(X, float), np.asarray(y)
        self.classes_ = np.unique(self.y_)
        return self

    def weights(self, X):
        X = np.asarray(X, float)
        D = (X**2).sum(1)[:, None] + (self.X_**2).sum(1)[None] - 2 * X @ self.X_.T
        W = np.exp(-0.5 * (D - D.min(axis=1, keepdims=True)))
        return W / W.sum(axis=1, keepdims=True)


class SmoothRegressor(RegressorMixin, Smooth):
    def predict(self, X):
        return self.weights(X) @ self.y_


class SmoothClassifier(ClassifierMixin, Smooth):
    def predict_proba(self, X):
        return self.weights(X) @ (self.y_[:, None] == self.classes_[None]).astype(float)

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(axis=1)]


def model(kind):
    return {"linear": LinearRegression(), "smooth": SmoothRegressor(), "logistic": LogisticRegression(),
            "smoothc": SmoothClassifier()}[kind]


def encode(F):
    """One-hot encoding over all categories."""
    cols = []
    for c in F.columns:
        if str(F[c].dtype) == "category":
            cols += [(F[c] == k).to_numpy(float) for k in F[c].cat.categories]
        else:
            cols.append(F[c].to_numpy(float))
    return np.column_stack(cols)


def reference(X, mats, idx, c, e, kind, positions, classes):
    """effects[class][position] = list over the samples."""
    out = {k: [[] for _ in positions] for k in classes}
    for M, ix in zip(mats, idx):
        use = sorted({c} | {j for j in range(X.shape[1]) if M[c, j] != 0 and j != e})
        D = X.iloc[list(ix)]
        f = model(kind)
        f.fit(encode(D.iloc[:, use]), np.asarray(D.iloc[:, e]))
        for k, v in enumerate(positions):
            Q = D.iloc[:, use].copy()
            Q[X.columns[c]] = float(v)
            Z = encode(Q)
            if classes == [None]:
                out[None][k].append(f.predict(Z).mean())
            else:
                pr = f.predict_proba(Z)
                for j, cl in enumerate(f.classes_):
                    out[cl][k].append(pr[:, j].mean())
    return out


@P.clause("plot", st.fixed_dictionaries({
    "seed": gen.SEED, "p": st.integers(2, 5), "n": gen.size(30, 70, 700), "k": gen.size(1, 6, 20),
    "result": st.sampled_from(["matrix", "list", "bootstrap", "bootstrap", "noindex"]),
    "cat": st.lists(st.booleans(), min_size=5, max_size=5), "ecat": st.booleans(),
    "model": st.integers(0, 1), "positions": st.sampled_from(["none", "list", "array"]),
    "percentile": st.sampled_from(["none", "list", "tuple"]), "box": st.booleans(), "fig": st.booleans(),
    "index": st.sampled_from(["range", "shifted", "text"]), "cint": st.booleans()}),
    quick=160, thorough=2500, rule="the cause has a parent other than the effect")
def plot(d, ctx):
    rng = np.random.default_rng(d["seed"])
    p, n = d["p"], d["n"]
    c, e = map(int, rng.choice(p, 2, replace=False))
    raw = rng.normal(size=(n, p)) @ (np.eye(p) + 0.4 * rng.normal(size=(p, p)))
    names = [f"v{i}" for i in rng.permutation(p)]
    cols = {}
    for i in range(p):
        if i == c:
            cols[names[i]] = np.round(raw[:, i] * 3).astype(int) if d["cint"] else raw[:, i]
        elif (i == e and d["ecat"]) or (i != e and d["cat"][i]):
            k = np.digitize(raw[:, i], [-0.6, 0.6] if i != e or d["seed"] % 2 else [0.0])
            cols[names[i]] = pd.Categorical(np.array(list("pqr"))[k], categories=list("pqr")[:2 + (k.max() > 1)])
        else:
            cols[names[i]] = raw[:, i]
    X = pd.DataFrame(cols)
    if d["index"] == "shifted":
        X.index = np.arange(n)[::-1] + 7
    elif d["index"] == "text":
        X.index = [f"r{i}" for i in range(n)]
    kind = (["logistic", "smoothc"] if d["ecat"] else ["linear", "smooth"])[d["model"]]
    classes = sorted(set(X.iloc[:, e])) if d["ecat"] else [None]
    if d["ecat"] and len(classes) < 2:
        ctx.reject("one class")
    boot = d["result"] in ("bootstrap", "noindex")
    K = d["k"] if boot else 1
    mats = np.array([rng.normal(size=(p, p)) * (rng.random((p, p)) < 0.5) * 10.0 ** rng.integers(-3, 2) for _ in range(K)])
    for M in mats:
        np.fill_diagonal(M, 0)
    if rng.random() < 0.3:
        mats = np.sign(mats)
    idx = [rng.integers(0, n, n) for _ in range(K)] if d["result"] == "bootstrap" else [np.arange(n)] * K
    if d["ecat"] and any(len(set(X.iloc[list(i), e])) < len(classes) for i in idx):
        ctx.reject("a class is missing from a sample")
    if d["result"] == "matrix":
        res = mats[0]
    elif d["result"] == "list":
        res = mats[0].tolist()
    else:
        res = BootstrapResult(mats, np.zeros_like(mats), resampled_indices=idx if d["result"] == "bootstrap" else None)
    kw = {}
    if d["positions"] == "none":
        lo, hi = float(X.iloc[:, c].min()), float(X.iloc[:, c].max())
        pos = np.linspace(lo, hi, 10)
        if hi <= lo:
            ctx.reject("constant cause")
    else:
        pos = np.sort(rng.choice(np.arange(-20, 21), int(rng.integers(2, 5)), replace=False)) / 8
        kw["cause_positions"] = list(map(float, pos)) if d["positions"] == "list" else pos
    pct = [95, 50, 5]
    if d["percentile"] != "none":
        pct = [float(v) for v in rng.choice(np.arange(1, 100), 3, replace=False)]
        kw["percentile"] = pct if d["percentile"] == "list" else tuple(pct)
    given = plt.figure() if d["fig"] else None
    if given is not None:
        kw["fig"] = given
    keep, kmats = X.copy(), mats.copy()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fig = visualize_nonlinear_causal_effect(X, res, model(kind), names[c], names[e], boxplot=d["box"], **kw)
        if given is not None:
            require(fig is given, "the given figure is used")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want = reference(X, mats, idx, c, e, kind, pos, classes)
        axes = fig.get_axes()
        require(len(axes) == len(classes), "one plot per class", len(axes), classes)
        for ax, cl in zip(axes, classes):
            if cl is not None:
                hit = [a for a in axes if str(cl) in a.get_title().split()]
                require(len(hit) == 1, "title of the plot of a class", cl, [a.get_title() for a in axes])
                ax = hit[0]
            require(names[c] in ax.get_xlabel(), "label of the cause axis", ax.get_xlabel())
            vals = want[cl]
            if np.abs(vals).max() > 1e6:
                ctx.reject("unstable extrapolation")
            sc = 1 + np.abs(vals).max()
            lines = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), l.get_label())
                     for l in ax.get_lines()]
            for q in (pct if boot else [50]):
                y = [np.percentile(v, q) for v in vals]
                hit = [l for l in lines if l[0].shape == pos.shape and np.allclose(l[0], pos)
                       and np.allclose(l[1], y, rtol=1e-6, atol=1e-6 * sc)]
                require(hit, f"percentile line {q}", y, [l[1] for l in lines if l[0].shape == pos.shape])
                if boot:
                    require(any(str(q) in str(l[2]) for l in hit), "legend label of the percentile", [l[2] for l in hit])
            pts = [o for s in ax.collections for o in np.asarray(s.get_offsets(), float).tolist()]
            if d["box"]:
                require(not pts, "no points with boxplot=True")
                for v, ys in zip(pos, vals):
                    m = np.median(ys)
                    require(any(len(l[0]) == 2 and np.isclose(l[0].mean(), v, atol=1e-9)
                                and np.allclose(l[1], m, rtol=1e-6, atol=1e-6 * sc) for l in lines), "box of a position", v)
            else:
                exp = sorted((float(v), float(y)) for v, ys in zip(pos, vals) for y in ys)
                pts = sorted(map(tuple, pts))
                require(len(pts) == len(exp), "one point per sample and position", len(pts), len(exp))
                require(np.allclose(pts, exp, rtol=1e-6, atol=1e-6 * sc), "average effect at each position")
    finally:
        plt.close("all")
    require(X.equals(keep) and np.array_equal(mats, kmats), "the arguments were modified")
    ctx.label(kind, d["result"], d["index"])
    ctx.nontrivial(any(M[c, j] != 0 for M in mats for j in range(p) if j != e))


BAD = ["array", "cause", "effect", "cause_cat", "regressor", "classifier", "none", "pct_len", "pct_low", "pct_high",
       "pct_type", "fig", "shape", "fit_square", "fit_columns", "fit_ordinal", "fit_inf", "fit_nan"]


@P.clause("rejected", st.fixed_dictionaries({"seed": gen.SEED, "kind": st.sampled_from(BAD)}), quick=80, thorough=400,
          rule="every case")
def rejected(d, ctx):
    rng = np.random.default_rng(d["seed"])
    k, n = d["kind"], 30
    X = pd.DataFrame(rng.normal(size=(n, 3)), columns=list("abc"))
    X["b"] = pd.Categorical(rng.choice(["u", "v"], n))
    M = np.array([[0, 0, 0], [1.0, 0, 0], [0.5, 0, 0]])
    ctx.label(k)
    try:
        if k.startswith("fit"):
            A, Z, kw = M, rng.normal(size=(n, 3)), {}
            if k == "fit_square":
                A = M[:2]
            elif k == "fit_columns":
                Z = rng.normal(size=(n, 2 + 2 * (d["seed"] % 2)))
            elif k == "fit_ordinal":
                kw = {"is_ordinal": [1] * (2 + 2 * (d["seed"] % 2))}
            elif k == "fit_inf":
                A = M.copy()
                A[2, 0] = np.inf
            else:
                Z[3, 1] = np.nan
            evaluate(A, Z, **kw)
        else:
            a = dict(X=X, cd_result=M, estimator=LinearRegression(), cause_name="a", effect_name="c")
            a.update({
                "array": {"X": X.to_numpy()}, "cause": {"cause_name": "z"}, "effect": {"effect_name": "z"},
                "cause_cat": {"cause_name": "b"}, "regressor": {"effect_name": "b"},
                "classifier": {"estimator": LogisticRegression()}, "none": {"cause_positions": [1.0, None]},
                "pct_len": {"percentile": [5, 95]}, "pct_low": {"percentile": [-1, 5, 50]},
                "pct_high": {"percentile": [5, 50, 101]}, "pct_type": {"percentile": 50}, "fig": {"fig": 3},
                "shape": {"cd_result": M[:2] if d["seed"] % 2 else np.zeros((4, 4))},
            }[k])
            visualize_nonlinear_causal_effect(**a)
    except (TypeError, ValueError):
        ctx.nontrivial()
        return
    finally:
        plt.close("all")
    require(False, f"accepted: {k}")
