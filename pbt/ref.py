"""Reference models written independently of /repo (numpy/scipy/sklearn only)."""
import itertools

import numpy as np
from core import HarnessError, Reject, require
from sklearn.linear_model import LassoLarsIC


# ---------------------------------------------------------------- regression
def ols(Z, y):
    """(coefs, intercept) of y on the columns of Z, with intercept."""
    Z = np.asarray(Z, float)
    if Z.ndim == 1:
        Z = Z[:, None]
    y = np.asarray(y, float)
    Zm, ym = Z.mean(axis=0), y.mean()
    c, *_ = np.linalg.lstsq(Z - Zm, y - ym, rcond=None)
    return c, ym - Zm @ c


def ols_resid(Z, y):
    c, b = ols(Z, y)
    Z = np.asarray(Z, float)
    if Z.ndim == 1:
        Z = Z[:, None]
    return np.asarray(y, float) - Z @ c - b


def adaptive_lasso(X, predictors, target):
    """Set of predictors kept by the adaptive lasso with BIC."""
    X = np.asarray(X, float)
    sd = X.std(axis=0)
    sd = np.where(sd == 0, 1.0, sd)
    S = (X - X.mean(axis=0)) / sd
    w = np.abs(ols(S[:, predictors], S[:, target])[0])
    reg = LassoLarsIC(criterion="bic").fit(S[:, predictors] * w, S[:, target])
    keep = np.abs(reg.coef_ * w) > 0
    return [p for p, k in zip(predictors, keep) if k]


def selection_margin(X, predictors, target, keep):
    """Gap between the two best BIC values, relative; small = a near tie."""
    sd = X.std(axis=0)
    S = (X - X.mean(axis=0)) / np.where(sd == 0, 1.0, sd)
    w = np.abs(ols(S[:, predictors], S[:, target])[0])
    reg = LassoLarsIC(criterion="bic").fit(S[:, predictors] * w, S[:, target])
    crit = np.sort(reg.criterion_)
    if len(crit) < 2:
        return np.inf
    return float(crit[1] - crit[0])


def pruned_coefs(X, predictors, target):
    keep = adaptive_lasso(X, predictors, target)
    out = np.zeros(len(predictors))
    if keep:
        c, _ = ols(X[:, keep], X[:, target])
        for k, v in zip(keep, c):
            out[list(predictors).index(k)] = v
    return out


# ---------------------------------------------------------------- graphs
def edges(B, thr=0.0):
    """{(from, to)} with |coefficient| > thr, NaN ignored."""
    B = np.asarray(B, float)
    out = set()
    for i in range(B.shape[0]):
        for j in range(B.shape[1]):
            v = B[i, j]
            if v == v and abs(v) > thr:
                out.add((j, i))
    return out


def is_acyclic(B):
    p = len(B)
    E = edges(B)
    left = set(range(p))
    while left:
        roots = [v for v in left if not any(a in left and b == v for a, b in E)]
        if not roots:
            return False
        left -= set(roots)
    return True


def simple_paths(E, a, b, p):
    """All simple directed paths from a to b (a != b) by plain recursion."""
    nxt = {i: sorted(t for f, t in E if f == i) for i in range(p)}
    out = []

    def go(path):
        if path[-1] == b:
            out.append(tuple(path))
            return
        for t in nxt[path[-1]]:
            if t not in path:
                go(path + [t])

    go([a])
    return out


def reach(E, a):
    seen, todo = set(), [a]
    while todo:
        v = todo.pop()
        for f, t in E:
            if f == v and t not in seen:
                seen.add(t)
                todo.append(t)
    return seen


def total_effects(B):
    """T[to, from] = ((I - B)^-1 - I)."""
    B = np.nan_to_num(np.asarray(B, float))
    p = len(B)
    return np.linalg.inv(np.eye(p) - B) - np.eye(p)


def check_dag(B, order=None, p=None, what="model", nan_ok=False):
    B = np.asarray(B)
    p = p if p is not None else B.shape[0]
    require(B.shape == (p, p), f"{what}: adjacency shape", B.shape)
    if not nan_ok:
        require(np.isfinite(B).all(), f"{what}: adjacency not finite", B)
    require(np.all(np.diag(B) == 0), f"{what}: non-zero diagonal", B)
    if order is not None:
        order = [int(i) for i in order]
        require(sorted(order) == list(range(p)), f"{what}: order is not a permutation", order)
        pos = {v: k for k, v in enumerate(order)}
        for f, t in edges(B):
            require(pos[f] < pos[t], f"{what}: edge {f}->{t} against the order", order, B)
    require(is_acyclic(B), f"{what}: cyclic", B)


# ---------------------------------------------------------------- DirectLiNGAM
def _entropy(u):
    return (
        (1 + np.log(2 * np.pi)) / 2
        - 79.047 * (np.mean(np.log(np.cosh(u))) - 0.37457) ** 2
        - 7.4129 * np.mean(u * np.exp(-(u**2) / 2)) ** 2
    )


def _std(x):
    return (x - x.mean()) / x.std()


def _res(x, y):
    """Residual of x on y (both used as given, mean kept)."""
    return x - (np.mean((x - x.mean()) * (y - y.mean())) / np.var(y)) * y


def pw_score(X, i, U, unaffected=()):
    """Sum over j of min(0, mutual-information difference)^2 (smaller = more exogenous).

    unaffected: variables known not to depend on the candidates; they are their own residuals."""
    tot = 0.0
    xi = _std(X[:, i])
    for j in U:
        if j == i:
            continue
        xj = _std(X[:, j])
        ri, rj = _res(xi, xj), xj if j in unaffected else _res(xj, xi)
        d = (_entropy(xj) + _entropy(ri / ri.std())) - (
            _entropy(xi) + _entropy(rj / rj.std())
        )
        tot += min(0.0, d) ** 2
    return tot


def kernel_mi(x, y, n, par=None):
    kappa, sigma = par or ((2e-3, 0.5) if n > 1000 else (2e-2, 1.0))

    def gram(v):
        d = (v[:, None] - v[None, :]) ** 2
        return np.exp(-d / (2 * sigma**2))

    K1, K2 = gram(x), gram(y)
    I = np.eye(n) * (n * kappa / 2)
    A, Bm = K1 + I, K2 + I
    # log det of [[A^2, K1 K2],[K2 K1, B^2]] minus log det of its block diagonal
    A2, B2 = A @ A, Bm @ Bm
    top = np.block([[A2, K1 @ K2], [K2 @ K1, B2]])
    s = np.linalg.slogdet(top)[1] - np.linalg.slogdet(A2)[1] - np.linalg.slogdet(B2)[1]
    return -0.5 * s


def kernel_score(X, j, U):
    n = len(X)
    return sum(kernel_mi(X[:, j], _res(X[:, i], X[:, j]), n) for i in U if i != j)


def candidates_hard(pk, U):
    """Variables that no ordering constraint of the prior knowledge forbids to be next."""
    out = []
    for i in U:
        ok = True
        for j in U:
            if j == i:
                continue
            before = must_precede(pk, j, i)
            if before:
                ok = False
        if ok:
            out.append(i)
    return out


def must_precede(pk, a, b):
    """Prior knowledge (pk[to, from], -1/nan unknown) puts a before b."""
    if pk[b, a] == 1:
        return True
    return pk[a, b] == 0 and pk[b, a] != 0


def candidates_soft(pk, U):
    """Soft use of prior knowledge (DirectLiNGAM paper): known exogenous variables, else all that
    are neither known to be endogenous nor known sinks; and the variables no candidate affects."""
    def others(i):
        return [j for j in U if j != i]

    Uc = [i for i in U if all(pk[i, j] == 0 for j in others(i))]
    if not Uc:
        Uc = [i for i in U if not any(pk[i, j] == 1 for j in others(i))
              and not all(pk[j, i] == 0 for j in others(i))]
    V = [i for i in U if i not in Uc and all(pk[i, j] == 0 for j in Uc)]
    return Uc, V


def direct_order_check(X, order, measure="pwling", pk=None, datasets=None, weights=None,
                       tol=1e-9, soft=False):
    """Walk the reported order: at every step the chosen variable must have the
    smallest score among the admissible ones (up to tol).  Returns the number
    of steps at which the choice was decided by the score."""
    Xs = [np.array(d, float) for d in (datasets if datasets is not None else [X])]
    if measure == "kernel":
        Xs = [(d - d.mean(0)) / d.std(0) for d in Xs]
    sizes = np.array([len(d) for d in Xs], float)
    U = list(range(Xs[0].shape[1]))
    decided = 0
    for m in [int(v) for v in order]:
        require(m in U, "order repeats a variable", order)
        V = []
        if soft:
            Uc, V = candidates_soft(pk, U)
        else:
            Uc = U if pk is None else candidates_hard(pk, U)
        require(m in Uc, "order violates the prior knowledge", order, m)
        if len(Uc) > 1 and len(U) > 1:
            f = kernel_score if measure == "kernel" else pw_score
            sc = {}
            for i in Uc:
                per = [f(d, i, U, V) if soft else f(d, i, U) for d in Xs]
                sc[i] = float(np.sum(np.array(per) * sizes) / sizes.sum())
            best = min(sc.values())
            if not np.isfinite(best):
                raise HarnessError("reference score not finite")
            slack = tol * (1 + abs(best)) if measure != "kernel" else 1e-6 * (1 + abs(best))
            require(
                sc[m] <= best + slack,
                f"step chose x{m} but another variable is more independent", sc, order,
            )
            decided += 1
        for d in Xs:
            xm = d[:, m].copy()
            for i in U:
                if i != m:
                    d[:, i] = _res(d[:, i], xm)
        U.remove(m)
    return decided


# ---------------------------------------------------------------- HSIC
def hsic_ref(x, y, widths=None, bw="mdbs"):
    from scipy.stats import gamma as G

    x = np.asarray(x, float)
    y = np.asarray(y, float)
    if x.ndim == 1:
        x = x[:, None]
    if y.ndim == 1:
        y = y[:, None]
    n = len(x)
    wx = kernel_width_ref(x, bw)
    wy = kernel_width_ref(y, bw)

    def gram(v, w):
        d = ((v[:, None, :] - v[None, :, :]) ** 2).sum(-1)
        return np.exp(-d / (2 * w * w))

    K, L = gram(x, wx), gram(y, wy)
    H = np.eye(n) - 1.0 / n
    Kc, Lc = H @ K @ H, H @ L @ H
    stat = float((Kc * Lc).sum() / n)
    m2 = (Kc * Lc / 6) ** 2
    var = (m2.sum() - np.trace(m2)) / n / (n - 1)
    var = 72 * (n - 4) * (n - 5) / n / (n - 1) / (n - 2) / (n - 3) * var
    off = ~np.eye(n, dtype=bool)
    mx, my = K[off].sum() / n / (n - 1), L[off].sum() / n / (n - 1)
    mean = (1 + mx * my - mx - my) / n
    al, be = mean**2 / var, var * n / mean
    return stat, float(G.sf(stat, al, scale=be))


def kernel_width_ref(X, bw="mdbs"):
    X = np.asarray(X, float)
    n = len(X)
    if bw in ("scott", "silverman"):
        # rule of thumb: c * min(standard deviation, interquartile range / 1.349) * n^(-1/5)
        v = X[:, 0]
        iqr = (np.percentile(v, 75) - np.percentile(v, 25)) / 1.349
        a = min(np.std(v, ddof=1), iqr) if iqr > 0 else np.std(v, ddof=1)
        return {"scott": 1.059, "silverman": 0.9}[bw] * a * n ** (-0.2)
    Y = X[:100]
    m = len(Y)
    ds = [((Y[i] - Y[j]) ** 2).sum() for i in range(m) for j in range(i + 1, m)]
    if min(ds) < 1e-13 * (Y**2).sum(axis=1).max():
        # whether coinciding points count is decided by rounding
        raise Reject("coinciding points")
    return float(np.sqrt(0.5 * np.median(ds)))


def pw_order(datasets):
    """(order, margin): reference order and the smallest gap between best and second."""
    Xs = [np.array(d, float) for d in datasets]
    sizes = np.array([len(d) for d in Xs], float)
    U = list(range(Xs[0].shape[1]))
    order, margin = [], np.inf
    while U:
        if len(U) == 1:
            order.append(U[0])
            break
        sc = sorted(
            (float(np.sum([pw_score(d, i, U) * s for d, s in zip(Xs, sizes)]) / sizes.sum()), i)
            for i in U
        )
        margin = min(margin, sc[1][0] - sc[0][0])
        m = sc[0][1]
        for d in Xs:
            xm = d[:, m].copy()
            for i in U:
                if i != m:
                    d[:, i] = _res(d[:, i], xm)
        order.append(m)
        U.remove(m)
    return order, margin
