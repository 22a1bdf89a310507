"""References built on independence tests: F-correlation, RCD, CAM-UV.

Every decision "value against threshold" goes through Judge, which remembers how
close the closest one was; callers skip cases in which a decision was a near tie.
"""
import itertools

import numpy as np
from scipy.optimize import fmin_l_bfgs_b
from scipy.stats import chi2, pearsonr, shapiro

import ref


class Judge:
    def __init__(self):
        self.margin = np.inf
        self.count = 0

    def _note(self, m):
        self.count += 1
        self.margin = min(self.margin, m)

    def p_above(self, p, alpha, factor=1.0):
        """p > alpha for p-values; margin on the log scale."""
        if alpha == 0 or p == 0:
            if p < 1e-290:
                self._note(np.inf if alpha > 1e-200 else 0.0)
            return p > alpha
        self._note(abs(np.log(p / alpha)) / factor)
        return p > alpha

    def below(self, v, thr, factor=1.0):
        self._note(abs(v - thr) / factor)
        return v < thr


# ---------------------------------------------------------------- F-correlation
def pivoted_cholesky(K, tol):
    """Greedy pivoted Cholesky of K until the remaining trace is below tol."""
    n = len(K)
    d = np.diag(K).astype(float).copy()
    cols = []
    left = np.ones(n, bool)
    while left.any() and d[left].sum() > tol:
        j = int(np.argmax(np.where(left, d, -np.inf)))
        c = K[:, j].copy()
        for g in cols:
            c -= g * g[j]
        c /= np.sqrt(d[j])
        c[~left] = 0.0
        cols.append(c)
        left[j] = False
        d = d - c**2
    return np.column_stack(cols)


def fcorr_factors(x, n, kappa, sigma):
    z = (x - x.mean()) / x.std()
    K = np.exp(-((z[:, None] - z[None, :]) ** 2) / (2 * sigma**2))
    G = pivoted_cholesky(K, n * kappa * 1e-2)
    G = G - G.mean(axis=0)
    D, A = np.linalg.eigh(G.T @ G)
    keep = D >= n * kappa * 1e-2
    U = G @ (A[:, keep] / np.sqrt(D[keep]))
    return U, D[keep] / (n * kappa / 2 + D[keep])


def fcorr(x, y):
    """First regularised kernel canonical correlation (Bach and Jordan, 2002)."""
    x, y = np.ravel(np.asarray(x, float)), np.ravel(np.asarray(y, float))
    n = len(x)
    kappa, sigma = (2e-3, 0.5) if n > 1000 else (2e-2, 1.0)
    U1, r1 = fcorr_factors(x, n, kappa, sigma)
    U2, r2 = fcorr_factors(y, n, kappa, sigma)
    M = (r1[:, None] * (U1.T @ U2)) * r2[None, :]
    return float(np.linalg.svd(M, compute_uv=False)[0])


def fcorr_exact(x, y):
    """The same without the low-rank approximation."""
    x, y = np.ravel(np.asarray(x, float)), np.ravel(np.asarray(y, float))
    n = len(x)
    kappa, sigma = (2e-3, 0.5) if n > 1000 else (2e-2, 1.0)
    Rs = []
    for v in (x, y):
        z = (v - v.mean()) / v.std()
        K = np.exp(-((z[:, None] - z[None, :]) ** 2) / (2 * sigma**2))
        H = np.eye(n) - 1.0 / n
        K = H @ K @ H
        Rs.append(np.linalg.solve(K + n * kappa / 2 * np.eye(n), K))
    return float(np.linalg.svd(Rs[0] @ Rs[1], compute_uv=False)[0])


# ---------------------------------------------------------------- RCD
def fisher(ps):
    ps = [float(p) for p in ps]
    if len(ps) == 1:
        return ps[0]
    with np.errstate(divide="ignore"):
        return float(chi2.sf(-2 * np.sum(np.log(ps)), 2 * len(ps)))


def mlhsicr(Y, i, js):
    """Residual of the regression that minimises the summed HSIC statistics."""
    n = len(Y)
    H = np.eye(n) - 1.0 / n

    def gram(v, w):
        return H @ np.exp(-((v[:, None] - v[None, :]) ** 2) / (2 * w * w)) @ H

    ws = [ref.kernel_width_ref(Y[:, [j]]) for j in js]
    Ls = [gram(Y[:, j], w) for j, w in zip(js, ws)]
    wi = ref.kernel_width_ref(Y[:, [i]])
    x0, _ = ref.ols(Y[:, js], Y[:, i])

    def obj(c):
        K = gram(Y[:, i] - Y[:, js] @ c, wi - np.dot(c, ws))
        return sum(float((K * L).sum()) / n for L in Ls)

    c, _, _ = fmin_l_bfgs_b(obj, x0, approx_grad=True)
    return Y[:, i] - Y[:, js] @ c


class RCDRef:
    def __init__(self, datasets, max_explanatory_num=2, cor_alpha=0.01, ind_alpha=0.01,
                 shapiro_alpha=0.01, MLHSICR=False, bw_method="mdbs", independence="hsic",
                 ind_corr=0.5):
        self.D = [np.asarray(d, float) for d in datasets]
        self.p = self.D[0].shape[1]
        self.maxl = max_explanatory_num
        self.ca, self.ia, self.sa = cor_alpha, ind_alpha, shapiro_alpha
        self.ml, self.bw, self.ind, self.ic = MLHSICR, bw_method, independence, ind_corr
        self.J = Judge()
        self.grew = []          # sizes of the sets that added ancestors, in order
        self.used_ml = False

    def resid(self, X, i, js):
        js = sorted(js)
        return X[:, i] if not js else ref.ols_resid(X[:, js], X[:, i])

    def correlated(self, As, Bs):
        return not self.J.p_above(fisher([pearsonr(a, b)[1] for a, b in zip(As, Bs)]), self.ca)

    def independent(self, Rs, Ys, factor=1.0):
        if self.ind == "hsic":
            return self.J.p_above(
                fisher([ref.hsic_ref(r, y, bw=self.bw)[1] for r, y in zip(Rs, Ys)]), self.ia, factor)
        return self.J.below(max(fcorr(r, y) for r, y in zip(Rs, Ys)), self.ic, factor)

    def sink(self, Ys, i, js):
        Rs = [self.resid(Y, i, js) for Y in Ys]
        if all(self.independent(Rs, [Y[:, j] for Y in Ys]) for j in js):
            return True
        if len(js) == 1 or not self.ml:
            return False
        self.used_ml = True
        Rs = [mlhsicr(Y, i, js) for Y in Ys]
        return all(self.independent(Rs, [Y[:, j] for Y in Ys], 3000.0) for j in js)

    def ancestors(self):
        M = [set() for _ in range(self.p)]
        seen = {}
        l = 1
        while True:
            changed = False
            for U in itertools.combinations(range(self.p), l + 1):
                H = set.intersection(*[M[u] for u in U])
                if seen.get(U) == H:
                    continue
                Ys = []
                for X in self.D:
                    Y = X.copy()
                    for u in U:
                        Y[:, u] = self.resid(X, u, H)
                    Ys.append(Y)
                if any(self.J.p_above(fisher([shapiro(Y[:, u])[1] for Y in Ys]), self.sa) for u in U):
                    continue
                if not all(self.correlated([Y[:, a] for Y in Ys], [Y[:, b] for Y in Ys])
                           for a, b in itertools.combinations(U, 2)):
                    continue
                sinks = []
                for i in U:
                    js = [u for u in U if u != i]
                    if any(i in M[j] for j in js) or set(js) <= M[i]:
                        continue
                    if self.sink(Ys, i, js):
                        sinks.append(i)
                if len(sinks) == 1:
                    new = M[sinks[0]] | (set(U) - set(sinks))
                    if new != M[sinks[0]]:
                        changed = True
                        self.grew.append(l)
                    M[sinks[0]] = new
                seen[U] = H
            if changed:
                l = 1
            elif l < self.maxl:
                l += 1
            else:
                return M

    def fit(self):
        M = self.ancestors()
        P = [set() for _ in range(self.p)]
        for i in range(self.p):
            for j in M[i]:
                z = [self.resid(X, i, M[i] - {j}) for X in self.D]
                w = [self.resid(X, j, M[i] & M[j]) for X in self.D]
                if self.correlated(w, z):
                    P[i].add(j)
        C = set()
        for i, j in itertools.combinations(range(self.p), 2):
            if i in P[j] or j in P[i]:
                continue
            if self.correlated([self.resid(X, i, P[i]) for X in self.D],
                               [self.resid(X, j, P[j]) for X in self.D]):
                C.add((i, j))
        Bs = []
        for X in self.D:
            B = np.zeros((self.p, self.p))
            for i in range(self.p):
                js = sorted(P[i])
                if js:
                    B[i, js] = ref.ols(X[:, js], X[:, i])[0]
            for i, j in C:
                B[i, j] = B[j, i] = np.nan
            Bs.append(B)
        self.M, self.P, self.C, self.B = M, P, C, Bs
        return self


# ---------------------------------------------------------------- CAM-UV
class CAMUVRef:
    def __init__(self, datasets, alpha=0.01, num_explanatory_vals=2, independence="hsic",
                 ind_corr=0.5, forbidden=()):
        self.D = [np.asarray(d, float) for d in datasets]
        self.p = self.D[0].shape[1]
        self.alpha, self.maxt, self.ind, self.ic = alpha, num_explanatory_vals, independence, ind_corr
        self.forbidden = {(int(a), int(b)) for a, b in forbidden}
        self.J = Judge()
        self.grew = []          # sizes of the sets that added parents, in order
        self.cache = {}

    def resid(self, i, js):
        key = (i, frozenset(js))
        if key not in self.cache:
            from pygam import LinearGAM

            js = sorted(js)
            out = []
            for X in self.D:
                if js:
                    g = LinearGAM().fit(X[:, js], X[:, i])
                    out.append(X[:, i] - g.predict(X[:, js]))
                else:
                    out.append(X[:, i])
            self.cache[key] = out
        return self.cache[key]

    def value(self, As, Bs):
        """Larger = more independent."""
        if self.ind == "hsic":
            return fisher([ref.hsic_ref(a, b)[1] for a, b in zip(As, Bs)])
        return -max(fcorr(a, b) for a, b in zip(As, Bs))

    def accept(self, v):
        if self.ind == "hsic":
            return self.J.p_above(v, self.alpha)
        return self.J.below(-v, self.ic)

    def independent(self, As, Bs):
        return self.accept(self.value(As, Bs))

    def cols(self, i):
        return [X[:, i] for X in self.D]

    def fit(self):
        p = self.p
        N = [set() for _ in range(p)]
        for i, j in itertools.combinations(range(p), 2):
            if not self.independent(self.cols(i), self.cols(j)):
                N[i].add(j)
                N[j].add(i)
        P = [set() for _ in range(p)]
        Y = [X.copy() for X in self.D]
        t = 2
        while True:
            changed = False
            for K in itertools.combinations(range(p), t):
                if any(a in P[b] or b in P[a] for a, b in itertools.combinations(K, 2)):
                    continue
                vals = []
                for c in K:
                    par = [k for k in K if k != c]
                    if any((a, c) in self.forbidden for a in par) or not set(par) <= N[c]:
                        continue
                    v = self.value(self.resid(c, set(par) | P[c]), [y[:, par] for y in Y])
                    vals.append((v, c))
                if not vals:
                    continue
                vals.sort(reverse=True)
                v, c = vals[0]
                if self.ind == "hsic" and v <= 0:
                    continue
                if not self.accept(v):
                    continue
                if len(vals) > 1:
                    if self.ind == "hsic":
                        self.J._note(np.log(v / max(vals[1][0], 1e-300)))
                    else:
                        self.J._note(v - vals[1][0])
                par = [k for k in K if k != c]
                if any(self.independent([y[:, c] for y in Y], [y[:, a] for y in Y]) for a in par):
                    continue
                P[c] |= set(par)
                self.grew.append(t)
                changed = True
                Y = [y.copy() for y in Y]
                for y, r in zip(Y, self.resid(c, P[c])):
                    y[:, c] = r
            if changed:
                t = 2
            else:
                t += 1
                if t > self.maxt:
                    break
        self.found = [set(s) for s in P]
        for i in range(p):
            drop = {j for j in P[i]
                    if self.independent(self.resid(i, P[i] - {j}), self.resid(j, P[j]))}
            P[i] = P[i] - drop
        C = set()
        for i, j in itertools.combinations(range(p), 2):
            if i in P[j] or j in P[i] or j not in N[i]:
                continue
            if not self.independent(self.resid(i, P[i]), self.resid(j, P[j])):
                C.add((i, j))
        B = np.zeros((p, p))
        for i in range(p):
            for j in P[i]:
                B[i, j] = 1
        for i, j in C:
            B[i, j] = B[j, i] = np.nan
        self.N, self.P, self.C, self.B = N, P, C, B
        return self
