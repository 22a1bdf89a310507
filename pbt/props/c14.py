"""C14: RCD decides ancestors, parents and confounded pairs by its published rules."""
import numpy as np
import lingam
from hypothesis import strategies as st
from lingam.utils import extract_ancestors

import gen
import ref
import ref_ind
from core import Property, require
from props.c09 import close

P = Property("C14", boost=2)
MARGIN = 1e-4

SETTINGS = {
    "max_explanatory_num": st.sampled_from([1, 2, 3] * 4 + [5]),
    "cor_alpha": st.sampled_from([0.01, 0.01, 0.05, 0.2, 0.001]),
    "ind_alpha": st.sampled_from([0.01, 0.01, 0.1, 0.3, 0.001]),
    "shapiro_alpha": st.sampled_from([0.5, 0.9999, 0.01, 0.1]),
    "bw_method": st.sampled_from(["mdbs", "mdbs", "scott", "silverman"]),
    "independence": st.sampled_from(["hsic", "hsic", "fcorr"]),
    "ind_corr": st.sampled_from([0.5, 0.3, 0.7]),
}


@st.composite
def rcd_spec(draw, groups=None, pmax=4, nmin=60, nmax=160, ml=False):
    d = {
        "seed": draw(gen.SEED), "p": draw(st.sampled_from([q for q in (3, 4, 2, 5) if q <= pmax] * 8 + [6 if pmax > 3 and not ml else 3])),
        "n": draw(gen.size(nmin, nmax, 160 if ml else 700, 30)),
        "latent": draw(st.sampled_from([0, 1, 0, 2])),
        "density": draw(st.sampled_from([0.7, 0.4, 1.0])),
        "noise": draw(st.sampled_from(["exp", "uniform", "laplace", "cubic", "mixed"])),
        "set": {k: draw(v) for k, v in SETTINGS.items()},
        "joint": draw(st.sampled_from([False, False, False, True])),
    }
    if d["joint"]:
        d["latent"] = max(1, d["latent"])
    d["set"]["MLHSICR"] = draw(st.booleans()) if ml else False
    if groups:
        d["groups"] = draw(st.integers(2, groups))
    return d


def datasets(d):
    """Linear model with latent common causes; groups share the graph."""
    rng = np.random.default_rng(d["seed"])
    p = d["p"]
    B, order = gen.random_dag(rng, p, d["density"])
    L = np.zeros((p, d["latent"]))
    joint = d.get("joint") and p > 2
    if joint:
        # one variable (not always the last) whose parents share a hidden cause: only the whole set reveals it
        q = p - int(rng.random() < 0.4 and p > 3)
        for i in order[:q]:
            B[i] = 0
        B[order[q - 1], order[:q - 1]] = rng.uniform(0.6, 1.3, q - 1) * rng.choice([-1, 1], q - 1)
    for k in range(d["latent"]):
        for i in order[:q - 1] if joint and k == 0 else rng.choice(p, min(2, p), replace=False):
            L[i, k] = rng.uniform(0.6, 1.3) * rng.choice([-1, 1]) * (1.5 if joint else 1)
    out = []
    for g in range(d.get("groups", 1)):
        n = d["n"] + 9 * g
        W = np.where(B != 0, np.sign(B) * rng.uniform(0.6, 1.4, B.shape), 0) if g else B
        F = np.column_stack([gen.noise(rng, d["noise"], n, 7 + k) for k in range(d["latent"])]
                            or [np.zeros(n)])
        E = np.column_stack([gen.noise(rng, d["noise"], n, j) for j in range(p)])
        E = E + (F @ L.T if d["latent"] else 0)
        X = np.zeros((n, p))
        for i in order:
            X[:, i] = E[:, i] + X @ W[i]
        out.append(X)
    return out


def consistent(M, B, P=None):
    """What holds whatever the tests decided."""
    p = len(B)
    require(len(M) == p, "one ancestor set per variable")
    for i in range(p):
        require(i not in M[i], "a variable is its own ancestor", M)
        for j in range(p):
            if i == j:
                require(B[i, j] == 0, "diagonal", B)
            elif np.isnan(B[i, j]):
                require(np.isnan(B[j, i]), "a confounded pair is marked both ways", B)
            elif B[i, j] != 0:
                require(j in M[i], "a parent is not among the ancestors", M, B)
                require(i not in M[j], "two variables are each other's ancestors", M)


def reach_ml(d):
    """Settings under which the minimised-dependence regression is consulted."""
    d["set"]["max_explanatory_num"] = 2
    d["set"].update(cor_alpha=0.5, shapiro_alpha=0.9999)
    d["latent"] = max(d["latent"], 1)


def grown(seq):
    """Labels: the largest set that found something; smaller sets finding more after it."""
    if not seq:
        return ["grew=0"]
    return [f"grew={max(seq)}"] + (["restarted"] if any(b < a for a, b in zip(seq, seq[1:])) else [])


def compare(M, Bs, r, d, ctx):
    if r.J.margin < MARGIN:
        ctx.reject("a test is nearly tied")
    require([set(s) for s in M] == r.M, "ancestors", M, r.M)
    for k, (B, want) in enumerate(zip(Bs, r.B)):
        require(close(B, want, 1e-6), f"adjacency of data set {k}", B, want, M)
    ctx.label(f"anc={sum(map(len, r.M))}", f"conf={len(r.C)}", d["set"]["independence"],
              d["set"]["bw_method"])
    if r.used_ml:
        ctx.label("mlhsicr")
    ctx.label(*grown(r.grew))
    if any(r.M[i] - r.P[i] for i in range(d["p"])):
        ctx.label("ancestor_not_parent")
    ctx.nontrivial(any(r.M) or bool(r.C))


@P.clause("single", rcd_spec(pmax=5), quick=220, thorough=5000,
          rule="an ancestor or a confounded pair is found")
def single(d, ctx):
    X = datasets(d)[0]
    m = lingam.RCD(**d["set"])
    require(m.fit(X) is m, "fit returns the model")
    consistent(m.ancestors_list_, m.adjacency_matrix_)
    r = ref_ind.RCDRef([X], **d["set"]).fit()
    compare(m.ancestors_list_, [m.adjacency_matrix_], r, d, ctx)


@P.clause("single_mlhsicr", rcd_spec(pmax=3, nmax=90, ml=True), quick=120, thorough=1500,
          rule="an ancestor or a confounded pair is found")
def single_ml(d, ctx):
    d["p"] = 3
    d["set"]["max_explanatory_num"] = 2
    d["set"].update(MLHSICR=True, cor_alpha=0.5, shapiro_alpha=0.9999)
    d["latent"] = max(d["latent"], 1)
    X = datasets(d)[0]
    m = lingam.RCD(**d["set"]).fit(X)
    consistent(m.ancestors_list_, m.adjacency_matrix_)
    r = ref_ind.RCDRef([X], **d["set"]).fit()
    compare(m.ancestors_list_, [m.adjacency_matrix_], r, d, ctx)


@P.clause("groups", rcd_spec(groups=3, pmax=4, nmax=100, ml=True), quick=120, thorough=3000,
          rule="an ancestor or a confounded pair is found")
def groups(d, ctx):
    if d["set"]["MLHSICR"]:
        d["p"], d["n"] = 3, min(d["n"], 80)
        reach_ml(d)
    Xs = datasets(d)
    m = lingam.MultiGroupRCD(**d["set"])
    require(m.fit([X.copy() for X in Xs]) is m, "fit returns the model")
    require(len(m.adjacency_matrices_) == len(Xs), "one matrix per data set")
    for B in m.adjacency_matrices_:
        consistent(m.ancestors_list_, B)
    r = ref_ind.RCDRef(Xs, **d["set"]).fit()
    ctx.label(f"groups={len(Xs)}")
    compare(m.ancestors_list_, m.adjacency_matrices_, r, d, ctx)


@P.clause("helper", rcd_spec(pmax=4, nmax=110, ml=True), quick=90, thorough=2000,
          rule="an ancestor is found")
def helper(d, ctx):
    """The ancestor search alone, as used outside RCD."""
    if d["set"]["MLHSICR"]:
        d["p"], d["n"] = 3, min(d["n"], 90)
        reach_ml(d)
    d["set"]["independence"] = "hsic"
    X = datasets(d)[0]
    kw = {k: v for k, v in d["set"].items() if k not in ("independence", "ind_corr")}
    M = extract_ancestors(X, **kw)
    r = ref_ind.RCDRef([X], **d["set"])
    want = r.ancestors()
    if r.J.margin < MARGIN:
        ctx.reject("a test is nearly tied")
    require([set(s) for s in M] == want, "ancestors", M, want)
    ctx.label(f"anc={sum(map(len, want))}", "mlhsicr" if r.used_ml else "ols")
    ctx.nontrivial(any(want))


@P.clause("error_p_values", rcd_spec(groups=2, pmax=4, nmax=110), quick=60, thorough=1200,
          rule="some pair has a p-value while another variable is confounded, or an edge exists")
def pvalues(d, ctx):
    Xs = datasets(d)
    rng = np.random.default_rng(d["seed"])
    multi = rng.random() < 0.5
    if multi:
        m = lingam.MultiGroupRCD(**d["set"]).fit(Xs)
        Bs, got = m.adjacency_matrices_, np.asarray(m.get_error_independence_p_values(Xs))
    else:
        m = lingam.RCD(**d["set"]).fit(Xs[0])
        Xs = Xs[:1]
        Bs, got = [m.adjacency_matrix_], np.asarray([m.get_error_independence_p_values(Xs[0])])
    p = d["p"]
    require(got.shape == (len(Xs), p, p), "shape", got.shape)
    for X, B, pv in zip(Xs, Bs, got):
        bad = np.isnan(B).any(axis=0) | np.isnan(B).any(axis=1)
        E = X - X @ np.nan_to_num(B).T
        for i in range(p):
            for j in range(p):
                if i == j:
                    require(pv[i, j] == 0, "diagonal")
                elif bad[i] or bad[j]:
                    require(np.isnan(pv[i, j]), "p-value of a confounded variable", pv)
                else:
                    q = ref.hsic_ref(E[:, i], E[:, j])[1]
                    require(abs(pv[i, j] - q) <= 1e-6 + 1e-4 * q, "p-value", pv[i, j], q)
                    ctx.nontrivial(bool(bad.any()) or bool(np.nan_to_num(B).any()))
    ctx.label("multi" if multi else "single")
