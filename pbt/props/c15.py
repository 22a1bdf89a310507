"""C15: CAM-UV finds parents and hidden-confounded pairs by its published rules."""
import numpy as np
import lingam
from hypothesis import strategies as st

import gen
import ref
import ref_ind
from core import Property, require
from props.c09 import close
from props.c14 import grown

P = Property("C15", boost=1)
MARGIN = 0.01   # generalised additive fits depend on the column order at about 1e-6


@st.composite
def spec(draw, groups=None, pmax=4):
    d = {
        "seed": draw(gen.SEED), "p": draw(st.sampled_from([q for q in (3, 4, 2, 5) if q <= pmax] * 10 + [5])),
        "n": draw(gen.size(50, 110, 350, 25)), "latent": draw(st.sampled_from([0, 1, 0, 2])),
        "density": draw(st.sampled_from([0.7, 0.4, 1.0])),
        "kind": draw(st.sampled_from(["mix", "poly", "linear"])),
        "set": {
            "alpha": draw(st.sampled_from([0.01, 0.05, 0.1, 0.2])),
            "num_explanatory_vals": draw(st.sampled_from([2, 3, 2] * 4 + [1, 4])),
            "independence": draw(st.sampled_from(["hsic", "hsic", "fcorr"])),
            "ind_corr": draw(st.sampled_from([0.5, 0.4, 0.6])),
        },
        "forbid": draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4)), max_size=4)),
        "pk_none": draw(st.booleans()), "joint": draw(st.sampled_from([False, True])),
    }
    if d["joint"]:
        d["set"]["num_explanatory_vals"] = draw(st.sampled_from([3, 3, 4]))
    if groups:
        d["groups"] = draw(st.integers(2, groups))
    return d


def data(d):
    rng = np.random.default_rng(d["seed"])
    p = d["p"]
    B, order = gen.random_dag(rng, p, d["density"])
    fs = {"mix": [np.tanh, np.square, np.sin, lambda v: v],
          "poly": [lambda v: v + 0.5 * v**2, lambda v: 0.6 * v**3 + v, np.square],
          "linear": [lambda v: v]}[d["kind"]]
    which = rng.integers(0, len(fs), (p, p))
    lat = [rng.choice(p, min(2, p), replace=False) for _ in range(d["latent"])]
    joint = d.get("joint") and p > 2
    if joint:
        # parents on a closed curve: no pair, only the whole set leaves an independent residual
        q = p - int(rng.random() < 0.4 and p > 3)
        B[order[:q]] = 0
        B[order[q - 1], order[:q - 1]] = 1
        lat, roots = lat[1:], list(order[:q - 1])
    out = []
    for g in range(d.get("groups", 1)):
        n = d["n"] + 7 * g
        X = np.zeros((n, p))
        F = [rng.uniform(-2, 2, n) for _ in lat]
        angle = rng.uniform(0, 2 * np.pi, n)
        for i in order:
            x = rng.uniform(-1, 1, n) * 1.2
            for f, pair in zip(F, lat):
                if i in pair:
                    x = x + f
            for j in np.nonzero(B[i])[0]:
                x = x + 1.5 * fs[which[i, j]](1.5 * X[:, j])
            if joint and i in roots:
                x = np.cos(angle + np.pi * (roots.index(i) + 0.3) / len(roots)) + 0.1 * x
            X[:, i] = (x - x.mean()) / x.std()
        out.append(X)
    return out


def settings(d):
    kw = dict(d["set"])
    if kw["independence"] == "fcorr":
        kw["num_explanatory_vals"] = 2
    forb = [(a % d["p"], b % d["p"]) for a, b in d["forbid"] if a % d["p"] != b % d["p"]]
    if d["pk_none"]:
        forb = []
    kw["prior_knowledge"] = None if d["pk_none"] else forb
    return kw, forb


def judge(B, kw, forb, Xs, d, ctx):
    B = np.asarray(B)
    p = d["p"]
    require(B.shape == (p, p), "shape", B.shape)
    for i in range(p):
        for j in range(p):
            v = B[i, j]
            require(np.isnan(v) or v in (0.0, 1.0), "entries are 0, 1 or NaN", B)
            require(i != j or v == 0, "diagonal", B)
            require(np.isnan(v) == np.isnan(B[j, i]), "confounded pairs are symmetric", B)
            require(not (v == 1 and B[j, i] == 1), "two variables are each other's parents", B)
            require(not (v == 1 and (j, i) in forb), f"x{j} may not cause x{i}", B, forb)
    kw = {k: v for k, v in kw.items() if k != "prior_knowledge"}
    r = ref_ind.CAMUVRef(Xs, forbidden=forb, **kw).fit()
    if r.J.margin < MARGIN:
        ctx.reject("a test is nearly tied")
    require(close(B, r.B), "parents and confounded pairs", B, r.B, r.found)
    ctx.label(f"parents={sum(map(len, r.P))}", f"conf={len(r.C)}", kw["independence"],
              f"vals={kw['num_explanatory_vals']}")
    ctx.label(*grown(r.grew))
    if forb:
        ctx.label("prior_knowledge")
    if r.found != r.P:
        ctx.label("parent_dropped")
    ctx.nontrivial(any(r.P) or bool(r.C))


@P.clause("single", spec(pmax=5), quick=200, thorough=3000,
          rule="a parent or a confounded pair is found")
def single(d, ctx):
    X = data(d)[0]
    kw, forb = settings(d)
    m = lingam.CAMUV(**kw)
    require(m.fit(X) is m, "fit returns the model")
    judge(m.adjacency_matrix_, kw, forb, [X], d, ctx)


@P.clause("groups", spec(groups=3, pmax=4), quick=90, thorough=1500,
          rule="a parent or a confounded pair is found")
def groups(d, ctx):
    Xs = data(d)
    kw, forb = settings(d)
    m = lingam.MultiGroupCAMUV(**kw)
    require(m.fit([X.copy() for X in Xs]) is m, "fit returns the model")
    ctx.label(f"groups={len(Xs)}")
    judge(m.adjacency_matrix_, kw, forb, Xs, d, ctx)
