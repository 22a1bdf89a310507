"""C23: drawings and printed summaries show exactly the graph they were given."""
import contextlib
import io
import re

import matplotlib

matplotlib.use("Agg")

import numpy as np
from hypothesis import strategies as st
from lingam import BootstrapResult
from lingam.utils import make_dot, make_dot_highlight, print_causal_directions, print_dagc

import dot
import gen
from core import Property, require

P = Property("C23", boost=6)
COEF = st.sampled_from([0.0, 0.0, 0.0, 0.5, -1.25, 0.01, 0.009, 0.02, -0.011, 2.0, 1e-7])
NAMES = ["a", "b c", "graph", "x10", "Größe", "q-1", "x[t-1]", "1.5", "n_1", "", "sex:male", "t:s:n", 'say "hi"']


def labelled(kind, p, k):
    if kind == "none":
        return None, [f"x{i}" for i in range(p)]
    names = [NAMES[(i + k) % len(NAMES)] + "v" * (i // len(NAMES)) for i in range(p)]
    if kind == "array":
        return np.array(names), names
    return (tuple(names) if kind == "tuple" else list(names)), names


def path_edges(E, s, t):
    """Edges (from, to) lying on a simple path from s to t."""
    out = set()

    def go(v, seen, edges):
        if v == t and edges:
            out.update(edges)
            return
        for w in [b for a, b in E if a == v]:
            if w not in seen:
                go(w, seen | {w}, edges + [(v, w)])

    if s != t:
        go(s, {s}, [])
    return out


def cycle_edges(E):
    def reach(a, b):
        todo, seen = [a], {a}
        while todo:
            v = todo.pop()
            if v == b:
                return True
            for x, y in E:
                if x == v and y not in seen:
                    seen.add(y)
                    todo.append(y)
        return False
    return {(a, b) for a, b in E if reach(b, a)}


@st.composite
def spec(draw):
    B = draw(gen.dag_matrix(2, 5, COEF, wide=12)) if draw(st.booleans()) else draw(gen.any_matrix(2, 5, COEF))
    ends = None
    if draw(st.integers(0, 11)) == 0:
        # a long chain, closed to a ring or not, with few other edges
        rng = np.random.default_rng(draw(gen.SEED))
        q = int(rng.integers(6, 11))
        o = rng.permutation(q)
        A = np.where(rng.random((q, q)) < 0.03, 0.7, 0.0)
        for a, b in zip(o, np.roll(o, -1)):
            A[b, a] = np.round(rng.uniform(0.3, 2), 2)
        if rng.random() < 0.5:
            A[o[0], o[-1]] = 0.0
        np.fill_diagonal(A, 0)
        B, ends = A.tolist(), (int(o[0]), int(o[-1]))
    p = len(B)
    d = {
        "B": B,
        "labels": draw(st.sampled_from(["none", "list", "array", "tuple"])), "k": draw(st.integers(0, 12)),
        "limit": draw(st.sampled_from([None, 0.01, 0.0, 1.0, 0.1])),
        "path": draw(st.none() | st.tuples(st.integers(0, p - 1), st.integers(0, p - 1))),
        **({"path": ends} if ends else {}),
        "color": draw(st.sampled_from([None, "red", "#00ff00"])), "cycle": draw(st.booleans()),
        "nan": draw(st.lists(st.tuples(st.integers(0, p - 1), st.integers(0, p - 1)), max_size=2)),
        "pred": draw(st.none() | st.lists(st.integers(0, p - 1), min_size=1, max_size=3, unique=True)),
        "pkind": draw(st.sampled_from(["coef", "imp", "plain"])), "seed": draw(gen.SEED),
        "highlight": draw(st.integers(0, p - 1)),
        "max_dsc": draw(st.sampled_from([None, None, 0, 1, 2])), "max_anc": draw(st.sampled_from([None, None, 0, 1, 2])),
        "others": draw(st.booleans()), "cmap": draw(st.sampled_from([None, "cool"])),
    }
    return d


def check_edges(got, want, what):
    """want: list of (from, to, dict of required attributes, set of absent attributes)."""
    left = list(got)
    for a, b, at, absent in want:
        hit = [e for e in left if e[0] == a and e[1] == b and all(e[2].get(k) == v for k, v in at.items())
               and not any(k in e[2] for k in absent)]
        require(hit, f"{what}: edge missing or drawn differently", (a, b, at, absent), left)
        left.remove(hit[0])
    require(not left, f"{what}: extra edges", left)


@P.clause("dot", spec(), quick=400, thorough=8000, rule="an edge is drawn and another entry is not")
def plain(d, ctx):
    B = np.array(d["B"])
    p = len(B)
    nan = []
    for a, b in d["nan"]:
        if a != b:
            B[a, b] = B[b, a] = np.nan
            nan.append((max(a, b), min(a, b)))
    nan = sorted(set(nan))
    labels, names = labelled(d["labels"], p, d["k"])
    kw = {} if d["limit"] is None else {"lower_limit": d["limit"]}
    limit = 0.01 if d["limit"] is None else d["limit"]
    if d["path"] is not None:
        kw["path"] = tuple(d["path"])
        if d["color"]:
            kw["path_color"] = d["color"]
    if d["cycle"]:
        kw["detect_cycle"] = True
    rng = np.random.default_rng(d["seed"])
    pred = d["pred"]
    vals = None
    if pred is not None:
        kw["prediction_feature_indices"] = pred
        kw["prediction_target_label"] = "Y out"
        vals = [[0.5, 0.004, -2.25][i % 3] for i in range(len(pred))]
        if d["pkind"] == "coef":
            kw["prediction_coefs"] = vals
        elif d["pkind"] == "imp":
            kw["prediction_feature_importance"] = vals
    keep = B.copy()
    out = make_dot(B, labels=labels, **kw)
    require(np.array_equal(B, keep, equal_nan=True), "the matrix was modified")
    g = dot.parse(out.source)
    E = {(j, i) for i in range(p) for j in range(p) if abs(B[i, j]) > limit}
    pe = path_edges(E, *d["path"]) if d["path"] is not None else set()
    ce = cycle_edges(E) if d["cycle"] else set()
    color = d["color"] or "black"
    want = []
    for j, i in E:
        at, absent = {"label": f"{B[i, j]:.2f}"}, {"dir"}
        if (j, i) in pe:
            at.update(color=color, penwidth="2")
        else:
            absent |= {"color", "penwidth"}
        if (j, i) in ce:
            at["style"] = "dashed"
        else:
            absent |= {"style"}
        want.append((names[j], names[i], at, absent))
    for hi, lo in nan:
        want.append((names[lo], names[hi], {"dir": "both"}, {"label"}))
    if pred is not None:
        for f, v in zip(pred, vals):
            at = {"style": "dashed", "color": "red"}
            if d["pkind"] == "coef":
                if abs(v) <= limit:
                    continue
                at["label"] = f"{v:.2f}"
            elif d["pkind"] == "imp":
                at["label"] = f"({v})"
            want.append((names[f], "Y out", at, set()))
    check_edges(g.edges + [e for s in g.subs for e in s.edges], want, "make_dot")
    nodes = g.all_nodes()
    extra = ["Y out"] if pred is not None else []
    require(sorted(nodes) == sorted(names + extra), "nodes", sorted(nodes))
    on = {v for e in pe for v in e}
    for i, v in enumerate(names):
        if d["path"] is not None:
            require((nodes[v].get("peripheries") == "2") == (i in d["path"]), "ends of the path", nodes)
        require((nodes[v].get("color") == color) == (i in on), "nodes on the path", nodes, on)
    if nan:
        same = [s for s in g.subs if s.attr.get("rank") == "same"]
        require(len(same) == 1 and sorted(same[0].nodes) == sorted({names[v] for e in nan for v in e}),
                "unordered variables share a rank")
    if pe:
        ctx.label("path")
    if ce:
        ctx.label("cycle")
    if nan:
        ctx.label("nan")
    if pred is not None:
        ctx.label("pred:" + d["pkind"])
    ctx.label("labels:" + d["labels"])
    ctx.nontrivial(0 < len(E) < p * (p - 1))


@st.composite
def rect(draw):
    p, lags = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    return {"B": [[draw(COEF) for _ in range(p * (1 + lags))] for _ in range(p)],
            "labels": draw(st.sampled_from(["none", "list", "array", "tuple"])), "k": draw(st.integers(0, 12)),
            "limit": draw(st.sampled_from([None, 0.01, 0.0, 1.0]))}


@P.clause("lagged", rect(), quick=60, thorough=1500, rule="an edge comes from a column without a row")
def lagged(d, ctx):
    """ignore_shape: several blocks side by side, as for the time series models."""
    B = np.array(d["B"])
    p, q = B.shape
    labels, names = labelled(d["labels"], q, d["k"])
    kw = {} if d["limit"] is None else {"lower_limit": d["limit"]}
    limit = 0.01 if d["limit"] is None else d["limit"]
    g = dot.parse(make_dot(B, labels=labels, ignore_shape=True, **kw).source)
    E = [(j, i) for i in range(p) for j in range(q) if abs(B[i, j]) > limit]
    check_edges(g.edges, [(names[j], names[i], {"label": f"{B[i, j]:.2f}"}, {"color", "style", "dir"}) for j, i in E],
                "make_dot, ignore_shape")
    require(sorted(g.all_nodes()) == sorted(names), "nodes", sorted(g.all_nodes()), names)
    ctx.label(d["labels"])
    ctx.nontrivial(any(j >= p for j, _ in E))


@P.clause("highlight", spec(), quick=400, thorough=8000, rule="an ancestor or descendant exists")
def highlight(d, ctx):
    B = np.array(d["B"])
    p = len(B)
    B[np.abs(B) < 1e-6] = 0       # entries that are numerically zero may or may not count
    labels, names = labelled(d["labels"], p, d["k"])
    kw = {}
    limit = 0.0
    if d["limit"] is not None:
        kw["lower_limit"] = limit = d["limit"]
    for k in ("max_dsc", "max_anc", "cmap"):
        if d[k] is not None:
            kw[k] = d[k]
    kw["draw_others"] = d["others"]
    if d["cycle"]:
        kw["detect_cycle"] = True
    if d["path"] is not None:
        kw["path"] = tuple(d["path"])
        if d["color"]:
            kw["path_color"] = d["color"]
    v = d["highlight"]
    keep = B.copy()
    out = make_dot_highlight(B, v, labels=labels, **kw)
    require(np.array_equal(B, keep), "the matrix was modified")
    E = {(j, i) for i in range(p) for j in range(p) if B[i, j] != 0 and abs(B[i, j]) >= limit}

    def dist(edges, cap):
        level, seen, k = {v}, {v: 0}, 0
        while level and (cap is None or k < cap):
            k += 1
            level = {b for a, b in edges if a in level} - set(seen)
            for w in level:
                seen[w] = k
        del seen[v]
        return seen

    dsc, anc = dist(E, d["max_dsc"]), dist({(b, a) for a, b in E}, d["max_anc"])
    clusters = {"target": {v}}
    for w, k in dsc.items():
        clusters.setdefault(f"descendant {k}", set()).add(w)
    for w, k in anc.items():
        clusters.setdefault(f"ancestor {k}", set()).add(w)
    others = set(range(p)) - set(dsc) - set(anc) - {v}
    if others and d["others"]:
        clusters["others"] = others
    g = dot.parse(out.source)
    got, where = {}, {}
    level = {}
    for s in g.subs:
        lab = s.attr.get("label")
        require(lab not in got, "one cluster per distance", lab)
        mine = {k: a for k, a in s.nodes.items() if a.get("style") != "invis"}
        got[lab] = sorted(names.index(a["label"]) for a in mine.values())
        for k, a in mine.items():
            where[k] = names.index(a["label"])
            level.setdefault(lab, set()).add(round(float(a["pos"].strip("!").split(",")[1]), 6))
        xs = [a["pos"] for a in mine.values()]
        require(len(set(xs)) == len(xs), "nodes of a cluster do not overlap", xs)
    require({k: sorted(w) for k, w in clusters.items()} == got, "clusters", clusters, got)
    for lab, ys in level.items():
        require(len(ys) == 1, "a cluster is drawn on one line", lab, ys)
    ys = {k: next(iter(y)) for k, y in level.items()}
    for kind, sign in (("descendant", -1), ("ancestor", 1)):
        seq = [ys["target"]] + [ys[f"{kind} {k}"] for k in sorted(
            int(x.split()[1]) for x in ys if x.startswith(kind))]
        require(all(sign * (b - a) > 0 for a, b in zip(seq, seq[1:])), "levels are ordered", ys)
    pe = path_edges(E, *d["path"]) if d["path"] is not None else set()
    ce = cycle_edges(E) if d["cycle"] else set()
    color = d["color"] or "black"
    drawn = E if d["others"] else {(a, b) for a, b in E if a not in others and b not in others}
    want = []
    for a, b in drawn:
        at = {"label": f"{B[b, a]:.2f}"}
        absent = set()
        if (a, b) in pe:
            at.update(penwidth="2", color=color)
        else:
            absent.add("penwidth")
        if (a, b) in ce:
            at["style"] = "dashed"
        else:
            absent.add("style")
        for x in [k for k, w in where.items() if w == a]:
            for y in [k for k, w in where.items() if w == b]:
                want.append((x, y, at, absent))
    check_edges(g.edges + [e for s in g.subs for e in s.edges], want, "make_dot_highlight")
    on = {w for e in pe for w in e}
    for s in g.subs:
        for k, a in s.nodes.items():
            if k in where and d["path"] is not None:
                require((a.get("peripheries") == "2") == (where[k] in d["path"]), "ends of the path")
                if color != "black":
                    require((a.get("color") == color) == (where[k] in on), "nodes on the path", a, on)
    ctx.label("others" if d["others"] else "noothers", "path" if pe else "nopath", "cycle" if ce else "acyclic")
    ctx.nontrivial(bool(dsc or anc))


@st.composite
def wide_graphs(draw):
    rng = np.random.default_rng(draw(gen.SEED))
    p, k = int(rng.integers(9, 13)), int(rng.integers(20, 150))
    pool = [np.round(gen.random_dag(rng, p, 0.15)[0], 2).tolist() for _ in range(3)]
    return [pool[int(i)] for i in rng.integers(0, 3, k)]


WIDEGRAPHS = wide_graphs()


@P.clause("print", st.fixed_dictionaries({
    "graphs": st.integers(2, 4).flatmap(lambda p: st.lists(gen.dag_matrix(p, p), min_size=1, max_size=6)) | WIDEGRAPHS,
    "sign": st.booleans(), "labels": st.sampled_from(["none", "list", "array"]), "k": st.integers(0, 12),
    "kind": st.sampled_from(["direction", "dag"])}), quick=250, thorough=4000, rule="a direction is printed")
def printed(d, ctx):
    Bs = np.array(d["graphs"])
    p, n = Bs.shape[1], len(Bs)
    labels, names = labelled(d["labels"], p, d["k"])
    r = BootstrapResult(Bs, np.zeros_like(Bs))
    buf = io.StringIO()
    if d["kind"] == "direction":
        c = r.get_causal_direction_counts(split_by_causal_effect_sign=d["sign"])
        with contextlib.redirect_stdout(buf):
            print_causal_directions(c, n, labels=labels)
        keys = list(zip(c["from"], c["to"], c["count"], c["sign"] if d["sign"] else [None] * len(c["from"])))
        want = [f"{names[t]} <--- {names[f]} {'' if s is None else '(b>0)' if s > 0 else '(b<0)'} "
                f"({100 * k / n:.1f}%)" for f, t, k, s in keys]
    else:
        c = r.get_directed_acyclic_graph_counts(split_by_causal_effect_sign=d["sign"])
        with contextlib.redirect_stdout(buf):
            print_dagc(c, n, labels=labels)
        want = []
        for i, (g, k) in enumerate(zip(c["dag"], c["count"])):
            want.append(f"DAG[{i}]: {100 * k / n:.1f}%")
            for q, (f, t) in enumerate(zip(g["from"], g["to"])):
                s = "" if not d["sign"] else "(b>0)" if g["sign"][q] > 0 else "(b<0)"
                want.append(f"{names[t]} <--- {names[f]} {s}")
    got = [" ".join(line.split()) for line in buf.getvalue().splitlines()]
    require(got == [" ".join(w.split()) for w in want], "printed lines", got, want)
    ctx.label(d["kind"], "sign" if d["sign"] else "nosign")
    ctx.nontrivial(any("<---" in w for w in want))


BAD = ["shape", "labels", "coefs", "importance", "path_type", "path_short", "color", "path_range", "cycle",
       "h_shape", "h_node", "h_labels", "h_max", "h_path", "h_color", "h_others", "h_nan", "h_margin", "h_limit"]


@P.clause("rejected", st.fixed_dictionaries({"kind": st.sampled_from(BAD), "B": gen.dag_matrix(3, 5)}),
          quick=80, thorough=500, rule="every case")
def rejected(d, ctx):
    B = np.array(d["B"])
    p = len(B)
    k = d["kind"]
    ctx.label(k)
    f = {
        "shape": lambda: make_dot(B[:-1]), "labels": lambda: make_dot(B, labels=["a"] * (p + 1)),
        "coefs": lambda: make_dot(B, prediction_feature_indices=[0, 1], prediction_coefs=[1.0]),
        "importance": lambda: make_dot(B, prediction_feature_indices=[0], prediction_feature_importance=[1, 2]),
        "path_type": lambda: make_dot(B, path=[0, 1]), "path_short": lambda: make_dot(B, path=(0,)),
        "color": lambda: make_dot(B, path=(0, 1), path_color="nocolor"),
        "path_range": lambda: make_dot(B, path=(0, p + 1)), "cycle": lambda: make_dot(B, detect_cycle="yes"),
        "h_shape": lambda: make_dot_highlight(B[:, :-1], 0), "h_node": lambda: make_dot_highlight(B, p),
        "h_labels": lambda: make_dot_highlight(B, 0, labels=["a"] * (p - 1)),
        "h_max": lambda: make_dot_highlight(B, 0, max_dsc=-1),
        "h_path": lambda: make_dot_highlight(B, 0, path=[0, 1]),
        "h_color": lambda: make_dot_highlight(B, 0, path=(0, 1), path_color="nocolor"),
        "h_others": lambda: make_dot_highlight(B, 0, draw_others=1),
        "h_nan": lambda: make_dot_highlight(np.where(np.eye(p) == 1, np.nan, B), 0),
        "h_margin": lambda: make_dot_highlight(B, 0, vmargin=0), "h_limit": lambda: make_dot_highlight(B, 0, lower_limit="a"),
    }[k]
    try:
        f()
    except (TypeError, ValueError):
        ctx.nontrivial()
        return
    require(False, f"accepted: {k}")
