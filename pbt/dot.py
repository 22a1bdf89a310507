"""A small reader for the DOT text that graphviz writes."""
import html
import re

TOKEN = re.compile(r'\s*(?:(->)|([{}\[\]=,;])|"((?:\\.|[^"\\])*)"|([^\s{}\[\]=,;"]+))')


def tokens(text):
    out, pos = [], 0
    text = text.rstrip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if m is None:
            raise ValueError(f"cannot read DOT at {text[pos:pos + 30]!r}")
        pos = m.end()
        if m.group(1):
            out.append(("op", "->"))
        elif m.group(2):
            out.append(("op", m.group(2)))
        elif m.group(3) is not None:
            out.append(("id", html.unescape(m.group(3).replace('\\"', '"'))))
        elif not m.group(4).startswith(":"):      # what follows a colon is a port of the node
            out.append(("raw", m.group(4).split(":")[0]))
    return out


class Graph:
    def __init__(self, name=None):
        self.name, self.nodes, self.edges, self.attr, self.subs = name, {}, [], {}, []

    def all_nodes(self):
        out = dict(self.nodes)
        for s in self.subs:
            for k, v in s.all_nodes().items():
                out.setdefault(k, {}).update(v)
        return out


def parse(text):
    t = tokens(text)
    i = 0
    while t[i] != ("op", "{"):
        i += 1
    g = Graph()
    i = body(t, i + 1, g)
    return g


def attrs(t, i):
    a = {}
    while i < len(t) and t[i] == ("op", "["):
        i += 1
        while t[i] != ("op", "]"):
            if t[i][1] in (",", ";") and t[i][0] == "op":
                i += 1
                continue
            k = t[i][1]
            assert t[i + 1] == ("op", "="), t[i:i + 3]
            a[k] = t[i + 2][1]
            i += 3
        i += 1
    return a, i


def body(t, i, g):
    while t[i] != ("op", "}"):
        if t[i] == ("op", ";"):
            i += 1
        elif t[i] == ("op", "{") or t[i] == ("raw", "subgraph"):
            s = Graph()
            if t[i][1] == "subgraph":
                i += 1
                if t[i][0] != "op":
                    s.name = t[i][1]
                    i += 1
            i = body(t, i + 1, s)
            g.subs.append(s)
        elif t[i][0] == "raw" and t[i][1] in ("graph", "node", "edge") and t[i + 1] == ("op", "["):
            a, i = attrs(t, i + 1)
            g.attr.update(a)
        elif t[i + 1] == ("op", "->"):
            a, b = t[i][1], t[i + 2][1]
            at, i = attrs(t, i + 3)
            g.edges.append((a, b, at))
        elif t[i + 1] == ("op", "="):
            g.attr[t[i][1]] = t[i + 2][1]
            i += 3
        else:
            n = t[i][1]
            at, i = attrs(t, i + 1)
            g.nodes.setdefault(n, {}).update(at)
    return i + 1
