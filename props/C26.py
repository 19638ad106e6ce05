"""What a plot shows is what the diagram holds."""
import contextlib

import matplotlib
matplotlib.use("Agg")

from compas.colors import Color
from compas.geometry import Vector

from compas_plotters.artists import PlotterArtist
from compas_plotters.artists import networkartist as na

from compas_cem import COLORS
from compas_cem.diagrams import FormDiagram
from compas_cem.diagrams import TopologyDiagram
from compas_cem.elements import DeviationEdge
from compas_cem.elements import Node
from compas_cem.elements import TrailEdge
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport
from compas_cem.plotters import FormArtist
from compas_cem.plotters import TopologyArtist

BOUNDS = "form and topology diagrams of up to 5 nodes (two trails, deviation edges, a node with an auxiliary trail); all coordinates, forces, lengths, loads, reactions, scales and tolerances are arbitrary reals; every selection of nodes and edges of the smaller diagram; labels with two decimals"
ASSUMPTIONS = ["what the artists hand over to the plotter and to matplotlib's collections is recorded by stand-ins: how matplotlib paints it is not part of the claim",
               "when edges of different signs carry the same largest force at a support, a reaction arrow may lie on either side of the node",
               "trail lengths and deviation forces of a topology diagram drawn by state are not zero"]


class Rec:
    """a recorder in place of a matplotlib object"""
    def __init__(self, *a, **k):
        self.a, self.k, self.style = a, k, None

    def set_linestyle(self, s):
        self.style = s

    set_linestyles = set_ls = set_dashes = set_linestyle

    def remove(self):
        pass


class Axes:
    def __init__(self):
        self.collections, self.texts = [], []

    def add_collection(self, c, *a, **k):
        self.collections.append(c)

    def text(self, x, y, s, **k):
        t = Rec(x, y, s, **k)
        self.texts.append(t)
        return t


class Stub:
    """a plotter that records what it is given"""
    dpi, fontsize = 100, 10

    def __init__(self):
        self.axes = Axes()
        self.items = []

    def add(self, item, **k):
        self.items.append((item, k))


@contextlib.contextmanager
def recorded():
    old = na.Circle, na.LineCollection, na.PatchCollection
    na.Circle = na.LineCollection = na.PatchCollection = Rec
    try:
        yield Stub()
    finally:
        na.Circle, na.LineCollection, na.PatchCollection = old


class Shown:
    pass


def show(h, diagram, cls, **k):
    with recorded() as pl:
        a, err = h.call(PlotterArtist, diagram, plotter=pl, context="Plotter", zorder=1000, **k)
        if not h.check("artist", err is None and isinstance(a, cls), repr(err)):
            return None
        _, err = h.call(a.draw)
        if not h.check("draws", err is None, repr(err)):
            return None
    s = Shown()
    cs = pl.axes.collections
    s.circles = [c for x in cs for c in x.a[0] if isinstance(c, Rec)]
    s.lines = [x for x in cs if x.a and x.a[0] and not isinstance(x.a[0][0], Rec)]
    s.items, s.texts = pl.items, pl.axes.texts
    return s


def colour(x):
    return tuple(round(float(v), 6) for v in (x if not isinstance(x, Color) else x.rgb))


def wanted(name):
    return colour(Color.from_rgb255(*COLORS[name]))


# --------------------------------------------------------------------- diagrams

SMALL = {"trails": [[0, 1]], "dev": []}
TWO = {"trails": [[0, 1], [2, 3]], "dev": [(0, 2)]}
BARE = {"trails": [[0, 1], [2, 3]], "dev": [(0, 2), (2, 4)], "bare": [4]}
CHAIN = {"trails": [[0, 1, 2], [3, 4, 5]], "dev": [(0, 3), (1, 3), (1, 4)]}


def topology(h, spec, loads=(), flip=False):
    t = TopologyDiagram()
    t.xyz, t.len, t.frc = {}, {}, {}
    ks = [n for tr in spec["trails"] for n in tr] + spec.get("bare", [])
    for n in ks:
        t.xyz[n] = h.vec("p%d" % n)
        t.add_node(Node(n, t.xyz[n]))
    for tr in spec["trails"]:
        for a, b in zip(tr, tr[1:]):
            L = h.real("L%d_%d" % (a, b), nonzero=True)
            t.len[tuple(t.add_edge(TrailEdge(*((b, a) if flip else (a, b)), length=L)))] = L
        t.add_support(NodeSupport(tr[-1]))
    for u, v in spec["dev"]:
        f = h.real("f%d_%d" % (u, v), nonzero=True)
        t.frc[tuple(t.add_edge(DeviationEdge(*((v, u) if flip else (u, v)), force=f)))] = f
    for n in loads:
        t.add_load(NodeLoad(n, h.vec("q%d" % n)))
    return t


def form(h, spec):
    t = topology(h, spec)
    f = FormDiagram.from_topology_diagram(t)
    f.xyz = {n: f.node_coordinates(n) for n in f.nodes()}
    return f


def check_circles(h, d, s, nodes, size, total):
    """one circle for each node to draw, at the node"""
    if not h.check("nodes-drawn", len(s.circles) == len(nodes), "%d circles for %d nodes" % (len(s.circles), len(nodes))):
        return False
    for n, c in zip(nodes, s.circles):
        h.check_vec("node-xy", c.a[0], d.node_coordinates(n)[:2])
        h.check_eq("node-size", c.k["radius"], size / total)
    return True


def find(h, items, f):
    """the index of the first item with f"""
    return next((i for i, x in enumerate(items) if f(x)), 0)


def check_lines(h, d, s, edges):
    if not edges:
        return h.check("edges-drawn", not s.lines)
    if not h.check("edges-drawn", len(s.lines) == 1 and len(s.lines[0].a[0]) == len(edges)):
        return False
    for (u, v), (a, b) in zip(edges, s.lines[0].a[0]):
        h.check_vec("edge-start", a, d.node_coordinates(u)[:2])
        h.check_vec("edge-end", b, d.node_coordinates(v)[:2])
    return True


# ------------------------------------------------------------------------- form

def states(h, cfg):
    """colours and widths of the edges, colours of the nodes"""
    f = form(h, cfg["spec"])
    edges, nodes = [tuple(e) for e in f.edges()], list(f.nodes())
    force = {}
    for i, e in enumerate(edges):
        force[e] = h.real("F%d" % i)
        f.edge_attribute(e, "force", force[e])
    k = {}
    if cfg.get("select"):
        edges = [e for e in edges if h.choose("e%d_%d" % e, [True, False])] or edges
        nodes = [n for n in nodes if h.choose("n%d" % n, [True, False])] or nodes
        k.update(nodes=nodes, edges=edges)
    if cfg.get("width") == "range":
        lo, hi = h.real("lo", 0, 4, positive=True), h.real("hi", 0, 8, positive=True)
        k["edgewidth"] = (lo, hi)
    elif cfg.get("width"):
        k["edgewidth"] = cfg["width"]
    s = show(h, f, FormArtist, nodesize=0.5, show_loads=False, show_reactions=False, **k)
    if s is None:
        return
    h.check("nothing-else", not s.items and not s.texts)
    if check_circles(h, f, s, nodes, 0.5, f.number_of_nodes()):
        for n, c in zip(nodes, s.circles):
            h.check("node-colour", colour(c.k["facecolor"]) == wanted("node_support" if f.is_node_support(n) else "node"), "node %r" % n)
    if not check_lines(h, f, s, edges):
        return
    lines = s.lines[0]
    for e, c in zip(edges, lines.k["colors"]):
        x = force[e]
        kind = "tension" if h.decide(x > 0) else "compression" if h.decide(x < 0) else "edge"
        h.check("edge-colour", colour(c) == wanted(kind), "edge %r is not drawn in the colour of %s" % (e, kind))
    ws = list(lines.k["linewidths"])
    if cfg.get("width") == "range":
        fs = [abs(force[e]) for e in edges]
        mn, mx = fs[0], fs[0]
        for x in fs[1:]:
            mn = x if h.decide(x < mn) else mn
            mx = x if h.decide(x > mx) else mx
        if h.decide(mx > mn):
            for x, w in zip(fs, ws):
                h.check_eq("width", w * (mx - mn), (mx - x) * lo + (x - mn) * hi)
        else:
            for w in ws:
                h.check("width-same", h.same(w, ws[0]) and (h.same(w, lo) or h.same(w, hi)))
    else:
        for w in ws:
            h.check_eq("width", w, float(cfg.get("width") or 1.0))


def arrows(h, cfg):
    """loads and reactions"""
    f = form(h, cfg["spec"])
    edges, nodes = [tuple(e) for e in f.edges()], list(f.nodes())
    which = cfg["which"]
    force = {e: h.real("F%d" % i) if not cfg.get("flat") or set(e) & set(cfg["at"]) else 1.0 for i, e in enumerate(edges)}
    for e in edges:
        f.edge_attribute(e, "force", force[e])
    at = [n for n in nodes if (n in cfg["at"])]
    vec = {n: h.vec("%s%d" % (which, n)) for n in at}
    if cfg.get("flat"):
        vec = {n: [v[0], 0.0, 2.0] for n, v in vec.items()}
    for n in at:
        f.node_attributes(n, [which + c for c in "xyz"], vec[n])
    k = {"show_loads": which == "q", "show_reactions": which == "r"}
    scale, tol = 1.0, 1e-3
    name = "load" if which == "q" else "reaction"
    if cfg.get("scale"):
        scale = k[name + "scale"] = h.real("scale", 0, 4, positive=True)
    if cfg.get("tol"):
        tol = k[name + "tol"] = h.real("tol", 0, 4, positive=True)
    if cfg.get("drawn"):
        nodes = k["nodes"] = cfg["drawn"]
    size = 0.5 / f.number_of_nodes()
    s = show(h, f, FormArtist, nodesize=0.5, **k)
    if s is None:
        return
    left = list(s.items)
    for n in nodes:
        if n not in vec:
            continue
        q = vec[n]
        m = h.norm(q)
        if h.decide(m < tol):
            continue
        want = [x * scale for x in q]
        u = [x / m for x in q]
        p = f.node_coordinates(n)
        if not h.check("arrow", left, "no arrow for the %s at %r" % (name, n)):
            return
        if not h.check("vectors", all(isinstance(x, Vector) for x, _ in left)):
            return
        tail = [a + b * size for a, b in zip(p, u)]
        head = [a - b * size - c for a, b, c in zip(p, u, want)]
        i = find(h, left, lambda x: any(all(h.same(a, b) for a, b in zip(x[1]["point"], y)) for y in (tail, head)))
        item, kw = left.pop(i)
        h.check_vec("arrow", item, want)
        h.check("arrow-colour", tuple(kw.get("color")) == COLORS["load" if which == "q" else "support_force"])
        if which == "q":
            h.check_vec("start", kw["point"], tail)
            continue
        at_n = [force[e] for e in edges if n in e]
        big = at_n[0]
        tie = False
        for x in at_n[1:]:
            if h.decide(abs(x) > abs(big)):
                big, tie = x, False
            elif h.decide(abs(x) == abs(big)):
                tie = tie or not h.decide(x == big)
        if tie:
            h.check_any_vec("start", kw["point"], [tail, head])
        else:
            h.check_vec("start", kw["point"], head if h.decide(big < 0) else tail)
    h.check("arrows", not left, "%d arrows too many" % len(left))


def formlabels(h, cfg):
    f = form(h, cfg["spec"])
    edges, nodes = [tuple(e) for e in f.edges()], list(f.nodes())
    for i, e in enumerate(edges):
        f.edge_attribute(e, "force", h.real("F%d" % i))
    s = show(h, f, FormArtist, show_loads=False, show_reactions=False, edgetext=cfg.get("edge"), nodetext=cfg.get("node"), show_edgetext="edge" in cfg, show_nodetext="node" in cfg)
    if s is None:
        return
    if not h.check("labels", len(s.texts) == (len(edges) if "edge" in cfg else len(nodes))):
        return
    if "edge" in cfg:
        for e, t in zip(edges, s.texts):
            a, b = f.node_coordinates(e[0]), f.node_coordinates(e[1])
            F, L = format(f.edge_force(e), ".2f"), format(h.dist(a, b), ".2f")
            want = {"force": F, "length": L, "forcelength": "f: %s\nl: %s" % (F, L)}[cfg["edge"]]
            h.check("edge-label", str(t.a[2]) == want, "%s instead of %s" % (t.a[2], want))
            h.check_vec("edge-label-at", t.a[:2], [(x + y) * 0.5 for x, y in zip(a[:2], b[:2])])
    else:
        for n, t in zip(nodes, s.texts):
            p = f.node_coordinates(n)
            h.check("node-label", str(t.a[2]) == tag(h, n, p, cfg["node"]), "%s" % t.a[2])
            h.check_vec("node-label-at", t.a[:2], p[:2])


def tag(h, n, p, kind):
    g = ",".join(h.dec(x, 2) for x in p)
    return {"xyz": g, "keyxyz": "%s\n%s" % (n, g), "key": str(n)}[kind]


# --------------------------------------------------------------------- topology

def topocolours(h, cfg):
    spec = cfg["spec"]
    t = topology(h, spec, flip=cfg.get("flip", False))
    if cfg.get("build", True):
        _, err = h.call(t.build_trails, auxiliary_trails=bool(spec.get("bare")))
        if not h.check("builds", err is None, repr(err)):
            return
    edges, nodes = [tuple(e) for e in t.edges()], list(t.nodes())
    k = {}
    if cfg.get("select"):
        edges = [e for e in edges if h.choose("e%d_%d" % e, [True, False])] or edges
        nodes = [n for n in nodes if h.choose("n%d" % n, [True, False])] or nodes
        k.update(nodes=nodes, edges=edges)
    s = show(h, t, TopologyArtist, nodesize=0.5, nodecolor=cfg.get("node"), edgecolor=cfg.get("edge"), show_loads=False, **k)
    if s is None:
        return
    if check_circles(h, t, s, nodes, 0.5, t.number_of_nodes()):
        seen = {}
        first = {tr[0] for tr in dict(t.trails(keys=True)).values()} if cfg.get("build", True) else ()
        for n, c in zip(nodes, s.circles):
            col = colour(c.k["facecolor"])
            if cfg.get("node") == "sequence":
                seen.setdefault(t.node_sequence(n), set()).add(col)
            else:
                h.check("node-colour", col == wanted("node_support" if t.is_node_support(n) else "node_origin" if n in first else "node"), "node %r" % n)
        h.check("same-sequence-same-colour", all(len(v) == 1 for v in seen.values()), repr(seen))
        h.check("other-sequence-other-colour", len({min(v) for v in seen.values()}) == len(seen), repr(seen))
    if not check_lines(h, t, s, edges):
        return
    lines = s.lines[0]
    styles = lines.style
    for i, (e, c) in enumerate(zip(edges, lines.k["colors"])):
        trail = e in t.len or e not in t.frc
        aux = e not in t.len and e not in t.frc
        h.check("style", styles[i] == ("-" if trail else "--"), "edge %r" % (e,))
        if aux:
            kind = "auxiliary_trail"
        elif cfg.get("edge") != "type":
            x = t.len[e] if trail else t.frc[e]
            kind = "tension" if h.decide(x > 0) else "compression"
        elif trail:
            kind = "edge_trail"
        elif not cfg.get("build", True) or t.node_sequence(e[0]) == t.node_sequence(e[1]):
            kind = "edge_deviation"
        else:
            kind = "edge_deviation_indirect"
        h.check("edge-colour", colour(c) == wanted(kind), "edge %r is not drawn as %s" % (e, kind))


def crosses(h, cfg):
    """the loaded nodes carry a cross"""
    t = topology(h, cfg["spec"], loads=cfg["at"])
    k = {}
    nodes = list(t.nodes())
    if cfg.get("drawn"):
        nodes = k["nodes"] = cfg["drawn"]
    s = show(h, t, TopologyArtist, nodesize=0.5, **k)
    if s is None:
        return
    left = list(s.items)
    r = 0.5 / t.number_of_nodes()
    for n in nodes:
        if n not in cfg["at"] or not h.decide(h.norm(t.node_load(n)) > 1e-6):
            continue
        if not h.check("cross", len(left) >= 2, "no cross at %r" % n):
            return
        p = t.node_coordinates(n)
        ends = []
        for _ in range(2):
            line, _ = left.pop(find(h, left, lambda x: all(h.same((a + b) / 2, c) for a, b, c in zip(x[0].start, x[0].end, p))))
            a, b = list(line.start), list(line.end)
            h.check_vec("cross-at", [(x + y) / 2 for x, y in zip(a, b)], p)
            d = [float((x - y) / 2) for x, y in zip(a, b)]
            ends.append(d)
            h.check("cross-size", abs(sum(x * x for x in d) ** 0.5 - r) < 1e-6)
        h.check("cross-diagonals", abs(sum(x * y for x, y in zip(*ends))) < 1e-6 and all(abs(abs(d[0]) - abs(d[1])) < 1e-6 for d in ends), repr(ends))
    h.check("crosses", not left, "%d too many" % len(left))


def topolabels(h, cfg):
    t = topology(h, cfg["spec"])
    h.call(t.build_trails)
    edges, nodes = [tuple(e) for e in t.edges()], list(t.nodes())
    neg = {e: h.decide((t.len[e] if e in t.len else t.frc[e]) < 0) for e in edges}
    s = show(h, t, TopologyArtist, show_loads=False, edgetext=cfg.get("edge"), nodetext=cfg.get("node"), show_edgetext="edge" in cfg, show_nodetext="node" in cfg)
    if s is None:
        return
    if not h.check("labels", len(s.texts) == (len(edges) if "edge" in cfg else len(nodes))):
        return
    if "edge" in cfg:
        for e, x in zip(edges, s.texts):
            F, L = t.frc.get(e, 0.0), t.len.get(e, 0.0)
            Fs, Ls, S = format(abs(F), ".2f"), format(abs(L), ".2f"), "-1.00" if neg[e] else "1.00"
            want = {"force": Fs, "length": Ls, "state": S, "forcelength": "f: %s\nl: %s" % (Fs, Ls),
                    "forcelengthstate": "f: %s\nl: %s\ns: %s" % (Fs, Ls, S), "type": "trail" if e in t.len else "deviation"}[cfg["edge"]]
            h.check("edge-label", str(x.a[2]) == want, "%s instead of %s" % (x.a[2], want))
    else:
        seq = {n: i for tr in cfg["spec"]["trails"] for i, n in enumerate(tr)}
        sup = {tr[-1] for tr in cfg["spec"]["trails"]}
        for n, x in zip(nodes, s.texts):
            k = cfg["node"]
            want = {"sequence": "%d" % seq[n], "keysequence": "%s\n%d" % (n, seq[n]), "type": "support" if n in sup else "_origin" if seq[n] == 0 else "None"}.get(k) or tag(h, n, t.node_coordinates(n), k)
            h.check("node-label", str(x.a[2]) == want, "%s instead of %s" % (x.a[2], want))


def tasks(tier):
    out = []

    def add(name, fn, cfg, budget=120, **k):
        out.append(dict({"name": name, "fn": fn, "cfg": cfg, "budget": budget, "policy": "full"}, **k))
    add("form-states", "states", {"spec": {"trails": [[0, 1, 2], [3, 4]], "dev": [(0, 3), (1, 3)]}})
    add("form-select", "states", {"spec": {"trails": [[0, 1, 2]], "dev": []}, "select": True, "width": 2})
    add("form-widths", "states", {"spec": TWO, "width": "range"})
    add("loads", "arrows", {"spec": TWO, "which": "q", "at": [0, 2], "scale": True})
    add("loads-tol", "arrows", {"spec": TWO, "which": "q", "at": [0, 1, 2], "tol": True, "drawn": [2, 1]})
    add("reactions", "arrows", {"spec": TWO, "which": "r", "at": [1, 3], "scale": True})
    add("reactions-tol", "arrows", {"spec": TWO, "which": "r", "at": [3], "tol": True, "scale": True, "drawn": [3, 0]})
    add("reactions-dev", "arrows", {"spec": {"trails": [[0, 1], [2, 3]], "dev": [(0, 2), (1, 3)]}, "which": "r", "at": [1]})
    add("reactions-dev2", "arrows", {"spec": {"trails": [[0, 1], [2, 3], [4, 5]], "dev": [(1, 3), (1, 5)]}, "which": "r", "at": [1], "flat": True})
    for e in ("force", "length", "forcelength"):
        add("form-label-" + e, "formlabels", {"spec": TWO, "edge": e})
    for n in ("xyz", "keyxyz", "key"):
        add("form-label-" + n, "formlabels", {"spec": SMALL, "node": n})
    for e in (None, "state", "type"):
        for flip in (False, True):
            add("topo-%s%s" % (e, "-flip" if flip else ""), "topocolours", {"spec": BARE, "edge": e, "node": "sequence" if flip else None, "flip": flip})
    add("topo-chain-type", "topocolours", {"spec": CHAIN, "edge": "type", "node": "sequence"})
    add("topo-chain-nobuild", "topocolours", {"spec": CHAIN, "edge": "type", "node": "type", "build": False})
    add("topo-select", "topocolours", {"spec": TWO, "edge": "state", "select": True})
    add("crosses", "crosses", {"spec": TWO, "at": [0, 2]})
    add("crosses-drawn", "crosses", {"spec": TWO, "at": [0, 2, 3], "drawn": [3, 1, 0]})
    for e in ("force", "length", "state", "forcelength", "forcelengthstate", "type"):
        add("topo-label-" + e, "topolabels", {"spec": TWO, "edge": e})
    for n in ("type", "sequence", "keysequence"):
        add("topo-label-node" + n, "topolabels", {"spec": TWO, "node": n})
    for n in ("xyz", "keyxyz", "key"):
        add("topo-label-" + n, "topolabels", {"spec": SMALL, "node": n})
    if tier == "thorough":
        add("form-widths-chain", "states", {"spec": {"trails": [[0, 1, 2], [3, 4]], "dev": [(0, 3)]}, "width": "range"}, 300)
        add("form-select-chain", "states", {"spec": {"trails": [[0, 1, 2], [3, 4]], "dev": [(0, 3)]}, "select": True}, 300)
        add("reactions-chain", "arrows", {"spec": CHAIN, "which": "r", "at": [2, 5], "scale": True, "tol": True}, 300)
        add("loads-chain", "arrows", {"spec": CHAIN, "which": "q", "at": [0, 1, 2, 3], "scale": True, "tol": True}, 300)
    return out
