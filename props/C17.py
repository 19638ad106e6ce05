"""Topology diagrams from quad meshes: every polyedge becomes trails and deviation edges by its supports."""
from compas.utilities import pairwise

from .eqlib import TopologyDiagram

BOUNDS = "meshes of 1 to 6 polyedges of 2 to 6 vertices (single polyedges and grids up to 2x5 / 3x4), every choice of supports at the candidate vertices, both signs of the states; vertex coordinates, trail length and deviation force arbitrary reals"
ASSUMPTIONS = ["the mesh object is a stand-in with the polyedge interface of a quad mesh", "polyedges with supports at both ends have at least 4 vertices or lie on the supports", "the trail length is not zero"]


class Mesh:
    def __init__(self, polyedges, xyz):
        self._p, self._xyz, self.collected = polyedges, xyz, 0

    def collect_polyedges(self):
        self.collected += 1

    def polyedges(self, data=False):
        if not self.collected:
            return iter(())
        for k, p in enumerate(self._p):
            yield (k, list(p)) if data else k

    def vertices(self, data=False):
        return iter(list(self._xyz))

    def vertex_coordinates(self, v, axes="xyz"):
        return list(self._xyz[v])


def grid(r, c):
    v = [[i * c + j for j in range(c)] for i in range(r)]
    return v + [[v[i][j] for i in range(r)] for j in range(c)]


def converted(h, cfg):
    pes = [list(p) for p in cfg["polyedges"]]
    nodes = sorted({v for p in pes for v in p}, reverse=cfg.get("rev", False))
    xyz = {v: h.vec("p%d" % v) for v in nodes}
    S = [v for v in cfg["fixed"]] + [v for v in cfg["maybe"] if h.choose("s%d" % v, [False, True])]
    kw, L, F, ts, ds = {}, None, 1.0, -1, -1
    if cfg.get("length"):
        L = kw["trail_length"] = h.real("L", nonzero=True)
    if cfg.get("force"):
        F = kw["deviation_force"] = h.real("F")
    if cfg.get("states"):
        ts = kw["trail_state"] = h.choose("ts", [-1, 1])
        ds = kw["deviation_state"] = h.choose("ds", [-1, 1])
    t = TopologyDiagram.from_dualquadmesh(Mesh(pes, xyz), S, **kw)
    h.check("nodes", sorted(t.nodes()) == sorted(nodes))
    for v in nodes:
        h.check_vec("xyz", t.node_coordinates(v), xyz[v])
        h.check("support", t.is_node_support(v) == (v in S))
    kind = {}
    for e in t.edges():
        h.check("kind", t.is_trail_edge(e) != t.is_deviation_edge(e))
        kind[frozenset(e)] = "t" if t.is_trail_edge(e) else "d"
        if t.is_trail_edge(e):
            if L is None:
                h.check_eq("length", t.edge_length_2(e), ts * h.dist(xyz[e[0]], xyz[e[1]]))
            else:
                h.check_eq("length", t.edge_length_2(e), ts * L)
        else:
            h.check_eq("force", t.edge_force(e), ds * F)
    h.check("no-doubles", len(kind) == t.number_of_edges())
    left = set(kind)
    for p in pes:
        es = [frozenset(x) for x in pairwise(p)]
        a, b = p[0], p[-1]
        got = [kind.get(e) for e in es]
        left -= set(es)
        if a == b or (a not in S and b not in S):
            h.check("no-support:deviation", all(k == "d" for k in got), "%r %r" % (p, got))
        elif a in S and b in S:
            if p[1] in S:
                h.check("on-supports:left-out", all(k is None for k in got), "%r %r" % (p, got))
            else:
                mid = [k for k, x in enumerate(got) if x == "d"]
                n = len(es)
                h.check("two-supports:split", len(mid) == 1 and mid[0] in ((n - 1) // 2, n // 2) and all(x == "t" for k, x in enumerate(got) if k != mid[0]), "%r %r" % (p, got))
        else:
            h.check("one-support:trail", all(k == "t" for k in got), "%r %r" % (p, got))
    h.check("nothing-else", not left)
    if cfg.get("build"):
        with h.quiet():
            _, e = h.call(t.build_trails)
        h.check("buildable", e is None, repr(e))
        h.check("trails", t.number_of_trails() == t.number_of_support_nodes())
    h.observe("n", t.number_of_trail_edges())


def tasks(tier):
    out = []
    for n in (2, 4, 5, 6):
        p = list(range(n))
        out.append({"name": "line%d" % n, "fn": "converted", "cfg": {"polyedges": [p] if n > 2 else [p, [1, 2, 3, 4]], "fixed": [], "maybe": [0, n - 1] + ([1] if n == 4 else []),
                    "length": n % 2 == 0, "force": True, "states": n == 4, "rev": n == 5}, "generic": True})
    out.append({"name": "closed", "fn": "converted", "cfg": {"polyedges": [[0, 1, 2, 3, 0], [0, 4], [1, 5], [2, 6], [3, 7]], "fixed": [4, 5], "maybe": [6, 7], "force": True}, "generic": True})
    out.append({"name": "grid2x4", "fn": "converted", "cfg": {"polyedges": grid(2, 4), "fixed": [], "maybe": [3, 7], "states": True}, "generic": True})
    out.append({"name": "grid3x3", "fn": "converted", "cfg": {"polyedges": grid(3, 3), "fixed": [2, 5, 8], "maybe": [], "build": True, "states": True}, "generic": True})
    out.append({"name": "grid2x4-both", "fn": "converted", "cfg": {"polyedges": grid(2, 4), "fixed": [0, 4, 3, 7], "maybe": [], "build": True, "length": True}, "generic": True})
    out.append({"name": "grid2x5-both", "fn": "converted", "cfg": {"polyedges": grid(2, 5), "fixed": [0, 5, 4, 9], "maybe": [], "build": True, "force": True}, "generic": True})
    if tier == "thorough":
        out.append({"name": "grid3x4", "fn": "converted", "cfg": {"polyedges": grid(3, 4), "fixed": [], "maybe": [0, 4, 8, 3, 7, 11], "states": True, "force": True}, "generic": True, "budget": 600, "weight": 9})
    return out
