"""Topologies over a complete graph whose edge types and supports are symbolic, and what makes one valid."""
from itertools import combinations

from compas_cem.diagrams import TopologyDiagram
from compas_cem.elements import DeviationEdge
from compas_cem.elements import Node
from compas_cem.elements import TrailEdge
from compas_cem.supports import NodeSupport

TRAIL, DEV = "trail", "deviation"


class G:
    pass


def pairs(n):
    return list(combinations(range(n), 2))


def graph(h, n, flip=0, order=0, supports="sym", absent=False, keys=None):
    """A topology diagram on n nodes; every pair of nodes is joined by an edge of symbolic type.
    flip: which edges are added as (v, u); order: insertion order."""
    g = G()
    g.n = n
    g.key = keys or list(range(n))
    t = g.topo = TopologyDiagram()
    nodes = list(range(n))
    ps = pairs(n)
    if order == 1:
        nodes.reverse()
        ps.reverse()
    elif order == 2:
        ps = ps[1::2] + ps[0::2]
    for i in nodes:
        t.add_node(Node(g.key[i], [float(i), 0.5 * i, 0.0]))
    g.edge, g.name = {}, {}
    g.opts = [TRAIL, DEV]
    for k, (u, v) in enumerate(ps):
        a, b = (v, u) if (flip == 1 and (u + v) % 2 == 0) or (flip == 2) else (u, v)
        key = t.add_edge(DeviationEdge(g.key[a], g.key[b], force=1.0))
        g.edge[(u, v)] = key
        g.name[(u, v)] = "e%d_%d" % (u, v)
        t.edge_attribute(key, "type", h.lazy(g.name[(u, v)], g.opts))
        t.edge_attribute(key, "length", -1.0)
    g.sname = {}
    for i in range(n):
        g.sname[i] = "s%d" % i
        if supports == "sym":
            t.node_attribute(g.key[i], "type", h.lazy(g.sname[i], [None, "support"]))
        else:
            s = h.lazy(g.sname[i], [None, "support"])  # the same variables, fixed
            if i in supports:
                t.add_support(NodeSupport(g.key[i]))
    if supports != "sym":
        h.assume_z3(lambda z3, var: z3.And([var(g.sname[i]) == (1 if i in supports else 0) for i in range(n)]))
    return g


def valid(g):
    """formula: the trail edges split the nodes into disjoint paths, each with one support, at one end"""
    n = g.n

    def f(z3, var):
        cs = []
        o = {(u, v): z3.Bool("o%d_%d" % (u, v)) for u in range(n) for v in range(n) if u != v}
        r = [z3.Int("rank%d" % u) for u in range(n)]
        sup = [var(g.sname[u]) == 1 for u in range(n)]
        for (u, v), name in g.name.items():
            tr = var(name) == 0
            cs.append(tr == z3.Or(o[(u, v)], o[(v, u)]))
            cs.append(z3.Not(z3.And(o[(u, v)], o[(v, u)])))
        for u in range(n):
            out = [o[(u, v)] for v in range(n) if v != u]
            inn = [o[(v, u)] for v in range(n) if v != u]
            cs.append(z3.If(sup[u], z3.PbEq([(x, 1) for x in out], 0), z3.PbEq([(x, 1) for x in out], 1)))
            cs.append(z3.PbLe([(x, 1) for x in inn], 1))
            cs.append(z3.Implies(sup[u], z3.PbEq([(x, 1) for x in inn], 1)))
            cs.append(z3.And(r[u] >= 0, r[u] < n))
            for v in range(n):
                if v != u:
                    cs.append(z3.Implies(o[(u, v)], r[u] == r[v] + 1))
            cs.append(z3.Implies(sup[u], r[u] == 0))
        return z3.And(cs)
    return f


def check_trails(h, g, tag=""):
    """the diagram's trails are exactly the paths its trail edges form"""
    t = g.topo
    idx = {k: i for i, k in enumerate(g.key)}
    trails = dict(t.trails(keys=True))
    seen = [x for tr in trails.values() for x in tr]
    h.check(tag + "partition", sorted(seen) == sorted(g.key), "%r" % (trails,))
    used = set()
    for key, tr in trails.items():
        h.check(tag + "key", tr[0] == key and tuple(t.trail(key)) == tuple(tr))
        h.check(tag + "at-least-one-edge", len(tr) >= 2)
        for a, b in zip(tr, tr[1:]):
            e = tuple(sorted((idx[a], idx[b])))
            used.add(e)
            h.dcheck(tag + "trail-edges", lambda z3, var, e=e: var(g.name[e]) == 0)
        h.dcheck(tag + "ends-at-support", lambda z3, var, s=idx[tr[-1]]: var(g.sname[s]) == 1)
        h.check(tag + "support-kept", t.is_node_support(tr[-1]))
        for k, x in enumerate(tr):
            h.check(tag + "sequence", t.node_sequence(x) == k)
            h.check(tag + "origin", t.is_node_origin(x) == (k == 0))
            if k < len(tr) - 1:
                h.check(tag + "support", not t.is_node_support(x))
                h.dcheck(tag + "no-support-inside", lambda z3, var, s=idx[x]: var(g.sname[s]) == 0)
    for e, name in g.name.items():
        if e not in used:
            h.dcheck(tag + "trail-edge-left-out", lambda z3, var, n=name: var(n) != 0)
    h.check(tag + "counts", t.number_of_trails() == len(trails) and sorted(t.origin_nodes()) == sorted(trails) and
            sorted(t.support_nodes()) == sorted(tr[-1] for tr in trails.values()))
    h.check(tag + "last-sequence", t.sequence_last() == max([len(tr) for tr in trails.values()] or [0]) - 1)
