"""Filters, iterators and counters of a diagram agree with what was put into it."""
from . import topolib as T

BOUNDS = "all diagrams on 3 (thorough: 4) nodes over the complete graph: every edge trail or deviation, every set of supports, every load (arbitrary reals) and threshold; three insertion orders"
ASSUMPTIONS = ["node keys are integers"]


def kinds(h, cfg):
    n = cfg["n"]
    g = T.graph(h, n, cfg.get("flip", 0), cfg.get("order", 0))
    t = g.topo
    key = {v: k for k, v in g.edge.items()}
    for e in t.edges():
        t.edge_attribute(e, "force", h.real("f%d_%d" % key[tuple(e)]))
    tr, dv = [tuple(e) for e in t.trail_edges()], [tuple(e) for e in t.deviation_edges()]
    h.check("partition", sorted(tr + dv) == sorted(key) and len(set(tr + dv)) == len(key), "%r %r" % (tr, dv))
    for e in key:
        name = g.name[key[e]]
        h.dcheck("trail-edges", lambda z3, var: var(name) == (0 if e in tr else 1))
        h.check("is-trail", t.is_trail_edge(e) == (e in tr) and t.is_deviation_edge(e) == (e in dv))
    h.check("numbers", (t.number_of_trail_edges(), t.number_of_deviation_edges(), t.number_of_edges(), t.number_of_nodes()) == (len(tr), len(dv), len(key), n))
    for e, a in list(t.trail_edges(data=True)) + list(t.deviation_edges(data=True)):
        h.check_eq("data", a["force"], t.edge_force(e))
    for v in g.key:
        h.check("connected-trail", sorted(map(tuple, t.connected_trail_edges(v))) == sorted(e for e in tr if v in e))
        h.check("connected-deviation", sorted(map(tuple, t.connected_deviation_edges(v))) == sorted(e for e in dv if v in e))
    h.check("auxiliary", t.number_of_auxiliary_trails() == 0 and not list(t.auxiliary_trail_edges()) and not any(t.is_auxiliary_trail_edge(e) for e in key))
    h.check("no-trails", not t.has_trails() and t.number_of_trails() == 0)


def supports(h, g, n):
    t = g.topo
    sup = list(t.support_nodes())
    for i in range(n):
        h.dcheck("support", lambda z3, var: var(g.sname[i]) == (1 if i in sup else 0))
        h.check("is-support", t.is_node_support(i) == (i in sup))
    h.check("support-count", t.number_of_support_nodes() == len(sup) and len(set(sup)) == len(sup))
    for e in t.edges():
        h.check("edge-supported", t.is_edge_supported(e) == any(v in sup for v in e))


def nodes(h, cfg):
    n = cfg["n"]
    g = T.graph(h, n, cfg.get("flip", 0), cfg.get("order", 0))
    t = g.topo
    if not cfg["loads"]:
        supports(h, g, n)
        return
    # loads
    q, loaded = {}, []
    for i in range(cfg["loads"]):
        q[i] = h.vec("q%d" % i)
        t.node_attributes(i, ["qx", "qy", "qz"], q[i])
    m = h.real("m", 0, 4, positive=True)
    for i in range(n):
        h.check_vec("load", t.node_load(i), q.get(i, [0.0] * 3))
        if i in q and h.decide(h.norm(q[i]) > m):
            loaded.append(i)
        h.check("is-loaded", t.is_node_loaded(i, m) == (i in loaded))
    h.check("loaded", sorted(t.loaded_nodes(m)) == loaded)
    big = [i for i in q if h.decide(h.norm(q[i]) > 1e-6)]
    h.check("loaded-default", sorted(t.loaded_nodes()) == big and t.number_of_loaded_nodes() == len(big))
    for i in range(n):
        h.check_vec("reaction", t.reaction_force(i), [0.0] * 3)


def tasks(tier):
    out = []
    for flip in (0, 1, 2):
        out.append({"name": "edges3-%d" % flip, "fn": "kinds", "cfg": {"n": 3, "flip": flip, "order": flip}, "budget": 60})
        out.append({"name": "nodes3-%d" % flip, "fn": "nodes", "cfg": {"n": 3, "flip": flip, "order": flip, "loads": flip}, "budget": 60, "generic": True, "policy": "full"})
    if tier == "thorough":
        out.append({"name": "edges4", "fn": "kinds", "cfg": {"n": 4, "flip": 1}, "budget": 300})
        out.append({"name": "nodes4", "fn": "nodes", "cfg": {"n": 4, "flip": 1, "loads": 3}, "budget": 600, "generic": True, "policy": "full"})
    return out
