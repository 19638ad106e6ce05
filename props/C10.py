"""Every well-formed topology gets the trails its trail edges describe."""
from . import topolib as T
from .topolib import DeviationEdge, Node, NodeSupport, TrailEdge

BOUNDS = "all well-formed topologies on 3 to 5 nodes (thorough: 6) over the complete graph: every edge trail or deviation, every set of supports, two insertion orders, three orientation patterns; then one more change (extend at an origin, extend past a support, add a separate trail) and a rebuild"
ASSUMPTIONS = ["node keys are integers"]


def trails(h, cfg):
    g = T.graph(h, cfg["n"], cfg.get("flip", 0), cfg.get("order", 0), keys=cfg.get("keys"))
    h.assume_z3(T.valid(g))
    _, e = h.call(g.topo.build_trails)
    h.check("accepted", e is None, repr(e))
    if e is None:
        T.check_trails(h, g)
        if cfg.get("twice"):
            before = dict(g.topo.trails(keys=True))
            _, e = h.call(g.topo.build_trails)
            h.check("again:accepted", e is None, repr(e))
            T.check_trails(h, g, "again:")
            h.check("again:same", dict(g.topo.trails(keys=True)) == before)


def histories(h, cfg):
    """build, change, build again"""
    n = cfg["n"]
    g = T.graph(h, n, cfg.get("flip", 0), cfg.get("order", 0))
    t = g.topo
    h.assume_z3(T.valid(g))
    _, e = h.call(t.build_trails)
    h.check("accepted", e is None, repr(e))
    if e is not None:
        return
    old = {k: list(v) for k, v in t.trails(keys=True)}
    keys = list(old)
    op = h.choose("op", ["origin", "support", "trail", "swap", "cut", "delete", "retype"])
    which = keys[h.ints("which", 0, len(keys) - 1)]
    tr = old.pop(which)
    if op == "origin":
        t.add_node(Node(n, [9.0, 0.0, 0.0]))
        t.add_edge(TrailEdge(n, tr[0], length=1.0) if cfg.get("flip") else TrailEdge(tr[0], n, length=1.0))
        new = [[n] + tr]
    elif op == "support":
        t.add_node(Node(n, [9.0, 0.0, 0.0]))
        t.add_edge(TrailEdge(tr[-1], n, length=1.0))
        t.unset_node_attribute(tr[-1], "type")
        t.add_support(NodeSupport(n))
        new = [tr + [n]]
    elif op == "trail":
        t.add_node(Node(n, [9.0, 0.0, 0.0]))
        t.add_node(Node(n + 1, [10.0, 0.0, 0.0]))
        t.add_edge(TrailEdge(n, n + 1, length=1.0))
        t.add_support(NodeSupport(n))
        new = [tr, [n + 1, n]]
    elif op == "cut":
        # the trail is cut in two, the first part gets a support of its own
        if len(tr) < 4:
            h.assume(False)
        k = h.ints("cut", 2, len(tr) - 2)
        a, b = tr[k - 1], tr[k]
        e = (a, b) if t.has_edge(a, b) and (a, b) in list(t.edges()) else (b, a)
        if cfg.get("flip"):
            t.delete_edge(a, b)
            t.add_edge(DeviationEdge(b, a, force=1.0))
        else:
            t.edge_attribute(e, "type", "deviation")
        t.add_support(NodeSupport(a))
        new = [tr[:k], tr[k:]]
    elif op == "delete":
        # the origin disappears
        if len(tr) < 3:
            h.assume(False)
        t.delete_node(tr[0])
        new = [tr[1:]]
    elif op == "retype":
        # the trail moves to other nodes: the last edge is replaced by one to a new support
        if len(tr) < 3:
            h.assume(False)
        t.delete_node(tr[-1])
        t.add_node(Node(n, [9.0, 0.0, 0.0]))
        t.add_edge(TrailEdge(n, tr[-2], length=1.0))
        t.add_support(NodeSupport(n))
        new = [tr[:-1] + [n]]
    else:
        # the two ends trade places
        t.unset_node_attribute(tr[-1], "type")
        t.add_support(NodeSupport(tr[0]))
        new = [list(reversed(tr))]
    want = dict(old)
    for x in new:
        want[x[0]] = x
    _, e = h.call(t.build_trails)
    h.check("rebuild", e is None, "%s %r" % (op, e))
    if e is not None:
        return
    h.check("rebuild:trails", {k: list(v) for k, v in t.trails(keys=True)} == want, "%s: %r != %r" % (op, dict(t.trails(keys=True)), want))
    for k, tr in want.items():
        for i, x in enumerate(tr):
            h.check("rebuild:sequence", t.node_sequence(x) == i)
            h.check("rebuild:origin", t.is_node_origin(x) == (i == 0), op)
            h.check("rebuild:support", t.is_node_support(x) == (i == len(tr) - 1), op)
    h.check("rebuild:counts", t.number_of_trails() == len(want) and t.sequence_last() == max(len(x) for x in want.values()) - 1)
    h.check("rebuild:origins", sorted(t.origin_nodes()) == sorted(want))


def tasks(tier):
    out = []
    for n in (2, 3, 4):
        for flip in (0, 1, 2):
            out.append({"name": "K%d-flip%d" % (n, flip), "fn": "trails", "cfg": {"n": n, "flip": flip, "order": flip, "twice": True}, "budget": 120})
    out.append({"name": "K5", "fn": "trails", "cfg": {"n": 5, "flip": 1}, "budget": 200, "weight": 5})
    out.append({"name": "K5-rev", "fn": "trails", "cfg": {"n": 5, "flip": 2, "order": 1}, "budget": 200, "weight": 5})
    out.append({"name": "K4-keys", "fn": "trails", "cfg": {"n": 4, "keys": [7, 3, 11, 0]}, "budget": 120})
    for n in (2, 3, 4):
        out.append({"name": "H%d" % n, "fn": "histories", "cfg": {"n": n, "flip": n % 2}, "budget": 200, "weight": 4})
    if tier == "thorough":
        out.append({"name": "K6", "fn": "trails", "cfg": {"n": 6, "flip": 1}, "budget": 1500, "weight": 9, "max_paths": 100000})
        out.append({"name": "H5", "fn": "histories", "cfg": {"n": 5, "flip": 1}, "budget": 1500, "weight": 9, "max_paths": 100000})
    return out
