"""Trails are built only from well-formed topologies: anything else is an error."""
from . import topolib as T

BOUNDS = "all topologies on 2 to 4 nodes (thorough: 5) over the complete graph: every edge trail or deviation, every set of supports, three insertion orders and orientation patterns, with or without a second attempt; one of eight defects introduced into a built topology, and repaired again"
ASSUMPTIONS = ["node keys are integers"]


def rejects(h, cfg):
    g = T.graph(h, cfg["n"], cfg.get("flip", 0), cfg.get("order", 0))
    for k in range(cfg.get("attempts", 2)):
        _, e = h.call(g.topo.build_trails)
        tag = "" if k == 0 else "again:"
        if e is None:
            T.check_trails(h, g, tag + "accepted:")
        else:
            h.check(tag + "error-type", isinstance(e, (AssertionError, ValueError)), repr(e))
            h.dcheck(tag + "rejected-though-valid", lambda z3, var: z3.Not(T.valid(g)(z3, var)), repr(e))
            h.check(tag + "no-trails-left", g.topo.number_of_trails() == 0)
        # the supports remain those given
        for i in range(g.n):
            now = g.topo.is_node_support(g.key[i])
            h.dcheck(tag + "supports-kept", lambda z3, var, i=i, now=now: var(g.sname[i]) == (1 if now else 0))


def spoilt(h, cfg):
    """a topology whose trails were built becomes malformed"""
    from compas_cem.equilibrium import static_equilibrium, static_equilibrium_numpy
    from .topolib import DeviationEdge, Node, NodeSupport, TrailEdge
    n = cfg["n"]
    g = T.graph(h, n, cfg.get("flip", 0), cfg.get("order", 0))
    t = g.topo
    h.assume_z3(T.valid(g))
    _, e = h.call(t.build_trails)
    h.check("accepted", e is None, repr(e))
    if e is not None:
        return
    old = {k: list(v) for k, v in t.trails(keys=True)}
    tr = old[list(old)[h.ints("which", 0, len(old) - 1)]]
    op = h.choose("op", ["lone", "branch", "inner-support", "origin-support", "no-support", "isolated-support", "tied", "merged"])
    if op in ("lone", "branch", "isolated-support", "tied"):
        t.add_node(Node(n, [9.0, 0.0, 0.0]))
    if op == "branch":
        if len(tr) < 3:
            h.assume(False)
        t.add_edge(TrailEdge(tr[1], n, length=1.0))
    elif op == "inner-support":
        if len(tr) < 3:
            h.assume(False)
        t.add_support(NodeSupport(tr[1]))
    elif op == "origin-support":
        t.add_support(NodeSupport(tr[0]))
    elif op == "no-support":
        t.unset_node_attribute(tr[-1], "type")
    elif op == "isolated-support":
        t.add_support(NodeSupport(n))
        t.add_edge(DeviationEdge(tr[0], n, force=1.0))
    elif op == "tied":
        t.add_edge(DeviationEdge(tr[0], n, force=1.0))
    elif op == "merged":
        if len(old) < 2:
            h.assume(False)
        o = [k for k in old if k != tr[0]][0]
        a, b = tr[0], o
        k2 = (a, b) if (a, b) in list(t.edges()) else (b, a)
        t.edge_attribute(k2, "type", "trail")
    for k in range(2):
        tag = "" if k == 0 else "again:"
        _, e = h.call(t.build_trails)
        h.check(tag + "refused", isinstance(e, (AssertionError, ValueError)), "%s %r %r" % (op, e, dict(t.trails(keys=True))))
        h.check(tag + "no-trails-left", t.number_of_trails() == 0 and not t.has_trails(), op)
    sup = {tr[-1] for tr in old.values()}
    sup = sup - {tr[-1]} if op == "no-support" else sup | {"inner-support": {tr[min(1, len(tr) - 1)]}, "origin-support": {tr[0]}, "isolated-support": {n}}.get(op, set())
    h.check("supports-kept", set(t.support_nodes()) == sup, "%s %r" % (op, sorted(t.support_nodes())))
    for solver in (static_equilibrium, static_equilibrium_numpy):
        f, e = h.call(solver, t)
        h.check("no-form", f is None and isinstance(e, (AssertionError, ValueError)), "%s %r" % (op, e))
    # repaired, it builds
    if op in ("lone", "branch", "tied"):
        t.delete_node(n)
    elif op in ("inner-support", "origin-support"):
        t.unset_node_attribute(tr[1] if op == "inner-support" else tr[0], "type")
    elif op == "no-support":
        t.add_support(NodeSupport(tr[-1]))
    elif op == "merged":
        t.edge_attribute(k2, "type", "deviation")
    else:
        t.add_node(Node(n + 1, [9.0, 5.0, 0.0]))
        t.add_edge(TrailEdge(n + 1, n, length=1.0))
        old[n + 1] = [n + 1, n]
    _, e = h.call(t.build_trails)
    h.check("repaired", e is None and {k: list(v) for k, v in t.trails(keys=True)} == old, "%s %r" % (op, e))


def unbuilt(h, cfg):
    """form finding without trails is refused"""
    from compas_cem.equilibrium import static_equilibrium, static_equilibrium_numpy
    g = T.graph(h, cfg["n"], 0, 0)
    for solver in (static_equilibrium, static_equilibrium_numpy):
        f, e = h.call(solver, g.topo)
        h.check("refused", f is None and isinstance(e, (AssertionError, ValueError)), repr(e))
    _, e = h.call(g.topo.node_sequence, 0)
    h.check("no-sequence", isinstance(e, ValueError), repr(e))


def tasks(tier):
    out = []
    for n in (2, 3, 4):
        for flip in (0, 1, 2):
            out.append({"name": "K%d-%d" % (n, flip), "fn": "rejects", "cfg": {"n": n, "flip": flip, "order": flip}, "budget": 300, "weight": n, "max_paths": 100000})
    for n in (2, 3, 4):
        out.append({"name": "S%d" % n, "fn": "spoilt", "cfg": {"n": n, "flip": n % 3, "order": n % 2}, "budget": 200, "weight": 3})
    out.append({"name": "unbuilt", "fn": "unbuilt", "cfg": {"n": 3}})
    if tier == "thorough":
        out.append({"name": "K5", "fn": "rejects", "cfg": {"n": 5, "flip": 1, "attempts": 1}, "budget": 3000, "weight": 9, "max_paths": 200000})
    return out
