"""Auxiliary trails: every node without a trail gets one, of the requested length and direction, and only once."""
from . import topolib as T

BOUNDS = "all topologies on 2 to 4 nodes over the complete graph (every edge trail or deviation, every set of supports); node coordinates, the auxiliary length and the auxiliary vector are unconstrained reals (length and vector not zero); two or three builds in a row, with and without the option, and with another length and vector in between"
ASSUMPTIONS = ["node keys are integers", "auxiliary nodes do not coincide with other nodes", "the auxiliary vector is not zero"]


def valid_aux(g):
    """formula: trail edges form disjoint paths with one support at one end, or leave a node alone"""
    n = g.n

    def f(z3, var):
        cs = []
        o = {(u, v): z3.Bool("o%d_%d" % (u, v)) for u in range(n) for v in range(n) if u != v}
        r = [z3.Int("rank%d" % u) for u in range(n)]
        for (u, v), name in g.name.items():
            cs.append((var(name) == 0) == z3.Or(o[(u, v)], o[(v, u)]))
            cs.append(z3.Not(z3.And(o[(u, v)], o[(v, u)])))
        for u in range(n):
            sup = var(g.sname[u]) == 1
            out = [(o[(u, v)], 1) for v in range(n) if v != u]
            inn = [(o[(v, u)], 1) for v in range(n) if v != u]
            alone = z3.And(z3.Not(sup), z3.PbEq(out + inn, 0))
            on = z3.And(z3.If(sup, z3.PbEq(out, 0), z3.PbEq(out, 1)), z3.PbLe(inn, 1), z3.Implies(sup, z3.PbEq(inn, 1)))
            cs.append(z3.Or(alone, on))
            cs.append(z3.And(r[u] >= 0, r[u] < n))
            cs.append(z3.Implies(sup, r[u] == 0))
            for v in range(n):
                if v != u:
                    cs.append(z3.Implies(o[(u, v)], r[u] == r[v] + 1))
        return z3.And(cs)
    return f


def auxiliary(h, cfg):
    n = cfg["n"]
    g = T.graph(h, n, cfg.get("flip", 0), cfg.get("order", 0))
    t = g.topo
    if cfg.get("valid", True):
        h.assume_z3(valid_aux(g))
    xyz = {}
    for i in range(n):
        xyz[i] = h.vec("p%d" % i)
        t.node_attributes(i, ["x", "y", "z"], xyz[i])
    if cfg.get("default"):
        L, w = -1.0, [1.0, 1.0, 1.0]
    else:
        L = h.real("L", nonzero=True)
        w = h.vec("w")
        w[2] = h.real("wz", nonzero=True)
        t.auxiliary_trail_length = L
        t.auxiliary_trail_vector = w
    u = h.unit(w)
    nodes = list(range(n))
    edges = {e: dict(type=None) for e in t.edges()}
    supports0 = None
    for k, flag in enumerate(cfg["builds"]):
        tag = "" if k == 0 else "again%d:" % k
        if k and cfg.get("reset"):
            # what is asked of auxiliary trails from here on does not touch those that exist
            with h.quiet():
                t.auxiliary_trail_length = h.real("L%d" % k, nonzero=True)
                t.auxiliary_trail_vector = [0.0, h.real("wy%d" % k, nonzero=True), 0.0]
        _, e = h.call(t.build_trails, auxiliary_trails=flag)
        if e is not None:
            h.check(tag + "error-type", isinstance(e, (AssertionError, ValueError)), repr(e))
            if k == 0:
                h.dcheck(tag + "rejected-though-valid", lambda z3, var: z3.Not(valid_aux(g)(z3, var)), repr(e))
            else:
                h.check(tag + "rejected", False, repr(e))
            return
        trails = {a: tuple(b) for a, b in t.trails(keys=True)}
        aux = {a: tuple(b) for a, b in t.auxiliary_trails(keys=True)}
        new = sorted(x for x in t.nodes() if x not in nodes)
        # partition
        h.check(tag + "partition", sorted(x for tr in trails.values() for x in tr) == sorted(t.nodes()), repr(trails))
        h.check(tag + "count", len(aux) == len(new) == t.number_of_auxiliary_trails() and t.number_of_trails() == len(trails))
        # a node has an auxiliary trail iff no trail edge touches it
        for i in nodes:
            mine = [g.name[e2] for e2 in g.name if i in e2]
            if i in aux:
                h.dcheck(tag + "needed", lambda z3, var, mine=mine: z3.And([var(m) != 0 for m in mine]), str(i))
            else:
                h.dcheck(tag + "missing", lambda z3, var, mine=mine: z3.Or([var(m) == 0 for m in mine]), str(i))
        h.check(tag + "owners", all(a in nodes for a in aux))
        used = []
        for a, (x, b) in aux.items():
            h.check(tag + "starts-at-node", x == a and b in new)
            used.append(b)
            h.check(tag + "trail", trails.get(a) == (a, b), repr(trails))
            h.check(tag + "support", t.is_node_support(b) and t.is_node_origin(a))
            h.check(tag + "sequence", (t.node_sequence(a), t.node_sequence(b)) == (0, 1))
            h.check(tag + "trail-edge", t.is_trail_edge((a, b)) and t.is_auxiliary_trail_edge((a, b)))
            h.check_eq(tag + "length", t.edge_length_2((a, b)), L)
            want = [p + L * q for p, q in zip(xyz[a], u)]
            if cfg.get("default"):
                for p, q in zip(t.node_coordinates(b), want):
                    h.check(tag + "position", (p - q) * (p - q) < 1e-18)
            else:
                h.check_vec(tag + "position", t.node_coordinates(b), want)
            h.check_vec(tag + "load", t.node_load(b), [0.0, 0.0, 0.0])
            h.observe("aux%d" % a, t.node_coordinates(b))
        h.check(tag + "distinct", sorted(used) == new)
        h.check(tag + "edges", sorted(t.auxiliary_trail_edges()) == sorted(aux.values()))
        h.check(tag + "nothing-else", sorted(t.edges()) == sorted(list(edges) + list(aux.values())))
        for i in nodes:
            h.check_vec(tag + "node-stays", t.node_coordinates(i), xyz[i])
        for a, tr in trails.items():
            if a in aux:
                continue
            h.check(tag + "own-trail", tr[0] == a and all(x in nodes for x in tr))
            for p, q in zip(tr, tr[1:]):
                h.dcheck(tag + "own-trail-edges", lambda z3, var, e2=tuple(sorted((p, q))): var(g.name[e2]) == 0)
            h.dcheck(tag + "own-support", lambda z3, var, s=tr[-1]: var(g.sname[s]) == 1)
        if k == 0:
            first = (trails, aux)
        else:
            h.check(tag + "same", (trails, aux) == first)


def lost(h, cfg):
    """nodes that were on a trail, and are not any more, and then are again"""
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.supports import NodeSupport
    t = TopologyDiagram()
    xyz = {}
    for i in range(5):
        xyz[i] = h.vec("p%d" % i)
        t.add_node(Node(i, xyz[i]))
    L0 = h.real("L0", nonzero=True)
    for a, b in ((0, 1), (2, 1), (3, 4)):
        t.add_edge(TrailEdge(a, b, length=L0))
    t.add_edge(DeviationEdge(0, 3, force=1.0))
    t.add_support(NodeSupport(2))
    t.add_support(NodeSupport(4))
    L = h.real("L", nonzero=True)
    w = h.vec("w")
    w[0] = h.real("wx", nonzero=True)
    t.auxiliary_trail_length, t.auxiliary_trail_vector = L, w
    u = h.unit(w)
    with h.quiet():
        t.build_trails(auxiliary_trails=h.choose("first", [False, True]))
    h.check("none-needed", t.number_of_auxiliary_trails() == 0 and t.number_of_trails() == 2 and t.number_of_nodes() == 5)
    op = h.choose("op", ["origin", "pair", "other"])
    if op == "origin":
        t.delete_edge(0, 1)
        t.add_edge(DeviationEdge(0, 1, force=1.0))
        bare, rest = [0], {1: (1, 2), 3: (3, 4)}
    elif op == "pair":
        t.delete_edge(3, 4)
        t.unset_node_attribute(4, "type")
        bare, rest = [3, 4], {0: (0, 1, 2)}
    else:
        t.delete_node(4)
        bare, rest = [3], {0: (0, 1, 2)}
    loads = {}
    gone = {4} if op == "other" else set()

    def inspect(tag, owners, rest):
        trails = {a: tuple(b) for a, b in t.trails(keys=True)}
        aux = {a: tuple(b) for a, b in t.auxiliary_trails(keys=True)}
        h.check(tag + "owners", sorted(aux) == sorted(owners), "%s %r" % (op, aux))
        new = [n for n in t.nodes() if n not in xyz]
        h.check(tag + "nodes", len(new) == len(owners) and set(xyz) - gone <= set(t.nodes()))
        want = dict(rest)
        for a in owners:
            if a not in aux:
                continue
            x, b = aux[a]
            want[a] = (a, b)
            h.check(tag + "ends", x == a and b in new)
            h.check(tag + "kinds", t.is_node_origin(a) and t.is_node_support(b) and t.is_trail_edge((a, b)) and t.is_auxiliary_trail_edge((a, b)))
            h.check_eq(tag + "length", t.edge_length_2((a, b)), L)
            h.check_vec(tag + "position", t.node_coordinates(b), [p + L * q for p, q in zip(xyz[a], u)])
        h.check(tag + "trails", trails == want, "%s %r != %r" % (op, trails, want))
        h.check(tag + "number", t.number_of_auxiliary_trails() == len(owners) == len(list(t.auxiliary_trail_edges())))
        return aux
    for k in range(2):
        _, e = h.call(t.build_trails, auxiliary_trails=True)
        h.check("built", e is None, "%s %r" % (op, e))
        if e is not None:
            return
        aux = inspect("again:" if k else "", bare, rest)
    # the auxiliary trail is taken away again and the node put back on a trail
    a = bare[0]
    t.delete_node(aux[a][1])
    if op == "origin":
        t.delete_edge(0, 1)
        t.add_edge(TrailEdge(0, 1, length=L0))
        left, rest = [], {0: (0, 1, 2), 3: (3, 4)}
    elif op == "pair":
        b = bare[1]
        t.add_edge(TrailEdge(3, 4, length=L0))
        left, rest = [], {0: (0, 1, 2), 3: (3, 4, aux[4][1])}
    else:
        gone.discard(4)
        t.add_node(Node(4, xyz[4]))
        t.add_edge(TrailEdge(4, 3, length=L0))
        t.add_support(NodeSupport(4))
        left, rest = [], {0: (0, 1, 2), 3: (3, 4)}
    flag = h.choose("last", [False, True])
    _, e = h.call(t.build_trails, auxiliary_trails=flag)
    h.check("restored", e is None, "%s %r" % (op, e))
    if e is not None:
        return
    if op != "pair":
        inspect("restored:", left, rest)
    else:
        h.check("restored:trails", {a: tuple(b) for a, b in t.trails(keys=True)} == rest)
        h.check("restored:owner", 3 not in dict(t.auxiliary_trails(keys=True)))


def balanced(h, cfg):
    """a structure held together by deviation edges, carried by auxiliary trails only"""
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.elements import DeviationEdge, Node
    from compas_cem.equilibrium import static_equilibrium, static_equilibrium_numpy
    from compas_cem.loads import NodeLoad
    t = TopologyDiagram()
    n = cfg["n"]
    xyz, q, f = {}, {}, {}
    for i in range(n):
        xyz[i] = h.vec("p%d" % i)
        t.add_node(Node(i, xyz[i]))
    for i in range(n - 1):
        f[i] = h.real("f%d" % i, nonzero=True)
        t.add_edge(DeviationEdge(i, i + 1, force=f[i]))
    for i in range(n):
        q[i] = h.vec("q%d" % i)
        t.add_load(NodeLoad(i, q[i]))
    L = h.real("L", nonzero=True)
    t.auxiliary_trail_length = L
    with h.quiet():
        t.build_trails(auxiliary_trails=True)
        form = (static_equilibrium_numpy if cfg["solver"] == "numpy" else static_equilibrium)(t)
    aux = {a: tuple(b) for a, b in t.auxiliary_trails(keys=True)}
    h.check("all", sorted(aux) == list(range(n)))
    for i in range(n):
        r = list(q[i])
        for k in f:
            if i in (k, k + 1):
                o = k + 1 if i == k else k
                d = h.unit([a - b for a, b in zip(xyz[o], xyz[i])])
                r = [a + f[k] * b for a, b in zip(r, d)]
        a, b = aux[i]
        # the residual goes down the auxiliary trail to its support
        h.check_vec("reaction@%d" % i, form.reaction_force(b), [-x for x in r])
        h.check_vec("stays@%d" % i, form.node_coordinates(i), xyz[i])
        h.check_eq("force@%d" % i, form.edge_force((a, b)) ** 2, r[0] * r[0] + r[1] * r[1] + r[2] * r[2])
        h.observe("r%d" % i, form.reaction_force(b))


def tasks(tier):
    out = []
    for n in (2, 3):
        for flip in (0, 1, 2):
            out.append({"name": "aux%d-%d" % (n, flip), "fn": "auxiliary", "cfg": {"n": n, "flip": flip, "order": flip, "valid": flip != 0, "builds": [True, True] if flip else [True, False]}, "budget": 120, "generic": True})
    out.append({"name": "aux3-default", "fn": "auxiliary", "cfg": {"n": 3, "default": True, "builds": [True, True, False]}, "budget": 120, "generic": True})
    out.append({"name": "aux3-reset", "fn": "auxiliary", "cfg": {"n": 3, "flip": 1, "builds": [True, True, False], "reset": True}, "budget": 120, "generic": True})
    out.append({"name": "aux4", "fn": "auxiliary", "cfg": {"n": 4, "flip": 1, "builds": [True, False, True]}, "budget": 200, "generic": True, "weight": 4})
    out.append({"name": "lost", "fn": "lost", "cfg": {}, "budget": 120, "generic": True})
    for solver in ("plain", "numpy"):
        for n in (2, 3):
            out.append({"name": "carried%d/%s" % (n, solver), "fn": "balanced", "cfg": {"n": n, "solver": solver}, "generic": True, "budget": 60})
    if tier == "thorough":
        out.append({"name": "aux4-all", "fn": "auxiliary", "cfg": {"n": 4, "flip": 2, "order": 1, "valid": False, "builds": [True, True]}, "budget": 900, "generic": True, "weight": 9})
        out.append({"name": "aux5", "fn": "auxiliary", "cfg": {"n": 5, "flip": 1, "builds": [True, True]}, "budget": 900, "generic": True, "weight": 9})
    return out
