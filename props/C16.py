"""Edges, supports and loads attach to the node meant, by key or by location, and to nothing else."""
from .eqlib import Node, TopologyDiagram, DeviationEdge, TrailEdge, NodeLoad, NodeSupport
from compas.geometry import Plane
from .C15 import same, point, distinct

BOUNDS = "diagrams of up to 4 nodes assembled from 1-3 lines or nodes at arbitrary real coordinates along one axis, edges of both kinds in both orders with arbitrary attributes; then a support and two loads given by key or by location, at any node or elsewhere; and, starting from a built topology (with and without an auxiliary trail), histories of 1-2 further additions or moves of any kind, at any node (origins, supports, inner nodes) or elsewhere; edges added again up to twice where they exist"
ASSUMPTIONS = ["coordinates are equal iff their three-decimal representations are", "no line has coincident end points"]


def snap(t):
    out = {}
    for n in sorted(t.nodes()):
        out[n] = [t.node_xyz(n), t.node_load(n), t.is_node_support(n)]
    return out


def check_nodes(h, tag, t, want):
    h.check(tag + ":nodes", sorted(t.nodes()) == sorted(want), "%r" % (sorted(t.nodes()),))
    for n in want:
        h.check_vec(tag + ":xyz", t.node_xyz(n), want[n][0])
        h.check_vec(tag + ":load", t.node_load(n), want[n][1])
        h.check(tag + ":support", t.is_node_support(n) == want[n][2])


def lines(h, cfg):
    """a diagram assembled from lines"""
    t = TopologyDiagram()
    axis = cfg["axis"]
    pos, edges = {}, {}
    for k in range(cfg.get("before", 0)):
        p = point(h, "n%d" % k, axis)
        if any(same(h, p, q) for q in pos.values()):
            h.assume(False)
        pos[t.add_node(Node.from_point(p))] = p
    for k, kind in enumerate(cfg["lines"]):
        a, b = point(h, "a%d" % k, axis), point(h, "b%d" % k, axis)
        if same(h, a, b):
            h.assume(False)
        want = []
        for p in (a, b):
            at = [n for n in pos if same(h, pos[n], p)]
            if at:
                want.append(at[0])
            else:
                want.append(None)
        if None not in want and (tuple(want) in edges or (want[1], want[0]) in edges):
            h.assume(False)
        if kind == "trail":
            L = h.real("L%d" % k)
            pl = Plane([0.0, 0.0, 1.0], [0.0, 0.0, 1.0]) if cfg.get("planes") else None
            e = t.add_edge(TrailEdge.from_line((a, b), length=L, plane=pl) if cfg.get("planes") else TrailEdge.from_line((a, b), length=L))
            attrs = ("trail", L, 0.0, pl)
        else:
            f = h.real("f%d" % k)
            e = t.add_edge(DeviationEdge.from_line((a, b), force=f))
            attrs = ("deviation", 0.0, f, None)
        h.check("edge-key", len(e) == 2 and e[0] != e[1])
        for n, w, p in zip(e, want, (a, b)):
            if w is None:
                h.check("new-node", n not in pos, "%r" % (n,))
                pos[n] = p
            else:
                h.check("reused-node", n == w, "%r %r" % (n, w))
        edges[tuple(e)] = attrs
        h.check("edges", sorted(t.edges()) == sorted(edges), "%r %r" % (sorted(t.edges()), edges))
    check_nodes(h, "nodes", t, {n: [pos[n], [0.0] * 3, False] for n in pos})
    for e, (kind, L, f, pl) in edges.items():
        h.check("is-trail", t.is_trail_edge(e) == (kind == "trail") and t.is_deviation_edge(e) == (kind != "trail"))
        h.check_eq("length", t.edge_length_2(e), L)
        h.check_eq("force", t.edge_force(e), f)
        h.check("plane", t.edge_plane(e) is pl)
    h.check("counts", (t.number_of_trail_edges(), t.number_of_deviation_edges()) ==
            (sum(1 for v in edges.values() if v[0] == "trail"), sum(1 for v in edges.values() if v[0] != "trail")))


def attached(h, cfg):
    """supports and loads, by key or by location"""
    t = TopologyDiagram()
    axis = cfg["axis"]
    want = {}
    for k in range(cfg["nodes"]):
        p = point(h, "p%d" % k, axis)
        if any(same(h, p, w[0]) for w in want.values()):
            h.assume(False)
        key = t.add_node(Node(10 - 3 * k, p) if cfg.get("keys") else Node(xyz=p))
        want[key] = [p, [0.0] * 3, False]
    for j, what in enumerate(cfg["ops"]):
        kind, how = what.split("-")
        q = h.vec("q%d" % j) if kind == "load" else None
        if how == "key":
            k = list(want)[h.ints("who%d" % j, 0, len(want) - 1)]
            obj = NodeLoad(k, q) if kind == "load" else NodeSupport(k)
            at = [k]
        else:
            x = point(h, "x%d" % j, axis)
            obj = NodeLoad.from_point_and_vector(x, q) if kind == "load" else NodeSupport.from_point(x)
            at = [n for n in want if same(h, want[n][0], x)]
        _, e = h.call(t.add_load if kind == "load" else t.add_support, obj)
        if at:
            h.check("accepted", e is None, repr(e))
            if kind == "load":
                want[at[0]][1] = q
            else:
                want[at[0]][2] = True
        else:
            h.check("refused", isinstance(e, ValueError), repr(e))
        check_nodes(h, "after%d" % j, t, want)
    h.check("supports", sorted(t.support_nodes()) == sorted(n for n in want if want[n][2]))
    h.check("count", t.number_of_support_nodes() == sum(1 for n in want if want[n][2]))


def keyed(h, cfg):
    """edges given by node keys"""
    t = TopologyDiagram()
    for k in range(4):
        t.add_node(Node(k, h.vec("p%d" % k)))
    L, f = h.real("L"), h.real("f")
    a = h.choose("a", [(0, 1), (1, 0), (3, 0)])
    b = h.choose("b", [(1, 2), (2, 1), (3, 1)])
    e1, e2 = t.add_edge(TrailEdge(a[0], a[1], length=L)), t.add_edge(DeviationEdge(b[0], b[1], force=f))
    h.check("keys", (tuple(e1), tuple(e2)) == (a, b) and sorted(t.edges()) == sorted([a, b]))
    h.check("nodes", t.number_of_nodes() == 4)
    h.check("kinds", list(t.trail_edges()) == [a] and list(t.deviation_edges()) == [b])
    h.check_eq("length", t.edge_length_2(a), L)
    h.check_eq("force", t.edge_force(b), f)
    h.check("sorted", all(sorted(t.connected_trail_edges(n)) == ([a] if n in a else []) and
                          sorted(t.connected_deviation_edges(n)) == ([b] if n in b else []) for n in range(4)))


OPS = ["line-T", "line-D", "keys-D", "line-key-D", "support-key", "support-point", "load-key", "load-point", "move"]


def script(h, cfg):
    """a small built topology, then a history of additions of every kind, by key or by location"""
    t = TopologyDiagram()
    axis = cfg["axis"]
    want, edges = {}, {}

    def at(p):
        return [n for n in want if same(h, want[n][0], p)]

    def check(tag):
        check_nodes(h, tag, t, want)
        h.check(tag + ":edges", sorted(t.edges()) == sorted(edges), "%r %r" % (sorted(t.edges()), sorted(edges)))
        for e, (kind, L, f) in edges.items():
            h.check(tag + ":kind", t.is_trail_edge(e) == (kind == "T") and t.is_deviation_edge(e) == (kind == "D"))
            h.check_eq(tag + ":length", t.edge_length_2(e), L)
            h.check_eq(tag + ":force", t.edge_force(e), f)
            h.check(tag + ":plane", t.edge_plane(e) is None)

    def add(e, ends, kind, value):
        """ends: node keys or points"""
        e = t.add_edge(e)
        for n, x in zip(e, ends):
            if isinstance(x, int):
                h.check("edge-end", n == x, "%r %r" % (n, x))
                continue
            k = at(x)
            if k:
                h.check("reused", n == k[0], "%r %r" % (n, k))
            else:
                h.check("new", n not in want, "%r" % (n,))
                want[n] = [x, [0.0] * 3, False]
        edges[tuple(e)] = (kind, value, 0.0) if kind == "T" else (kind, 0.0, value)

    def taken(a, b):
        return a == b or (a, b) in edges or (b, a) in edges

    fixed = [[0.25, 0.5, 0.75] for _ in range(3 if cfg.get("loose") else 2)]
    for k, p in enumerate(fixed):
        p[axis] = 1.0 * k
    h.grid([p[axis] for p in fixed])
    for k in range(len(fixed)):
        key = t.add_node(Node(k, fixed[k]))
        want[key] = [fixed[k], [0.0] * 3, False]
    L0 = h.real("L", nonzero=True)
    shared = TrailEdge(fixed[0], fixed[1], length=L0)
    add(shared, [0, 1], "T", L0)
    q0 = h.vec("q")
    load = NodeLoad(0, q0)
    t.add_load(load)
    want[0][1] = list(q0)
    t.add_support(NodeSupport(1))
    want[1][2] = True
    if cfg.get("built"):
        with h.quiet():
            t.build_trails(auxiliary_trails=bool(cfg.get("loose")))
        if cfg.get("loose"):
            new = [n for n in t.nodes() if n not in want]
            h.check("one-aux", len(new) == 1)
            want[new[0]] = [t.node_xyz(new[0]), [0.0] * 3, True]
            edges[(2, new[0])] = ("T", -1.0, 0.0)
    check("start")
    for j in range(cfg["steps"]):
        ops = [OPS[i] for i in (cfg["ops"][j] if "ops" in cfg else range(len(OPS)))]
        op = h.choose("op%d" % j, ops) if len(ops) > 1 else ops[0]
        keys = sorted(want)
        if op.startswith("line") or op == "keys-D":
            kind = op[-1]
            v = h.real("v%d" % j)
            ends = []
            for side in (0, 1):
                if op == "keys-D" or (op == "line-key-D" and side == 0):
                    ends.append(keys[h.ints("k%d_%d" % (j, side), 0, len(keys) - 1)])
                else:
                    ends.append(point(h, "x%d_%d" % (j, side), axis))
            who = [x if isinstance(x, int) else (at(x) + [None])[0] for x in ends]
            if who[0] is None and who[1] is None:
                if same(h, ends[0], ends[1]):
                    h.assume(False)
            elif taken(who[0], who[1]):
                h.assume(False)
            add(TrailEdge(ends[0], ends[1], length=v) if kind == "T" else DeviationEdge(ends[0], ends[1], force=v), ends, kind, v)
        elif op == "move":
            k = keys[h.ints("k%d" % j, 0, len(keys) - 1)]
            x = point(h, "x%d" % j, axis)
            if any(n != k for n in at(x)):
                h.assume(False)
            t.node_xyz(k, x)
            want[k][0] = x
        else:
            kind, how = op.split("-")
            q = h.vec("q%d" % j) if kind == "load" else None
            if how == "key":
                ks = keys + [max(keys) + 7]
                k = ks[h.ints("k%d" % j, 0, len(ks) - 1)]
                obj = NodeLoad(k, q) if kind == "load" else NodeSupport(k)
                hit = [k] if k in want else []
            else:
                x = point(h, "x%d" % j, axis)
                obj = NodeLoad.from_point_and_vector(x, q) if kind == "load" else NodeSupport.from_point(x)
                hit = at(x)
            _, e = h.call(t.add_load if kind == "load" else t.add_support, obj)
            h.check("accepted" if hit else "refused", e is None if hit else isinstance(e, (ValueError, KeyError)), repr(e))
            if hit and kind == "load":
                want[hit[0]][1] = list(q)
            elif hit:
                want[hit[0]][2] = True
        check("after%d" % j)
    # the objects added may be used again, elsewhere
    h.check_vec("load-object", load.vector, q0)
    t2 = TopologyDiagram()
    e = tuple(t2.add_edge(shared))
    h.check("again", sorted(t2.nodes()) == sorted(e) and sorted(t2.edges()) == [e])
    h.check_eq("again:length", t2.edge_length_2(e), L0)
    h.check_vec("again:start", t2.node_xyz(e[0]), fixed[0])
    h.check_vec("again:end", t2.node_xyz(e[1]), fixed[1])
    check("later")


def replaced(h, cfg):
    """an edge added where one of its kind exists has its own length, force and plane, and no others change"""
    t = TopologyDiagram()
    pts = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [2.0, 0.0, 0.0]]
    for k, p in enumerate(pts):
        t.add_node(Node(k, p))
    values = {}

    def add(j, e, kind, plane, by):
        ends = [pts[n] if by else n for n in e]
        v = h.real("v%d" % j)
        pl = Plane(h.vec("o%d" % j), [0.0, 0.0, 1.0]) if plane else None
        if kind == "T":
            obj = TrailEdge(ends[0], ends[1], length=v, plane=pl) if plane or h.choose("none%d" % j, [True, False]) else TrailEdge(ends[0], ends[1], length=v)
        else:
            obj = DeviationEdge(ends[0], ends[1], force=v)
        key = t.add_edge(obj)
        h.check("key", tuple(key) == e, repr(key))
        values[e] = (kind, v, pl)
        h.check("edges", sorted(tuple(x) for x in t.edges()) == sorted(values) and t.number_of_edges() == len(values) and t.number_of_nodes() == 3)
        for x, (kd, val, pln) in values.items():
            h.check("type", t.is_trail_edge(x) == (kd == "T") and t.is_deviation_edge(x) == (kd == "D"))
            h.check_eq("length", t.edge_length_2(x), val if kd == "T" else 0.0)
            h.check_eq("force", t.edge_force(x), 0.0 if kd == "T" else val)
            got = t.edge_plane(x)
            if kd == "T":
                h.check("plane?", (got is None) == (pln is None), repr(got))
                if got is not None and pln is not None:
                    h.check_vec("plane", got.point, pln.point)
        h.observe("v%d" % j, v)
    add(0, (0, 1), "T", h.choose("p0", [True, False]), False)
    add(1, (1, 2), "D", False, False)
    add(2, (0, 1), "T", h.choose("p2", [True, False]), h.choose("by2", [True, False]))
    add(3, (1, 2), "D", False, h.choose("by3", [True, False]))
    add(4, (0, 1), "T", h.choose("p4", [True, False]), False)


def tasks(tier):
    T, D = "trail", "deviation"
    F = {"policy": "full", "fmt": "fork", "budget": 200}
    out = []
    for axis in (0, 1, 2):
        out.append(dict({"name": "lines-%d" % axis, "fn": "lines", "cfg": {"axis": axis, "lines": [T, D] if axis else [D, T], "planes": axis == 1}}, **F))
    out.append(dict({"name": "lines-nodes", "fn": "lines", "cfg": {"axis": 0, "lines": [T, D], "before": 1}}, **F))
    out.append(dict({"name": "lines-3", "fn": "lines", "cfg": {"axis": 2, "lines": [T, T, D]}, "weight": 4}, **F))
    for k, ops in enumerate((["support-key", "load-point", "load-key"], ["load-key", "support-point", "load-key"], ["load-point", "load-point"], ["support-point", "load-key"])):
        out.append(dict({"name": "attach-%d" % k, "fn": "attached", "cfg": {"axis": k % 3, "nodes": 2 + k % 2, "keys": k % 2 == 0, "ops": ops}}, **F))
    out.append({"name": "replaced", "fn": "replaced", "cfg": {}})
    out.append({"name": "keyed", "fn": "keyed", "cfg": {}})
    for k, cfg in enumerate(({"axis": 0, "built": True}, {"axis": 1}, {"axis": 2, "built": True, "loose": True})):
        out.append(dict({"name": "script1-%d" % k, "fn": "script", "cfg": dict(cfg, steps=1)}, **F))
    every = list(range(len(OPS)))
    for axis in (0, 1, 2):
        for i in every:
            out.append(dict(F, **{"name": "script2-%d-%s" % (axis, OPS[i]), "fn": "script", "weight": 2, "max_paths": 100000,
                                  "cfg": {"axis": axis, "built": axis != 1, "loose": axis == 2, "steps": 2, "ops": [[i], every]}}))
    if tier == "thorough":
        for axis in (0, 1, 2):
            for i in every:
                out.append(dict(F, **{"name": "script3-%d-%s" % (axis, OPS[i]), "fn": "script", "weight": 9, "budget": 700, "max_paths": 1000000,
                                      "cfg": {"axis": axis, "built": axis != 2, "loose": axis == 1, "steps": 3, "ops": [[i], every, every]}}))
        out.append(dict(F, **{"name": "lines-4", "fn": "lines", "cfg": {"axis": 1, "lines": [T, D, T, D]}, "weight": 9, "budget": 900, "max_paths": 100000}))
        out.append(dict(F, **{"name": "attach-long", "fn": "attached", "cfg": {"axis": 0, "nodes": 3, "ops": ["support-point", "load-point", "load-point", "support-key", "load-key"]}, "weight": 9, "budget": 900, "max_paths": 100000}))
    return out
