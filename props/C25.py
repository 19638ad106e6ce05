"""Copies and JSON round trips of diagrams, parameters and constraints lose nothing and share nothing."""
from compas.geometry import Line, Plane, Point, Polyline, Vector

import compas_cem.optimization as O
from compas_cem.equilibrium.force_numpy import equilibrium_state_numpy
from . import eqlib as E
from . import optlib as L
from .eqlib import Node, TrailEdge, DeviationEdge, NodeSupport, NodeLoad

BOUNDS = "topologies of the listed families (1-2 trails, planes, deviation edges, shifted and auxiliary trails) and their forms, all numeric data arbitrary reals; one or two copies or round trips in a row, then one change to the copy (a node, edge, load, support, move or rebuild); the eight parameter kinds and eight constraint kinds with arbitrary real data"
ASSUMPTIONS = ["JSON is modelled as: object keys become strings, tuples become lists, numbers survive exactly; the object hooks of compas' encoder and decoder run for real",
               "constraint targets are geometry objects (plain lists have no serialised form)", "edges with coincident end nodes and zero residual vectors excluded"]


def transfer(h, obj, how):
    for k in how.split("+"):
        with h.quiet():
            if k == "copy":
                obj = obj.copy()
            elif k == "json":
                obj = h.json(obj)
            elif k == "data":
                obj = type(obj).from_data(h.json(obj.data))
            else:
                raise ValueError(k)
    return obj


NODE = ("x", "y", "z", "qx", "qy", "qz", "rx", "ry", "rz")


def snapshot(d):
    s = {"nodes": list(d.nodes()), "edges": [tuple(e) for e in d.edges()], "tol": d.tol}
    for n in d.nodes():
        for a in NODE:
            s[("n", n, a)] = d.node_attribute(n, a)
        s[("ntype", n)] = d.node_attribute(n, "type")
    for e in d.edges():
        e = tuple(e)
        for a in ("length", "force"):
            s[("e", e, a)] = d.edge_attribute(e, a)
        s[("etype", e)] = d.edge_attribute(e, "type")
        p = d.edge_attribute(e, "plane") if d.edge_attribute(e, "type") == "trail" else None
        s[("plane", e)] = None if p is None else [list(p[0]), list(p[1])]
    if hasattr(d, "trails"):
        s["trails"] = [(k, tuple(t)) for k, t in d.trails(keys=True)]
        s["aux"] = [(k, tuple(t)) for k, t in d.auxiliary_trails(keys=True)]
        s["seqs"] = {k: dict(v) for k, v in d.trails_sequences().items()} if d.number_of_trails() else {}
        s["auxl"] = d.auxiliary_trail_length
        s["auxv"] = list(d.auxiliary_trail_vector)
    return s


def same(h, tag, a, b):
    h.check(tag + "fields", set(a) == set(b), "%r" % (set(a) ^ set(b),))
    for k, v in a.items():
        if k not in b:
            continue
        if isinstance(k, tuple) and k[0] in ("n", "e"):
            h.check_eq("%s%s" % (tag, ".".join(str(x) for x in k)), b[k], v)
        elif isinstance(k, tuple) and k[0] == "plane":
            h.check("%splane@%s" % (tag, k[1]), (v is None) == (b[k] is None))
            if v is not None and b[k] is not None:
                for x, y in zip(v, b[k]):
                    h.check_vec("%splane@%s" % (tag, k[1]), y, x)
        elif k in ("auxl", "auxv"):
            h.check_eq(tag + k, b[k], v)
        else:
            h.check("%s%s" % (tag, k), b[k] == v, "%r != %r" % (b[k], v))


def located(h, tag, d):
    """every node is found where it is"""
    for n in d.nodes():
        xyz = [d.node_attribute(n, c) for c in "xyz"]
        h.check("%slocated@%s" % (tag, n), d.node_key(xyz) == n)


def topology(h, cfg):
    m = E.build(h, cfg["spec"], build_trails=not cfg.get("unbuilt"))
    t = m.topo
    if cfg.get("aux"):
        L0 = h.real("auxl", nonzero=True)
        v0 = h.vec("auxv")
        t.auxiliary_trail_length = L0
        t.auxiliary_trail_vector = v0
        v0[1] = h.real("auxn", nonzero=True)
        t.auxiliary_trail_vector = v0
        t.add_node(Node(7, h.vec("lone")))
        with h.quiet():
            t.build_trails(auxiliary_trails=True)
    form = E.solve(h, m, "plain") if cfg.get("form") else None
    d = t if form is None else form
    before = snapshot(d)
    c = transfer(h, d, cfg["how"])
    h.check("kind", type(c) is type(d))
    h.check("distinct", c is not d)
    same(h, "copy:", before, snapshot(c))
    same(h, "original:", before, snapshot(d))
    located(h, "copy:", c)
    h.observe("x", [c.node_attribute(n, "x") for n in c.nodes()])
    if form is None and cfg.get("solve"):
        with h.quiet():
            f0 = E.static_equilibrium(t)
            f1 = E.static_equilibrium(c)
        same(h, "form:", snapshot(f0), snapshot(f1))
    # changes to the copy stay in the copy, and work
    ed = cfg.get("edit")
    if ed == "node":
        p = h.vec("newp")
        k = c.add_node(Node(None, p))
        h.check("fresh-key", k not in before["nodes"] and k in list(c.nodes()), repr(k))
        h.check_vec("fresh-xyz", E.coords(c, k), p)
    elif ed == "load":
        q = h.vec("newq")
        c.add_load(NodeLoad(m.trails[0][0], q))
        h.check_vec("new-load", c.node_load(m.trails[0][0]), q)
    elif ed == "attributes":
        for n in c.nodes():
            c.node_attributes(n, ["x", "y", "z"], [5.0, 6.0, 7.0])
        for e in c.edges():
            c.edge_attribute(e, "length", 99.0)
            c.edge_attribute(e, "force", 98.0)
        c.tol = "1f"
    elif ed == "rebuild":
        with h.quiet():
            c.build_trails()
        same(h, "rebuilt:", before, snapshot(c))
    elif ed == "shift":
        with h.quiet():
            c.shift_trail(m.trails[0][0], 1)
    elif ed == "move":
        n = m.trails[0][0]
        p = h.vec("newp")
        c.update_node_xyz(n, p) if hasattr(c, "update_node_xyz") else c.node_attributes(n, ["x", "y", "z"], p)
    if ed:
        same(h, "independent:", before, snapshot(d))
        located(h, "independent:", d)


def parameter(h, cfg):
    m = E.build(h, {"trails": [[0, 1], [2, 3]], "dev": [(0, 2)], "rev": [(2, 3)]})
    b = [None if c == "-" else 0.0 if c == "0" else h.real("b" + "lu"[j]) for j, c in enumerate(cfg["bounds"])]
    kind, key = cfg["kind"], L.key_of(cfg["key"])
    p = L.param(kind, key, *b)
    c = transfer(h, p, cfg["how"])
    h.check("kind", type(c) is type(p))
    for tag, q in (("copy:", c), ("original:", p)):
        h.check(tag + "key", q.key() == key and type(q.key()) is type(key), repr(q.key()))
        h.check(tag + "name", q.attr_name() == L.PARAMS[kind][1])
        v = L.read(m.topo, kind, key)
        h.check_eq(tag + "start", q.start_value(m.topo), v)
        for x, y, s in ((b[0], q.bound_low(m.topo), -1), (b[1], q.bound_up(m.topo), 1)):
            if x is None:
                h.check(tag + "bound", y == s * float("inf"))
            else:
                h.check_eq(tag + "bound", y, v + s * (-x if h.decide(x < 0) else x))
    h.observe("start", c.start_value(m.topo))


def constraint(h, cfg):
    m = E.build(h, {"trails": [[0, 1], [2, 3]], "dev": [(0, 2)], "rev": [(2, 3)]})
    with h.quiet():
        state = equilibrium_state_numpy(m.topo)
    obj, _ = L.constraint(h, cfg["c"], 0)
    c = transfer(h, obj, cfg["how"])
    h.check("kind", type(c) is type(obj))
    key = L.key_of(cfg["c"][1])
    h.check("key", c.key() == key and type(c.key()) is type(key), repr(c.key()))
    h.check_eq("weight", c.weight, obj.weight)
    h.check_eq("penalty", c.penalty(state), obj.penalty(state))
    h.observe("weight", c.weight)


TWO = {"trails": [[0, 1], [2, 3]], "dev": [(0, 2)], "rev": [(2, 3)]}
PL = {"trails": [[0, 1, 2]], "planes": [(0, 1)]}
SH = {"trails": [[0, 1], [2, 3]], "dev": [(1, 2)], "shift": {"2": 1}}


def tasks(tier):
    G = {"generic": True, "budget": 60}
    out = []

    def add(name, spec, how, **k):
        out.append(dict({"name": name + "/" + how, "fn": "topology", "cfg": dict({"spec": spec, "how": how}, **k)}, **G))
    hows = ("copy", "json", "data")
    for how in hows:
        add("topology", TWO, how, solve=True, edit="load")
        add("rebuild", TWO, how, edit="rebuild")
        add("unbuilt", TWO, how, edit="node", unbuilt=True)
        add("attributes", TWO, how, edit="attributes")
        add("planes", PL, how, edit="attributes")
        add("shift", SH, how, edit="shift", solve=True)
        add("aux", {"trails": [[0, 1]]}, how, aux=True, edit="rebuild")
        add("form", TWO, how, form=True, edit="attributes")
        add("form-node", PL, how, form=True, edit="node")
    for how in ("copy+json", "json+copy", "json+json"):
        add("twice", SH, how, edit="node")
        add("twice-form", TWO, how, form=True, edit="move")
    for i, (kind, key) in enumerate([("x", 0), ("y", 2), ("z", 0), ("qx", 0), ("qy", 3), ("qz", 2), ("length", [0, 1]), ("length", [3, 2]), ("force", [0, 2])]):
        for how in ("copy", "json"):
            bounds = ("bb", "0b", "b-", "-0", "b0", "--", "-b", "0-")[(i + 5 * (how == "json")) % 8] if tier == "quick" else None
            for b in ([bounds] if bounds else ["bb", "-b", "b-", "--", "0b", "b0", "0-", "-0"]):
                out.append(dict({"name": "parameter-%s-%s-%s/%s" % (kind, key, b, how), "fn": "parameter", "cfg": {"kind": kind, "key": key, "bounds": b, "how": how}}, **G))
    for c in (["point", 1], ["plane", 1], ["line", 3], ["reaction", 1], ["force", [0, 1]], ["force", [3, 2]], ["length", [0, 2]], ["length", [2, 0]], ["direction", [3, 2]], ["polyline", 0, [[0, 0, 0], [2, 0, 0], [2, 3, 0]]]):
        for how in ("copy", "json"):
            out.append(dict({"name": "constraint-%s-%s/%s" % (c[0], c[1], how), "fn": "constraint", "cfg": {"c": c, "how": how}}, **G))
    return out
