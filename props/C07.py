"""Form finding leaves the topology alone and is repeatable; the form is independent of it."""
from copy import deepcopy

from compas_cem.elements import DeviationEdge
from compas_cem.loads import NodeLoad

from . import eqlib as E

BOUNDS = "topologies: the listed families (1-3 trails, 1-3 trail edges each, 0-2 deviation edges, planes); all numeric data unconstrained reals; two runs of each solver in a row, then every attribute of the form overwritten; larger members (one trail of 8 and of 20 nodes, 6 and 12 trails in a ring, a ladder, a net, a shifted net) with the signs of lengths and forces alternating; special positions and equal values (collinear and mirrored origins, one length, force or load throughout)"
ASSUMPTIONS = ["edges with coincident end nodes and zero residual vectors excluded"]


def same_data(h, label, a, b):
    if isinstance(a, dict):
        h.check(label + ":keys", isinstance(b, dict) and list(map(repr, a)) == list(map(repr, b)))
        if isinstance(b, dict):
            for k in a:
                if k in b:
                    same_data(h, "%s.%s" % (label, k), a[k], b[k])
    elif isinstance(a, (list, tuple)):
        h.check(label + ":len", isinstance(b, (list, tuple)) and len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            same_data(h, "%s[%d]" % (label, i), x, y)
    elif hasattr(a, "normal"):
        same_data(h, label + ".plane", [list(a.point), list(a.normal)], [list(b.point), list(b.normal)])
    elif isinstance(a, str) or a is None or isinstance(a, bool):
        h.check(label, a == b, "%r != %r" % (a, b))
    else:
        h.check_eq(label, a, b)


def snapshot(topo):
    d = {}
    for n in sorted(topo.nodes()):
        d["n%s" % n] = dict(topo.node[n])
    for e in sorted(topo.edges()):
        d["e%s-%s" % e] = dict(topo.edge[e[0]][e[1]])
    d["trails"] = {k: tuple(v) for k, v in topo.trails(keys=True)}
    d["seq"] = {n: topo.node_sequence(n) for n in topo.nodes()}
    d["gkeys"] = dict(topo.gkey_node)
    d["num"] = [topo.number_of_nodes(), topo.number_of_edges(), topo.number_of_trails(), topo.number_of_auxiliary_trails()]
    return deepcopy(d)


def untouched(h, cfg):
    m = E.build(h, cfg["spec"])
    before = snapshot(m.topo)
    k = dict(tmax=cfg.get("tmax", 100), eta=cfg.get("eta", 1e-6))
    a = E.solve(h, m, cfg["solver"], **k)
    same_data(h, "first", before, snapshot(m.topo))
    b = E.solve(h, m, cfg["solver"], **k)
    for n in m.nodes:
        h.check_vec("again@%d" % n, E.coords(a, n), E.coords(b, n))
        h.check_vec("again-r@%d" % n, a.reaction_force(n), b.reaction_force(n))
        h.observe("x%d" % n, E.coords(a, n))
    for e in a.edges():
        h.check_eq("again-f@%d-%d" % e, a.edge_force(e), b.edge_force(e))
    # overwriting the form reaches neither the topology nor the other form
    keep = {n: E.coords(b, n) for n in m.nodes}
    for n in m.nodes:
        a.node_attributes(n, ["x", "y", "z", "qx", "type"], [9.0, 9.0, 9.0, 9.0, "support"])
    for e in list(a.edges()):
        a.edge_attributes(e, ["force", "length"], [9.0, 9.0])
        p = a.edge_attribute(e, "plane")
        if p is not None:
            p.point = [9.0, 9.0, 9.0]
    a.gkey_node.clear()
    same_data(h, "after", before, snapshot(m.topo))
    for n in m.nodes:
        h.check_vec("other@%d" % n, E.coords(b, n), keep[n])


def edited(h, cfg):
    """the form of an edited topology is the form of a new topology with the same data"""
    spec = cfg["spec"]
    k = dict(tmax=cfg.get("tmax", 100), eta=cfg.get("eta", 1e-6))
    new = E.build(h, spec)
    want = E.solve(h, new, cfg["solver"], **k)
    how = cfg["how"]
    first = dict(spec)
    if how == "grow":
        first["dev"] = spec["dev"][:-1]
    elif how == "shift":
        first.pop("shift")
    old = E.build(E.Named(h, "o") if how == "values" else h, first)
    form = E.solve(h, old, cfg["solver"], **k)
    if how == "values":
        # what was calculated in between belongs to the other data
        for n in old.origin:
            h.check_vec("between@%d" % n, E.coords(form, n), old.xyz[n])
        for n in old.nodes:
            h.check_vec("between-q@%d" % n, form.node_load(n), old.q[n])
        for e, f in old.force.items():
            h.check_eq("between-f@%d-%d" % e, form.edge_force(e), f)
    t = old.topo
    if how == "values":
        for n in new.nodes:
            t.node_attributes(n, ["x", "y", "z"], new.xyz[n])
            if new.q[n] != [0.0, 0.0, 0.0]:
                t.add_load(NodeLoad(n, new.q[n]))
        for (a, b), e in new.edge.items():
            t.edge_attribute(e, "length", new.length[(a, b)])
            t.edge_attribute(e, "plane", new.plane[(a, b)])
        for e, f in new.force.items():
            t.edge_attribute(e, "force", f)
    elif how == "grow":
        e = tuple(spec["dev"][-1])
        t.add_edge(DeviationEdge(e[0], e[1], force=new.force[e]))
        with h.quiet():
            if cfg.get("rebuild"):
                t.build_trails()
    else:
        for o, sq in spec["shift"].items():
            t.shift_trail(int(o), sq)
    got = E.solve(h, old, cfg["solver"], **k)
    for n in new.nodes:
        h.check_vec("x@%d" % n, E.coords(got, n), E.coords(want, n))
        h.check_vec("r@%d" % n, got.reaction_force(n), want.reaction_force(n))
        h.check_vec("q@%d" % n, got.node_load(n), want.node_load(n))
        h.observe("x%d" % n, E.coords(got, n))
    h.check("edges", sorted(got.edges()) == sorted(want.edges()))
    for e in want.edges():
        h.check_eq("f@%d-%d" % e, got.edge_force(e), want.edge_force(e))
        h.check_eq("l@%d-%d" % e, got.edge_length_2(e), want.edge_length_2(e))


def tasks(tier):
    out = []

    def add(name, spec, **k):
        cfgk = {q: k.pop(q) for q in list(k) if q in ("tmax", "eta")}
        for solver in ("plain", "numpy"):
            out.append(dict({"name": "%s/%s" % (name, solver), "fn": "untouched", "cfg": dict({"spec": spec, "solver": solver}, **cfgk), "generic": True, "budget": 60}, **k))
    for nm in ("ONE2", "ONE3", "TWO", "TWO_DD", "UNEQ", "SHIFT", "THREE", "KEYS", "LATE", "BARE", "AUX", "ORI", "TALL", "WIDE"):
        add(nm, getattr(E, nm))
    for nm in E.SPECIAL:
        add(nm, getattr(E, nm))
    for nm in ("IND1", "INDX", "IND2", "AUX1", "NET", "NETS", "SAMEI"):
        add(nm, getattr(E, nm), tmax=2, eta=E.BIG)
    for solver in ("plain", "numpy"):
        def edit(name, spec, how, **k):
            out.append({"name": "%s-%s/%s" % (name, how, solver), "fn": "edited", "cfg": dict({"spec": spec, "solver": solver, "how": how}, **k), "generic": True, "budget": 60})
        for nm in ("TWO_DD", "UNEQ", "KEYS", "SHIFT", "TALL"):
            edit(nm, dict(getattr(E, nm), neg="mixed", fneg="mixed"), "values")
        edit("IND2", dict(E.IND2, neg="mixed", fneg="mixed"), "values", tmax=2, eta=E.BIG)
        edit("PLD", {"trails": [[0, 1, 2], [3, 4]], "dev": [(0, 3)], "planes": [(0, 1)], "plane_kind": "unit", "neg": "mixed", "fneg": "mixed"}, "values")
        edit("PLR", {"trails": [[0, 1, 2]], "planes": [(1, 2)], "rev": [(1, 2)], "neg": "mixed"}, "values")
        edit("TWO_DD", dict(E.TWO_DD, neg="mixed", fneg="mixed"), "grow")
        edit("THREE", dict(E.THREE, neg="mixed"), "grow", rebuild=True)
        edit("INDX", dict(E.INDX, neg="mixed"), "grow", tmax=2, eta=E.BIG)
        edit("INDX-1", dict(E.INDX, neg="mixed"), "grow", tmax=1)
        edit("SHIFT-1", E.SHIFT, "shift", tmax=1)
        edit("INDS-1", E.INDS, "shift", tmax=1)
        edit("SHIFT", E.SHIFT, "shift", tmax=2, eta=E.BIG)
        edit("INDS", E.INDS, "shift", tmax=2, eta=E.BIG)
    add("PL1", {"trails": [[0, 1]], "planes": [(0, 1)]})
    add("PL2B", {"trails": [[0, 1, 2]], "planes": [(0, 1), (1, 2)], "plane_kind": "unit"})
    return out
