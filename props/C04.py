"""A form diagram describes its own geometry: lengths, force signs, reactions, element types."""
from . import eqlib as E

BOUNDS = "topologies: the listed families (1-3 trails, 1-3 trail edges each, 0-3 deviation edges, both orientations, planes, shifted trails, up to 2 iterations with unequal-sequence deviation edges); all numeric data unconstrained reals; larger members (one trail of 8 and of 20 nodes, 6 and 12 trails in a ring, a ladder, a net, a shifted net) with the signs of lengths and forces alternating; special positions and equal values (collinear and mirrored origins, one length, force or load throughout)"
ASSUMPTIONS = ["edges with coincident end nodes excluded", "zero residual vectors explored in the one-trail families, cut in the others"]


def describes(h, cfg):
    m = E.build(h, cfg["spec"])
    form = E.solve(h, m, cfg["solver"], tmax=cfg.get("tmax", 100), eta=cfg.get("eta", 1e-6))
    xyz = E.all_coords(m, form)
    h.check("nodes", sorted(form.nodes()) == sorted(m.nodes))
    h.check("edges", sorted(form.edges()) == sorted(list(m.edge.values()) + list(m.force)))
    for n in m.nodes:
        h.observe("x%d" % n, xyz[n])
        h.check("type@%d" % n, form.is_node_support(n) == (n in m.support))
        h.check_vec("load@%d" % n, form.node_load(n), m.q[n])
        if n not in m.support:
            h.check_vec("no-reaction@%d" % n, form.reaction_force(n), [0.0, 0.0, 0.0])
    for e in form.edges():
        f = form.edge_force(e)
        L = form.edge_length_2(e)
        d = h.dist(xyz[e[0]], xyz[e[1]])
        h.observe("L%d_%d" % e, L)
        h.check_eq("length@%d-%d" % e, abs(L), d)
        h.check("length-sign@%d-%d" % e, L * f >= 0)
        dev = e in m.force
        h.check("edge-type@%d-%d" % e, form.edge_attribute(e, "type") == ("deviation" if dev else "trail"))
    h.check("supports", sorted(form.support_nodes()) == sorted(m.support) and form.number_of_support_nodes() == len(m.support))


def tasks(tier):
    out = []

    def add(name, spec, **k):
        cfgk = {q: k.pop(q) for q in list(k) if q in ("tmax", "eta")}
        for solver in ("plain", "numpy"):
            out.append(dict({"name": "%s/%s" % (name, solver), "fn": "describes", "cfg": dict({"spec": spec, "solver": solver}, **cfgk), "generic": True, "budget": 60}, **k))
    add("ONE2-zeros", dict(E.ONE2, neg="sym"), generic=False)
    add("ONE3-zeros", dict(E.ONE3, neg="mixed"), generic=False)
    for nm in ("ONE4", "TWO", "TWO_DD", "TWO_SUP", "UNEQ", "THREE", "SHIFT", "KEYS", "LATE", "BARE", "LONG", "AUX", "ORI", "ORI2", "TALL", "WIDE", "LADDER", "TALLER", "WIDER"):
        add(nm, getattr(E, nm))
    for nm in E.SPECIAL:
        add(nm, getattr(E, nm))
    for nm in ("IND1", "IND1R", "INDX", "INDS", "MIX", "AUX1", "NET", "NETS", "SAMEI"):
        add(nm, getattr(E, nm), tmax=2, eta=E.BIG)
    add("PL1", {"trails": [[0, 1]], "planes": [(0, 1)]})
    add("PL2", {"trails": [[0, 1, 2]], "planes": [(1, 2)], "rev": [(1, 2)]})
    return out
