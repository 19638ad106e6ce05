"""Prescribed lengths, forces, origins and loads are honoured by every returned form."""
from . import eqlib as E

BOUNDS = "topologies: the listed families (1-3 trails, 1-3 trail edges each, 0-3 deviation edges, both orientations, shifted trails, up to 3 iterations with unequal-sequence deviation edges); all coordinates, loads, lengths, forces unconstrained reals; larger members (one trail of 8 and of 20 nodes, 6 and 12 trails in a ring, a ladder, a net, a shifted net) with the signs of lengths and forces alternating; special positions and equal values (collinear and mirrored origins, one length, force or load throughout)"
ASSUMPTIONS = ["edges with coincident end nodes excluded", "zero residual vectors explored in the one-trail families, cut in the others"]


def prescribed(h, cfg):
    m = E.build(h, cfg["spec"])
    form = E.solve(h, m, cfg["solver"], tmax=cfg.get("tmax", 100), eta=cfg.get("eta", 1e-6))
    xyz = E.all_coords(m, form)
    for n in m.nodes:
        if n in m.origin:
            h.check_vec("origin@%d" % n, xyz[n], m.xyz[n])
        h.check_vec("load@%d" % n, form.node_load(n), m.q[n])
        h.check("support@%d" % n, form.is_node_support(n) == (n in m.support))
        h.observe("x%d" % n, xyz[n])
    for (a, b), e in m.edge.items():
        L = m.length[(a, b)]
        f = form.edge_force(e)
        h.observe("f%d_%d" % (a, b), f)
        if m.plane[(a, b)] is not None:
            continue
        if cfg.get("zeros") and h.decide(f == 0):
            # no force, no direction: the edge collapses onto its start node
            continue
        h.check_eq("length@%d-%d" % (a, b), h.dist(xyz[a], xyz[b]), abs(L))
        h.check("sign@%d-%d" % (a, b), f * L > 0)
    for e, f in m.force.items():
        h.check_eq("force@%d-%d" % e, form.edge_force(e), f)


def tasks(tier):
    out = []

    def add(name, spec, **k):
        cfgk = {q: k.pop(q) for q in list(k) if q in ("tmax", "eta", "zeros")}
        for solver in ("plain", "numpy"):
            out.append(dict({"name": "%s/%s" % (name, solver), "fn": "prescribed", "cfg": dict({"spec": spec, "solver": solver}, **cfgk), "generic": not cfgk.get("zeros"), "budget": 60}, **k))
    for nm in ("ONE2", "ONE3"):
        add(nm + "-zeros", dict(getattr(E, nm), neg="sym"), zeros=True)
    for nm in ("ONE4", "TWO", "TWO_DD", "TWO_SUP", "UNEQ", "THREE", "SHIFT", "STAR", "KEYS", "LATE", "GAP", "BARE", "LONG", "AUX", "ORI", "ORI2", "TALL", "WIDE", "LADDER", "TALLER", "WIDER"):
        add(nm, getattr(E, nm))
    for nm in E.SPECIAL:
        add(nm, getattr(E, nm))
    for nm in ("IND1", "IND1R", "IND2", "INDX", "INDS", "MIX", "INDM", "AUX1", "NET", "NETS", "SAMEI"):
        add(nm, getattr(E, nm), tmax=2, eta=E.BIG)
    add("PLD", {"trails": [[0, 1, 2], [3, 4]], "dev": [(0, 3)], "planes": [(0, 1)], "plane_kind": "unit"})
    add("IND1-3", E.IND1, tmax=3, eta=E.BIG)
    if tier == "thorough":
        for nm in ("IND1R", "IND2", "INDX", "NET", "NETS"):
            add(nm + "-3", getattr(E, nm), tmax=3, eta=E.BIG, budget=600)
    return out
