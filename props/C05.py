"""The plain and the numpy solver return the same form."""
from . import eqlib as E

BOUNDS = "topologies: the listed families (1-3 trails, 1-3 trail edges each, 0-3 deviation edges, planes, shifted trails, up to 3 iterations with unequal-sequence deviation edges); all numeric data unconstrained reals, zero residual vectors included in the small families; larger members (one trail of 8 and of 20 nodes, 6 and 12 trails in a ring, a ladder, a net, a shifted net) with the signs of lengths and forces alternating; special positions and equal values (collinear and mirrored origins, one length, force or load throughout)"
ASSUMPTIONS = ["edges with coincident end nodes excluded", "zero residual vectors cut in the large families"]


def agree(h, cfg):
    m = E.build(h, cfg["spec"])
    for u, v in m.force:
        if not h.symbolic or cfg.get("distinct"):
            d = [a - b for a, b in zip(m.xyz[u], m.xyz[v])]
            if u in m.origin and v in m.origin:
                h.assume(d[0] * d[0] + d[1] * d[1] + d[2] * d[2] > 0)
    k = dict(tmax=cfg.get("tmax", 100), eta=cfg.get("eta", 1e-6))
    a, ea = h.call(E.solve, h, m, "plain", **k)
    b, eb = h.call(E.solve, h, m, "numpy", **k)
    if cfg.get("eta") is not None and (ea is not None) and (eb is not None):
        return
    h.check("both-solve", ea is None and eb is None, "%r %r" % (ea, eb))
    if ea is not None or eb is not None:
        return
    h.check("same-nodes", sorted(a.nodes()) == sorted(b.nodes()) and sorted(a.edges()) == sorted(b.edges()))
    for n in m.nodes:
        x, y = E.coords(a, n), E.coords(b, n)
        h.check("finite@%d" % n, not any(h.is_nan(c) for c in y))
        h.check_vec("x@%d" % n, x, y)
        h.check_vec("r@%d" % n, a.reaction_force(n), b.reaction_force(n))
        h.observe("x%d" % n, x)
    for e in a.edges():
        h.check_eq("f@%d-%d" % e, a.edge_force(e), b.edge_force(e))
        h.check_eq("L@%d-%d" % e, abs(a.edge_length_2(e)), abs(b.edge_length_2(e)))
        h.check("Ls@%d-%d" % e, a.edge_length_2(e) * b.edge_length_2(e) >= 0)


def tasks(tier):
    out = []

    def add(name, spec, **k):
        cfgk = {q: k.pop(q) for q in list(k) if q in ("tmax", "eta", "distinct")}
        out.append(dict({"name": name, "fn": "agree", "cfg": dict({"spec": spec}, **cfgk), "generic": True, "budget": 60}, **k))
    add("ONE2-zeros", dict(E.ONE2), generic=False)
    add("ONE3-zeros", dict(E.ONE3), generic=False)
    add("TWO-zeros", dict(E.TWO, zero_dev=True), distinct=True, generic=False)
    for nm in ("ONE4", "TWO_DD", "TWO_SUP", "UNEQ", "THREE", "SHIFT", "STAR", "KEYS", "LATE", "GAP", "BARE", "LONG", "AUX", "ORI", "ORI2", "TALL", "WIDE", "LADDER", "TALLER", "WIDER"):
        add(nm, getattr(E, nm))
    for nm in E.SPECIAL:
        add(nm, getattr(E, nm))
    for nm in ("IND1", "IND1R", "IND2", "INDX", "INDS", "MIX", "INDM", "AUX1", "NET", "NETS", "SAMEI"):
        add(nm, getattr(E, nm), tmax=2, eta=E.BIG)
    for nm in ("IND1", "IND1R", "INDX", "NET"):
        add(nm + "-3", getattr(E, nm), tmax=3, eta=float("nan"))
    add("PL1", {"trails": [[0, 1]], "planes": [(0, 1)]})
    add("PL1-zeros", {"trails": [[0, 1]], "planes": [(0, 1)], "plane_kind": "unit"}, generic=False)
    add("PL2", {"trails": [[0, 1, 2]], "planes": [(1, 2)], "rev": [(1, 2)]})
    add("PL2B", {"trails": [[0, 1, 2]], "planes": [(0, 1), (1, 2)], "plane_kind": "unit"})
    add("PLD", {"trails": [[0, 1], [2, 3]], "dev": [(0, 2)], "planes": [(0, 1)]})
    return out
