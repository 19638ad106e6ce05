"""Nodal force balance of every form returned by either solver."""
from . import eqlib as E

BOUNDS = "topologies: the listed families (1-3 trails, 1-3 trail edges each, 0-3 deviation edges, both edge orientations, shifted trails); all coordinates, loads, lengths, deviation forces are unconstrained reals; up to 2 extra iterations for unequal-sequence deviation edges; larger members (one trail of 8 and of 20 nodes, 6 and 12 trails in a ring, a ladder, a net, a shifted net) with the signs of lengths and forces alternating; special positions and equal values (collinear and mirrored origins, one length, force or load throughout)"
ASSUMPTIONS = ["edges with coincident end nodes have no direction and are excluded", "zero residual vectors are explored in the small families and cut in the large ones"]


def balance(h, cfg):
    m = E.build(h, cfg["spec"])
    form = E.solve(h, m, cfg["solver"], tmax=cfg.get("tmax", 100), eta=cfg.get("eta", 1e-6))
    xyz = E.all_coords(m, form)
    total = [0.0, 0.0, 0.0]
    for n in m.nodes:
        s = E.imbalance(h, m, form, xyz, n, cfg.get("zeros"))
        h.check_vec("balance@%d" % n, s, [0.0, 0.0, 0.0])
        q = m.q[n]
        total = [a + b for a, b in zip(total, q)]
        if n in m.support:
            total = [a + b for a, b in zip(total, form.reaction_force(n))]
        h.observe("x%d" % n, xyz[n])
    h.check_vec("global", total, [0.0, 0.0, 0.0])


def balance_lag(h, cfg):
    """unequal-sequence deviation edges: exact balance against the previous iteration's positions"""
    m = E.build(h, cfg["spec"])
    T = cfg["T"]
    form = E.solve(h, m, cfg["solver"], tmax=T + 1, eta=E.BIG)
    prev = E.solve(h, m, cfg["solver"], tmax=T, eta=E.BIG)
    xyz, pre = E.all_coords(m, form), E.all_coords(m, prev)
    for n in m.nodes:
        s = E.imbalance(h, m, form, xyz, n)
        h.check_any_vec("balance@%d" % n, s, E.lag_terms(h, m, form, xyz, pre, n))
        h.observe("x%d" % n, xyz[n])


def tasks(tier):
    out = []

    def add(name, fn, spec, **k):
        cfgk = {q: k.pop(q) for q in list(k) if q in ("tmax", "eta", "T", "zeros")}
        for solver in ("plain", "numpy"):
            out.append(dict({"name": "%s/%s" % (name, solver), "fn": fn, "cfg": dict({"spec": spec, "solver": solver}, **cfgk), "generic": True, "budget": 60}, **k))
    for nm in ("ONE2", "ONE3", "ONE4", "TWO", "TWO_DD", "TWO_SUP", "UNEQ", "THREE", "SHIFT", "STAR", "KEYS", "LATE", "GAP", "BARE", "LONG", "AUX", "ORI", "ORI2", "TALL", "WIDE", "LADDER", "TALLER", "WIDER"):
        add(nm, "balance", getattr(E, nm))
    for nm in E.SPECIAL:
        add(nm, "balance", getattr(E, nm))
    for nm in ("IND1", "IND1R", "IND2", "INDX", "MIX", "INDM", "AUX1", "NET", "NETS", "SAMEI"):
        add(nm, "balance_lag", getattr(E, nm), T=1)
    add("ONE3-zeros", "balance", E.ONE3, zeros=True, generic=False)
    add("PLD", "balance", {"trails": [[0, 1, 2], [3, 4]], "dev": [(0, 3)], "planes": [(0, 1)], "plane_kind": "unit"})
    add("PLR", "balance", {"trails": [[0, 1, 2]], "planes": [(1, 2)], "rev": [(1, 2)]})
    if tier == "thorough":
        for nm in ("IND1", "IND1R", "IND2", "INDX", "NET"):
            add(nm + "-2", "balance_lag", getattr(E, nm), T=2, budget=600)
    return out
