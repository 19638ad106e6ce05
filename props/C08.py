"""kmax: equilibrium is calculated up to sequence kmax only."""
from . import eqlib as E

BOUNDS = "families of 1-3 trails with up to 3 trail edges each and equal-sequence deviation edges, shifted trails included; kmax every value from 0 to two past the last sequence; all numeric data unconstrained reals; larger members (one trail of 8 and of 20 nodes, 6 and 12 trails in a ring, a ladder, a net, a shifted net) with the signs of lengths and forces alternating"
ASSUMPTIONS = ["edges with coincident end nodes and zero residual vectors excluded"]


def truncated(h, cfg):
    m = E.build(h, cfg["spec"])
    last = max(m.seq.values())
    kmax = h.ints("kmax", 0, last + 2)
    full = E.solve(h, m, "plain")
    form = E.solve(h, m, "plain", kmax=kmax)
    for n in m.nodes:
        x = E.coords(form, n)
        h.observe("x%d" % n, x)
        if m.seq[n] <= kmax:
            h.check_vec("x@%d" % n, x, E.coords(full, n))
        else:
            h.check_vec("beyond@%d" % n, x, m.xyz[n])
    for (a, b), e in m.edge.items():
        f = form.edge_force(e)
        if m.seq[b] <= kmax:
            h.check_eq("f@%d-%d" % (a, b), f, full.edge_force(e))
        else:
            h.check_eq("f-beyond@%d-%d" % (a, b), f, 0.0)
    xyz = E.all_coords(m, form)
    for n in m.nodes:
        if m.seq[n] > kmax:
            h.check_vec("r-beyond@%d" % n, form.reaction_force(n), [0.0, 0.0, 0.0])
            continue
        # nodes at the last processed sequence are held in place by a reaction
        s = form.node_load(n)
        s = [a + b for a, b in zip(s, form.reaction_force(n))]
        for (a, b), e in list(m.edge.items()) + [(e, e) for e in m.force]:
            if n not in (a, b):
                continue
            o = b if n == a else a
            if m.seq[o] > kmax:
                continue
            f = form.edge_force(e)
            u = h.unit([p - q for p, q in zip(xyz[o], xyz[n])])
            s = [p + f * q for p, q in zip(s, u)]
        h.check_vec("balance@%d" % n, s, [0.0, 0.0, 0.0])
        if m.seq[n] < kmax and n not in m.support:
            h.check_vec("no-r@%d" % n, form.reaction_force(n), [0.0, 0.0, 0.0])


def negative(h, cfg):
    m = E.build(h, cfg["spec"])
    k = h.ints("k", -3, -1)
    _, e = h.call(E.solve, h, m, "plain", kmax=k)
    h.check("rejected", isinstance(e, (AssertionError, ValueError)), repr(e))


def tasks(tier):
    out = []
    for nm in ("ONE2", "ONE3", "ONE4", "TWO", "TWO_DD", "TWO_SUP", "UNEQ", "THREE", "SHIFT", "STAR", "KEYS", "LATE", "GAP", "BARE", "LONG", "AUX", "ORI", "ORI2", "TALL", "WIDE", "LADDER", "TALLER", "WIDER"):
        out.append({"name": nm, "fn": "truncated", "cfg": {"spec": getattr(E, nm)}, "generic": True, "budget": 200 if nm == "STAR" else 90, "weight": 3 if nm == "STAR" else 1})
    out.append({"name": "negative", "fn": "negative", "cfg": {"spec": E.TWO}, "generic": True})
    return out
