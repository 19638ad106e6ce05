"""Trail planes: the end node of a trail edge with a plane lands on it."""
from . import eqlib as E

BOUNDS = "one or two trails with one or two planes in general position; coordinates, loads, lengths, plane points and normals unconstrained reals"
ASSUMPTIONS = ["start nodes already on the plane and zero residual vectors only in the axis-plane family"]

PL1 = {"trails": [[0, 1]], "planes": [(0, 1)]}
PL1R = {"trails": [[0, 1]], "planes": [(0, 1)], "rev": [(0, 1)], "neg": "pos"}
PL2 = {"trails": [[0, 1, 2]], "planes": [(1, 2)]}
PL2B = {"trails": [[0, 1, 2]], "planes": [(0, 1), (1, 2)], "rev": [(1, 2)]}
PLD = {"trails": [[0, 1], [2, 3]], "dev": [(0, 2)], "planes": [(0, 1)]}
PLI = {"trails": [[0, 1], [2, 3]], "dev": [(0, 3)], "planes": [(2, 3)]}


def plane(h, cfg):
    m = E.build(h, cfg["spec"])
    form = E.solve(h, m, cfg["solver"], tmax=cfg.get("tmax", 100), eta=cfg.get("eta", 1e-6))
    xyz = E.all_coords(m, form)
    for n in m.nodes:
        h.observe("x%d" % n, xyz[n])
    for (a, b), e in m.edge.items():
        pl = m.plane[(a, b)]
        if pl is None:
            if cfg.get("zeros") and h.decide(form.edge_force(e) == 0):
                continue
            h.check_eq("length@%d-%d" % (a, b), h.dist(xyz[a], xyz[b]), abs(m.length[(a, b)]))
            continue
        o, nv = [list(x) for x in pl]
        f = form.edge_force(e)
        h.check("finite@%d-%d" % (a, b), not any(h.is_nan(x) for x in xyz[b]) and not h.is_nan(f))
        if cfg.get("zeros") and h.decide(f == 0):
            continue
        # the force line through the start node, from the balance of the start node
        prev = [x for x, y in m.edge if y == a]
        r = [-q for q in m.q[a]]
        for (u, v), ee in list(m.edge.items()) + [(d, d) for d in m.force]:
            if (u, v) == (a, b) or a not in (u, v):
                continue
            w = v if u == a else u
            if cfg.get("zeros") and h.decide(form.edge_force(ee) == 0):
                continue
            uv = h.unit([x - y for x, y in zip(xyz[w], xyz[a])])
            g = form.edge_force(ee)
            r = [x - g * y for x, y in zip(r, uv)]
        d = h.unit(r)
        c = sum(x * y for x, y in zip(nv, d))
        num = sum(x * (y - z) for x, y, z in zip(nv, o, xyz[a]))
        ab = h.dist(xyz[a], xyz[b])
        onp = sum(x * (y - z) for x, y, z in zip(nv, xyz[b], o))
        on = h.decide(num == 0) if cfg.get("zeros") and h.symbolic else h.same(num, 0.0)
        if h.same(onp, 0.0) and not on:
            h.check_eq("on-plane@%d-%d" % (a, b), onp, 0.0)
            for i in range(3):
                h.check_eq("on-line@%d-%d[%d]" % (a, b, i), (xyz[b][i] - xyz[a][i]) * c, num * d[i])
            for i in range(3):
                h.check_eq("sign@%d-%d[%d]" % (a, b, i), f * (xyz[b][i] - xyz[a][i]), r[i] * ab)
        else:
            # not on the plane: only where the force line runs along the plane, or the start node is on it
            if not on:
                h.check("missed-plane@%d-%d" % (a, b), abs(c) < (1e-6 if h.symbolic else 1.000001e-6))
            h.check_eq("fallback@%d-%d" % (a, b), ab, abs(m.length[(a, b)]))
            h.check("fallback-sign@%d-%d" % (a, b), f * m.length[(a, b)] > 0)


def tasks(tier):
    out = []

    def add(name, spec, **k):
        cfgk = {q: k.pop(q) for q in list(k) if q in ("tmax", "eta", "zeros")}
        for solver in ("plain", "numpy"):
            out.append(dict({"name": "%s/%s" % (name, solver), "fn": "plane", "cfg": dict({"spec": spec, "solver": solver}, **cfgk), "generic": not cfgk.get("zeros"), "budget": 90}, **k))
    add("PL1", PL1)
    add("PL1R", PL1R)
    add("PL2", PL2)
    add("PL2B-axis", dict(PL2B, plane_kind="unit"))
    add("PLD", PLD)
    add("PLI-axis", dict(PLI, plane_kind="unit"), tmax=2, eta=E.BIG)
    if tier == "thorough":
        add("PL2B", PL2B, budget=600, z3_ms=20000)
        add("PLI", PLI, tmax=2, eta=E.BIG, budget=600, z3_ms=20000)
    add("PL1-axis-zeros", dict(PL1, plane_kind="unit"), zeros=True)
    add("PL1-normal-zeros", dict(PL1, plane_kind="axis", rev="sym"), zeros=True)
    add("PL2-axis-zeros", dict(PL2, plane_kind="unit", dim2=True, rev=[(1, 2)]), zeros=True)
    return out
