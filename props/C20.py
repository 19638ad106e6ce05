"""Penalties: the weighted squared distance between what the form has and what the constraint asks for."""
from compas.geometry import Line, Plane, Point, Polyline, Vector

from compas_cem.equilibrium.force_numpy import equilibrium_state_numpy
from compas_cem.optimization import (DeviationEdgeLengthConstraint, EdgeDirectionConstraint, LineConstraint, PlaneConstraint, PointConstraint,
                                     PolylineConstraint, ReactionForceConstraint, TrailEdgeForceConstraint)
from . import eqlib as E

BOUNDS = "each of the eight constraint kinds on a two-trail form with arbitrary real data; target points, vectors, planes, lines, lengths, forces and weights arbitrary reals; polylines of 1 to 3 segments with fixed vertices (one length symbolic) against an arbitrary node position, of 4 and 5 segments against an arbitrary position on a line; a constraint evaluated on two forms in turn; both ways of giving a target (objects, lists)"
ASSUMPTIONS = ["directions, normals, lines and segments are not degenerate", "edges with coincident end nodes and zero residual vectors excluded"]

SPEC = {"trails": [[0, 1], [2, 3]], "dev": [(0, 2)], "rev": [(2, 3)]}


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def setup(h, cfg):
    m = E.build(h, dict(SPEC, **cfg.get("spec", {})))
    form = E.solve(h, m, "numpy")
    with h.quiet():
        state = equilibrium_state_numpy(m.topo)
    w = h.real("w", 0, 4, positive=True)
    return m, form, state, w


def another(h, cfg):
    """a second form of the same topology, with other data"""
    m = E.build(E.Named(h, "n"), dict(SPEC, **cfg.get("spec", {})))
    with h.quiet():
        return E.solve(h, m, "numpy"), equilibrium_state_numpy(m.topo)


def make(cls, key, target, w):
    c = cls(key, target, w)
    c.plain = cls(key, target)
    return c


def evaluate(h, c, state, w):
    """the penalty, the same however often it is asked for; the weight is one unless given"""
    got = c.penalty(state)
    h.check_eq("again", c.penalty(state), got)
    h.check_eq("default-weight", c.plain.weight, 1.0)
    h.check_eq("weight-scales", got, w * c.plain.penalty(state))
    return got


def nodal(h, cfg):
    m, form, state, w = setup(h, cfg)
    n = cfg["node"]
    kind = cfg["kind"]
    obj = cfg.get("obj", True)
    if kind == "point":
        t = h.vec("t")
        c = make(PointConstraint, n, Point(*t) if obj else t, w)

        def want(form):
            d = sub(E.coords(form, n), t)
            return dot(d, d)
    elif kind == "plane":
        o, v = h.vec("o"), h.vec("v")
        v[1] = h.real("vy", nonzero=True)
        c = make(PlaneConstraint, n, Plane(o, v) if obj else (o, v), w)

        def want(form):
            k = dot(sub(E.coords(form, n), o), v)
            return k * k / dot(v, v)
    elif kind == "line":
        a, b = h.vec("a"), h.vec("b")
        d = sub(b, a)
        h.assume(dot(d, d) > 0)
        c = make(LineConstraint, n, Line(a, b) if obj else (a, b), w)

        def want(form):
            p = sub(E.coords(form, n), a)
            return dot(p, p) - dot(p, d) * dot(p, d) / dot(d, d)
    else:
        t = h.vec("t")
        c = make(ReactionForceConstraint, n, Vector(*t) if obj else t, w)

        def want(form):
            d = sub(form.reaction_force(n), t)
            return dot(d, d)
    decide(h, cfg, c, form, state, w, want)
    h.check("weight", h.same(c.weight, w))


def decide(h, cfg, c, form, state, w, want):
    got = evaluate(h, c, state, w)
    h.check_eq("penalty", got, w * want(form))
    h.observe("penalty", got)
    if cfg.get("moved"):
        form, state = another(h, cfg)
        got = c.penalty(state)
        h.check_eq("moved", got, w * want(form))
        h.observe("moved", got)


def edges(h, cfg):
    m, form, state, w = setup(h, cfg)
    e = tuple(cfg["edge"])
    kind = cfg["kind"]
    if kind == "direction":
        v = h.vec("v")
        v[0] = h.real("vx", nonzero=True)
        c = make(EdgeDirectionConstraint, e, Vector(*v) if cfg.get("obj") else v, w)

        def want(form):
            # the angle to the line along the vector, whichever way it points
            k = dot(h.unit(sub(E.coords(form, e[1]), E.coords(form, e[0]))), h.unit(v))
            return 2 - 2 * (-k if h.decide(k < 0) else k)
    elif kind == "length":
        L = h.real("t")
        c = make(DeviationEdgeLengthConstraint, e, L, w)

        def want(form):
            d = h.norm(sub(E.coords(form, e[1]), E.coords(form, e[0]))) - L
            return d * d
    else:
        f = h.real("t")
        c = make(TrailEdgeForceConstraint, e, f, w)

        def want(form):
            d = form.edge_force(e) - f
            return d * d
    decide(h, cfg, c, form, state, w, want)


def polyline(h, cfg):
    m, form, state, w = setup(h, cfg)
    n = cfg.get("node", 0)
    x = E.coords(form, n)
    pts = []
    for k in range(cfg["segments"] + 1):
        if cfg.get("fixed"):
            # letters stand for positive reals
            p = [h.real("v" + v, 0, 4, positive=True) if isinstance(v, str) else float(v) for v in cfg["fixed"][k]]
        else:
            p = h.vec("v%d" % k)
            p[2] = 0.0
        pts.append(p)
    for a, b in zip(pts, pts[1:]):
        d = sub(b, a)
        if not cfg.get("fixed"):
            h.assume(dot(d, d) > 0)
    c = make(PolylineConstraint, n, Polyline(pts) if cfg.get("obj") else pts, w)
    got = evaluate(h, c, state, w)
    # distance to the polyline: attained on a segment, and no point of any segment is closer
    alts = []
    for a, b in zip(pts, pts[1:]):
        d, p = sub(b, a), sub(x, a)
        s = dot(d, p) / dot(d, d)
        if h.decide(s < 0):
            y = a
        elif h.decide(s > 1):
            y = b
        else:
            y = [i + s * j for i, j in zip(a, d)]
        r = sub(x, y)
        alts.append(w * dot(r, r))
    if not any(h.same(got, q) for q in alts):
        for k, q in enumerate(alts):
            if k == len(alts) - 1 or h.decide(q <= alts[k + 1]):
                h.check_eq("attained", got, q)
                break
    else:
        for k, q in enumerate(alts):
            if h.same(got, q):
                h.check_eq("attained", got, q)
            else:
                h.check("closest", got <= q)
    h.observe("penalty", got)


def tasks(tier):
    out = []
    G = {"generic": True, "budget": 60}
    for kind in ("point", "plane", "line"):
        for n in (0, 3):
            out.append(dict({"name": "%s@%d" % (kind, n), "fn": "nodal", "cfg": {"kind": kind, "node": n, "obj": n == 0}}, **G))
    for n in (1, 3):
        out.append(dict({"name": "reaction@%d" % n, "fn": "nodal", "cfg": {"kind": "reaction", "node": n, "obj": n == 1}}, **G))
    for e in ((0, 2), (2, 0), (0, 1), (3, 2)):
        out.append(dict({"name": "direction@%d-%d" % e, "fn": "edges", "cfg": {"kind": "direction", "edge": e, "obj": e[0] == 0}}, **G))
    for e in ((0, 2), (2, 0)):
        out.append(dict({"name": "length@%d-%d" % e, "fn": "edges", "cfg": {"kind": "length", "edge": e}}, **G))
    for e in ((0, 1), (3, 2)):
        out.append(dict({"name": "force@%d-%d" % e, "fn": "edges", "cfg": {"kind": "force", "edge": e}}, **G))
    M = {"neg": "mixed", "fneg": "mixed"}
    for kind, n in (("point", 1), ("plane", 1), ("line", 3), ("reaction", 3)):
        out.append(dict({"name": "%s@%d-moved" % (kind, n), "fn": "nodal", "cfg": {"kind": kind, "node": n, "obj": n == 1, "moved": True, "spec": M}}, **G))
    for kind, e in (("direction", (0, 1)), ("length", (0, 2)), ("force", (3, 2))):
        out.append(dict({"name": "%s-moved" % kind, "fn": "edges", "cfg": {"kind": kind, "edge": e, "moved": True, "spec": M}}, **G))
    flat = {"spec": dict(M, dim2=True)}
    F = dict(G, policy="full", budget=100)
    out.append(dict({"name": "polyline1", "fn": "polyline", "cfg": dict(segments=1, obj=True, fixed=[[0, 0, 0], ["a", 0, 0]])}, **F))
    out.append(dict({"name": "polyline1-skew", "fn": "polyline", "cfg": dict(flat, segments=1, fixed=[[1, -1, 0], [3, 2, 0]])}, **F))
    out.append(dict({"name": "polyline2", "fn": "polyline", "cfg": dict(flat, segments=2, fixed=[[0, 0, 0], [2, 0, 0], [2, 3, 0]], obj=True)}, **F))
    zig = [[0, 0, 0], [1, 1, 0], [2, 0, 0], [3, 1, 0], [4, 0, 0], [5, 1, 0]]
    line = {"spec": dict(M, dim1=True)}
    out.append(dict({"name": "polyline4", "fn": "polyline", "cfg": dict(line, segments=4, fixed=zig[:5], obj=True)}, **F))
    out.append(dict({"name": "polyline5", "fn": "polyline", "cfg": dict(line, segments=5, fixed=zig)}, **F))
    out.append(dict({"name": "polyline5-closed", "fn": "polyline", "cfg": dict(line, segments=5, fixed=[[0, 0, 0], [2, -1, 0], [3, 1, 1], [2, 3, 0], [0, 2, 1], [0, 0, 0]])}, **F))
    out.append(dict({"name": "polyline3", "fn": "polyline", "cfg": dict(flat, segments=3, fixed=[[0, 0, 0], [2, 0, 0], [2, 2, 0], [0, 2, 0]])}, **F))
    if tier == "thorough":
        F = dict(F, budget=900, weight=9)
        out.append(dict({"name": "polyline2-back", "fn": "polyline", "cfg": dict(segments=2, fixed=[[0, 0, 0], [0, 0, 2], [0, 1, 2]], node=2)}, **F))
        out.append(dict({"name": "polyline2-free", "fn": "polyline", "cfg": dict(flat, segments=2, fixed=[[0, 0, 0], ["a", 0, 0], ["a", "b", 0]])}, **F))
        out.append(dict({"name": "polyline2-3d", "fn": "polyline", "cfg": dict(segments=2, fixed=[[0, 0, 0], [2, 0, 0], [2, 1, 3]], obj=True)}, **F))
        out.append(dict({"name": "polyline1-end", "fn": "polyline", "cfg": dict(segments=1, fixed=[[0, 0, 0], ["a", 0, 0]], node=3)}, **F))
    return out
