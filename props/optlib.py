"""A stand-in for the numerical optimizer library: it asks the real code for objective values and gradients at
points the harness chooses, and returns what the harness tells it to.  Also oracles for objectives."""
import contextlib
import sys

import nlopt
import numpy as np

from compas.geometry import Line, Plane, Point, Polyline, Vector

import compas_cem.optimization as O
from . import eqlib as E

REAL = nlopt.opt


class Stop(Exception):
    """ends a solve from inside the optimizer"""


class Opt:
    instances = []
    script = None

    def __init__(self, algorithm=None, dims=None):
        self.algorithm, self.dims = algorithm, dims
        self.calls = []
        self.f = None
        self.starts = []
        Opt.instances.append(self)

    def set_min_objective(self, f):
        self.f = f

    def __getattr__(self, name):
        if name.startswith("set_"):
            def g(*a):
                self.calls.append((name, a))
            return g
        raise AttributeError(name)

    def get(self, name):
        c = [a for n, a in self.calls if n == name]
        return c[-1][0] if c else None

    def get_lower_bounds(self):
        return self.get("set_lower_bounds")

    def get_upper_bounds(self):
        return self.get("set_upper_bounds")

    def optimize(self, x):
        self.starts.append(list(x))
        self.n = 0
        return Opt.script(self, x)

    def value(self, x, grad=None):
        self.n += 1
        g = np.zeros(0) if grad is None else grad
        return self.f(x, g)

    opt_value, result = 0.0, 1

    def last_optimum_value(self):
        return self.opt_value

    def get_numevals(self):
        return self.n

    def last_optimize_result(self):
        return self.result


@contextlib.contextmanager
def stub(script):
    """replace nlopt's optimizer object wherever the code has got hold of it"""
    Opt.instances, Opt.script = [], staticmethod(script)
    old = []
    for name, mod in list(sys.modules.items()):
        if mod is nlopt or name.startswith("compas_cem"):
            for k, v in list(vars(mod).items()):
                if v is REAL:
                    old.append((mod, k))
                    setattr(mod, k, Opt)
    try:
        yield Opt
    finally:
        for mod, k in old:
            setattr(mod, k, REAL)


def arr(h, xs):
    a = np.array(list(xs))
    if not h.symbolic:
        a = a.astype(float)
        a.setflags(write=False)
    return a


def buf(n):
    return np.zeros(n)


# --------------------------------------------------------------- parameters

PARAMS = {
    "x": (O.OriginNodeXParameter, "x"), "y": (O.OriginNodeYParameter, "y"), "z": (O.OriginNodeZParameter, "z"),
    "qx": (O.NodeLoadXParameter, "qx"), "qy": (O.NodeLoadYParameter, "qy"), "qz": (O.NodeLoadZParameter, "qz"),
    "length": (O.TrailEdgeParameter, "length"), "force": (O.DeviationEdgeParameter, "force"),
}


def key_of(key):
    return tuple(key) if isinstance(key, (list, tuple)) else key


def param(kind, key, low=None, up=None):
    return PARAMS[kind][0](key_of(key), low, up)


def read(topo, kind, key):
    name = PARAMS[kind][1]
    key = key_of(key)
    if isinstance(key, tuple):
        return topo.edge_attribute(key, name)
    return topo.node_attribute(key, name)


def put(topo, kind, key, value):
    name = PARAMS[kind][1]
    key = key_of(key)
    if isinstance(key, tuple):
        topo.edge_attribute(key, name, value)
    else:
        topo.node_attribute(key, name, value)


def attributes(topo):
    d = {}
    for n in sorted(topo.nodes()):
        for a in ("x", "y", "z", "qx", "qy", "qz", "type"):
            d[(n, a)] = topo.node_attribute(n, a)
    for e in sorted(topo.edges()):
        for a in ("length", "force", "type"):
            d[(tuple(e), a)] = topo.edge_attribute(e, a)
    return d


def same_attributes(h, label, topo, want):
    got = attributes(topo)
    h.check(label + ":keys", set(got) == set(want))
    for k, v in want.items():
        if k in got:
            if k[1] == "type":
                h.check("%s:%s" % (label, k[1]), got[k] == v, str(k))
            else:
                h.check_eq("%s:%s" % (label, k), got[k], v)


# --------------------------------------------------------------- constraints

def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def constraint(h, spec, j, scale=1):
    """-> (constraint object, oracle(form) -> penalty)"""
    kind, key = spec[0], key_of(spec[1])
    w = h.real("w%d" % j, 0, 4, positive=True) * scale
    if kind == "point":
        t = h.vec("t%d" % j)

        def pen(form):
            d = [a - b for a, b in zip(E.coords(form, key), t)]
            return w * (d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
        return O.PointConstraint(key, Point(*t), w), pen
    if kind == "reaction":
        t = h.vec("t%d" % j)

        def pen(form):
            d = [a - b for a, b in zip(form.reaction_force(key), t)]
            return w * (d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
        return O.ReactionForceConstraint(key, Vector(*t), w), pen
    if kind == "plane":
        o, v = h.vec("o%d" % j), h.vec("t%d" % j)
        v[1] = h.real("t%dn" % j, nonzero=True)

        def pen(form):
            k = dot(sub(E.coords(form, key), o), v)
            return w * k * k / dot(v, v)
        return O.PlaneConstraint(key, Plane(o, v), w), pen
    if kind == "line":
        a, d = h.vec("o%d" % j), h.vec("t%d" % j)
        d[2] = h.real("t%dn" % j, nonzero=True)
        b = [x + y for x, y in zip(a, d)]

        def pen(form):
            p = sub(E.coords(form, key), a)
            return w * (dot(p, p) - dot(p, d) * dot(p, d) / dot(d, d))
        return O.LineConstraint(key, Line(a, b), w), pen
    if kind == "direction":
        v = h.vec("t%d" % j)
        v[0] = h.real("t%dn" % j, nonzero=True)

        def pen(form):
            k = dot(h.unit(sub(E.coords(form, key[1]), E.coords(form, key[0]))), h.unit(v))
            if h.decide(k < 0):
                k = -k
            return w * (2 - 2 * k)
        return O.EdgeDirectionConstraint(key, Vector(*v), w), pen
    if kind == "polyline":
        pts = [[float(a) for a in p] for p in spec[2]]

        def pen(form):
            x = E.coords(form, key)
            best = None
            for a, b in zip(pts, pts[1:]):
                d, p = sub(b, a), sub(x, a)
                s = dot(d, p) / dot(d, d)
                y = a if h.decide(s < 0) else b if h.decide(s > 1) else [i + s * j for i, j in zip(a, d)]
                r = sub(x, y)
                q = dot(r, r)
                if best is None or h.decide(q < best):
                    best = q
            return w * best
        return O.PolylineConstraint(key, Polyline(pts), w), pen
    t = h.real("t%d" % j)
    if kind == "force":
        def pen(form):
            d = form.edge_force(key) - t
            return w * d * d
        return O.TrailEdgeForceConstraint(key, t, w), pen

    def pen(form):
        d = h.dist(E.coords(form, key[0]), E.coords(form, key[1])) - t
        return w * d * d
    return O.DeviationEdgeLengthConstraint(key, t, w), pen


def problem(h, cfg):
    """topology, optimizer, [(kind, key)], [oracle]"""
    m = E.build(h, cfg["spec"])
    opt = O.Optimizer()
    ps, pens = [], []
    bounds = []
    for i, p in enumerate(cfg["params"]):
        kind, key = p[:2]
        b = [None if c == "-" else 0.0 if c == "0" else h.real("b%d%s" % (i, "lu"[j])) for j, c in enumerate(p[2] if len(p) > 2 else "--")]
        bounds.append(b)
        opt.add_parameter(param(kind, key, *b))
        ps.append((kind, key_of(key)))
    for j, c in enumerate(cfg["constraints"]):
        obj, pen = constraint(h, c, j, cfg.get("weights", 1))
        opt.add_constraint(obj)
        pens.append(pen)
    m.bounds = bounds
    return m, opt, ps, pens


def at(h, m, ps, xs, solver="numpy", tmax=100, eta=1e-6):
    """the form of a copy of the topology whose parameters have the given values"""
    t = m.topo.copy()
    for (kind, key), x in zip(ps, xs):
        put(t, kind, key, x)
    f = E.static_equilibrium_numpy if solver == "numpy" else E.static_equilibrium
    with h.quiet():
        return f(t, tmax=tmax, eta=eta)


def xs_for(h, name, ps):
    out = []
    for i, (kind, key) in enumerate(ps):
        if kind == "length":
            out.append(h.real("%s%d" % (name, i), -4, 4, nonzero=True))
        elif kind == "force":
            out.append(h.real("%s%d" % (name, i), nonzero=True))
        else:
            out.append(h.real("%s%d" % (name, i)))
    return out


def special(h, m, name, ps, xs):
    """candidate values that are zero (lengths excepted) or the topology's own"""
    out = []
    for i, ((kind, key), x) in enumerate(zip(ps, xs)):
        how = h.choose("%s%d" % (name, i), ["any", "own"] if kind == "length" else ["any", "own", "zero"])
        out.append(x if how == "any" else read(m.topo, kind, key) if how == "own" else 0.0)
    return out


def same_form(h, label, form, ref, m):
    for n in m.nodes:
        h.check_vec("%s:xyz@%d" % (label, n), E.coords(form, n), E.coords(ref, n))
        h.check_vec("%s:reaction@%d" % (label, n), form.reaction_force(n), ref.reaction_force(n))
        h.check_vec("%s:load@%d" % (label, n), form.node_load(n), ref.node_load(n))
    for e in list(m.edge.values()) + list(m.force):
        h.check_eq("%s:force@%d-%d" % ((label,) + tuple(e)), form.edge_force(e), ref.edge_force(e))
        h.check_eq("%s:length@%d-%d" % ((label,) + tuple(e)), form.edge_attribute(e, "length"), ref.edge_attribute(e, "length"))
