"""The gradient handed to the numerical optimizer is the gradient of the objective handed to it."""
from . import eqlib as E
from . import optlib as L

BOUNDS = "one- and two-trail families (1-3 trail edges, 0-2 deviation edges, planes), 1-4 parameters of every kind, 1-3 constraints of four kinds, up to two evaluations at arbitrary real candidates; finite differences at an arbitrary positive step size"
ASSUMPTIONS = ["the numerical optimizer library is replaced by a stand-in that asks for objective and gradient at chosen points",
               "edges with coincident end nodes and zero residual vectors, where the objective is not differentiable, excluded"]


def gradient(h, cfg):
    m, opt, ps, pens = L.problem(h, cfg)
    mode = cfg.get("grad", "AD")
    step = h.real("step", 0, 1, positive=True) if mode == "FD" else None
    got = []

    def script(o, x):
        for k in range(cfg.get("evals", 1)):
            xs = L.xs_for(h, "c%d_" % k, ps)
            x = L.arr(h, xs)
            g = L.buf(len(ps))
            v = o.value(x, g)
            got.append((xs, v, list(g), list(x)))
            if cfg.get("plain"):
                got.append((xs, o.value(L.arr(h, xs)), None, xs))
        raise L.Stop()
    kw = {"grad": mode}
    if step is not None:
        kw["step_size"] = step
    with L.stub(script), h.quiet():
        r, e = h.call(opt.solve, m.topo.copy(), **kw)
    h.check("ran", isinstance(e, L.Stop), repr(e))

    def f(xs):
        form = L.at(h, m, ps, xs)
        t = 0.0
        for pen in pens:
            t = t + pen(form)
        return t
    for k, (xs, v, g, x) in enumerate(got):
        h.check_vec("candidate%d" % k, x, xs)
        h.observe("f%d" % k, v)
        if g is None:
            h.check_eq("value%d" % k, v, got[k - 1][1])
            continue
        h.observe("g%d" % k, g)
        h.check("length%d" % k, len(g) == len(xs))
        if mode == "AD":
            for i in range(len(xs)):
                h.check_grad("gradient%d_%d" % (k, i), g[i], v, xs, i, f)
        else:
            f0 = f(xs)
            for i in range(len(xs)):
                ys = list(xs)
                ys[i] = ys[i] + step
                h.check_eq("difference%d_%d" % (k, i), g[i] * step, f(ys) - f0)


def near(h, cfg):
    """at a candidate next to the one before, the objective and the gradient are those of a fresh problem"""
    m, opt, ps, pens = L.problem(h, cfg)
    x0 = L.xs_for(h, "c", ps)
    step = [1 + 2.0 ** -cfg["bits"] if cfg["which"] in (None, i) else 1.0 for i in range(len(ps))]
    x1 = [a * b for a, b in zip(x0, step)]

    def run(o, points):
        got = []

        def script(s, x):
            for p in points:
                g = L.buf(len(ps))
                got.append((s.value(L.arr(h, p), g), list(g)))
            raise L.Stop()
        with L.stub(script), h.quiet():
            _, e = h.call(o.solve, m.topo.copy(), grad=cfg.get("grad", "AD"))
        h.check("ran", isinstance(e, L.Stop), repr(e))
        return got
    got = run(opt, [x0, x1])
    o = L.O.Optimizer()
    for p in opt.parameters.values():
        o.add_parameter(p)
    for c in opt.constraints.values():
        o.add_constraint(c)
    want = run(o, [x1])
    if len(got) == 2 and want:
        (v, g), (w, q) = got[1], want[0]
        h.check_eq("value", v * 1000, w * 1000)
        h.check("size", len(g) == len(q) == len(ps))
        for i, (a, b) in enumerate(zip(g, q)):
            h.check_eq("gradient%d" % i, a * 1000, b * 1000)
        h.observe("g", g)


TWO = {"trails": [[0, 1], [2, 3]], "dev": [(0, 2)], "rev": [(2, 3)]}
ONE = {"trails": [[0, 1, 2]]}


def tasks(tier):
    G = {"generic": True, "budget": 90}
    out = []

    def add(name, spec, params, cons, **k):
        b = {q: k.pop(q) for q in list(k) if q in ("budget", "weight", "naming", "fn")}
        out.append(dict(dict({"name": name, "fn": "gradient", "cfg": dict({"spec": spec, "params": params, "constraints": cons}, **k)}, **G), **b))
    add("ad-origin", ONE, [["x", 0], ["y", 0], ["z", 0]], [["point", 2]])
    add("ad-load", ONE, [["qx", 0], ["qy", 1], ["qz", 2]], [["point", 1], ["reaction", 2]])
    add("ad-edges", TWO, [["length", [0, 1]], ["force", [0, 2]], ["length", [3, 2]]], [["point", 1], ["point", 3]])
    add("ad-force-length", TWO, [["force", [0, 2]], ["x", 2], ["qy", 0]], [["force", [3, 2]], ["length", [0, 2]]])
    add("ad-plane", TWO, [["force", [0, 2]], ["z", 0], ["length", [0, 1]]], [["plane", 1], ["reaction", 3]])
    add("ad-line", TWO, [["force", [0, 2]], ["qx", 2]], [["line", 3]])
    add("ad-direction", TWO, [["y", 0], ["x", 2]], [["direction", [0, 2]]])
    add("ad-direction-trail", ONE, [["qz", 0]], [["direction", [1, 0]]])
    add("ad-direction-trail2", ONE, [["qx", 1]], [["direction", [2, 1]]])
    add("ad-polyline", ONE, [["x", 0], ["qy", 0], ["length", [0, 1]]], [["polyline", 1, [[0, 0, 0], [2, 0, 0], [2, 3, 0]]]])
    add("ad-twice", TWO, [["length", [0, 1]], ["force", [0, 2]]], [["point", 1]], evals=2, plain=True)
    add("ad-same", TWO, [["force", [0, 2]], ["force", [0, 2]], ["x", 0], ["y", 0], ["x", 0]], [["point", 1]])
    add("ad-trailplane", {"trails": [[0, 1, 2]], "planes": [(0, 1)]}, [["z", 0], ["qx", 0], ["length", [1, 2]]], [["point", 2]])
    add("ad-shift", {"trails": [[0, 1], [2, 3, 4]], "dev": [(0, 4)]}, [["force", [0, 4]]], [["point", 1]])
    add("near-edges", TWO, [["force", [0, 2]], ["length", [0, 1]]], [["point", 1]], fn="near", bits=17, which=None)
    add("near-origin", TWO, [["x", 0], ["z", 2]], [["point", 1]], fn="near", bits=18, which=1)
    add("near-load", TWO, [["qx", 0], ["qy", 2]], [["point", 3]], fn="near", bits=12, which=0)
    add("near-fd", TWO, [["force", [0, 2]], ["y", 0]], [["point", 1]], fn="near", bits=17, which=None, grad="FD")
    add("fd-origin", ONE, [["x", 0], ["y", 0]], [["point", 2]], grad="FD")
    add("fd-edges", TWO, [["length", [0, 1]], ["force", [0, 2]]], [["point", 1]], grad="FD")
    return out
