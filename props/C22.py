"""Where a search starts, how far it may go, and when it stops."""
import nlopt
import numpy as np

from . import eqlib as E
from . import optlib as L

BOUNDS = "two-trail families, 1-6 parameters of all eight kinds with every combination of given, zero and missing bounds, all values arbitrary reals (bounds of either sign); all six algorithms; iteration limits and thresholds arbitrary or missing; up to two solves in a row, the first of them stopped or finished at an arbitrary optimum, with edits in between"
ASSUMPTIONS = ["the numerical optimizer library is replaced by a stand-in that records what it is given"]

ALGORITHMS = {"SLSQP": nlopt.LD_SLSQP, "MMA": nlopt.LD_MMA, "LBFGS": nlopt.LD_LBFGS, "TNEWTON": nlopt.LD_TNEWTON, "VAR": nlopt.LD_VAR2, "AUGLAG": nlopt.LD_AUGLAG}
INF = float("inf")


def mag(h, x):
    return -x if h.decide(x < 0) else x


def inspect(h, tag, o, cfg, ps, bounds, values, x, kw):
    n = len(ps)
    h.check(tag + "dimension", o.dims == n and len(list(x)) == n, "%r" % (o.dims,))
    h.check_vec(tag + "start", list(x), values)
    low, up = o.get("set_lower_bounds"), o.get("set_upper_bounds")
    h.check(tag + "bounds", low is not None and up is not None and len(low) == n and len(up) == n)
    for i in range(n):
        bl, bu = bounds[i]
        if bl is None:
            h.check("%slow%d" % (tag, i), low[i] == -INF, repr(low[i]))
        else:
            h.check_eq("%slow%d" % (tag, i), low[i], values[i] - mag(h, bl))
        if bu is None:
            h.check("%sup%d" % (tag, i), up[i] == INF, repr(up[i]))
        else:
            h.check_eq("%sup%d" % (tag, i), up[i], values[i] + mag(h, bu))
    h.check(tag + "algorithm", o.algorithm == ALGORITHMS[cfg.get("algorithm", "SLSQP")], "%r" % (o.algorithm,))
    h.check(tag + "iterations", o.get("set_maxeval") == kw.get("iters", 100))
    for name, call, default in (("eps", "set_stopval", 1e-6), ("kappa", "set_ftol_abs", 1e-8)):
        v = kw.get(name, default)
        if v is None:
            h.check(tag + name, o.get(call) is None)
        else:
            h.check(tag + name + ":set", o.get(call) is not None)
            h.check_eq(tag + name, o.get(call), v)
    if cfg.get("algorithm") == "AUGLAG":
        sub = o.get("set_local_optimizer")
        h.check(tag + "subsidiary", sub is not None and sub.dims == n)
    h.check(tag + "minimise", o.f is not None)


def start(h, cfg):
    m, opt, ps, pens = L.problem(h, cfg)
    kw = {}
    if cfg.get("limits"):
        kw = {"iters": h.choose("iters", [1, 7, 250]), "eps": h.choose("eps", ["none", "some", "zero"]), "kappa": h.choose("kappa", ["none", "some", "zero"])}
        for k in ("eps", "kappa"):
            kw[k] = None if kw[k] == "none" else 0.0 if kw[k] == "zero" else h.real(k, 0, 1, positive=True)
    if cfg.get("algorithm"):
        kw["algorithm"] = cfg["algorithm"]
    topo = m.topo.copy() if not cfg.get("inplace") else m.topo
    bounds = list(m.bounds)
    seen = []

    def script(o, x):
        values = [L.read(topo, k, key) for k, key in ps]
        seen.append((o, list(x), values))
        if not cfg.get("finish"):
            raise L.Stop()
        best = L.xs_for(h, "best%d_" % len(seen), ps)
        if cfg.get("evals"):
            o.value(L.arr(h, best))
        if cfg["finish"] == "roundoff":
            raise nlopt.RoundoffLimited("roundoff")
        return np.array(best)
    for r in range(cfg.get("rounds", 1)):
        tag = "" if r == 0 else "again:"
        want = [L.read(topo, k, key) for k, key in ps]
        with L.stub(script), h.quiet():
            _, e = h.call(opt.solve, topo, **kw)
        h.check(tag + "ran", e is None if cfg.get("finish") else isinstance(e, L.Stop), repr(e))
        o, x, now = seen[-1]
        h.check_vec(tag + "unchanged", now, want)
        inspect(h, tag, o, cfg, ps, bounds, want, x, kw)
        h.observe(tag + "x", x)
        if r + 1 < cfg.get("rounds", 1):
            # the topology and the problem change between solves
            for i, v in enumerate(L.xs_for(h, "new", ps)):
                if cfg.get("only") is None or i == cfg["only"]:
                    L.put(topo, ps[i][0], ps[i][1], v)
            for ed in cfg.get("edits", []):
                if ed[0] == "-":
                    opt.remove_parameter(ed[1])
                    ps.pop(ed[1])
                    bounds.pop(ed[1])
                else:
                    b = [h.real("bnewl"), None]
                    opt.add_parameter(L.param(ed[1], ed[2], *b))
                    ps.append((ed[1], L.key_of(ed[2])))
                    bounds.append(b)


def refuse(h, cfg):
    """problems that cannot be solved are errors, before the optimizer library is asked anything"""
    m, opt, ps, pens = L.problem(h, cfg)
    for k in range(cfg.get("drop_p", 0)):
        opt.remove_parameter(k)
    for k in range(cfg.get("drop_c", 0)):
        opt.remove_constraint(k)
    before = L.attributes(m.topo)
    ran = []

    def script(o, x):
        ran.append(1)
        raise L.Stop()
    with L.stub(script), h.quiet():
        _, e = h.call(opt.solve, m.topo, **cfg.get("kw", {}))
    h.check("error", isinstance(e, (ValueError, KeyError)), repr(e))
    h.check("not-run", not ran)
    L.same_attributes(h, "untouched", m.topo, before)
    h.observe("n", len(ran))


def unknown(h, cfg):
    """removing what is not there is an error and removes nothing"""
    m, opt, ps, pens = L.problem(h, cfg)
    n = h.ints("key", -2, len(ps) + 2)
    _, e = h.call(opt.remove_parameter, n)
    ok = 0 <= n < len(ps)
    h.check("parameter", (e is None) == ok and opt.number_of_parameters() == len(ps) - (1 if ok else 0), repr(e))
    n = h.ints("ckey", -2, len(pens) + 2)
    _, e = h.call(opt.remove_constraint, n)
    ok = 0 <= n < len(pens)
    h.check("constraint", (e is None) == ok and opt.number_of_constraints() == len(pens) - (1 if ok else 0), repr(e))
    h.observe("n", opt.number_of_parameters())


TWO = {"trails": [[0, 1], [2, 3]], "dev": [(0, 2)], "rev": [(2, 3)]}


def tasks(tier):
    G = {"budget": 90}
    out = []

    def add(name, params, fn="start", cons=(("point", 1),), **k):
        g = {q: k.pop(q) for q in list(k) if q in ("generic",)}
        out.append(dict({"name": name, "fn": fn, **g, "cfg": dict({"spec": TWO, "params": params, "constraints": [list(c) for c in cons]}, **k)}, **G))
    add("nodes", [["x", 0, "bb"], ["y", 2, "-b"], ["z", 0, "b-"]])
    add("nodes0", [["x", 2, "--"], ["y", 0, "0b"], ["z", 2, "b0"]])
    add("loads", [["qx", 0, "bb"], ["qy", 3, "-b"], ["qz", 1, "b-"]])
    add("edges", [["length", [0, 1], "bb"], ["force", [0, 2], "bb"], ["length", [3, 2], "b-"]])
    add("edges0", [["force", [0, 2], "-b"], ["length", [0, 1], "--"]])
    for a in ALGORITHMS:
        add("algorithm-" + a, [["x", 0, "bb"], ["force", [0, 2], "--"]], algorithm=a)
    add("limits", [["x", 0]], limits=True)
    add("again", [["x", 0, "bb"], ["length", [0, 1], "b-"], ["qz", 2, "-b"]], rounds=2)
    add("again-one", [["x", 0, "bb"], ["force", [0, 2], "bb"]], rounds=2, only=1, inplace=True)
    add("again-edited", [["x", 0, "bb"], ["force", [0, 2], "b-"], ["y", 2, "-b"]], rounds=2, edits=[["-", 1], ["+", "qx", 0]])
    # the first search ends with an optimum, which is not where the next one starts
    add("finished", [["x", 0, "bb"], ["force", [0, 2], "b-"]], rounds=2, finish="ok", generic=True)
    add("finished-evals", [["length", [0, 1], "bb"], ["qy", 0, "-b"]], rounds=2, finish="ok", evals=True, generic=True, inplace=True)
    add("finished-one", [["x", 0, "b-"], ["force", [0, 2], "-b"]], rounds=2, only=1, finish="ok", generic=True)
    add("finished-roundoff", [["x", 0, "bb"], ["force", [0, 2], "b-"]], rounds=2, finish="roundoff", evals=True, generic=True)
    add("no-parameters", [], fn="refuse")
    add("no-constraints", [["x", 0]], fn="refuse", cons=())
    add("all-removed", [["x", 0]], fn="refuse", drop_p=1)
    add("constraints-removed", [["x", 0]], fn="refuse", drop_c=1)
    add("bad-gradient", [["x", 0]], fn="refuse", kw={"grad": "CD"})
    add("bad-algorithm", [["x", 0]], fn="refuse", kw={"algorithm": "COBYLA"})
    add("remove-unknown", [["x", 0], ["y", 0]], fn="unknown", cons=(("point", 1), ("point", 3), ("reaction", 1)))
    if tier == "thorough":
        add("many", [["x", 0, "bb"], ["y", 0, "bb"], ["qx", 2, "bb"], ["length", [0, 1], "bb"], ["force", [0, 2], "bb"], ["qz", 3, "bb"]])
        add("many-again", [["x", 0, "bb"], ["qx", 2, "-b"], ["length", [3, 2], "b-"], ["force", [0, 2], "bb"]], rounds=3)
    return out
