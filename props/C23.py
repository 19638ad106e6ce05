"""What a solve leaves behind: the form, the topology and the report all belong to the optimum the search returned."""
import nlopt
import numpy as np

import compas_cem.optimization as O
from . import eqlib as E
from . import optlib as L

BOUNDS = "one- and two-trail families, 1-4 parameters of every kind, 1-2 constraints, up to 3 evaluations at arbitrary real candidates in any order before an arbitrary real optimum is returned; all endings of the optimizer (success, halted by roundoff, runtime error); one or two solves in a row; with and without bounds, the optimum anywhere or on them; directly or through the proxy function"
ASSUMPTIONS = ["the numerical optimizer library is replaced by a stand-in that evaluates chosen candidates and returns a chosen optimum",
               "edges with coincident end nodes and zero residual vectors excluded"]

STATUS = {1: "NLOPT_SUCCESS", 2: "NLOPT_EPSVAL_REACHED", 3: "NLOPT_FTOL_REACHED", 4: "NLOPT_XTOL_REACHED", 5: "NLOPT_ITERSMAX_REACHED", 6: "NLOPT_MAXTIME_REACHED"}


def result(h, cfg):
    m, opt, ps, pens = L.problem(h, cfg)
    kw = dict(cfg.get("kw", {}))
    if cfg.get("sym"):
        for k in cfg["sym"]:
            kw[k] = h.real(k, 0, 1, positive=True)
    tmax, eta = kw.get("tmax", 100), kw.get("eta", 1e-6)
    spec_tmax = dict(tmax=tmax, eta=eta)
    mode = kw.get("grad", "AD")
    step = kw.get("step_size", 1e-6)

    def f(xs):
        form = L.at(h, m, ps, xs, **spec_tmax)
        t = 0.0
        for pen in pens:
            t = t + pen(form)
        return t
    for rnd in range(cfg.get("rounds", 1)):
        tag = "" if rnd == 0 else "again:"
        before = L.attributes(m.topo)
        n = cfg.get("evals", 2)
        xs = [L.xs_for(h, "c%d%d_" % (rnd, k), ps) for k in range(n)]
        back = cfg.get("returns", "other")
        code = h.choose("code%d" % rnd, sorted(STATUS)) if cfg.get("codes") else 4
        value = h.real("value%d" % rnd, 0, 4)
        # the optimum: an earlier candidate or any other point
        best = L.xs_for(h, "best%d_" % rnd, ps) if back == "other" else xs[back]
        if cfg.get("bound"):
            # some of the optimum's values lie on their bounds
            for i, c in enumerate(cfg["bound"]):
                if c != "-":
                    b = m.bounds[i]["lu".index(c)]
                    b = -b if h.decide(b < 0) else b
                    L.put(m.topo, ps[i][0], ps[i][1], best[i] + b if c == "l" else best[i] - b)
            before = L.attributes(m.topo)
        buffer = L.arr(h, best)
        limits = []
        if not h.symbolic:
            buffer = np.array(buffer)

        def script(o, x):
            limits.append(o)
            o.opt_value, o.result = value, code
            for k in range(n):
                o.value(L.arr(h, xs[k]), L.buf(len(ps)) if cfg.get("grads") else None)
            if cfg.get("ends") == "roundoff":
                o.result = -4
                raise nlopt.RoundoffLimited("roundoff")
            if cfg.get("ends") == "runtime":
                raise RuntimeError("nlopt failure")
            return buffer
        with L.stub(script), h.quiet():
            if cfg.get("proxy"):
                r, e = h.call(O.solve_proxy, m.topo, list(opt.constraints.values()), list(opt.parameters.values()), "SLSQP", 50, **kw)
            else:
                r, e = h.call(opt.solve, m.topo, **kw)
        if limits:
            o = limits[0]
            h.check(tag + "iterations", o.get("set_maxeval") == (50 if cfg.get("proxy") else kw.get("iters", 100)))
            h.check_eq(tag + "eps", o.get("set_stopval"), kw.get("eps", 1e-6))
            h.check_eq(tag + "kappa", o.get("set_ftol_abs"), kw.get("kappa", 1e-8))
        if "eta" in (cfg.get("sym") or ()):
            _, e0 = h.call(L.at, h, m, ps, best, **spec_tmax)
            h.check(tag + "converges", (e is None) == (e0 is None), "%r %r" % (e, e0))
            if e0 is not None:
                h.check(tag + "error", isinstance(e, ValueError), repr(e))
                h.observe(tag + "error", 1.0)
                return
        if cfg.get("may_fail") and isinstance(e, ValueError):
            return
        h.check(tag + "ran", e is None, repr(e))
        if e is not None:
            return
        if cfg.get("proxy"):
            topo, form, penalty, norm, evals, duration, status = r
            xopt, gradient = None, None
        else:
            topo, form = m.topo, r
            penalty, norm, evals, status, xopt, gradient = opt.penalty, opt.gradient_norm, opt.evals, opt.status, opt.x_opt, opt.gradient if hasattr(opt, "gradient") else None
            duration = opt.time_opt
        if cfg.get("ends") == "runtime":
            # no optimum: the form still belongs to the parameters the topology was left with
            best = [L.read(topo, k, key) for k, key in ps]
        elif cfg.get("ends") == "roundoff":
            best = [L.read(topo, k, key) for k, key in ps]
            h.check_vec(tag + "x_opt", list(xopt), best)
            if n:
                h.check_vec(tag + "last", best, xs[-1])
        want = dict(before)
        for (kind, key), x in zip(ps, best):
            want[(key, L.PARAMS[kind][1])] = x
        L.same_attributes(h, tag + "topology", topo, want)
        L.same_form(h, tag + "form", form, L.at(h, m, ps, best, solver="plain", **spec_tmax), m)
        h.observe(tag + "x", [E.coords(form, k) for k in m.nodes])
        if cfg.get("ends") == "runtime":
            continue
        if xopt is not None:
            h.check_vec(tag + "x_opt", list(xopt), best)
        h.check_eq(tag + "penalty", penalty, value)
        if cfg.get("ends") != "roundoff":
            h.check(tag + "status", status == STATUS[code], repr(status))
        else:
            h.check(tag + "status", status == "NLOPT_ROUNDOFF_LIMITED", repr(status))
        h.check(tag + "evals", evals == n, repr(evals))
        h.check(tag + "time", isinstance(duration, float) and duration >= 0)
        if cfg.get("norm"):
            v = f(best)
            if gradient is not None:
                h.check(tag + "gradient:size", len(list(gradient)) == len(ps))
                for i in range(len(ps)):
                    if mode == "AD":
                        h.check_grad(tag + "gradient%d" % i, gradient[i], v, best, i, f)
                s = 0.0
                for g in gradient:
                    s = s + g * g
                h.check_eq(tag + "norm", norm * norm, s)
            h.check(tag + "norm:sign", norm >= 0)
            h.observe(tag + "norm", norm)


TWO = {"trails": [[0, 1], [2, 3]], "dev": [(0, 2)], "rev": [(2, 3)]}
ONE = {"trails": [[0, 1, 2]]}


def tasks(tier):
    G = {"generic": True, "budget": 90}
    out = []

    def add(name, spec, params, cons, **k):
        b = {q: k.pop(q) for q in list(k) if q in ("budget", "weight", "policy")}
        out.append(dict(dict({"name": name, "fn": "result", "cfg": dict({"spec": spec, "params": params, "constraints": cons}, **k)}, **G), **b))
    add("origin", ONE, [["x", 0], ["y", 0], ["z", 0]], [["point", 2]], norm=True)
    add("loads", ONE, [["qx", 0], ["qy", 1], ["qz", 2]], [["point", 1]], norm=True)
    add("edges", TWO, [["length", [0, 1]], ["force", [0, 2]], ["length", [3, 2]]], [["point", 1]], norm=True)
    add("earlier", TWO, [["force", [0, 2]], ["x", 0]], [["point", 1]], returns=0, grads=True)
    add("latest", TWO, [["force", [0, 2]], ["x", 0]], [["point", 1]], returns=1, grads=True)
    add("none-evaluated", TWO, [["force", [0, 2]], ["x", 0]], [["point", 1]], evals=0)
    add("fd", ONE, [["y", 0], ["qx", 1]], [["point", 2]], kw={"grad": "FD", "step_size": 0.001}, grads=True, norm=True, evals=1)
    add("fd-last", TWO, [["y", 0], ["length", [0, 1]]], [["point", 1]], kw={"grad": "FD"}, grads=True, ends="roundoff", evals=2)
    add("tmax", {"trails": [[0, 1], [2, 3]], "dev": [(0, 3)]}, [["x", 0], ["length", [2, 3]]], [["point", 1]], kw={"tmax": 1})
    add("tmax2", {"trails": [[0, 1], [2, 3]], "dev": [(0, 3)]}, [["x", 0]], [["point", 1]], kw={"tmax": 2, "eta": 1000000.0}, evals=0, may_fail=True)
    add("roundoff", TWO, [["force", [0, 2]], ["z", 2]], [["point", 1]], ends="roundoff", grads=True)
    add("roundoff0", TWO, [["force", [0, 2]], ["z", 2]], [["point", 1]], ends="roundoff", evals=0)
    add("runtime", TWO, [["force", [0, 2]], ["z", 2]], [["point", 1]], ends="runtime", grads=True)
    add("runtime-tmax", {"trails": [[0, 1], [2, 3]], "dev": [(0, 3)]}, [["x", 0], ["length", [2, 3]]], [["point", 1]], ends="runtime", kw={"tmax": 1}, evals=1)
    add("roundoff-tmax", {"trails": [[0, 1], [2, 3]], "dev": [(0, 3)]}, [["force", [0, 3]], ["qx", 2]], [["point", 1]], ends="roundoff", kw={"tmax": 1}, evals=1)
    add("status", ONE, [["x", 0]], [["point", 1]], codes=True, evals=1)
    add("twice", TWO, [["force", [0, 2]], ["y", 0]], [["point", 3]], rounds=2, evals=1)
    add("proxy", TWO, [["length", [0, 1]], ["qy", 2]], [["point", 1], ["point", 3]], proxy=True, norm=True)
    add("proxy-tmax", {"trails": [[0, 1], [2, 3]], "dev": [(0, 3)]}, [["x", 0]], [["point", 1]], proxy=True, kw={"tmax": 1})
    IND = {"trails": [[0, 1], [2, 3]], "dev": [(0, 3)]}
    add("eta", IND, [["x", 0], ["qy", 2]], [["point", 1]], kw={"tmax": 2}, sym=["eta", "eps", "kappa"], evals=0)
    add("proxy-eta", IND, [["x", 0], ["length", [0, 1]]], [["point", 1]], proxy=True, kw={"tmax": 2}, sym=["eta", "eps", "kappa"], evals=0)
    # optima on a bound and between the bounds
    add("bounds", ONE, [["x", 0, "bb"], ["qx", 0, "bb"]], [["point", 1]], norm=True, evals=0, bound="lu")
    add("bounds1", TWO, [["force", [0, 2], "bb"], ["y", 0, "-b"]], [["point", 1]], norm=True, evals=1, bound="u-", grads=True)
    add("inside", ONE, [["z", 0, "bb"], ["qy", 0, "b-"]], [["point", 1]], norm=True, evals=0)
    add("inside-proxy", ONE, [["z", 0, "bb"]], [["point", 1]], norm=True, evals=0, proxy=True, bound="l")
    add("same", TWO, [["force", [0, 2]], ["y", 0]], [["point", 3]], evals=1, kw={"algorithm": "LBFGS", "verbose": True})
    if tier == "thorough":
        add("mixed", TWO, [["force", [0, 2]], ["x", 2], ["qz", 0], ["length", [3, 2]]], [["force", [3, 2]], ["length", [0, 2]], ["reaction", 1]], evals=3, norm=True, budget=600, weight=5)
        add("big", {"trails": [[0, 1, 2], [3, 4, 5]], "dev": [(0, 3), (1, 4)], "rev": [(3, 4)]}, [["force", [0, 3]], ["force", [1, 4]], ["length", [4, 3]], ["z", 0]], [["point", 2], ["point", 5]], evals=2, budget=600, weight=9)
        add("planes", {"trails": [[0, 1, 2]], "planes": [(0, 1)]}, [["z", 0], ["qx", 0]], [["point", 2]], norm=True, grads=True, budget=600, weight=9)
        add("thrice", TWO, [["force", [0, 2]], ["y", 0]], [["point", 3]], rounds=3, evals=2, budget=600)
    return out
