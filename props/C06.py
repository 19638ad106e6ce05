"""Convergence: a form is returned only when the last iteration moved the nodes by no more than eta."""
import math

from . import eqlib as E

BOUNDS = "two-trail families with unequal-sequence deviation edges, 1 to 3 (thorough: 4) iterations, eta a positive real, all numeric data unconstrained reals; equal-sequence families for any eta; with fixed geometry and a symbolic eta, up to 103 iterations"
ASSUMPTIONS = ["edges with coincident end nodes and zero residual vectors excluded"]


def moved(h, m, a, b):
    t = 0.0
    for n in m.nodes:
        t = t + h.dist(E.coords(a, n), E.coords(b, n))
    return t


def honest(h, cfg):
    m = E.build(h, cfg["spec"])
    T = cfg["T"]
    eta = h.real("eta", 0, 2, positive=True)
    runs = [E.solve(h, m, cfg["solver"], tmax=1)]
    runs.append(E.solve(h, m, cfg["solver"], tmax=2, eta=E.BIG))
    for t in range(3, T + 1):
        # an eta that compares false with everything lets every iteration run
        r, e = h.call(E.solve, h, m, cfg["solver"], tmax=t, eta=float("nan"))
        h.assume(e is None)
        runs.append(r)
    form, exc = h.call(E.solve, h, m, cfg["solver"], tmax=T, eta=eta)
    if T == 1:
        h.check("one-iteration", exc is None)
        return
    d = [moved(h, m, a, b) for a, b in zip(runs, runs[1:])]
    if exc is not None:
        h.check("error-type", isinstance(exc, ValueError), repr(exc))
        for t, x in enumerate(d):
            h.check("raised-though-converged@%d" % (t + 2), x >= eta)
        return
    # the iteration it stopped at: the first to move by less than eta
    stop = T
    for t, x in enumerate(d):
        if h.implied(x < eta):
            stop = t + 2
            break
    else:
        h.check("returned-unconverged", d[-1] <= eta)
    for n in m.nodes:
        h.check_vec("stopped@%d" % n, E.coords(form, n), E.coords(runs[stop - 1], n))
        h.observe("x%d" % n, E.coords(form, n))


RUNS = {}


def deep(h, cfg):
    """fixed numeric data, many iterations, any eta: where the loop stops is decided for every eta"""
    m = E.build(E.Fixed(h, cfg["salt"], cfg["force"]), cfg["spec"])
    T = cfg["T"]
    h.native()
    # what each number of iterations gives, calculated once
    if repr(cfg) not in RUNS:
        runs = [E.all_coords(m, E.solve(h, m, cfg["solver"], tmax=t, eta=float("nan"))) for t in range(1, T + 1)]
        RUNS[repr(cfg)] = runs, [sum(math.dist(a[n], b[n]) for n in m.nodes) for a, b in zip(runs, runs[1:])]
    runs, d = RUNS[repr(cfg)]
    eta = h.real("eta", 0, 8, positive=True)
    # the interval between two displacements that eta lies in; ties are decided by roundoff
    ds = sorted(set(d))
    if cfg.get("late"):
        # only what is decided late
        h.assume(eta < d[cfg["late"]])
        ds = [x for x in ds if x <= d[cfg["late"]]]
    lo, hi = 0, len(ds)
    while lo < hi:
        mid = (lo + hi) // 2
        if eta > ds[mid]:
            lo = mid + 1
        else:
            hi = mid
    for x in ds[max(0, lo - 1):lo + 1]:
        if abs(eta - x) <= 1e-9 + 1e-6 * x:
            h.assume(False)
    form, exc = h.call(E.solve, h, m, cfg["solver"], tmax=T, eta=eta)
    stop = [t for t, x in enumerate(d) if x < eta]
    if not stop:
        h.check("raised", isinstance(exc, ValueError), repr(exc))
        return
    h.check("returned", exc is None, repr(exc))
    if exc is None:
        for n in m.nodes:
            h.check_vec("stopped@%d" % n, E.coords(form, n), runs[stop[0] + 1][n])


def direct(h, cfg):
    """without unequal-sequence deviation edges the second iteration repeats the first"""
    m = E.build(h, cfg["spec"])
    eta = h.real("eta", 0, 2, positive=True)
    one = E.solve(h, m, cfg["solver"], tmax=1, eta=eta)
    form, exc = h.call(E.solve, h, m, cfg["solver"], tmax=cfg.get("tmax", 2), eta=eta)
    h.check("converges", exc is None, repr(exc))
    if exc is None:
        for n in m.nodes:
            h.check_vec("x@%d" % n, E.coords(form, n), E.coords(one, n))
            h.observe("x%d" % n, E.coords(form, n))


def neutral(h, cfg):
    """verbose and callback, whatever it returns, do not change the result"""
    back = h.choose("back", [None, True, 0, 2.5]) if cfg.get("back") else None
    m = E.build(h, cfg["spec"])
    T = cfg["T"]
    eta = E.BIG
    calls = []
    a = E.solve(h, m, cfg["solver"], tmax=T, eta=eta)
    b, exc = h.call(E.solve, h, m, cfg["solver"], tmax=T, eta=eta, verbose=True, callback=lambda: calls.append(1) or back)
    h.check("verbose", exc is None, repr(exc))
    if exc is not None:
        return
    for n in m.nodes:
        h.check_vec("x@%d" % n, E.coords(a, n), E.coords(b, n))
        h.check_vec("r@%d" % n, a.reaction_force(n), b.reaction_force(n))
        h.observe("x%d" % n, E.coords(a, n))
    for e in a.edges():
        h.check_eq("f@%d-%d" % e, a.edge_force(e), b.edge_force(e))
    h.check("callback-ran", len(calls) > 0)


def tasks(tier):
    out = []

    def add(name, fn, spec, **k):
        cfgk = {q: k.pop(q) for q in list(k) if q in ("T", "tmax", "salt", "force", "late", "back")}
        for solver in ("plain", "numpy"):
            out.append(dict({"name": "%s/%s" % (name, solver), "fn": fn, "cfg": dict({"spec": spec, "solver": solver}, **cfgk), "generic": True, "budget": 60}, **k))
    for nm in ("IND1", "IND1R", "INDX"):
        for T in (1, 2, 3):
            add("%s-%d" % (nm, T), "honest", getattr(E, nm), T=T)
    add("INDS-2", "honest", E.INDS, T=2)
    add("INDM-2", "honest", E.INDM, T=2)
    add("AUX1-2", "honest", E.AUX1, T=2)
    add("IND2-2", "honest", E.IND2, T=2)
    add("NET-2", "honest", E.NET, T=2)
    add("NETS-2", "honest", E.NETS, T=2)
    for k, (nm, salt, force, T) in enumerate((("INDX", 4, 1.0, 15), ("INDX", 4, 2.0, 12), ("CROSS", 3, 10.0, 103), ("CROSS", 4, 5.0, 30), ("MIX", 0, 1.0, 6))):
        add("deep%d-%s" % (k, nm), "deep", getattr(E, nm), T=T, salt=salt, force=force, late=98 if T > 100 else 0, policy="full", generic=False)
    for nm in ("ONE2", "ONE3", "TWO", "TWO_DD", "UNEQ", "SHIFT", "THREE", "KEYS", "LATE", "GAP", "LONG", "AUX", "BARE", "TALL", "WIDE", "LADDER", "TALLER", "WIDER"):
        add("direct-" + nm, "direct", getattr(E, nm))
    add("direct-TWO-100", "direct", E.TWO, tmax=100)
    for T in (1, 2):
        add("neutral-TWO-%d" % T, "neutral", E.TWO, T=T)
        add("neutral-IND1-%d" % T, "neutral", E.IND1, T=T)
    add("neutral-back", "neutral", E.TWO, T=2, back=True)
    if tier == "thorough":
        for nm in ("IND1", "IND1R", "INDX", "IND2"):
            add("%s-4" % nm, "honest", getattr(E, nm), T=4, budget=600)
    return out
