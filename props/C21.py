"""The objective the optimizer minimises is the sum of the penalties of the form at the candidate's parameters."""
from . import eqlib as E
from . import optlib as L

BOUNDS = "two-trail families, 1-4 parameters of every kind, 1-3 constraints of four kinds, two evaluations at arbitrary real candidates; histories of up to 2 removals and 2 additions of parameters and constraints before solving"
ASSUMPTIONS = ["the numerical optimizer library is replaced by a stand-in that asks for the objective at chosen points", "edges with coincident end nodes and zero residual vectors excluded"]


def objective(h, cfg):
    m, opt, ps, pens = L.problem(h, cfg)
    before = L.attributes(m.topo)
    # edit the problem
    pk, ck = list(range(len(ps))), list(range(len(pens)))
    for j, ed in enumerate(cfg.get("edits", [])):
        if ed[0] == "-p":
            k = h.ints("rp%d" % j, 0, len(pk) - 1) if len(pk) > 1 else 0
            opt.remove_parameter(pk.pop(k))
            ps.pop(k)
        elif ed[0] == "-c":
            k = h.ints("rc%d" % j, 0, len(ck) - 1) if len(ck) > 1 else 0
            opt.remove_constraint(ck.pop(k))
            pens.pop(k)
        elif ed[0] == "+p":
            opt.add_parameter(L.param(ed[1], ed[2]))
            ps.append((ed[1], L.key_of(ed[2])))
            pk.append(None)
        else:
            obj, pen = L.constraint(h, ed[1:], 10 + j)
            opt.add_constraint(obj)
            pens.append(pen)
            ck.append(None)
    h.check("counts", (opt.number_of_parameters(), opt.number_of_constraints()) == (len(ps), len(pens)))
    got = []

    def script(o, x):
        h.check("dimension", o.dims == len(ps) and len(x) == len(ps), "%r" % (o.dims,))
        for k in range(cfg.get("evals", 2)):
            xs = L.xs_for(h, "c%d_" % k, ps)
            if cfg.get("special"):
                xs = L.special(h, m, "s%d_" % k, ps, xs)
            got.append((xs, o.value(L.arr(h, xs))))
        raise L.Stop()
    with L.stub(script), h.quiet():
        r, e = h.call(opt.solve, m.topo.copy())
    h.check("ran", isinstance(e, L.Stop), repr(e))
    L.same_attributes(h, "untouched", m.topo, before)
    for k, (xs, v) in enumerate(got):
        form = L.at(h, m, ps, xs)
        want = 0.0
        for pen in pens:
            want = want + pen(form)
        h.check_eq("objective%d" % k, v, want)
        h.observe("f%d" % k, v)


TWO = {"trails": [[0, 1], [2, 3]], "dev": [(0, 2)], "rev": [(2, 3)]}
ONE = {"trails": [[0, 1, 2]]}


def tasks(tier):
    G = {"generic": True, "budget": 90}
    out = []

    def add(name, spec, params, cons, **k):
        b = {q: k.pop(q) for q in list(k) if q in ("budget", "weight")}
        out.append(dict(dict({"name": name, "fn": "objective", "cfg": dict({"spec": spec, "params": params, "constraints": cons}, **k)}, **G), **b))
    add("origin", ONE, [["x", 0], ["y", 0], ["z", 0]], [["point", 2]])
    add("load", ONE, [["qx", 0], ["qy", 1], ["qz", 2]], [["point", 1], ["reaction", 2]], evals=1)
    add("edges", TWO, [["length", [0, 1]], ["force", [0, 2]], ["length", [3, 2]]], [["point", 1], ["point", 3]])
    add("mixed", TWO, [["force", [0, 2]], ["qy", 2], ["x", 0]], [["force", [3, 2]], ["length", [0, 2]], ["reaction", 1]], evals=1)
    add("remove-p", TWO, [["x", 0], ["force", [0, 2]], ["qz", 2]], [["point", 1], ["force", [0, 1]]], edits=[["-p"]], evals=1)
    add("remove-add-p", TWO, [["x", 0], ["length", [0, 1]]], [["point", 1]], edits=[["-p"], ["+p", "y", 2]], evals=1)
    add("remove-c", TWO, [["x", 0], ["force", [0, 2]]], [["point", 1], ["force", [0, 1]], ["reaction", 3]], edits=[["-c"], ["+c", "length", [0, 2]]], evals=1)
    # candidates with values that are zero, or those the topology has
    add("special-nodes", TWO, [["z", 0], ["x", 2]], [["point", 1]], special=True)
    add("special-loads", TWO, [["qx", 0], ["qz", 2]], [["point", 1], ["reaction", 3]], special=True)
    add("special-edges", TWO, [["force", [0, 2]], ["length", [0, 1]]], [["point", 1], ["force", [0, 1]]], special=True)
    add("near", ONE, [["z", 0]], [["point", 2]], weights=100)
    add("same-twice", TWO, [["force", [0, 2]], ["force", [0, 2]]], [["point", 1], ["point", 1]], evals=1)
    if tier == "thorough":
        big = {"trails": [[0, 1, 2], [3, 4, 5]], "dev": [(0, 3), (1, 4)], "rev": [(3, 4)]}
        add("big", big, [["force", [0, 3]], ["force", [1, 4]], ["length", [4, 3]], ["z", 0], ["qx", 1]], [["point", 2], ["point", 5], ["reaction", 5]], evals=1, budget=600, weight=9)
        add("edits", TWO, [["x", 0], ["y", 0], ["force", [0, 2]]], [["point", 1], ["force", [0, 1]], ["reaction", 3]], edits=[["-p"], ["-c"], ["+p", "qx", 0], ["+c", "point", 3]], evals=2, budget=600, weight=9)
    return out
