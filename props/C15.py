"""Finding nodes by coordinates: always the node that is there now, never one that was there before."""
from . import eqlib as E
from .eqlib import Node, TopologyDiagram, DeviationEdge

BOUNDS = "histories of up to 3 added nodes followed by up to 3 moves (or re-additions) at arbitrary real coordinates along each axis, lookups at every current, former and at one unrelated location after every step; forms of one- and two-trail topologies looked up at their equilibrated positions"
ASSUMPTIONS = ["no two nodes share a location (to the diagram's tolerance) at the same time", "coordinates are equal iff their three-decimal representations are"]


def same(h, p, q, n=3):
    return all(h.dec(a, n) == h.dec(b, n) for a, b in zip(p, q))


def point(h, name, axis):
    if axis == "all":
        return h.vec(name)
    p = [0.25, 0.5, 0.75]
    p[axis] = h.real(name)
    return p


def distinct(h, pos, n=3):
    ks = list(pos)
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            if same(h, pos[a], pos[b], n):
                h.assume(False)


def look(h, t, pos, q, tag, n=3):
    at = [k for k in pos if same(h, pos[k], q, n)]
    want = at[0] if at else None
    h.check(tag + ":key", t.node_key(q) == want, "%r" % (at,))
    h.check(tag + ":exists", t.node_exists(q) == (want is not None))
    h.check(tag + ":key-tuple", t.node_key(tuple(q)) == want)


def history(h, cfg):
    t = TopologyDiagram()
    dig = cfg.get("digits", 3)
    if dig != 3:
        t.tol = "%df" % dig
    pos, former = {}, []
    axis = cfg["axis"]
    for k in range(cfg["nodes"]):
        p = point(h, "p%d" % k, axis)
        keys = cfg.get("keys")
        key = t.add_node(Node(keys[k], p) if keys else Node.from_point(p))
        h.check("new-key", key not in pos)
        pos[key] = p
    distinct(h, pos, dig)
    q = point(h, "q", axis) if cfg.get("other") else None
    for step in range(cfg["moves"] + 1):
        if step and cfg.get("delete") == step:
            k = list(pos)[h.ints("gone%d" % step, 0, len(pos) - 1)]
            former.append(pos.pop(k))
            t.delete_node(k)
            h.check("deleted", not t.node_exists(k))
        elif step:
            k = list(pos)[h.ints("who%d" % step, 0, len(pos) - 1)]
            p = point(h, "m%d" % step, axis)
            former.append(pos[k])
            how = cfg.get("how", "xyz")
            if how == "any":
                how = h.choose("how%d" % step, ["xyz", "update", "again"])
            if how == "xyz":
                t.node_xyz(k, p)
            elif how == "again":
                h.check("same-key", t.add_node(Node(k, p)) == k)
            else:
                t.update_node_xyz(k, p)
            pos[k] = p
            distinct(h, pos, dig)
        for k in pos:
            h.check("by-int", t.node_key(k) == k and t.node_exists(k))
            h.check_vec("position", t.node_xyz(k), pos[k])
            look(h, t, pos, pos[k], "current", dig)
        for x in former:
            look(h, t, pos, x, "former", dig)
        if q is not None:
            look(h, t, pos, q, "other", dig)
        h.check("absent-int", not t.node_exists(max(pos) + 5))
        h.check("absent-xyz", t.node_exists(max(pos)) is True)
        h.check("count", t.number_of_nodes() == len(pos))
    # a new element attached at a current location reuses the node, at a former one it does not
    if former:
        x = former[-1]
        at = [k for k in pos if same(h, pos[k], x, dig)]
        k0 = list(pos)[0]
        if not (at and at[0] == k0):
            u, v = t.add_edge(DeviationEdge(pos[k0], x, force=1.0))
            h.check("edge-start", u == k0)
            h.check("edge-end", v == at[0] if at else v not in pos, "%r %r" % (v, at))
            h.check_vec("edge-end-position", t.node_xyz(v), pos[at[0]] if at else x)
    c = t.copy()
    for k in pos:
        h.check("copy", c.node_key(pos[k]) == k)


def form(h, cfg):
    m = E.build(h, cfg["spec"])
    f = E.solve(h, m, cfg["solver"])
    pos = {n: E.coords(f, n) for n in m.nodes}
    distinct(h, pos)
    for n in m.nodes:
        look(h, f, pos, pos[n], "form")
    for n in m.nodes:
        if n not in m.origin:
            look(h, f, pos, m.xyz[n], "input-location")
    for n in m.nodes:
        h.check("topology", m.topo.node_key(m.xyz[n]) == n or any(same(h, m.xyz[n], m.xyz[k]) for k in m.nodes if k != n))


def tasks(tier):
    out = []
    for axis in (0, 1, 2):
        out.append({"name": "axis%d" % axis, "fn": "history", "cfg": {"axis": axis, "nodes": 2, "moves": 2, "other": True, "how": ("any", "xyz", "again")[axis]}, "policy": "full", "fmt": "fork", "budget": 200})
    out.append({"name": "three", "fn": "history", "cfg": {"axis": 0, "nodes": 3, "moves": 1, "keys": [4, 0, 2], "other": True}, "policy": "full", "fmt": "fork", "budget": 200})
    out.append({"name": "deleted", "fn": "history", "cfg": {"axis": 1, "nodes": 3, "moves": 2, "delete": 1, "how": "update"}, "policy": "full", "fmt": "fork", "budget": 200})
    out.append({"name": "moved-deleted", "fn": "history", "cfg": {"axis": 2, "nodes": 2, "moves": 2, "delete": 2, "other": True}, "policy": "full", "fmt": "fork", "budget": 200})
    for axis in (0, 1, 2):
        out.append({"name": "zero%d" % axis, "fn": "history", "cfg": {"axis": axis, "nodes": 1, "moves": 1, "other": axis == 0, "lo": -0.002, "hi": 0.002}, "policy": "full", "fmt": "fork0", "budget": 200})
    for d in (1, 6):
        out.append({"name": "digits%d" % d, "fn": "history", "cfg": {"axis": 0, "nodes": 2, "moves": 1, "digits": d, "other": True}, "policy": "full", "fmt": "fork", "budget": 200})
    out.append({"name": "space", "fn": "history", "cfg": {"axis": "all", "nodes": 1, "moves": 1}, "policy": "full", "fmt": "fork", "budget": 200})
    for solver in ("plain", "numpy"):
        out.append({"name": "form1/%s" % solver, "fn": "form", "cfg": {"spec": dict(E.ONE2, dim1=True, loads=[0]), "solver": solver}, "policy": "full", "fmt": "fork", "budget": 100})
    if tier == "thorough":
        out.append({"name": "four", "fn": "history", "cfg": {"axis": 1, "nodes": 2, "moves": 3, "other": True}, "policy": "full", "fmt": "fork", "budget": 900, "max_paths": 100000, "weight": 9})
        out.append({"name": "three-2", "fn": "history", "cfg": {"axis": 2, "nodes": 3, "moves": 2}, "policy": "full", "fmt": "fork", "budget": 900, "max_paths": 100000, "weight": 9})
        out.append({"name": "form2", "fn": "form", "cfg": {"spec": dict(E.ONE3, dim1=True, loads=[0]), "solver": "plain"}, "policy": "full", "fmt": "fork", "budget": 600, "weight": 9})
    return out
