"""Bounded families of topology diagrams with symbolic data, shared by the equilibrium harnesses.

A spec: trails = node lists from origin to support; dev = deviation edges (u, v); rev = trail edges added
support-to-origin ("sym": each chosen by fork); bare = nodes without a trail, which get auxiliary trails; shift = {origin: sequence}; planes = trail edges (from, to) with a plane; neg = signs of
trail lengths ("any": any but zero, the default; "mixed": alternately -,+; "sym": chosen by fork);
at = {node: [i, j, k]}: it lies at that multiple of one real; tie = kinds of values ("L" lengths, "f" forces,
"q" loads) that are the same real throughout.
"""
import zlib

from compas.geometry import Plane

from compas_cem.diagrams import TopologyDiagram
from compas_cem.elements import DeviationEdge
from compas_cem.elements import Node
from compas_cem.elements import TrailEdge
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport
from compas_cem.equilibrium import static_equilibrium
from compas_cem.equilibrium import static_equilibrium_numpy

BIG = float("inf")


class Model:
    pass


def build(h, spec, build_trails=True):
    m = Model()
    m.spec = spec
    if spec.get("tie"):
        h = Tied(h, spec["tie"])
    at = {int(a): b for a, b in (spec.get("at") or {}).items()}
    if at:
        m.a = h.real("a", 0, 4, positive=True)
    m.trails = [list(t) for t in spec["trails"]]
    m.nodes = [n for t in m.trails for n in t] + list(spec.get("bare", []))
    if spec.get("order") == "rev":
        order = list(reversed(m.nodes))
    else:
        order = m.nodes
    m.xyz, m.q, m.length, m.force, m.plane, m.edge = {}, {}, {}, {}, {}, {}
    m.support = {t[-1] for t in m.trails}
    m.origin = {t[0] for t in m.trails}
    rev = spec.get("rev", [])
    if rev == "sym":
        rev = {(a, b) for t in m.trails for a, b in zip(t, t[1:]) if h.choose("rev%d_%d" % (a, b), [False, True])}
    rev = {tuple(e) for e in rev}
    bare = list(spec.get("bare", []))
    planes = {tuple(e) for e in spec.get("planes", [])}
    dim2 = spec.get("dim2", False)
    topo = TopologyDiagram()
    for n in order:
        if spec.get("fixed_rest") and n not in m.origin:
            p = [float(n), 0.5 * n, 0.25]
        elif n in at:
            p = [c * m.a for c in at[n]]
        else:
            p = h.vec("p%d" % n)
        if dim2:
            p[2] = 0.0
        if spec.get("dim1"):
            p[1], p[2] = 0.5, 0.25
        m.xyz[n] = p
        topo.add_node(Node(n, p))
    k = 0
    signs = spec.get("neg", "any")
    trail_edges, dev_edges = [], []
    for t in m.trails:
        for a, b in zip(t, t[1:]):
            nm = "L%d_%d" % (a, b)
            if signs == "sym":
                neg = h.choose("sign_" + nm, [True, False])
            elif signs == "neg":
                neg = True
            elif signs == "pos":
                neg = False
            elif signs in ("free", "any"):
                neg = None
            else:
                neg = k % 2 == 0
            if neg is None:
                L = h.real(nm, nonzero=signs == "any")
            else:
                L = h.real(nm, -4, 4, negative=neg, positive=not neg)
            k += 1
            plane = None
            if (a, b) in planes:
                o = h.vec("o%d_%d" % (a, b))
                kind = spec.get("plane_kind", "free")
                if kind == "free":
                    nv = h.vec("n%d_%d" % (a, b))
                elif kind == "axis":
                    nv = [h.real("n%d_%dx" % (a, b), nonzero=True), 0.0, 0.0]
                else:
                    nv = [0.0, 0.0, 1.0]
                plane = Plane(o, nv)
            e = (b, a) if (a, b) in rev else (a, b)
            m.length[(a, b)] = L
            m.plane[(a, b)] = plane
            m.edge[(a, b)] = e
            trail_edges.append((e, L, plane))
    for u, v in spec.get("dev", []):
        if spec.get("fneg") == "mixed":
            f = h.real("f%d_%d" % (u, v), negative=len(m.force) % 2 == 0, positive=len(m.force) % 2 == 1)
        else:
            f = h.real("f%d_%d" % (u, v), nonzero=not spec.get("zero_dev", False))
        m.force[(u, v)] = f
        dev_edges.append(((u, v), f))
    items = [("t",) + x for x in trail_edges] + [("d",) + x for x in dev_edges]
    if spec.get("edge_order") == "dev_first":
        items = [x for x in items if x[0] == "d"] + [x for x in items if x[0] == "t"]
    for x in items:
        if x[0] == "t":
            topo.add_edge(TrailEdge(x[1][0], x[1][1], length=x[2], plane=x[3]))
        else:
            topo.add_edge(DeviationEdge(x[1][0], x[1][1], force=x[2]))
    for t in m.trails:
        topo.add_support(NodeSupport(t[-1]))
    loads = spec.get("loads", "all")
    for n in m.nodes:
        if loads == "all" or n in loads:
            q = h.vec("q%d" % n)
            if dim2:
                q[2] = 0.0
            if spec.get("dim1"):
                q[1], q[2] = 0.0, 0.0
            m.q[n] = q
            topo.add_load(NodeLoad(n, q))
        else:
            m.q[n] = [0.0, 0.0, 0.0]
    m.topo = topo
    # oracle sequences
    m.seq = {}
    shift = {int(a): b for a, b in (spec.get("shift") or {}).items()}
    for t in m.trails:
        s = shift.get(t[0], 0)
        for i, n in enumerate(t):
            m.seq[n] = s + i
    for n in bare:
        m.seq[n] = 0
    m.direct = [e for e in m.force if m.seq[e[0]] == m.seq[e[1]]]
    m.indirect = [e for e in m.force if m.seq[e[0]] != m.seq[e[1]]]
    if bare:
        m.aux = h.real("aux", nonzero=True)
        topo.auxiliary_trail_length = m.aux
    if build_trails:
        with h.quiet():
            topo.build_trails(auxiliary_trails=bool(bare))
            for n in bare:
                new = dict(topo.trails(keys=True))[n][1]
                m.trails.append([n, new])
                m.nodes.append(new)
                m.origin.add(n)
                m.support.add(new)
                m.xyz[new] = list(topo.node_coordinates(new))
                m.q[new] = [0.0, 0.0, 0.0]
                m.length[(n, new)] = m.aux
                m.plane[(n, new)] = None
                m.edge[(n, new)] = (n, new) if topo.has_edge(n, new) else (new, n)
                m.seq[n], m.seq[new] = 0, 1
            for o, s in shift.items():
                topo.shift_trail(o, s)
    return m


class Fixed:
    """a harness whose numeric inputs are fixed numbers; choices and checks stay those of h"""

    def __init__(self, h, salt=0, force=1.0):
        self.h, self.salt, self.force = h, salt, force

    def __getattr__(self, name):
        return getattr(self.h, name)

    def real(self, name, lo=-4, hi=4, negative=False, positive=False, **k):
        x = zlib.crc32(("%s/%s" % (name, self.salt)).encode()) % 1000 / 250.0 - 1.999
        x = -abs(x) if negative else abs(x) if positive else x
        return x * self.force if name.startswith("f") else x

    def vec(self, name, **k):
        return [self.real(name + c) for c in "xyz"]


class Named:
    """a harness whose numeric inputs have a prefix of their own"""

    def __init__(self, h, prefix):
        self.h, self.prefix = h, prefix

    def __getattr__(self, name):
        return getattr(self.h, name)

    def real(self, name, *a, **k):
        return self.h.real(self.prefix + name, *a, **k)

    def vec(self, name, *a, **k):
        return [self.real(name + c, *a, **k) for c in "xyz"]


class Tied:
    """a harness in which all values of some kinds are the same"""

    def __init__(self, h, kinds):
        self.h, self.kinds = h, kinds

    def __getattr__(self, name):
        return getattr(self.h, name)

    def real(self, name, *a, **k):
        if name[0] in self.kinds:
            name = name[0] + "".join(c for c in name[1:] if c.isalpha())
        return self.h.real(name, *a, **k)

    def vec(self, name, *a, **k):
        return [self.real(name + c, *a, **k) for c in "xyz"]


def solve(h, m, solver, tmax=100, eta=1e-6, **k):
    with h.quiet():
        if solver == "numpy":
            return static_equilibrium_numpy(m.topo, tmax=tmax, eta=eta, **k)
        return static_equilibrium(m.topo, tmax=tmax, eta=eta, **k)


def coords(form, n):
    return [form.node_attribute(n, c) for c in ("x", "y", "z")]


def all_coords(m, form):
    return {n: coords(form, n) for n in m.nodes}


def imbalance(h, m, form, xyz, n, zeros=False):
    """load + edge forces along final directions + reaction at node n"""
    s = [form.node_attribute(n, c) for c in ("qx", "qy", "qz")]
    if n in m.support:
        s = [a + b for a, b in zip(s, form.reaction_force(n))]
    for (a, b), e in list(m.edge.items()) + [(e, e) for e in m.force]:
        if n not in (a, b):
            continue
        o = b if n == a else a
        f = form.edge_force(e)
        if zeros and h.decide(f == 0):
            continue
        u = h.unit([x - y for x, y in zip(xyz[o], xyz[n])])
        s = [x + f * y for x, y in zip(s, u)]
    return s


def lag_terms(h, m, form, xyz, prev, n):
    """What the unequal-sequence deviation edges' last direction change leaves at n: the alternatives allowed.
    A neighbour two or more sequences ahead was still at its previous position when n was balanced; one
    sequence ahead it may already have moved, depending on the order of the trails."""
    alts = [[0.0, 0.0, 0.0]]
    for e in m.indirect:
        if n not in e:
            continue
        o = e[1] if n == e[0] else e[0]
        if m.seq[o] < m.seq[n] or o in m.origin:
            continue
        f = form.edge_force(e)
        a = h.unit([x - y for x, y in zip(xyz[o], xyz[n])])
        b = h.unit([x - y for x, y in zip(prev[o], xyz[n])])
        d = [f * (x - y) for x, y in zip(a, b)]
        moved = [[t + x for t, x in zip(s, d)] for s in alts]
        if m.seq[o] == m.seq[n] + 1:
            alts = moved + alts
        else:
            alts = moved
    return alts


# ----------------------------------------------------------------- families

ONE2 = {"trails": [[0, 1]]}
ONE3 = {"trails": [[0, 1, 2]]}
ONE4 = {"trails": [[0, 1, 2, 3]], "rev": [(1, 2)]}
TWO = {"trails": [[0, 1], [2, 3]], "dev": [(0, 2)]}
TWO_DD = {"trails": [[0, 1, 2], [3, 4, 5]], "dev": [(0, 3), (1, 4)], "rev": [(3, 4)]}
TWO_SUP = {"trails": [[0, 1], [2, 3]], "dev": [(2, 0), (1, 3)]}
UNEQ = {"trails": [[0, 1, 2], [3, 4]], "dev": [(0, 3), (4, 1)], "rev": [(1, 2)], "order": "rev"}
THREE = {"trails": [[0, 1], [2, 3], [4, 5]], "dev": [(0, 2), (2, 4), (4, 0)]}
SHIFT = {"trails": [[0, 1, 2], [3, 4]], "dev": [(1, 3), (2, 4)], "shift": {"3": 1}, "edge_order": "dev_first"}
IND1 = {"trails": [[0, 1], [2, 3]], "dev": [(0, 3)]}
IND1R = {"trails": [[0, 1], [2, 3]], "dev": [(3, 0)], "rev": [(2, 3)]}
IND2 = {"trails": [[0, 1, 2], [3, 4]], "dev": [(0, 3), (1, 3)]}
INDX = {"trails": [[0, 1], [2, 3]], "dev": [(0, 3), (2, 1)]}
INDS = {"trails": [[0, 1, 2], [3, 4, 5]], "dev": [(1, 4)], "shift": {"3": 1}}
# many edges at one node, keys in no order, trails that start late, unloaded nodes, auxiliary trails
MIX = {"trails": [[0, 1, 2], [3, 4, 5]], "dev": [(0, 3), (4, 1), (0, 4)]}
STAR = {"trails": [[0, 1], [2, 3], [4, 5], [6, 7]], "dev": [(0, 2), (4, 0), (0, 6), (6, 4)]}
KEYS = {"trails": [[7, 2, 9], [4, 0]], "dev": [(4, 7), (2, 0)], "order": "rev", "rev": [(4, 0)]}
LATE = {"trails": [[0, 1], [2, 3]], "dev": [(1, 3), (0, 2)], "shift": {"0": 2, "2": 2}}
GAP = {"trails": [[0, 1, 2], [3, 4]], "shift": {"3": 5}}
BARE = {"trails": [[0, 1, 2], [3, 4]], "dev": [(0, 3), (1, 4)], "loads": [1], "rev": [(0, 1)]}
LONG = {"trails": [[0, 1, 2, 3, 4]], "loads": [0, 2], "rev": [(2, 3)]}
AUX = {"trails": [[0, 1]], "bare": [2, 3], "dev": [(0, 2), (2, 3), (3, 0)]}
AUX1 = {"trails": [[0, 1, 2]], "bare": [3], "dev": [(1, 3), (3, 0)]}
ORI = {"trails": [[0, 1, 2]], "rev": "sym"}
ORI2 = {"trails": [[0, 1], [2, 3]], "dev": [(2, 0)], "rev": "sym"}
INDM = {"trails": [[0, 1, 2], [3, 4, 5]], "dev": [(0, 4), (0, 5)], "rev": [(3, 4)], "loads": [0, 3]}
CROSS = {"trails": [[0, 1, 2], [3, 4, 5]], "dev": [(0, 5), (3, 2), (1, 4)]}
# longer, wider
TALL = {"trails": [[0, 1, 2, 3, 4, 5, 6, 7]], "rev": [(2, 3), (6, 7)], "loads": [0, 3, 6, 7], "neg": "mixed"}
WIDE = {"trails": [[0, 1], [2, 3], [4, 5], [6, 7], [8, 9], [10, 11]], "dev": [(0, 2), (4, 2), (4, 6), (6, 8), (10, 8), (10, 0)], "loads": [0, 4, 8, 10], "rev": [(4, 5)], "neg": "mixed", "fneg": "mixed"}
LADDER = {"trails": [[0, 1, 2, 3, 4], [10, 11, 12, 13, 14]], "dev": [(0, 10), (11, 1), (2, 12), (13, 3), (4, 14)], "loads": [0, 2, 11], "rev": [(1, 2), (13, 14)], "dim2": True, "neg": "mixed", "fneg": "mixed"}
NET = {"trails": [[0, 1, 2], [3, 4, 5], [6, 7]], "dev": [(0, 3), (3, 6), (1, 6), (5, 0), (7, 2)], "loads": [0, 4, 6], "rev": [(3, 4)], "dim2": True, "neg": "mixed", "fneg": "mixed"}
NETS = {"trails": [[0, 1, 2, 3], [4, 5], [6, 7]], "dev": [(1, 4), (4, 6), (3, 7), (0, 5)], "shift": {"4": 1, "6": 2}, "loads": [0, 4, 6], "rev": [(6, 7)], "dim2": True, "neg": "mixed", "fneg": "mixed"}
TALLER = {"trails": [list(range(20))], "rev": [(k, k + 1) for k in range(0, 19, 3)], "neg": "mixed"}
WIDER = {"trails": [[2 * k, 2 * k + 1] for k in range(12)], "dev": [(2 * k, (2 * k + 2) % 24) for k in range(12)], "loads": list(range(0, 24, 4)), "neg": "mixed", "fneg": "mixed"}
# special positions and equal values: collinear nodes, symmetric pairs, the same data throughout
COLL = {"trails": [[0, 1], [2, 3], [4, 5]], "dev": [(0, 2), (0, 4), (4, 2)], "at": {"0": [0, 0, 0], "2": [1, 0, 0], "4": [2, 0, 0]}}
COLLF = dict(COLL, tie=["f", "L"])
SYM = {"trails": [[0, 1, 2], [3, 4, 5]], "dev": [(0, 3), (1, 4)], "at": {"0": [-1, 0, 0], "3": [1, 0, 0]}, "tie": ["f", "L", "q"]}
SAME = {"trails": [[0, 1], [2, 3], [4, 5], [6, 7]], "dev": [(0, 2), (4, 0), (0, 6), (6, 4)], "tie": ["f", "L", "q"]}
SAMET = {"trails": [[0, 1, 2, 3], [4, 5, 6]], "dev": [(0, 4), (5, 1)], "tie": ["f", "L", "q"], "rev": [(1, 2)]}
SAMEI = {"trails": [[0, 1, 2], [3, 4]], "dev": [(0, 3), (0, 4), (1, 3)], "at": {"0": [0, 0, 0], "3": [1, 0, 0]}, "tie": ["f", "L", "q"]}
SPECIAL = ("COLL", "COLLF", "SYM", "SAME", "SAMET")
