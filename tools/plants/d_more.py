PRE = '''
import numpy as np
from compas.geometry import Line, Plane, Point, Polyline, Vector
from compas_cem.diagrams import FormDiagram, TopologyDiagram
from compas_cem.elements import Node, TrailEdge, DeviationEdge
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport
from compas_cem.equilibrium import static_equilibrium, static_equilibrium_numpy
from compas_cem.equilibrium.force_numpy import equilibrium_state_numpy
from compas_cem.optimization import *


def arch(shift=None):
    t = TopologyDiagram()
    for k, p in enumerate([[0, 0, 0], [-1, 0, 0], [1, 0, 0.3], [2, 0, 0]]):
        t.add_node(Node(k, [float(x) for x in p]))
    t.add_edge(TrailEdge(0, 1, length=-1.0))
    t.add_edge(TrailEdge(2, 3, length=-1.5))
    t.add_edge(DeviationEdge(0, 2, force=-1.0))
    t.add_support(NodeSupport(1))
    t.add_support(NodeSupport(3))
    t.add_load(NodeLoad(0, [0.0, 0.2, -1.0]))
    t.add_load(NodeLoad(2, [0.0, 0.0, -1.0]))
    t.build_trails()
    if shift is not None:
        t.shift_trail(2, shift)
    return t


def same(a, b):
    for n in a.nodes():
        assert np.allclose(a.node_coordinates(n), b.node_coordinates(n)), (n, a.node_coordinates(n), b.node_coordinates(n))
        assert np.allclose(a.reaction_force(n), b.reaction_force(n)), (n, a.reaction_force(n), b.reaction_force(n))
    for e in a.edges():
        assert abs(a.edge_force(e) - b.edge_force(e)) < 1e-6, (e, a.edge_force(e), b.edge_force(e))
'''

plant("eq-collinear", "C01", "equilibrium/force.py",
      ("    for force, dev_vec in zip(forces, vectors):\n        r_vec = add_vectors(r_vec, scale_vector(dev_vec, force))\n",
       "    # forces by direction\n    force_vectors = {tuple(dev_vec): force for force, dev_vec in zip(forces, vectors)}\n    for dev_vec, force in force_vectors.items():\n        r_vec = add_vectors(r_vec, scale_vector(dev_vec, force))\n"),
      "two deviation edges that leave a node in the same direction",
      "one of the two deviation edges does not act on the node: the form is not in equilibrium",
      PRE + '''
t = TopologyDiagram()
for k, p in enumerate([[0, 0, 0], [0, 0, -1], [1, 0, 0], [1, 0, -1], [2, 0, 0], [2, 0, -1]]):
    t.add_node(Node(k, [float(x) for x in p]))
for u, v in ((0, 1), (2, 3), (4, 5)):
    t.add_edge(TrailEdge(u, v, length=-1.0))
    t.add_support(NodeSupport(v))
    t.add_load(NodeLoad(u, [0.0, 0.0, -1.0]))
t.add_edge(DeviationEdge(0, 2, force=-0.5))
t.add_edge(DeviationEdge(0, 4, force=-0.25))
t.build_trails()
same(static_equilibrium(t), static_equilibrium_numpy(t))
''')

plant("eq-max-distance", "C06", "equilibrium/force_numpy.py",
      ("        distance = np.sum(np.sqrt(np.sum(np.square(last_pos_array - pos_array), axis=1)))\n",
       "        distance = np.max(np.sqrt(np.sum(np.square(last_pos_array - pos_array), axis=1)))\n"),
      "indirect deviation edges, and an iteration in which every node moves less than eta but all of them together more",
      "the numpy solver stops an iteration too early, where the plain one goes on",
      PRE + '''
t = TopologyDiagram()
for k, p in enumerate([[0, 0, 0], [0, 0, -1], [0, 0, -2], [2, 0, 0], [2, 0, -1], [2, 0, -2]]):
    t.add_node(Node(k, [float(x) for x in p]))
for u, v in ((0, 1), (1, 2), (3, 4), (4, 5)):
    t.add_edge(TrailEdge(u, v, length=-1.0))
t.add_support(NodeSupport(2))
t.add_support(NodeSupport(5))
for n in (0, 1, 3, 4):
    t.add_load(NodeLoad(n, [0.0, 0.1 * n, -1.0]))
t.add_edge(DeviationEdge(0, 4, force=-0.5))
t.add_edge(DeviationEdge(1, 3, force=-0.4))
t.build_trails()
for k in range(8, 120):
    eta = 10.0 ** (-k / 16.0)
    a = static_equilibrium(t, tmax=100, eta=eta)
    b = static_equilibrium_numpy(t, tmax=100, eta=eta)
    for n in a.nodes():
        assert np.allclose(a.node_coordinates(n), b.node_coordinates(n), atol=1e-12, rtol=0), (eta, n)
''')

plant("eq-connectivity-cache", "C07", "equilibrium/force_numpy.py",
      [("__all__ = [\"static_equilibrium_numpy\"]\n", "__all__ = [\"static_equilibrium_numpy\"]\n\n# connectivity is expensive to query, calculate it once per diagram\n_CONNECTIVITY = {}\n"),
       ("    node_direct = {n: topology._connected_direct_deviation_edges(n) for n in topology.nodes()}\n    node_indirect = {n: topology._connected_indirect_deviation_edges(n) for n in topology.nodes()}\n",
        "    ckey = (id(topology), topology.number_of_nodes(), topology.number_of_edges())\n    if ckey not in _CONNECTIVITY:\n        _CONNECTIVITY[ckey] = ({n: topology._connected_direct_deviation_edges(n) for n in topology.nodes()},\n                               {n: topology._connected_indirect_deviation_edges(n) for n in topology.nodes()},\n                               topology)\n    node_direct, node_indirect, _ = _CONNECTIVITY[ckey]\n")],
      "solving a topology with the numpy solver, shifting one of its trails so that a direct deviation edge becomes indirect, and solving it again",
      "the second form is calculated with the connectivity of the first",
      PRE + '''
t = arch()
static_equilibrium_numpy(t, tmax=1)
t.shift_trail(2, 1)
a = static_equilibrium_numpy(t, tmax=1)
same(a, static_equilibrium_numpy(arch(1), tmax=1))
''')

plant("eq-weak-plane", "C03", "equilibrium/force.py",
      ("    cos_nv = dot_vectors(normal, normalize_vector(vector))\n\n    if fabs(cos_nv) < tol:\n        return\n\n    oa = subtract_vectors(origin, point)\n    cos_noa = dot_vectors(normal, oa)\n\n    return cos_noa / cos_nv\n",
       "    dot_nv = dot_vectors(normal, vector)\n\n    if fabs(dot_nv) < tol:\n        return\n\n    oa = subtract_vectors(origin, point)\n    dot_noa = dot_vectors(normal, oa)\n\n    return length_vector(vector) * dot_noa / dot_nv\n"),
      "a trail edge with a plane that carries a force of less than 1e-6",
      "the edge falls back to its length although its line meets the plane",
      PRE + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 0.0]))
t.add_node(Node(1, [0.0, 0.0, -1.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0, plane=Plane([0.0, 0.0, -3.0], [0.0, 0.0, 1.0])))
t.add_support(NodeSupport(1))
t.add_load(NodeLoad(0, [0.0, 0.0, -1e-7]))
t.build_trails()
z = static_equilibrium(t).node_coordinates(1)[2]
assert abs(z + 3.0) < 1e-9, z
''')

plant("topo-sequences-cover", "C13", "diagrams/topology/topology.py",
      ("        for k in range(self.number_of_sequences()):\n\n            def predicate(node, attr):\n                return self.node_sequence(node) == k\n\n            sequence = tuple(self.nodes_where_predicate(predicate))\n",
       "        nodes = {}\n        for node in self.nodes():\n            nodes.setdefault(self.node_sequence(node), []).append(node)\n\n        for k, sequence in enumerate(sorted(nodes)):\n            sequence = tuple(nodes[sequence])\n"),
      "all trails shifted so far that some sequence in between (or the first one) has no nodes",
      "sequences after a gap are listed under the wrong key, and empty ones are left out",
      PRE + '''
t = arch()
t.shift_trail(2, 3)
assert dict(t.sequences(keys=True)) == {0: (0,), 1: (1,), 2: (), 3: (2,), 4: (3,)}, dict(t.sequences(keys=True))
''')

plant("node-key-bool", "C15", "diagrams/mixins/node_mixins.py",
      ("        key = self.node_key(value)\n        if key is None:\n            return False\n        return self.has_node(key)\n",
       "        key = self.node_key(value)\n        return bool(key) or self.has_node(key)\n"),
      "asking whether a node exists by a key that is not in the diagram",
      "nodes are said to exist that do not",
      PRE + '''
t = arch()
assert t.node_exists(0) and t.node_exists([2.0, 0.0, 0.0])
assert not t.node_exists([9.0, 0.0, 0.0])
assert not t.node_exists(7)
''')

plant("form-shared-plane", "C07", "diagrams/form.py",
      ("        form = topology.copy(cls=cls)\n",
       "        form = topology.copy(cls=cls)\n\n        # planes need no conversion to data and back\n        for edge in topology.edges():\n            plane = topology.edge_attribute(edge, \"plane\")\n            if plane is not None:\n                form.edge_attribute(edge, \"plane\", plane)\n"),
      "a trail edge with a plane, and moving the plane of the returned form",
      "the topology's plane moves along",
      PRE + '''
t = arch()
t.edge_attribute((0, 1), "plane", Plane([-1.0, 0.0, 0.0], [1.0, 0.0, 0.0]))
f = static_equilibrium(t)
f.edge_attribute((0, 1), "plane").point.x = -5.0
assert t.edge_attribute((0, 1), "plane").point.x == -1.0
''')

plant("opt-warm-start", "C22", "optimization/optimizer.py",
      ("        # generate optimization variables\n        x = self.optimization_parameters(topology)\n",
       "        # generate optimization variables\n        x = self.optimization_parameters(topology)\n        if self.x_opt is not None and len(self.x_opt) == len(x):\n            # start from the last optimum\n            x = np.copy(self.x_opt)\n"),
      "two solves with one optimizer, with the parameter's value in the topology set back in between",
      "the second search starts from the first one's optimum, possibly outside of the bounds",
      PRE + '''
t = arch()
o = Optimizer()
o.add_parameter(DeviationEdgeParameter((0, 2), 0.5, 0.5))
o.add_constraint(PointConstraint(1, Point(-1.0, 0.0, -1.0)))
o.solve(t, iters=5)
t.edge_attribute((0, 2), "force", -3.0)
o.solve(t, iters=1)
f = t.edge_force((0, 2))
p = arch()
p.edge_attribute((0, 2), "force", -3.0)
q = Optimizer()
q.add_parameter(DeviationEdgeParameter((0, 2), 0.5, 0.5))
q.add_constraint(PointConstraint(1, Point(-1.0, 0.0, -1.0)))
q.solve(p, iters=1)
assert abs(f - p.edge_force((0, 2))) < 1e-9, (f, p.edge_force((0, 2)))
''')

plant("opt-penalty-cache", "C21", "optimization/optimizer.py",
      ("        f = objective_function_numpy\n        x_func = partial(self._optimize_form, topology=topology, tmax=tmax, eta=eta)\n",
       "        f = objective_function_numpy\n        x_form = partial(self._optimize_form, topology=topology, tmax=tmax, eta=eta)\n        penalties = {}\n\n        def x_func(x):\n            # line searches revisit candidates\n            key = tuple([round(float(value), 4) for value in x])\n            if key not in penalties:\n                penalties[key] = x_form(x)\n            return penalties[key]\n\n"),
      "two candidates that agree to four decimals",
      "the second gets the objective of the first",
      PRE + '''
t = arch()
o = Optimizer()
o.add_parameter(DeviationEdgeParameter((0, 2)))
o.add_constraint(PointConstraint(1, Point(-1.0, 0.0, -1.0), weight=1e3))
f = o.objective_func(t, None, 100, 1e-6)
a = f(np.array([-1.00001]), np.zeros(0))
b = f(np.array([-1.00004]), np.zeros(0))
assert a != b, (a, b)
''')

plant("con-polyline-vertex", "C20", "optimization/constraints/polyline.py",
      ("        for segment in pairwise(polyline):\n            cloud.append(closest_point_on_segment(point, segment))\n",
       "        for segment in pairwise(polyline):\n            closest = closest_point_on_segment(point, segment)\n            if closest in cloud:\n                continue\n            cloud.append(closest)\n        if len(cloud) > 3:\n            # the last segments of a long polyline only matter if they are entered\n            cloud = [c for c in cloud if c not in polyline[-1:]] or cloud\n"),
      "a polyline of four or more segments whose end is the point closest to the node",
      "the end point of the polyline is ignored",
      PRE + '''
s = {"node_xyz": {0: [10.0, 0.0, 0.0]}}
c = PolylineConstraint(0, Polyline([[0.0, 0.0, 0.0], [1.0, 0.5, 0.0], [2.0, 0.0, 0.0], [3.0, 0.5, 0.0], [4.0, 0.0, 0.0]]))
assert abs(c.penalty(s) - 36.0) < 1e-9, c.penalty(s)
''')

plant("opt-bounded-gradient", "C23", "optimization/optimizer.py",
      ("        self.gradient_norm = np.linalg.norm(self.gradient)\n",
       "        free = np.logical_and(x_opt > bounds_low, x_opt < bounds_up)\n        self.gradient_norm = np.linalg.norm(self.gradient[free])\n"),
      "an optimum at a bound",
      "the reported gradient norm is not the norm of the gradient",
      PRE + '''
t = arch()
o = Optimizer()
o.add_parameter(DeviationEdgeParameter((0, 2), 0.01, 0.01))
o.add_constraint(PointConstraint(1, Point(-1.0, 0.0, -3.0)))
o.solve(t, iters=50)
assert abs(o.gradient_norm - np.linalg.norm(o.gradient)) < 1e-9, (o.gradient_norm, o.gradient)
''')

PLOT = PRE + '''
import matplotlib
matplotlib.use("Agg")
from compas_cem.plotters import Plotter


def plot(form, **kwargs):
    p = Plotter()
    a = p.add(form, **kwargs)
    arrows = []
    for b in p.artists:
        if type(b).__name__ == "VectorArtist":
            arrows.append((list(b.point), list(b.vector), b.color))
    return a, arrows
'''

plant("plot-scaled-tolerance", "C26", "plotters/formartist.py",
      ("            f_len = length_vector(f_vec)\n", "            f_len = length_vector(f_vec_scaled)\n"),
      "a load scale that takes a load across the tolerance",
      "loads are drawn or left out depending on the scale",
      PLOT + '''
t = arch()
t.add_load(NodeLoad(0, [0.0, 0.0, -0.01]))
f = static_equilibrium(t)
_, arrows = plot(f, loadscale=0.1, loadtol=0.005, show_reactions=False)
assert len(arrows) == 2, arrows
''')

plant("plot-signed-widths", "C26", "plotters/formartist.py",
      ("        forces = [fabs(self.network.edge_force(edge)) for edge in self.edges]\n        forcemin = min(forces)\n        forcemax = max(forces)\n",
       "        forces = [self.network.edge_force(edge) for edge in self.edges]\n        forcemin = fabs(min(forces, key=fabs))\n        forcemax = fabs(max(forces))\n        if forcemax <= forcemin:\n            forcemax = max([fabs(force) for force in forces])\n"),
      "edges in tension and in compression, the largest force being compression",
      "edge widths leave the given range",
      PLOT + '''
t = arch()
t.add_load(NodeLoad(0, [0.0, 0.2, -3.0]))
t.edge_attribute((2, 3), "length", 1.5)
f = static_equilibrium(t)
a, _ = plot(f, edgewidth=(1.0, 5.0))
assert max(a.edge_width.values()) <= 5.0 + 1e-9 and min(a.edge_width.values()) >= 1.0 - 1e-9, a.edge_width
''')

plant("plot-last-edge", "C26", "plotters/formartist.py",
      ("                max_force = max(forces, key=lambda f: fabs(f))\n                if max_force < 0.0:\n",
       "                if sum(forces) < 0.0:\n"),
      "a support with a deviation edge too: the largest force in compression, the others together larger in tension",
      "the reaction arrow is drawn on the wrong side of the support",
      PLOT + '''
t = TopologyDiagram()
for k, p in enumerate([[0, 0, 0], [0, 0, -1], [1, 0, 0], [1, 0, -1], [2, 0, 0], [2, 0, -1]]):
    t.add_node(Node(k, [float(x) for x in p]))
for u, v in ((0, 1), (2, 3), (4, 5)):
    t.add_edge(TrailEdge(u, v, length=-1.0))
    t.add_support(NodeSupport(v))
    t.add_load(NodeLoad(u, [0.0, 0.0, -1.0]))
t.add_edge(DeviationEdge(1, 3, force=0.7))
t.add_edge(DeviationEdge(3, 5, force=0.7))
t.build_trails()
f = static_equilibrium(t)
_, arrows = plot(f, show_loads=False, reactionscale=1.0)
for n in (1, 3, 5):
    c, r = np.array(f.node_coordinates(n)), np.array(f.reaction_force(n))
    hits = [np.array(p) for p, v, _ in arrows if np.allclose(v, r) and np.linalg.norm(np.cross(np.array(p) - c, r)) < 1e-9]
    assert any(np.dot(p - c, r) < 0.0 for p in hits), (n, r, arrows)
''')

plant("plot-direct-only", "C26", "plotters/topologyartist.py",
      ("        for node in self.topology.loaded_nodes():\n", "        for node in self.topology.loaded_nodes(min_force=1e-3):\n"),
      "a load between 1e-6 and 1e-3",
      "the node is loaded, but not marked in the plot",
      PLOT + '''
t = arch()
t.add_load(NodeLoad(0, [0.0, 0.0, -1e-4]))
p = Plotter()
p.add(t)
n = len([a for a in p.artists if type(a).__name__ == "SegmentArtist" or type(a).__name__ == "LineArtist"])
assert n == 4, n
''')

plant("edge-swapped-points", "C16", "diagrams/mixins/edge_mixins.py",
      ("        u, v = edge_keys\n        attr = {k: v for k, v in edge.attributes.items()}\n",
       "        u, v = edge_keys\n        if self.has_edge(v, u):\n            # the edge exists already\n            u, v = v, u\n        attr = {k: v for k, v in edge.attributes.items() if v is not None}\n"),
      "adding a trail edge without a plane where one with a plane exists already",
      "the new edge keeps the plane of the old one",
      PRE + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 0.0]))
t.add_node(Node(1, [1.0, 0.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0, plane=Plane([0.0, 0.0, -1.0], [0.0, 0.0, 1.0])))
t.add_edge(TrailEdge(0, 1, length=-2.0))
assert t.edge_plane((0, 1)) is None, t.edge_plane((0, 1))
''')
