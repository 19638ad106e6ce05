PRE = '''
import numpy as np
from compas.geometry import Line, Plane, Point, Polyline, Vector
from compas_cem.diagrams import FormDiagram, TopologyDiagram
from compas_cem.elements import Node, TrailEdge, DeviationEdge
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport
from compas_cem.equilibrium import static_equilibrium, static_equilibrium_numpy
from compas_cem.optimization import *


def arch(force=-1.0, shift=None):
    t = TopologyDiagram()
    for k, p in enumerate([[0, 0, 0], [-1, 0, 0], [1, 0, 0.3], [2, 0, 0]]):
        t.add_node(Node(k, [float(x) for x in p]))
    t.add_edge(TrailEdge(0, 1, length=-1.0))
    t.add_edge(TrailEdge(2, 3, length=-1.5))
    t.add_edge(DeviationEdge(0, 2, force=force))
    t.add_support(NodeSupport(1))
    t.add_support(NodeSupport(3))
    t.add_load(NodeLoad(0, [0.0, 0.2, -1.0]))
    t.add_load(NodeLoad(2, [0.0, 0.0, -1.0]))
    t.build_trails()
    if shift is not None:
        t.shift_trail(2, shift)
    return t
'''

plant("eq-unstressed-length", "C04", "equilibrium/force_numpy.py",
      ("        force = form.edge_attribute(key=edge, name=\"force\")\n        length = np.copysign(length, force)\n",
       "        force = form.edge_attribute(key=edge, name=\"force\")\n        if not force:\n            # no state without a force\n            continue\n        length = np.copysign(length, force)\n"),
      "a deviation edge that carries no force",
      "its stored length is not the distance between its nodes",
      PRE + '''
f = static_equilibrium_numpy(arch(0.0))
a, b = f.node_coordinates(0), f.node_coordinates(2)
assert abs(abs(f.edge_length_2((0, 2))) - np.linalg.norm(np.subtract(a, b))) < 1e-9, f.edge_length_2((0, 2))
''')

plant("topo-aux-relength", "C12", "diagrams/topology/topology.py",
      ("            aux_dir = normalize_vector(self.auxiliary_trail_vector)\n\n",
       "            aux_dir = normalize_vector(self.auxiliary_trail_vector)\n\n            # keep the auxiliary trails alike\n            for edge in aux_trails.values():\n                if self.has_edge(*edge):\n                    self.edge_attribute(edge, \"length\", self.auxiliary_trail_length)\n\n"),
      "two builds with auxiliary trails, and another auxiliary length (or an edited auxiliary edge) in between",
      "the second build overwrites the lengths of the trails added by the first",
      PRE + '''
t = TopologyDiagram()
for k in range(3):
    t.add_node(Node(k, [float(k), 0.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0))
t.add_edge(DeviationEdge(0, 2, force=1.0))
t.add_support(NodeSupport(1))
t.build_trails(auxiliary_trails=True)
t.auxiliary_trail_length = -0.25
t.build_trails(auxiliary_trails=True)
e = list(t.auxiliary_trail_edges())[0]
assert t.edge_length_2(e) == -1.0, t.edge_length_2(e)
''')

plant("topo-shift-zero", "C13", "diagrams/topology/topology.py",
      ("        trail = self.attributes[\"_trails\"][key]\n        for idx, node in enumerate(trail):\n            sequence_new = sequence + idx\n            self.node_attribute(node, name=\"_k\", value=sequence_new)\n",
       "        trail = self.attributes[\"_trails\"][key]\n        sequences = set(self.trail_sequences(key))\n        for idx, node in enumerate(trail):\n            if sequence + idx in sequences and sequence < min(sequences):\n                # the trail has been there already\n                break\n            self.node_attribute(node, name=\"_k\", value=sequence + idx)\n"),
      "a trail shifted back by less than its length",
      "only its first nodes move",
      PRE + '''
t = arch(shift=2)
t.shift_trail(2, 1)
assert [t.node_sequence(n) for n in t.trail(2)] == [1, 2], [t.node_sequence(n) for n in t.trail(2)]
''')

plant("edge-zero-force", "C16", "elements/deviation.py",
      ("        attrs = {\"force\": force, \"type\": \"deviation\"}\n",
       "        attrs = {\"force\": force or 1.0, \"type\": \"deviation\"}\n"),
      "a deviation edge with a force of zero",
      "it carries a unit force",
      PRE + '''
t = arch(0.0)
assert t.edge_force((0, 2)) == 0.0, t.edge_force((0, 2))
''')

plant("opt-early-exit", "C21", "optimization/optimizer.py",
      ("            penalty += constraint.penalty(eq_state)\n\n        return penalty\n",
       "            penalty += constraint.penalty(eq_state)\n            if penalty > 1e6:\n                # hopeless\n                break\n\n        return penalty\n"),
      "two or more constraints, the first of them violated by far",
      "the penalties of the others are not added",
      PRE + '''
t = arch()
o = Optimizer()
o.add_parameter(DeviationEdgeParameter((0, 2)))
o.add_constraint(PointConstraint(1, Point(-5000.0, 0.0, -1.0)))
o.add_constraint(PointConstraint(3, Point(2000.0, 0.0, -1.0)))
f = o.objective_func(t, None, 100, 1e-6)
v = f(np.array([-1.0]), np.zeros(0))
s = static_equilibrium(arch())
w = sum(np.sum(np.square(np.subtract(s.node_coordinates(n), p))) for n, p in ((1, [-5000.0, 0.0, -1.0]), (3, [2000.0, 0.0, -1.0])))
assert abs(v - w) < 1e-3, (v, w)
''')

plant("opt-zero-eps", "C22", "optimization/nlopt.py",
      ("    if eps is not None:\n        solver.set_stopval(eps)\n", "    if eps:\n        solver.set_stopval(eps)\n"),
      "a threshold of zero for the objective",
      "the search does not stop when it is reached",
      PRE + '''
t = arch()
o = Optimizer()
o.add_parameter(OriginNodeXParameter(0))
o.add_constraint(PointConstraint(0, Point(0.0, 0.0, 0.0)))
import nlopt
real, seen = nlopt.opt.set_stopval, []
nlopt.opt.set_stopval = lambda self, v: (seen.append(v), real(self, v))[1]
o.solve(t, eps=0.0, kappa=None, iters=3)
assert seen == [0.0], seen
''')

plant("grad-close-cache", "C24", "optimization/optimizer.py",
      ("            grad_func = partial(grad_autograd, grad_func=agrad(x_func))  # x, grad, x_func\n",
       "            x_grad = agrad(x_func)\n            latest = []\n\n            def x_grad_latest(x):\n                # line searches ask for the gradient at the same point again\n                if not latest or not np.allclose(latest[0], x):\n                    latest[:] = [np.copy(x), x_grad(x)]\n                return latest[1]\n\n            grad_func = partial(grad_autograd, grad_func=x_grad_latest)  # x, grad, x_func\n"),
      "two candidates that are close, but not the same",
      "the gradient at the second is that at the first",
      PRE + '''
import compas_cem.optimization.optimizer as M
seen = []


class Fake:
    def __init__(self, f):
        self.f = f

    def optimize(self, x):
        for d in (0.0, 2e-6):
            g = np.zeros(1)
            self.f(x + d, g)
            seen.append(float(g[0]))
        return x

    def last_optimum_value(self):
        return 0.0

    def get_numevals(self):
        return 2

    def last_optimize_result(self):
        return 1


M.nlopt_solver = lambda f, **k: Fake(f)
t = arch()
o = Optimizer()
o.add_parameter(DeviationEdgeParameter((0, 2)))
o.add_constraint(PointConstraint(1, Point(-1.0, 0.0, -3.0), weight=100.0))
o.solve(t)
assert seen[0] != seen[1], seen
''')

plant("eq-callback-stop", "C06", "equilibrium/force_numpy.py",
      ("                # do callback\n                if callback:\n                    callback()\n",
       "                # do callback\n                if callback and callback():\n                    break\n"),
      "a callback that returns something",
      "the calculation of the sequence is cut short",
      PRE + '''
t = arch()
a, b = static_equilibrium_numpy(t), static_equilibrium_numpy(t, callback=lambda: 1)
for n in a.nodes():
    assert np.allclose(a.node_coordinates(n), b.node_coordinates(n)), n
''')

plant("opt-runtime-tmax", "C23", "optimization/optimizer.py",
      ("            print(f\"Optimization total runtime: {round(time() - start, 4)} seconds\")\n            return static_equilibrium(topology, tmax=tmax, eta=eta)\n",
       "            print(f\"Optimization total runtime: {round(time() - start, 4)} seconds\")\n            return static_equilibrium(topology)\n"),
      "a search that fails at runtime, with an iteration limit or threshold of its own",
      "the returned form is calculated with other settings",
      PRE + '''
import compas_cem.optimization.optimizer as M


class Fake:
    def optimize(self, x):
        raise RuntimeError("nlopt failure")


M.nlopt_solver = lambda **k: Fake()
t = arch(shift=1)
o = Optimizer()
o.add_parameter(DeviationEdgeParameter((0, 2)))
o.add_constraint(PointConstraint(1, Point(-1.0, 0.0, -3.0)))
f = o.solve(t, tmax=1)
g = static_equilibrium(arch(shift=1), tmax=1)
for n in f.nodes():
    assert np.allclose(f.node_coordinates(n), g.node_coordinates(n)), n
''')

plant("topo-loaded-count", "C18", "diagrams/diagram.py",
      ("        return length_vector(self.node_load(node)) > min_force\n",
       "        return any([component > min_force or component < -min_force for component in self.node_load(node)])\n"),
      "a load whose components are below the threshold, but not its magnitude",
      "the node does not count as loaded",
      PRE + '''
t = arch()
t.add_load(NodeLoad(0, [0.8, 0.8, 0.8]))
assert t.is_node_loaded(0, min_force=1.0)
''')

plant("topo-kept-sequences", "C10", "diagrams/topology/topology.py",
      ("            for index, node in enumerate(trail):\n                self.node_attribute(node, \"_k\", index)\n",
       "            shift = min([self.node_attribute(node, \"_k\") or 0 for node in trail])\n            for index, node in enumerate(trail):\n                self.node_attribute(node, \"_k\", shift + index)\n"),
      "building trails again after a trail has been shifted",
      "sequences do not start at zero",
      PRE + '''
t = arch(shift=2)
t.build_trails()
assert [t.node_sequence(n) for n in t.trail(2)] == [0, 1], [t.node_sequence(n) for n in t.trail(2)]
''')

plant("opt-unchanged-parameter", "C21", "optimization/optimizer.py",
      ("            value = parameters[index]\n",
       "            value = parameters[index]\n            if value == 0.0:\n                # not a meaningful length, force or load\n                continue\n"),
      "a candidate with a parameter that is exactly zero",
      "the topology keeps that parameter's previous value",
      PRE + '''
t = arch()
o = Optimizer()
o.add_parameter(OriginNodeZParameter(2))
o.add_constraint(PointConstraint(2, Point(1.0, 0.0, 1.0)))
f = o.objective_func(t, None, 100, 1e-6)
v = f(np.array([0.0]), np.zeros(0))
assert abs(v - 1.0) < 1e-9, v
''')
