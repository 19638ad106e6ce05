PRE = '''
import numpy as np
from compas.geometry import Line, Plane, Point, Polyline, Vector
from compas_cem.diagrams import TopologyDiagram
from compas_cem.elements import Node, TrailEdge, DeviationEdge
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport
from compas_cem.equilibrium import static_equilibrium, static_equilibrium_numpy
from compas_cem.equilibrium.force_numpy import equilibrium_state_numpy
from compas_cem.optimization import *


def arch():
    t = TopologyDiagram()
    for k, p in enumerate([[0, 0, 0], [-1, 0, 0], [1, 0, 0.3], [2, 0, 0]]):
        t.add_node(Node(k, [float(x) for x in p]))
    t.add_edge(TrailEdge(0, 1, length=-1.0))
    t.add_edge(TrailEdge(2, 3, length=-1.5))
    t.add_edge(DeviationEdge(0, 2, force=-1.0))
    t.add_support(NodeSupport(1))
    t.add_support(NodeSupport(3))
    t.add_load(NodeLoad(0, [0.0, 0.2, -1.0]))
    t.add_load(NodeLoad(2, [0.0, 0.0, -1.0]))
    t.build_trails()
    return t
'''

plant("con-direction-length", "C20", "optimization/constraints/direction.py",
      ("        target = normalize_vector(self._target)\n        return self._aligned_vector(target, reference)\n",
       "        target = self._aligned_vector(self._target, reference)\n        if length_vector_sqrd(target) > 1.0:\n            target = normalize_vector(target)\n        return target\n"),
      "a target vector shorter than one",
      "the penalty of a direction constraint depends on the length of a short target vector",
      PRE + '''
t = arch()
s = equilibrium_state_numpy(t)
a = EdgeDirectionConstraint((0, 2), Vector(1.0, 0.2, 0.0)).penalty(s)
b = EdgeDirectionConstraint((0, 2), Vector(0.1, 0.02, 0.0)).penalty(s)
assert abs(a - b) < 1e-9, (a, b)
''')

plant("con-weight-squared", "C20", "optimization/constraints/constraint.py",
      ("        diff = float_a - float_b\n\n        return diff * diff * self.weight\n", "        diff = (float_a - float_b) * self.weight\n\n        return diff * diff\n"),
      "a weight other than one on a length or force constraint",
      "weights of scalar constraints count squared",
      PRE + '''
s = equilibrium_state_numpy(arch())
a = DeviationEdgeLengthConstraint((0, 2), 3.0, weight=1.0).penalty(s)
b = DeviationEdgeLengthConstraint((0, 2), 3.0, weight=2.0).penalty(s)
assert abs(b - 2 * a) < 1e-9, (a, b)
''')

plant("opt-key-reuse", "C21", "optimization/optimizer.py",
      ("        self._ckey += 1\n        self.constraints[self._ckey] = constraint\n", "        self._ckey = len(self.constraints)\n        self.constraints[self._ckey] = constraint\n"),
      "removing a constraint that is not the last one, then adding another",
      "the new constraint overwrites an existing one",
      PRE + '''
o = Optimizer()
for n in (0, 1, 2):
    o.add_constraint(PointConstraint(n, Point(0, 0, 0)))
o.remove_constraint(0)
o.add_constraint(PointConstraint(3, Point(0, 0, 0)))
assert o.number_of_constraints() == 3 and sorted(c.key() for c in o.constraints.values()) == [1, 2, 3]
''')

plant("opt-skip-equal", "C23", "optimization/objective_func.py",
      ("    fx = x_func(x)\n\n    if grad.size > 0:\n        grad_func(x, grad)\n",
       "    if grad.size > 0:\n        grad_func(x, grad)\n        x_func = getattr(grad_func, \"keywords\", {}).get(\"x_func\", x_func)\n\n    fx = x_func(x)\n"),
      "gradients by finite differences: the objective is then evaluated on the copy of the topology made for the gradient, not on the topology itself",
      "the topology does not follow the candidates any more, so a search halted by roundoff returns the start instead of the last candidate",
      PRE + '''
import compas_cem.optimization.optimizer as om
from nlopt import RoundoffLimited


class Solver:
    def __init__(self, f, **k):
        self.f = f

    def optimize(self, x):
        self.f(x + 0.1, np.zeros(len(x)))
        raise RoundoffLimited()

    def last_optimum_value(self):
        return 0.0

    def get_numevals(self):
        return 1

    def last_optimize_result(self):
        return -4


om.nlopt_solver = lambda **k: Solver(**k)
t = arch()
o = Optimizer()
o.add_parameter(DeviationEdgeParameter((0, 2)))
o.add_constraint(PointConstraint(3, Point(2.0, 0.0, -1.0)))
o.solve(t, grad="FD")
assert abs(t.edge_force((0, 2)) + 0.9) < 1e-9, t.edge_force((0, 2))
''')

plant("par-bound-start", "C22", ["optimization/parameters/parameter.py"],
      ("            return self.start_value(topology) + fabs(self._bound_up)\n", "            return self.start_value(topology) + max(self._bound_up, 0.0)\n"),
      "an upper bound given as a negative number",
      "negative upper bounds pin the parameter to its start value",
      PRE + '''
t = arch()
p = DeviationEdgeParameter((0, 2), -1.0, -1.0)
assert p.bound_up(t) == 0.0 and p.bound_low(t) == -2.0, (p.bound_low(t), p.bound_up(t))
''')

plant("opt-stopval", "C22", "optimization/nlopt.py",
      ("    if ftol is not None:\n", "    if ftol is not None and eps is None:\n"),
      "both thresholds given, as by default",
      "the convergence threshold kappa is ignored whenever eps is given",
      PRE + '''
import compas_cem.optimization.nlopt as nl
s = nl.nlopt_solver(f=lambda x, g: 0.0, algorithm="SLSQP", dims=1, bounds_up=np.ones(1), bounds_low=-np.ones(1), iters=3, eps=1e-6, ftol=1e-3)
assert s.get_ftol_abs() == 1e-3, s.get_ftol_abs()
''')

plant("opt-gradient-at-start", "C23", "optimization/optimizer.py",
      ("        self.gradient = grad_func(x_opt, np.zeros(x_opt.size))\n", "        self.gradient = grad_func(self.optimization_parameters(topology), np.zeros(x_opt.size))\n"),
      "an optimizer whose last evaluation is not the optimum it returns",
      "the reported gradient is that of the last candidate evaluated",
      PRE + '''
import compas_cem.optimization.optimizer as om


class Solver:
    def __init__(self, f, **k):
        self.f = f

    def optimize(self, x):
        self.f(x + 0.3, np.zeros(len(x)))
        return x - 0.2

    def last_optimum_value(self):
        return 0.0

    def get_numevals(self):
        return 1

    def last_optimize_result(self):
        return 3


om.nlopt_solver = lambda **k: Solver(**k)
t = arch()
o = Optimizer()
o.add_parameter(DeviationEdgeParameter((0, 2)))
o.add_constraint(PointConstraint(3, Point(2.0, 0.0, -1.0)))
o.solve(t)
f = lambda x: o._optimize_form(np.array([x]), arch(), 100, 1e-6)
x = o.x_opt[0]
assert abs(o.gradient[0] - (f(x + 1e-5) - f(x - 1e-5)) / 2e-5) < 1e-3, (o.gradient, (f(x + 1e-5) - f(x - 1e-5)) / 2e-5)
''')

plant("opt-status", "C23", "optimization/nlopt.py",
      ("               3: \"NLOPT_FTOL_REACHED\",\n               4: \"NLOPT_XTOL_REACHED\",\n", "               3: \"NLOPT_XTOL_REACHED\",\n               4: \"NLOPT_FTOL_REACHED\",\n"),
      "a search that ends because the objective or the parameters stopped changing",
      "the reported status names the wrong reason",
      PRE + '''
import nlopt
assert nlopt_status(nlopt.FTOL_REACHED) == "NLOPT_FTOL_REACHED"
''')

plant("proxy-eta", "C23", "optimization/proxy.py",
      ("                           tmax=tmax,\n                           eta=eta)\n", "                           tmax=tmax,\n                           eta=max(eta, 1e-6))\n"),
      "a form-finding threshold below 1e-6 passed to the proxy function",
      "the proxy does not pass on the requested threshold",
      PRE + '''
import compas_cem.optimization.optimizer as om
seen = []
real = om.equilibrium_state_numpy
om.equilibrium_state_numpy = lambda t, tmax, eta: (seen.append(eta), real(t, tmax, eta))[1]
solve_proxy(arch(), [PointConstraint(3, Point(2.0, 0.0, -1.0))], [DeviationEdgeParameter((0, 2), 1.0, 1.0)], "SLSQP", 3, eta=1e-9)
assert set(seen) == {1e-9}, set(seen)
''')

plant("grad-relative-step", "C24", "optimization/grad.py",
      ("        _x[i] += step_size\n", "        _x[i] += step_size * max(1.0, abs(_xi))\n"),
      "finite differences at a candidate with a component larger than one",
      "difference quotients of large parameters are too large by the parameter's magnitude",
      PRE + '''
g = grad_finite_differences(np.array([0.5, 3.0]), np.zeros(2), x_func=lambda x: 2.0 * x[0] + 5.0 * x[1], step_size=1e-3)
assert abs(g[0] - 2.0) < 1e-6 and abs(g[1] - 5.0) < 1e-6, g
''')

plant("grad-frozen-direction", "C24", "equilibrium/force_numpy.py",
      ("                if trail_force * length < 0.0:\n                    trail_force = trail_force * -1.0\n",
       "                if trail_force * length < 0.0:\n                    trail_force = getattr(trail_force, \"_value\", trail_force) * -1.0\n"),
      "automatic differentiation of a force constraint on a compression trail edge",
      "the gradient of compression forces is zero",
      PRE + '''
from autograd import grad
t = arch()
o = Optimizer()
o.add_parameter(DeviationEdgeParameter((0, 2)))
o.add_constraint(TrailEdgeForceConstraint((0, 1), 0.0))
f = lambda x: o._optimize_form(x, t.copy(), 100, 1e-6)
x = np.array([-1.0])
g = grad(f)(x)[0]
n = (f(x + 1e-5) - f(x - 1e-5)) / 2e-5
assert abs(g - n) < 1e-3, (g, n)
''')

plant("par-zero-bound", "C25", "optimization/parameters/edge.py",
      ("            if bound is not None:\n                bound = float(bound)\n", "            bound = float(bound) if bound else None\n"),
      "an edge parameter with a bound of zero, sent through JSON",
      "a zero bound becomes no bound",
      PRE + '''
import compas
p = compas.json_loads(compas.json_dumps(DeviationEdgeParameter((0, 2), 0.0, 1.0)))
assert p.bound_low(arch()) == -1.0, p.bound_low(arch())
''')

plant("con-weight-lost", "C25", "optimization/constraints/constraint.py",
      ("        data[\"key\"] = repr(self._key)\n        data[\"target\"] = repr(self._target)\n", "        data[\"key\"] = repr(tuple(sorted(self._key)))\n        data[\"target\"] = repr(self._target)\n"),
      "a force constraint on a trail edge whose key is not in ascending order, sent through JSON",
      "the constraint refers to an edge that does not exist",
      PRE + '''
import compas
c = compas.json_loads(compas.json_dumps(TrailEdgeForceConstraint((5, 2), 1.0)))
assert c.key() == (5, 2), c.key()
''')
