PRE = '''
from compas_cem.diagrams import TopologyDiagram
from compas_cem.elements import Node, TrailEdge, DeviationEdge
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport
from compas_cem.equilibrium import static_equilibrium, static_equilibrium_numpy
'''
TWO = '''
def arch(extra=()):
    t = TopologyDiagram()
    for k, p in enumerate([[0, 0, 0], [-1, 0, 0], [-2, 0, 0], [1, 0, 0.3], [2, 0, 0], [3, 0, 0]]):
        t.add_node(Node(k, [float(x) for x in p]))
    for u, v in ((0, 1), (1, 2), (3, 4), (4, 5)):
        t.add_edge(TrailEdge(u, v, length=-1.0))
    t.add_edge(DeviationEdge(0, 3, force=-1.0))
    for e, f in extra:
        t.add_edge(DeviationEdge(e[0], e[1], force=f))
    for s in (2, 5):
        t.add_support(NodeSupport(s))
    for n in range(6):
        t.add_load(NodeLoad(n, [0.0, 0.1 * n, -1.0]))
    t.build_trails()
    return t


def off(form, node):
    """what is left of the forces at a node"""
    x = form.node_coordinates(node)
    r = list(form.node_load(node))
    if form.is_node_support(node):
        r = [a + b for a, b in zip(r, form.reaction_force(node))]
    for e in form.edges():
        if node in e:
            o = form.node_coordinates(e[0] if e[1] == node else e[1])
            d = [a - b for a, b in zip(o, x)]
            n = sum(a * a for a in d) ** 0.5
            r = [a + form.edge_force(e) * b / n for a, b in zip(r, d)]
    return sum(abs(a) for a in r)
'''

plant("eq-support-ties", "C01", "equilibrium/force.py",
      ("    rd_vec = direct_deviation_edges_resultant_vector(form, node, node_xyz)\n",
       "    rd_vec = [0.0, 0.0, 0.0]\n    if not form.is_node_support(node):\n        rd_vec = direct_deviation_edges_resultant_vector(form, node, node_xyz)\n"),
      "a deviation edge that joins two supports of equal sequence (a tie between supports)",
      "the pull of direct deviation edges is left out of the balance, hence of the reaction, at supports",
      PRE + TWO + '''
form = static_equilibrium(arch([((2, 5), 2.0)]))
bad = [n for n in form.nodes() if off(form, n) > 1e-6]
assert not bad, bad
''')

plant("eq-numpy-late-load", "C01", "equilibrium/force_numpy.py",
      ("                q_vec = node_loads[node]\n",
       "                q_vec = node_loads[node]\n                if topology.is_node_support(node) and t > 0 and not node_indirect[node]:\n                    q_vec = np.zeros(3)\n"),
      "a load on a support node, and more than one iteration, in the numpy solver",
      "from the second iteration on, loads applied at supports do not reach the reaction",
      PRE + TWO + '''
form = static_equilibrium_numpy(arch())
bad = [n for n in form.nodes() if off(form, n) > 1e-6]
assert not bad, bad
''')

plant("eq-plane-touching", "C03", "equilibrium/force.py",
      ("                    if not plength:\n", "                    if plength is None:\n"),
      "a trail edge whose start node already lies on the edge's plane, in the plain solver",
      "the edge collapses to zero length instead of falling back to its prescribed length",
      PRE + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 1.0]))
t.add_node(Node(1, [0.0, 0.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-2.0, plane=([5.0, 0.0, 1.0], [0.0, 0.0, 1.0])))
t.add_support(NodeSupport(1))
t.add_load(NodeLoad(0, [0.0, 0.0, -1.0]))
t.build_trails()
form = static_equilibrium(t)
assert abs(abs(form.edge_length_2((0, 1))) - 2.0) < 1e-9, form.edge_length_2((0, 1))
''')

plant("eq-numpy-plane-orientation", "C03", "equilibrium/force_numpy.py",
      ("                plane = edge_planes.get(edge)\n", "                plane = edge_planes.get((node, next_node))\n"),
      "a trail edge with a plane, drawn from the support side towards the origin, in the numpy solver",
      "the plane of trail edges drawn against the trail is ignored",
      PRE + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 1.0]))
t.add_node(Node(1, [0.0, 0.0, 0.0]))
t.add_edge(TrailEdge(1, 0, length=-2.0, plane=([5.0, 0.0, -4.0], [0.0, 0.0, 1.0])))
t.add_support(NodeSupport(1))
t.add_load(NodeLoad(0, [0.0, 0.0, -1.0]))
t.build_trails()
form = static_equilibrium_numpy(t)
assert abs(form.node_coordinates(1)[2] + 4.0) < 1e-9, form.node_coordinates(1)
''')

plant("eq-form-lengths", "C04", "equilibrium/force.py",
      ("    for edge in form.edges():\n        u, v = edge\n", "    for edge in form.edges():\n        u, v = edge\n        if edge in trail_forces and form.edge_force(edge) * form.edge_length_2(edge) > 0.0:\n            continue  # trail edges keep their input length\n"),
      "a trail edge whose plane overrides its length without flipping its sign, in the plain solver",
      "the form reports the input length of a trail edge, not its real length, when a plane set it",
      PRE + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 1.0]))
t.add_node(Node(1, [0.0, 0.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-2.0, plane=([5.0, 0.0, -4.0], [0.0, 0.0, 1.0])))
t.add_support(NodeSupport(1))
t.add_load(NodeLoad(0, [0.0, 0.0, -1.0]))
t.build_trails()
form = static_equilibrium(t)
assert abs(abs(form.edge_length_2((0, 1))) - 5.0) < 1e-9, form.edge_length_2((0, 1))
''')

plant("eq-indirect-order", "C05", "equilibrium/force_numpy.py",
      ("                    ri_vec = deviation_edges_resultant_vector(node, node_xyz, indir_edges, edge_forces)\n",
       "                    ri_vec = deviation_edges_resultant_vector(node, last_positions, indir_edges, edge_forces)\n"),
      "deviation edges between different sequences and an iteration limit or threshold that stops before full convergence",
      "the numpy solver uses the previous iteration's positions where the plain solver uses the newest, so both stop at different forms",
      PRE + TWO + '''
a = static_equilibrium(arch([((0, 4), 0.5), ((1, 5), -0.4)]), tmax=3, eta=10.0)
b = static_equilibrium_numpy(arch([((0, 4), 0.5), ((1, 5), -0.4)]), tmax=3, eta=10.0)
for n in a.nodes():
    for x, y in zip(a.node_coordinates(n), b.node_coordinates(n)):
        assert abs(x - y) < 1e-9, (n, x, y)
''')

plant("eq-last-iteration", "C06", "equilibrium/force.py",
      ("    if t > 0:\n        if distance > eta:\n", "    if t > 1:\n        if distance > eta:\n"),
      "an iteration limit of two and a structure that needs more",
      "a form that has not converged is returned instead of an error when the limit is two iterations",
      PRE + TWO + '''
try:
    static_equilibrium(arch([((0, 4), 0.5), ((1, 5), -0.4)]), tmax=2, eta=1e-6)
except ValueError:
    pass
else:
    raise AssertionError("returned though not converged")
''')

plant("eq-numpy-distance-moving", "C06", "equilibrium/force_numpy.py",
      ("        pos_array = np.array([pos for key, pos in node_xyz.items()])\n        last_pos_array = np.array([last_positions[key] for key, pos in node_xyz.items()])\n",
       "        moving = [key for key in node_xyz if not topology.is_node_support(key)]\n        pos_array = np.array([node_xyz[key] for key in moving])\n        last_pos_array = np.array([last_positions[key] for key in moving])\n"),
      "an indirect deviation edge whose effect moves supports only (trails with a single edge), in the numpy solver",
      "movement of the supports does not count towards convergence, so unconverged forms are returned",
      PRE + '''
t = TopologyDiagram()
for k, p in enumerate([[0, 0, 0], [-1, 0, 0], [1, 0, 0.3], [2, 0, 0]]):
    t.add_node(Node(k, [float(x) for x in p]))
t.add_edge(TrailEdge(0, 1, length=-1.0))
t.add_edge(TrailEdge(2, 3, length=-1.0))
t.add_edge(DeviationEdge(0, 3, force=-0.7))
t.add_support(NodeSupport(1))
t.add_support(NodeSupport(3))
t.add_load(NodeLoad(0, [0.0, 0.0, -1.0]))
t.add_load(NodeLoad(2, [0.0, 0.0, -1.0]))
t.build_trails()
try:
    static_equilibrium_numpy(t, tmax=2, eta=1e-6)
except ValueError:
    pass
else:
    raise AssertionError("returned though not converged")
''')

plant("eq-warm-start", "C07", "equilibrium/force.py",
      ("                        # override signed length\n                        length = plength\n",
       "                        # override signed length\n                        length = plength\n                        topology.edge_attribute(key=edge, name=\"length\", value=length)\n"),
      "a trail edge with a plane, in the plain solver",
      "calculating a form overwrites the prescribed length in the topology, which changes what later calculations fall back to",
      PRE + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 1.0]))
t.add_node(Node(1, [0.0, 0.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-2.0, plane=([5.0, 0.0, -4.0], [0.0, 0.0, 1.0])))
t.add_support(NodeSupport(1))
t.add_load(NodeLoad(0, [0.0, 0.0, -1.0]))
t.build_trails()
static_equilibrium(t)
assert t.edge_length_2((0, 1)) == -2.0, t.edge_length_2((0, 1))
''')

plant("eq-kmax-reaction", "C08", "equilibrium/force.py",
      ("                if topology.is_node_support(node) or k == kmax:\n", "                if topology.is_node_support(node) or (k == kmax and k > 0):\n"),
      "a last sequence of zero",
      "stopping at sequence zero places the nodes of sequence one too and leaves the origins without reactions",
      PRE + TWO + '''
t = arch()
form = static_equilibrium(t, kmax=0)
assert form.node_coordinates(1) == t.node_coordinates(1), form.node_coordinates(1)
''')
