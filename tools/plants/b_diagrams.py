PRE = '''
from compas_cem.diagrams import TopologyDiagram
from compas_cem.elements import Node, TrailEdge, DeviationEdge
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport
from compas_cem.equilibrium import static_equilibrium, static_equilibrium_numpy
'''

plant("topo-stale-sequence", "C10", "diagrams/topology/topology.py",
      ("                self.node_attribute(node, \"_k\", index)\n", "                if self.node_attribute(node, \"_k\") is None or node == support:\n                    self.node_attribute(node, \"_k\", index)\n"),
      "building trails, extending a trail beyond its origin, and building trails again",
      "nodes keep the sequences of the earlier, shorter trail",
      PRE + '''
t = TopologyDiagram()
for k in range(3):
    t.add_node(Node(k, [float(k), 0.0, 0.0]))
t.add_edge(TrailEdge(1, 2, length=-1.0))
t.add_support(NodeSupport(2))
t.add_edge(TrailEdge(0, 1, length=-1.0))
t.build_trails()
t.add_node(Node(3, [3.0, 1.0, 0.0]))
t.add_edge(TrailEdge(3, 0, length=-1.0))
t.build_trails()
assert [t.node_sequence(n) for n in (3, 0, 1, 2)] == [0, 1, 2, 3], [t.node_sequence(n) for n in (3, 0, 1, 2)]
''')

plant("topo-aux-short-vector", "C12", "diagrams/topology/topology.py",
      ("            aux_dir = normalize_vector(self.auxiliary_trail_vector)\n",
       "            aux_dir = self.auxiliary_trail_vector\n            if sum([x ** 2 for x in aux_dir]) > 1.0:\n                aux_dir = normalize_vector(aux_dir)\n"),
      "an auxiliary trail vector shorter than one",
      "auxiliary nodes are placed closer than the auxiliary trail length asks for",
      PRE + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 0.0]))
t.add_node(Node(1, [1.0, 0.0, 0.0]))
t.add_edge(DeviationEdge(0, 1, force=1.0))
t.auxiliary_trail_vector = [0.0, 0.0, 0.5]
t.auxiliary_trail_length = 2.0
t.build_trails(auxiliary_trails=True)
u, v = list(t.auxiliary_trails())[0]
assert abs(t.node_coordinates(v)[2] - 2.0) < 1e-9, t.node_coordinates(v)
''')

plant("topo-aux-support-once", "C12", "diagrams/topology/topology.py",
      ("                edge = self.add_edge(TrailEdge(node, aux_node, self.auxiliary_trail_length))\n",
       "                edge = self.add_edge(TrailEdge(node, aux_node, self.auxiliary_trail_length if self.node_attribute(node, \"_k\") is None else abs(self.auxiliary_trail_length)))\n"),
      "a node that lost its trail: it was on a trail when trails were last built, and its trail edge is gone when they are built with auxiliary trails",
      "the auxiliary trail edge of such a node has the wrong sign",
      PRE + '''
t = TopologyDiagram()
for k in range(3):
    t.add_node(Node(k, [float(k), 0.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0))
t.add_edge(TrailEdge(1, 2, length=-1.0))
t.add_support(NodeSupport(2))
t.build_trails()
t.delete_edge(0, 1)
t.add_edge(DeviationEdge(0, 1, force=1.0))
t.build_trails(auxiliary_trails=True)
(edge,) = list(t.auxiliary_trails())
assert t.edge_length_2(tuple(edge)) == -1.0, t.edge_length_2(tuple(edge))
''')

plant("topo-empty-sequences", "C13", "diagrams/topology/topology.py",
      ("            sequence = tuple(self.nodes_where_predicate(predicate))\n",
       "            sequence = tuple(self.nodes_where_predicate(predicate))\n            if not sequence and k < self.sequence_last():\n                continue\n"),
      "a shift that leaves a sequence without nodes",
      "the sequence iterator leaves empty sequences out and disagrees with the number of sequences",
      PRE + '''
t = TopologyDiagram()
for k in range(2):
    t.add_node(Node(k, [float(k), 0.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0))
t.add_support(NodeSupport(1))
t.build_trails()
t.shift_trail(0, 2)
assert len(list(t.sequences())) == t.number_of_sequences() == 4
''')

plant("node-gkey-tol", "C15", "diagrams/mixins/node_mixins.py",
      ("        return geometric_key(xyz, self.tol)\n", "        return geometric_key(xyz, \"3f\")\n"),
      "a diagram whose tolerance was changed before nodes were added",
      "locations are compared to three decimals whatever the diagram's tolerance",
      PRE + '''
t = TopologyDiagram()
t.tol = "6f"
a = t.add_node(Node(xyz=[0.0, 0.0, 0.0001]))
b = t.add_node(Node(xyz=[0.0, 0.0, 0.0002]))
assert t.node_key([0.0, 0.0, 0.0001]) == a
assert t.node_key([0.0, 0.0, 0.0002]) == b
''')

plant("node-minus-zero", "C15", "diagrams/mixins/node_mixins.py",
      ("        return geometric_key(xyz, self.tol)\n", "        return \",\".join(\"{0:.{1}}\".format(c, self.tol) for c in xyz)\n"),
      "a node with a coordinate that rounds to zero from below, looked up from above",
      "locations within tolerance of each other are told apart by the sign of zero",
      PRE + '''
t = TopologyDiagram()
t.add_node(Node(0, [-0.0001, 0.0, 0.0]))
assert t.node_key([0.0, 0.0, 0.0]) == 0, t.node_key([0.0, 0.0, 0.0])
''')

plant("edge-origin-support", "C16", "diagrams/topology/topology.py",
      ("        self.node_attribute(node, \"type\", \"support\")\n", "        if not self.is_node_origin(node):\n            self.node_attribute(node, \"type\", \"support\")\n"),
      "a support added, after trails have been built, at a node that is an origin",
      "the support is silently dropped",
      PRE + '''
t = TopologyDiagram()
for k in range(3):
    t.add_node(Node(k, [float(k), 0.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0))
t.add_support(NodeSupport(1))
t.add_edge(DeviationEdge(0, 2, force=-1.0))
t.build_trails(auxiliary_trails=True)
t.add_support(NodeSupport(0))
assert t.is_node_support(0)
''')

plant("edge-shared-attributes", "C16", "diagrams/mixins/edge_mixins.py",
      ("        for node in edge:\n            key = self.node_key(node)\n\n            if key is not None:\n",
       "        for node in edge:\n            key = self.node_key(node)\n            if not edge_keys and not isinstance(node, int) and key is not None and self.is_node_support(key):\n                key = None\n\n            if key is not None:\n"),
      "an edge given by end points, starting at a node that already is a support",
      "a second node is created on top of the support instead of connecting to it",
      PRE + '''
t = TopologyDiagram()
t.add_edge(TrailEdge([0.0, 0.0, 0.0], [1.0, 0.0, 0.0], length=-1.0))
t.add_support(NodeSupport.from_point([0.0, 0.0, 0.0]))
t.add_edge(DeviationEdge([0.0, 0.0, 0.0], [2.0, 0.0, 0.0], force=1.0))
assert t.number_of_nodes() == 3, t.number_of_nodes()
''')

plant("load-zero-components", "C16", "diagrams/topology/topology.py",
      ("        self.node_attributes(node, [\"qx\", \"qy\", \"qz\"], load.vector)\n",
       "        for name, component in zip([\"qx\", \"qy\", \"qz\"], load.vector):\n            if component:\n                self.node_attribute(node, name, component)\n"),
      "a second load at a node with a zero component where the first load had none",
      "zero components of a later load do not replace those of the earlier one",
      PRE + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 0.0]))
t.add_load(NodeLoad(0, [1.0, 0.0, -1.0]))
t.add_load(NodeLoad(0, [0.0, 0.0, -2.0]))
assert t.node_load(0) == [0.0, 0.0, -2.0], t.node_load(0)
''')

MESH = '''
from compas_cem.diagrams import TopologyDiagram


class Mesh:
    """the part of a quad mesh the conversion uses: a 3 x 3 grid"""
    def __init__(self, n=3, m=3):
        self.n, self.m = n, m

    def collect_polyedges(self):
        pass

    def polyedges(self, data=False):
        k = 0
        for i in range(self.n):
            yield k, [i * self.m + j for j in range(self.m)]
            k += 1
        for j in range(self.m):
            yield k, [i * self.m + j for i in range(self.n)]
            k += 1

    def vertices(self):
        return range(self.n * self.m)

    def vertex_coordinates(self, v):
        return [float(v % self.m), 1.5 * (v // self.m), 0.0]
'''
plant("mesh-tension-trails", "C17", "diagrams/topology/mesh_mixins.py",
      ("                signed_length = distance_point_point(*edge_coordinates) * trail_state\n", "                signed_length = -distance_point_point(*edge_coordinates)\n"),
      "tension trails whose lengths are taken from the mesh",
      "trail edges with lengths from the mesh are always in compression",
      MESH + '''
t = TopologyDiagram.from_dualquadmesh(Mesh(), [0, 1, 2], trail_state=1)
assert all(t.edge_length_2(e) > 0 for e in t.trail_edges())
''')

plant("mesh-two-supports", "C17", "diagrams/topology/mesh_mixins.py",
      ("                    trail.extend(list(pairwise(polyedge[n + 1:])))\n", "                    trail.extend(list(pairwise(polyedge[n + 2:])))\n"),
      "a polyedge with supports at both ends and five or more vertices",
      "the trail edge next to the middle is dropped on one side",
      MESH + '''
t = TopologyDiagram.from_dualquadmesh(Mesh(2, 6), [0, 5])
assert t.number_of_edges() == 5 + 5 + 6, t.number_of_edges()
''')

plant("diagram-loaded-components", "C18", "diagrams/diagram.py",
      ("        return length_vector(self.node_load(node)) > min_force\n", "        return any([component > min_force or -component > min_force for component in self.node_load(node)])\n"),
      "a load whose components are all below the threshold while its magnitude is above",
      "such a node does not count as loaded",
      PRE + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 0.0]))
t.add_load(NodeLoad(0, [0.8, 0.8, 0.0]))
assert t.is_node_loaded(0, min_force=1.0)
''')

plant("topo-count-loose", "C11", "diagrams/topology/topology.py",
      ("                    trail.append(node)\n                    visited.add(node)\n                    node = neighbor\n                    break\n",
       "                    trail.append(node)\n                    visited.add(node)\n                    if self.is_node_support(neighbor):\n                        self.unset_node_attribute(neighbor, \"type\")\n                    node = neighbor\n                    break\n"),
      "a trail with a support at both ends, or one in its middle",
      "instead of refusing a trail with two supports, the second support is silently removed and the trails are built",
      PRE + '''
t = TopologyDiagram()
for k in range(3):
    t.add_node(Node(k, [float(k), 0.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0))
t.add_edge(TrailEdge(0, 2, length=-1.0))
t.add_support(NodeSupport(0))
t.add_support(NodeSupport(1))
try:
    t.build_trails()
except (AssertionError, ValueError):
    pass
else:
    raise SystemExit("accepted: %s" % dict(t.trails(keys=True)))
''')
