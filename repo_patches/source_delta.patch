From e0e8aca0092facc2b55b9f5822a8fe6f97197ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:51 +0000
Subject: [PATCH 01/18] fix: stop static_equilibrium at the sequence given by
 kmax

The last sequence was computed but the loop ran over all of them, so the nodes after
sequence kmax were re-equilibrated from stale positions and residuals.
---
 src/compas_cem/equilibrium/force.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 1ce5924..71ddde6 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -85,7 +85,7 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
         # store last positions for residual
         last_xyz = {k: v for k, v in node_xyz.items()}
 
-        for k in range(topology.number_of_sequences()):  # sequences
+        for k in range(klast + 1):  # sequences
 
             for key, trail in topology.trails(keys=True):
 
-- 
2.43.0


From 5b5c61a5d3ccbf530b23142a987456c4abb0cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:51 +0000
Subject: [PATCH 02/18] fix: fall back to the input length if a zero residual
 meets a trail plane

The numpy solver returned NaN coordinates because a NaN cosine passed the tolerance check.
---
 src/compas_cem/equilibrium/force_numpy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 8d4bd18..cacb82b 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -455,7 +455,8 @@ def trail_length_from_plane_intersection_numpy(point, vector, plane, tol=1e-6):
     origin, normal = plane
     cos_nv = np.dot(normal, normalize_vector_numpy(vector))
 
-    if np.abs(cos_nv) < tol:
+    # NOTE: the cosine is not a number if the vector has zero length
+    if not np.abs(cos_nv) >= tol:
         return
 
     oa = origin - point
-- 
2.43.0


From d9ddcc7cd5193772d0fc2ad09c43ae0f1e49ee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:51 +0000
Subject: [PATCH 03/18] fix: compare eta with the sum of the nodes'
 displacements in the numpy solver

The threshold is documented as the sum of distances, as in static_equilibrium, but the
norm of all displacements stacked together was used.
---
 src/compas_cem/equilibrium/force_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index cacb82b..bd59481 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -190,7 +190,7 @@ def equilibrium_state_numpy(topology, tmax=100, eta=1e-6, verbose=False, callbac
         last_pos_array = np.array([last_positions[key] for key, pos in node_xyz.items()])
 
         # calculate residual distance
-        distance = np.sqrt(np.sum(np.square(last_pos_array - pos_array)))
+        distance = np.sum(np.sqrt(np.sum(np.square(last_pos_array - pos_array), axis=1)))
         # if residual distance smaller than threshold, stop iterating
         if distance < eta:
             break
-- 
2.43.0


From ca6d40a303f25ce210f92179590a96e541e5d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:51 +0000
Subject: [PATCH 04/18] fix: do not fail when verbose is set and tmax is 1

The residual distance is only calculated from the second iteration on.
---
 src/compas_cem/equilibrium/force.py       | 2 ++
 src/compas_cem/equilibrium/force_numpy.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 71ddde6..5e6b15d 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -80,6 +80,8 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
         if kmax < klast:
             klast = kmax
 
+    distance = None  # not available after one single iteration
+
     for t in range(tmax):  # max iterations
 
         # store last positions for residual
diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index bd59481..1265874 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -84,6 +84,8 @@ def equilibrium_state_numpy(topology, tmax=100, eta=1e-6, verbose=False, callbac
     trail_forces = {}
     trail_directions = {}
 
+    distance = None  # not available after one single iteration
+
     for t in range(tmax):  # max iterations
 
         # store last positions for residual
-- 
2.43.0


From a562127175ff707b57dfab4a4234a3ceecda6bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:40 +0000
Subject: [PATCH 05/18] fix: forget the old location of a node when it moves

update_node_xyz discarded the geometric key of the new position instead of that of the old
one, so a search at the old location kept on finding the node.
---
 src/compas_cem/diagrams/mixins/node_mixins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index 2ddbf2b..ccbf171 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -45,8 +45,8 @@ class NodeMixins(object):
         """
         Modifies
         """
-        gkey = self.gkey(xyz)
-        if gkey in self.gkey_node:
+        gkey = self.gkey(self.node_coordinates(key))
+        if self.gkey_node.get(gkey) == key:
             del self.gkey_node[gkey]
         self.add_node(Node(key, xyz))
 
-- 
2.43.0


From 5e223d1fe064f8776ec552eecc3424b6ec21e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:40 +0000
Subject: [PATCH 06/18] fix: node_exists returned True for any integer

It now checks that a node with that key is in the diagram.
---
 src/compas_cem/diagrams/mixins/node_mixins.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index ccbf171..06bfbc5 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -29,9 +29,10 @@ class NodeMixins(object):
         """
         Checks
         """
-        if self.node_key(value) is not None:
-            return True
-        return False
+        key = self.node_key(value)
+        if key is None:
+            return False
+        return self.has_node(key)
 
     def node_key(self, value):
         """
-- 
2.43.0


From 2e010c2e31b2b87e31f97bab91d01f95f727c54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:40 +0000
Subject: [PATCH 07/18] fix: search nodes of a form diagram at their
 equilibrated positions

A form diagram inherited the map of node locations of the topology diagram.
---
 src/compas_cem/equilibrium/force.py       | 2 ++
 src/compas_cem/equilibrium/force_numpy.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 5e6b15d..e16d396 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -53,6 +53,8 @@ def static_equilibrium(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, c
     attrs = equilibrium_state(topology, kmax, tmax, eta, verbose, callback)
     form = FormDiagram.from_topology_diagram(topology)
     form_update(form, **attrs)
+    # the nodes have moved, update the mapping from geometric keys to nodes
+    form.attributes["gkey_node"] = {form.gkey(form.node_coordinates(node)): node for node in form.nodes()}
     return form
 
 
diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 1265874..6d26964 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -39,6 +39,8 @@ def static_equilibrium_numpy(topology, tmax=100, eta=1e-6, verbose=False, callba
     attrs = equilibrium_state_numpy(topology, tmax, eta, verbose, callback)
     form = FormDiagram.from_topology_diagram(topology)
     form_update(form, **attrs)
+    # the nodes have moved, update the mapping from geometric keys to nodes
+    form.attributes["gkey_node"] = {form.gkey(form.node_coordinates(node)): node for node in form.nodes()}
     return form
 
 
-- 
2.43.0


From 8a4d2fddc310b653f8b3f16b7de73cfce9c0f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:40 +0000
Subject: [PATCH 08/18] fix: recalculate origin nodes every time trails are
 built

The former origin of a trail that has been extended kept on being marked as an origin.
---
 src/compas_cem/diagrams/topology/topology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 7367fa7..b01f72a 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -329,6 +329,10 @@ class TopologyDiagram(Diagram, MeshMixins):
         """
         trails = {}
 
+        # origin nodes are recalculated
+        for node in list(self.origin_nodes()):
+            self.unset_node_attribute(node, "type")
+
         # trail search
         nodes_in_trails = set()
 
-- 
2.43.0


From 7bb7da9903c224e8403afafab7734030463a0034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:40 +0000
Subject: [PATCH 09/18] fix: keep track of existing auxiliary trails when
 trails are built again

Building trails twice with auxiliary_trails=True emptied the registry of auxiliary trails
while the auxiliary trails were still in the diagram.
---
 src/compas_cem/diagrams/topology/topology.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index b01f72a..0f2d9c0 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -392,7 +392,7 @@ class TopologyDiagram(Diagram, MeshMixins):
         # automatically create auxiliary trails
         if auxiliary_trails:
 
-            aux_trails = dict()
+            aux_trails = dict(self.attributes["_auxiliary_trails"])
             aux_dir = normalize_vector(self.auxiliary_trail_vector)
 
             for node in unassigned:
@@ -405,7 +405,7 @@ class TopologyDiagram(Diagram, MeshMixins):
                 aux_trails[node] = edge
 
             self.attributes["_auxiliary_trails"] = aux_trails
-            print("Warning: {} auxiliary trails have been added to the topology diagram!".format(len(aux_trails)))
+            print("Warning: {} auxiliary trails have been added to the topology diagram!".format(len(unassigned)))
 
             return self.build_trails(auxiliary_trails=False)
 
-- 
2.43.0


From cc2d76008bafa9ff7080a859a59b628845de3aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:40 +0000
Subject: [PATCH 10/18] fix: reject topologies whose trails overlap, branch,
 loop or consist of a support only

They passed the sanity checks of build_trails. Trail edges, supports or entire trails were
dropped without notice, and the form diagram was not in equilibrium.
---
 src/compas_cem/diagrams/topology/topology.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 0f2d9c0..2c0f036 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -336,7 +336,7 @@ class TopologyDiagram(Diagram, MeshMixins):
         # trail search
         nodes_in_trails = set()
 
-        for support in self.support_nodes():
+        for support in list(self.support_nodes()):
 
             trail = []
             visited = set()
@@ -417,6 +417,15 @@ class TopologyDiagram(Diagram, MeshMixins):
         # no free nodes
         msg = "Nodes {} haven't been assigned to a trail. Check your topology!".format(unassigned)
         assert len(unassigned) == 0, msg
+        # a node belongs to one trail only
+        msg = "Trails overlap. Every node must belong to one trail only!"
+        assert sum([len(trail) for trail in trails.values()]) == self.number_of_nodes(), msg
+        # all trail edges must belong to a trail
+        msg = "There are trail edges which don't belong to any trail. Check your topology!"
+        assert sum([len(trail) - 1 for trail in trails.values()]) == self.number_of_trail_edges(), msg
+        # all trails must end at a support, and all supports must be the end of a trail
+        msg = "All trails must have one support, at one end only. Check your topology!"
+        assert set([trail[-1] for trail in trails.values()]) == set(self.support_nodes()), msg
 
         # store trails in topology diagram
         self.attributes["_trails"] = trails
-- 
2.43.0


From 82381d9ca55b219897f09d3e5a5132e90ecba481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:40 +0000
Subject: [PATCH 11/18] fix: restore trail keys when a topology diagram is
 loaded from JSON

The keys of the trails came back as strings and the trails as lists.
---
 src/compas_cem/diagrams/topology/topology.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 2c0f036..91dc9b1 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -43,6 +43,18 @@ class TopologyDiagram(Diagram, MeshMixins):
         self.attributes["_aux_length"] = -1.0
         self.attributes["_aux_vector"] = [1.0, 1.0, 1.0]
 
+# ==============================================================================
+# Data
+# ==============================================================================
+
+    @Diagram.data.setter
+    def data(self, data):
+        Diagram.data.fset(self, data)
+        # JSON files turn the integer keys of the trails into strings, and the tuples into lists
+        for name in ("_trails", "_auxiliary_trails"):
+            trails = self.attributes[name]
+            self.attributes[name] = {int(key): tuple(trail) for key, trail in trails.items()}
+
 # ==============================================================================
 # Properties
 # ==============================================================================
-- 
2.43.0


From 44f5d0b5e7033f7e94b4ab0c6bc4d20e089da43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:19 +0000
Subject: [PATCH 12/18] fix: optimize after a parameter has been removed

The keys of the parameters have gaps after removing one, so they can't index the array of
optimization parameters.
---
 src/compas_cem/optimization/optimizer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index f568bdb..03e5ceb 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -291,8 +291,8 @@ class Optimizer(Data):
         """
         parameters = np.zeros(self.number_of_parameters())
 
-        for pkey, parameter in self.parameters.items():
-            parameters[pkey] = parameter.start_value(topology)
+        for index, parameter in enumerate(self.parameters.values()):
+            parameters[index] = parameter.start_value(topology)
 
         return parameters
 
@@ -304,9 +304,9 @@ class Optimizer(Data):
         bounds_low = np.zeros(self.number_of_parameters())
         bounds_up = np.zeros(self.number_of_parameters())
 
-        for pkey, parameter in self.parameters.items():
-            bounds_low[pkey] = parameter.bound_low(topology)
-            bounds_up[pkey] = parameter.bound_up(topology)
+        for index, parameter in enumerate(self.parameters.values()):
+            bounds_low[index] = parameter.bound_low(topology)
+            bounds_up[index] = parameter.bound_up(topology)
 
         return bounds_low, bounds_up
 
@@ -318,9 +318,9 @@ class Optimizer(Data):
         """
         Update the defined design parameters in a topology diagram.
         """
-        for pkey, parameter in self.parameters.items():
+        for index, parameter in enumerate(self.parameters.values()):
 
-            value = parameters[pkey]
+            value = parameters[index]
             name = parameter.attr_name()
             key = parameter.key()
 
-- 
2.43.0


From 99b607c393ffb505a2077d62a70c196254559c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:19 +0000
Subject: [PATCH 13/18] fix: return the form diagram of the optimal parameters

The form diagram and the topology diagram corresponded to the last point evaluated by the
solver instead of to the optimum, and tmax and eta were ignored to calculate it.
---
 src/compas_cem/optimization/optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 03e5ceb..02bf5ff 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -248,7 +248,7 @@ class Optimizer(Data):
         except RuntimeError:
             print("Optimization failed due to a runtime error!")
             print(f"Optimization total runtime: {round(time() - start, 4)} seconds")
-            return static_equilibrium(topology)
+            return static_equilibrium(topology, tmax=tmax, eta=eta)
 
         # fetch last optimum value of loss function
         time_opt = time() - start
@@ -276,8 +276,11 @@ class Optimizer(Data):
             print(f"Optimization status: {status}".format(status))
             print("----------")
 
+        # the last point the solver evaluated is not necessarily the optimum
+        self._update_parameters(topology, x_opt)
+
         # exit like a champion
-        return static_equilibrium(topology)
+        return static_equilibrium(topology, tmax=tmax, eta=eta)
 
 # ------------------------------------------------------------------------------
 # Optimization parameters
-- 
2.43.0


From ebdf74188ba30460442178745a10beecd9de6f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 14/18] fix: discard previous trails when building them again
 fails

Building trails on a diagram that had become malformed raised an error but left the trails
of the previous build behind, which no longer match the diagram.
---
 src/compas_cem/diagrams/topology/topology.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 91dc9b1..bd83bd9 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -341,6 +341,9 @@ class TopologyDiagram(Diagram, MeshMixins):
         """
         trails = {}
 
+        # previous trails are discarded
+        self.attributes["_trails"] = {}
+
         # origin nodes are recalculated
         for node in list(self.origin_nodes()):
             self.unset_node_attribute(node, "type")
-- 
2.43.0


From bac27329ee52fb3fa6840f5933fe91d1c233e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:48 +0000
Subject: [PATCH 15/18] fix: a deleted node is no longer found at its location

Deleting a node left its location in the lookup, so that the key of the deleted node was still
returned for it, and edges added there resurrected the node without coordinates.
---
 src/compas_cem/diagrams/mixins/node_mixins.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index 06bfbc5..352cf7f 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -25,6 +25,16 @@ class NodeMixins(object):
         self.gkey_node[self.gkey(xyz)] = node
         return node
 
+    def delete_node(self, key):
+        """
+        Deletes a node, and its entry in the lookup of nodes by location.
+        """
+        if self.has_node(key):
+            gkey = self.gkey(self.node_coordinates(key))
+            if self.gkey_node.get(gkey) == key:
+                del self.gkey_node[gkey]
+        super(NodeMixins, self).delete_node(key)
+
     def node_exists(self, value):
         """
         Checks
-- 
2.43.0


From 5de2e9f46a2e350cbaacb03a5d9c357a73fc3cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:51 +0000
Subject: [PATCH 16/18] fix: forget auxiliary trails that have been removed
 from the diagram

Auxiliary trails stayed in the registry after their edges or nodes were deleted and trails were
built again.
---
 src/compas_cem/diagrams/topology/topology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index bd83bd9..225906b 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -445,6 +445,10 @@ class TopologyDiagram(Diagram, MeshMixins):
         # store trails in topology diagram
         self.attributes["_trails"] = trails
 
+        # forget auxiliary trails that have been removed from the diagram
+        aux_trails = self.attributes["_auxiliary_trails"]
+        self.attributes["_auxiliary_trails"] = {node: edge for node, edge in aux_trails.items() if self.has_edge(*edge)}
+
 # ==============================================================================
 #  Node Collections
 # ==============================================================================
-- 
2.43.0


From 4132862ea5406b69187a6f320dbc593d4511b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:11 +0000
Subject: [PATCH 17/18] fix: a node added again elsewhere was still found at
 its previous location

---
 src/compas_cem/diagrams/mixins/node_mixins.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index 352cf7f..c46d5a0 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -21,6 +21,10 @@ class NodeMixins(object):
         xyz = node.xyz
         x, y, z = xyz
 
+        # a node that is added again leaves its previous location
+        if key is not None and self.has_node(key):
+            self._forget_location(key)
+
         node = super(NodeMixins, self).add_node(key=key, x=x, y=y, z=z)
         self.gkey_node[self.gkey(xyz)] = node
         return node
@@ -30,11 +34,17 @@ class NodeMixins(object):
         Deletes a node, and its entry in the lookup of nodes by location.
         """
         if self.has_node(key):
-            gkey = self.gkey(self.node_coordinates(key))
-            if self.gkey_node.get(gkey) == key:
-                del self.gkey_node[gkey]
+            self._forget_location(key)
         super(NodeMixins, self).delete_node(key)
 
+    def _forget_location(self, key):
+        """
+        Removes the entry of a node in the lookup of nodes by location.
+        """
+        gkey = self.gkey(self.node_coordinates(key))
+        if self.gkey_node.get(gkey) == key:
+            del self.gkey_node[gkey]
+
     def node_exists(self, value):
         """
         Checks
@@ -56,9 +66,6 @@ class NodeMixins(object):
         """
         Modifies
         """
-        gkey = self.gkey(self.node_coordinates(key))
-        if self.gkey_node.get(gkey) == key:
-            del self.gkey_node[gkey]
         self.add_node(Node(key, xyz))
 
     def node_xyz(self, key, xyz=None):
-- 
2.43.0


From bca3bb60b0dd0c25a90a8595d2e7684c053f3e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:35 +0000
Subject: [PATCH 18/18] fix: building trails no longer takes a node's support
 away when the topology is refused

---
 src/compas_cem/diagrams/topology/topology.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 225906b..77c8e92 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -387,8 +387,9 @@ class TopologyDiagram(Diagram, MeshMixins):
                     visited.add(node)
                     break
 
-            # set last node to be origin/start node
-            self.node_attribute(origin_node, "type", "_origin")
+            # set last node to be origin/start node, unless it is a support
+            if not self.is_node_support(origin_node):
+                self.node_attribute(origin_node, "type", "_origin")
 
             trail.reverse()
 
@@ -440,7 +441,7 @@ class TopologyDiagram(Diagram, MeshMixins):
         assert sum([len(trail) - 1 for trail in trails.values()]) == self.number_of_trail_edges(), msg
         # all trails must end at a support, and all supports must be the end of a trail
         msg = "All trails must have one support, at one end only. Check your topology!"
-        assert set([trail[-1] for trail in trails.values()]) == set(self.support_nodes()), msg
+        assert set([trail[-1] for trail in trails.values() if len(trail) > 1]) == set(self.support_nodes()), msg
 
         # store trails in topology diagram
         self.attributes["_trails"] = trails
-- 
2.43.0

