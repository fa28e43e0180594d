From e5f3bc7141e472b55177bea18b83bc94eae8d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:58 +0000
Subject: [PATCH 01/13] fix: stop static equilibrium at the last requested
 sequence (kmax)

---
 src/compas_cem/equilibrium/force.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 1ce5924..71ddde6 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -85,7 +85,7 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
         # store last positions for residual
         last_xyz = {k: v for k, v in node_xyz.items()}
 
-        for k in range(topology.number_of_sequences()):  # sequences
+        for k in range(klast + 1):  # sequences
 
             for key, trail in topology.trails(keys=True):
 
-- 
2.43.0


From 1ba3228fa734d95c07a2c7414b8f37142decf586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:58 +0000
Subject: [PATCH 02/13] fix: do not fail when a single verbose equilibrium
 iteration is requested

---
 src/compas_cem/equilibrium/force.py       | 3 +++
 src/compas_cem/equilibrium/force_numpy.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 71ddde6..0324c06 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -80,6 +80,9 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
         if kmax < klast:
             klast = kmax
 
+    # residual distance, undefined until two iterations are compared
+    distance = None
+
     for t in range(tmax):  # max iterations
 
         # store last positions for residual
diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 8d4bd18..5ea44ca 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -84,6 +84,9 @@ def equilibrium_state_numpy(topology, tmax=100, eta=1e-6, verbose=False, callbac
     trail_forces = {}
     trail_directions = {}
 
+    # residual distance, undefined until two iterations are compared
+    distance = None
+
     for t in range(tmax):  # max iterations
 
         # store last positions for residual
-- 
2.43.0


From 4cdd619f4c87176a6175ffabe0417e07e9412247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:55 +0000
Subject: [PATCH 03/13] fix: forget the previous position of a node when it is
 moved

---
 src/compas_cem/diagrams/mixins/node_mixins.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index 2ddbf2b..436d0b0 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -21,6 +21,12 @@ class NodeMixins(object):
         xyz = node.xyz
         x, y, z = xyz
 
+        # an existing node forgets its previous position
+        if key is not None and self.has_node(key):
+            gkey = self.gkey(self.node_coordinates(key))
+            if self.gkey_node.get(gkey) == key:
+                del self.gkey_node[gkey]
+
         node = super(NodeMixins, self).add_node(key=key, x=x, y=y, z=z)
         self.gkey_node[self.gkey(xyz)] = node
         return node
@@ -45,9 +51,6 @@ class NodeMixins(object):
         """
         Modifies
         """
-        gkey = self.gkey(xyz)
-        if gkey in self.gkey_node:
-            del self.gkey_node[gkey]
         self.add_node(Node(key, xyz))
 
     def node_xyz(self, key, xyz=None):
-- 
2.43.0


From f0ad011f8829c5869821179184815c4650e9bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:58 +0000
Subject: [PATCH 04/13] fix: keep the optimization variables aligned after
 removing a parameter

---
 src/compas_cem/optimization/optimizer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index f568bdb..3bd41ee 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -291,8 +291,8 @@ class Optimizer(Data):
         """
         parameters = np.zeros(self.number_of_parameters())
 
-        for pkey, parameter in self.parameters.items():
-            parameters[pkey] = parameter.start_value(topology)
+        for idx, parameter in enumerate(self.parameters.values()):
+            parameters[idx] = parameter.start_value(topology)
 
         return parameters
 
@@ -304,9 +304,9 @@ class Optimizer(Data):
         bounds_low = np.zeros(self.number_of_parameters())
         bounds_up = np.zeros(self.number_of_parameters())
 
-        for pkey, parameter in self.parameters.items():
-            bounds_low[pkey] = parameter.bound_low(topology)
-            bounds_up[pkey] = parameter.bound_up(topology)
+        for idx, parameter in enumerate(self.parameters.values()):
+            bounds_low[idx] = parameter.bound_low(topology)
+            bounds_up[idx] = parameter.bound_up(topology)
 
         return bounds_low, bounds_up
 
@@ -318,9 +318,9 @@ class Optimizer(Data):
         """
         Update the defined design parameters in a topology diagram.
         """
-        for pkey, parameter in self.parameters.items():
+        for idx, parameter in enumerate(self.parameters.values()):
 
-            value = parameters[pkey]
+            value = parameters[idx]
             name = parameter.attr_name()
             key = parameter.key()
 
-- 
2.43.0


From b74a07c7d3a2eb27299ec360203ca5a4ad12cc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:58 +0000
Subject: [PATCH 05/13] fix: leave the topology diagram with the optimal
 parameters after solving

---
 src/compas_cem/optimization/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 3bd41ee..7b827f4 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -276,6 +276,9 @@ class Optimizer(Data):
             print(f"Optimization status: {status}".format(status))
             print("----------")
 
+        # apply the optimal parameters, the last evaluation is not always the best one
+        self._update_parameters(topology, x_opt)
+
         # exit like a champion
         return static_equilibrium(topology)
 
-- 
2.43.0


From e511fe8fb056790271c92cfbe6a4082977f9c418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:58 +0000
Subject: [PATCH 06/13] fix: compute the optimized form with the requested tmax
 and eta

---
 src/compas_cem/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 7b827f4..a8d7cfc 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -248,7 +248,7 @@ class Optimizer(Data):
         except RuntimeError:
             print("Optimization failed due to a runtime error!")
             print(f"Optimization total runtime: {round(time() - start, 4)} seconds")
-            return static_equilibrium(topology)
+            return static_equilibrium(topology, tmax=tmax, eta=eta)
 
         # fetch last optimum value of loss function
         time_opt = time() - start
@@ -280,7 +280,7 @@ class Optimizer(Data):
         self._update_parameters(topology, x_opt)
 
         # exit like a champion
-        return static_equilibrium(topology)
+        return static_equilibrium(topology, tmax=tmax, eta=eta)
 
 # ------------------------------------------------------------------------------
 # Optimization parameters
-- 
2.43.0


From d5757a9517fd5d82bd685e98f5a12721518220fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:55 +0000
Subject: [PATCH 07/13] fix: discard stale origin nodes when trails are rebuilt

---
 src/compas_cem/diagrams/topology/topology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 7367fa7..b4f29f0 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -329,6 +329,10 @@ class TopologyDiagram(Diagram, MeshMixins):
         """
         trails = {}
 
+        # forget the origin nodes of previous trails
+        for node in list(self.origin_nodes()):
+            self.unset_node_attribute(node, "type")
+
         # trail search
         nodes_in_trails = set()
 
-- 
2.43.0


From 78d0c5d7a2f4387024ac4d467fe42df5b8c58aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:55 +0000
Subject: [PATCH 08/13] fix: remember existing auxiliary trails when trails are
 rebuilt

---
 src/compas_cem/diagrams/topology/topology.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index b4f29f0..a2c2faf 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -392,7 +392,8 @@ class TopologyDiagram(Diagram, MeshMixins):
         # automatically create auxiliary trails
         if auxiliary_trails:
 
-            aux_trails = dict()
+            # keep the auxiliary trails that were added before
+            aux_trails = {node: edge for node, edge in self.auxiliary_trails(keys=True) if self.has_edge(*edge)}
             aux_dir = normalize_vector(self.auxiliary_trail_vector)
 
             for node in unassigned:
@@ -405,7 +406,7 @@ class TopologyDiagram(Diagram, MeshMixins):
                 aux_trails[node] = edge
 
             self.attributes["_auxiliary_trails"] = aux_trails
-            print("Warning: {} auxiliary trails have been added to the topology diagram!".format(len(aux_trails)))
+            print("Warning: {} auxiliary trails have been added to the topology diagram!".format(len(unassigned)))
 
             return self.build_trails(auxiliary_trails=False)
 
-- 
2.43.0


From 33d3879961034c7c0154a395e82b087bd97a4a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:55 +0000
Subject: [PATCH 09/13] fix: restore trail keys and trails after a JSON round
 trip

---
 src/compas_cem/diagrams/topology/topology.py | 23 ++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index a2c2faf..13522f0 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -83,6 +83,29 @@ class TopologyDiagram(Diagram, MeshMixins):
         """
         self.attributes["_aux_vector"] = vector
 
+# ==============================================================================
+# Data
+# ==============================================================================
+
+    @property
+    def data(self):
+        """
+        A data dictionary that represents the topology diagram.
+        """
+        return Diagram.data.fget(self)
+
+    @data.setter
+    def data(self, data):
+        """
+        Overwrites this diagram with a data dictionary.
+
+        JSON supports neither integer dictionary keys nor tuples.
+        """
+        Diagram.data.fset(self, data)
+        for name in ("_trails", "_auxiliary_trails"):
+            trails = self.attributes[name]
+            self.attributes[name] = {int(key): tuple(trail) for key, trail in trails.items()}
+
 # ==============================================================================
 # Node Additions
 # ==============================================================================
-- 
2.43.0


From 2c8d36ee94e31cf64a52b35ea256bcb4b99cc13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:07 +0000
Subject: [PATCH 10/13] fix: the Grasshopper artists do not draw every node as
 a support when there is none

---
 src/compas_cem/ghpython/artists.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/ghpython/artists.py b/src/compas_cem/ghpython/artists.py
index 5aa92ea..4db66df 100644
--- a/src/compas_cem/ghpython/artists.py
+++ b/src/compas_cem/ghpython/artists.py
@@ -202,7 +202,8 @@ class DiagramArtist(NetworkArtist):
         nodes : list of :class:`Rhino.Geometry.Point3d`
         """
         nodes = self._collection_keys("support_nodes", "is_node_support", nodes)
-        return self.draw_nodes(nodes)
+        if not len(nodes) == 0:
+            return self.draw_nodes(nodes)
 
     def _collection_keys(self, iterator_func, filter_func, keys=None):
         """
-- 
2.43.0


From 1826eb3a778b65fdbc884077b94b7a8228b75aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:38 +0000
Subject: [PATCH 11/13] fix: node labels by type work in the viewer

---
 src/compas_cem/viewers/diagramobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index 9447273..b75d95c 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -632,7 +632,7 @@ class DiagramObject(NetworkObject):
             return "{}\n{}".format(x, gkey_format(x))
 
         def type_format(x):
-            return "{}".format(self.topology.node_attribute(x, "type"))
+            return "{}".format(self.diagram.node_attribute(x, "type"))
 
         tags_formatter = {"xyz": gkey_format,
                           "keyxyz": key_gkey_format,
-- 
2.43.0


From 8c8c251680d7ae15b854c40b845c3b82a4e4d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:38 +0000
Subject: [PATCH 12/13] fix: switching the nodes of a viewer object does not
 switch its edges

---
 src/compas_cem/viewers/diagramobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index b75d95c..c136c88 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -371,7 +371,7 @@ class DiagramObject(NetworkObject):
     @show_nodes.setter
     def show_nodes(self, shownodes):
         if isinstance(shownodes, bool):
-            self._show_edges = shownodes
+            self._show_nodes = shownodes
             self.show_points = shownodes
 
     @property
-- 
2.43.0


From 81cd49a948b0d45a984b250a4c04104f3122089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:38 +0000
Subject: [PATCH 13/13] fix: edge labels by state work for form diagrams in the
 viewer

---
 src/compas_cem/viewers/diagramobject.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index c136c88..b22b3e1 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -20,6 +20,7 @@ from compas.geometry import Cylinder
 from compas.utilities import geometric_key
 
 from compas_cem import COLORS
+from compas_cem.diagrams import TopologyDiagram
 
 from compas_view2.objects import NetworkObject
 from compas_view2.shapes import Text
@@ -675,7 +676,7 @@ class DiagramObject(NetworkObject):
             return "f: {}\nl: {}".format(force_format(x), length_format(x))
 
         def state_format(x):
-            if self.diagram.is_trail_edge(x):
+            if isinstance(self.diagram, TopologyDiagram) and self.diagram.is_trail_edge(x):
                 parameter = self.diagram.edge_length_2(edge)
             else:
                 parameter = self.diagram.edge_force(edge)
-- 
2.43.0

