from muts import bug, ref, main
import sys
G = "ghpython/components/CompasCem_%s/code.py"
A = "ghpython/artists.py"
bug("g-move-alias", "C20", (G % "OriginNodesMove", "topology = topology.copy()\n", "pass\n"))
bug("g-move-first", "C20", (G % "OriginNodesMove", "points[-1]", "points[0]"))
bug("g-shift-alias", "C20", (G % "TrailsShift", "topology = topology.copy()\n", "pass\n"))
bug("g-shift-cum", "C20", (G % "TrailsShift", "topology.shift_trail(node_key, sequence)", "topology.shift_trail(node_key, abs(sequence))"))
bug("g-topo-skip", "C20", (G % "TopologyDiagram", "        if loads:\n", "        if loads and trail_edges:\n"))
bug("g-topo-nobuild", "C20", (G % "TopologyDiagram", "elif deviation_edges and add_auxiliary_trails:", "elif deviation_edges and supports and add_auxiliary_trails:"))
bug("g-ff-eta", "C20", (G % "FormFinding", "eta=eta", "eta=1e-6"))
bug("g-ff-tmax", "C20", (G % "FormFinding", "tmax or 100", "max(tmax or 100, 2)"))
bug("g-cff-alias", "C20", (G % "ConstrainedFormFinding", "topology = topology.copy()\n", "pass\n"))
bug("g-cff-kappa", "C20", (G % "ConstrainedFormFinding", "kappa=kappa", "kappa=eps"))
ref("g-move-loop", "C20", (G % "OriginNodesMove", "points = iterable_like(origin_node_keys, points, points[-1])\n\n        for node_key, point in zip(origin_node_keys, points):\n", "last = points[-1]\n        n = len(points)\n\n        for i, node_key in enumerate(origin_node_keys):\n            point = points[i] if i < n else last\n"))
ref("g-move-early", "C20", (G % "OriginNodesMove", "if not topology or not origin_node_keys or not points:", "if not (topology and origin_node_keys and points):"))
ref("g-shift-conv", "C20", (G % "TrailsShift", "for node_key, sequence in zip(origin_node_keys, sequences):\n            topology.shift_trail(node_key, sequence)", "shifts = list(zip(origin_node_keys, sequences))\n        for node_key, sequence in shifts:\n            topology.shift_trail(node_key, sequence)"))
ref("g-topo-loop", "C20", (G % "TopologyDiagram", "        if loads:\n            for load in loads:\n", "        for _ in (0,):\n            for load in (loads or []):\n"))
ref("g-topo-build", "C20", (G % "TopologyDiagram", "        if trail_edges and supports:\n            topology.build_trails(add_auxiliary_trails)\n\n        elif deviation_edges and add_auxiliary_trails:\n", "        if (trail_edges and supports) or (deviation_edges and add_auxiliary_trails):\n"))
ref("g-topo-helper", "C20", (G % "TopologyDiagram", "        if supports:\n            for support in supports:\n                if support:\n                    topology.add_support(support)\n", "        self._add(supports, topology.add_support)\n"),
    (G % "TopologyDiagram", "    def RunScript", "    def _add(self, items, add):\n        if not items:\n            return\n        for item in items:\n            if item:\n                add(item)\n\n    def RunScript"))
ref("g-ff-if", "C20", (G % "FormFinding", "eta = eta or 1e-6", "eta = eta if eta else 1e-6"))
ref("g-cff-pack", "C20", (G % "ConstrainedFormFinding", "topology, form, objective, grad_norm, iters, time, status = solution", "topology, form, objective, grad_norm, iters, time, status = solution[0:7]"))
bug("g-sup-nofilter", "C21", (A, "keys = [key for key in keys if filterer(key)]", "keys = [key for key in keys if filterer(key)] or list(keys)"))
bug("g-load-gap", "C21", (A, "gap_arrow = gap\n", "gap_arrow = gap * scale\n"))
bug("g-react-signed", "C21", (A, "max_force = max(forces, key=lambda f: fabs(f))", "max_force = max(forces)"))
bug("g-tol-scaled", "C21", (A, "q_len = length_vector(q_vec)\n", "q_len = length_vector(q_vec_scaled)\n"))
bug("g-shift-unscaled", "C21", (A, "length_vector(q_vec_scaled)) * -1", "length_vector(q_vec)) * -1"))
bug("g-trail-rev", "C21", (A, "for node in trail]", "for node in reversed(trail)]"))
bug("g-form-scale", "C21", (G % "ArtistForm", "force_min or 1e-3", "force_min or 1e-2"))
ref("g-nodes-comp", "C21", (A, "        points = []\n        for node in nodes:\n            points.append({'pos': self.diagram.node_coordinates(node)})\n\n        return draw_points(points)", "        return draw_points([{'pos': self.diagram.node_coordinates(node)} for node in nodes])"))
ref("g-react-any", "C21", (A, "            s = False\n", "            s = bool(0)\n"))
ref("g-react-comp", "C21", (A, "max_force = max(forces, key=lambda f: fabs(f))", "max_force = max(forces, key=abs)"))
ref("g-neg", "C21", (A, "(gap + length_vector(q_vec_scaled)) * -1", "-(gap + length_vector(q_vec_scaled))"))
ref("g-late-norm", "C21", (A, "if not len(nodes) == 0:\n            return self.draw_nodes(nodes)", "if len(nodes) > 0:\n            return self.draw_nodes(nodes)"))
ref("h-res-zip", "C20", (G % "ResultsEdges", "        lengths = [form.edge_length_2(ed) for ed in edge_keys]\n        forces = [form.edge_force(ed) for ed in edge_keys]\n", "        lengths, forces = [], []\n        for edge in edge_keys:\n            lengths.append(form.edge_length_2(edge))\n            forces.append(form.edge_force(edge))\n"))
ref("h-res-attr", "C20", (G % "ResultsEdges", "[form.edge_force(ed) for ed in edge_keys]", "[form.edge_attribute(ed, 'force') for ed in edge_keys]"))
ref("h-res-none", "C20", (G % "ResultsEdges", "edge_keys = edge_keys or list(form.edges())", "if not edge_keys:\n            edge_keys = list(form.edges())"))
ref("h-react-map", "C20", (G % "ResultsSupportNodes", "reaction_forces = [rs.AddPoint(*form.reaction_force(nd)) for nd in support_node_keys]", "reaction_forces = []\n        for node in support_node_keys:\n            rx, ry, rz = form.reaction_force(node)\n            reaction_forces.append(rs.AddPoint(rx, ry, rz))"))
ref("h-search-edge", "C20", (G % "SearchEdgeKey", "        eg = []\n        for point in (line.start, line.end):\n            gkey = geometric_key(point, diagram.tol)\n            node = diagram.gkey_node[gkey]\n            eg.append(node)\n\n        return [tuple(eg)]", "        u, v = [diagram.gkey_node[geometric_key(point, diagram.tol)] for point in (line.start, line.end)]\n\n        return [(u, v)]"))
ref("h-search-node", "C20", (G % "SearchNodeKey", "gkey = geometric_key(pt, diagram.tol)\n\n        return diagram.gkey_node[gkey]", "nodes = diagram.gkey_node\n        return nodes[geometric_key(pt, diagram.tol)]"))
ref("h-search-key", "C20", (G % "SearchNodeKey", "gkey = geometric_key(pt, diagram.tol)\n\n        return diagram.gkey_node[gkey]", "return diagram.node_key(pt)"))
ref("h-weight", "C20", (G % "ConstraintNodeLine", "        weight = weight or 1.0\n        if node_key is None or not line:\n            return\n", "        if node_key is None or not line:\n            return\n        if not weight:\n            weight = 1.0\n"))
ref("h-trail-plane", "C20", (G % "EdgeTrail", "        if plane is not None:\n            plane = RhinoPlane.from_geometry(plane).to_compas()\n", "        plane = RhinoPlane.from_geometry(plane).to_compas() if plane is not None else None\n"))
ref("h-dis", "C20", (G % "DisassembleTopology", "list(topology.trail_edges())", "[edge for edge in topology.trail_edges()]"))
ref("h-dis2", "C20", (G % "DisassembleTopology", "list(topology.support_nodes())", "[node for node in topology.nodes() if topology.is_node_support(node)]"))
ref("h-json", "C20", (G % "JSONExportDiagram", "filepath = os.path.abspath(filepath)\n        diagram.to_json(filepath, pretty=True)", "diagram.to_json(os.path.abspath(filepath), pretty=True)"))
ref("h-load", "C20", (G % "NodeLoad", "        point = RhinoPoint.from_geometry(point).to_compas()\n        vector = RhinoVector.from_geometry(vector).to_compas()\n\n        return NodeLoad.from_point_and_vector(point, vector)", "        vector = RhinoVector.from_geometry(vector).to_compas()\n        load = NodeLoad.from_point_and_vector(RhinoPoint.from_geometry(point).to_compas(), vector)\n        return load"))
bug("h-b1", "C20", (G % "ResultsEdges", "edge_keys = edge_keys or list(form.edges())", "edge_keys = list(form.edges())"))
bug("h-b2", "C20", (G % "SearchEdgeKey", "return [tuple(eg)]", "return [tuple(sorted(eg))]"))
bug("h-b3", "C20", (G % "EdgeTrail", "if not line or length is None:", "if not line or not length:"))
bug("h-b4", "C20", (G % "ParameterNodeOriginX", "if node_key is None:", "if not node_key:"))
ref("h-art-force", "C21", (A, "        for node in nodes:\n            q_vec = self.diagram.node_attributes(node, attrs)", "        for node in list(nodes):\n            q_vec = self.diagram.node_attributes(node, attrs)"))
ref("h-art-edges", "C21", (A, "            start, end = self.diagram.edge_coordinates(*edge)\n", "            u, v = edge\n            start, end = self.diagram.node_coordinates(u), self.diagram.node_coordinates(v)\n"))
if __name__ == "__main__":
    main(sys.argv[1:])
