from muts import bug, ref, main
import sys
T = "diagrams/topology/topology.py"
bug("abs-len", "C07", (T, "TrailEdge(node, aux_node, self.auxiliary_trail_length)", "TrailEdge(node, aux_node, abs(self.auxiliary_trail_length))"))
bug("no-norm", "C07", (T, "aux_dir = normalize_vector(self.auxiliary_trail_vector)", "aux_dir = self.auxiliary_trail_vector"))
bug("reset-registry", "C07", (T, "if self.has_edge(*edge)}", "if not self.has_edge(*edge)}"))
bug("all-nodes", "C07", (T, "            for node in unassigned:\n", "            for node in list(self.nodes()):\n"))
bug("skip-loaded", "C07", (T, "            for node in unassigned:\n", "            for node in [n for n in unassigned if self.is_node_loaded(n)]:\n"))
bug("no-support", "C07", (T, "                self.add_support(NodeSupport(aux_node))\n", ""))
bug("edge-rev", "C07", (T, "TrailEdge(node, aux_node, self", "TrailEdge(aux_node, node, self"))
bug("by-coords", "C07", (T, "self.add_node(Node(xyz=aux_xyz))", "self.add_node(Node(key=node, xyz=aux_xyz))"))
bug("neg", "C07", (T, "aux_xyz = add_vectors(self.node_coordinates(node), aux_vector)", "aux_xyz = add_vectors(self.node_coordinates(node), scale_vector(aux_dir, -self.auxiliary_trail_length))"))
bug("len-zero", "C07", (T, "TrailEdge(node, aux_node, self.auxiliary_trail_length)", "TrailEdge(node, aux_node, self.auxiliary_trail_length or -1.0)"))
bug("aux-key", "C07", (T, "aux_trails[node] = edge", "aux_trails[aux_node] = edge"))
bug("wipe-after", "C07", (T, "            return self.build_trails(auxiliary_trails=False)", "            self.build_trails(auxiliary_trails=False)\n            self.attributes['_auxiliary_trails'] = {}"))
ref("hoist", "C07", (T, "            for node in unassigned:\n                aux_vector = scale_vector(aux_dir, self.auxiliary_trail_length)\n", "            aux_vector = scale_vector(aux_dir, self.auxiliary_trail_length)\n            for node in unassigned:\n"))
ref("sorted", "C07", (T, "            for node in unassigned:\n", "            for node in sorted(unassigned):\n"))
ref("loop-reg", "C07", (T, "aux_trails = {node: edge for node, edge in self.auxiliary_trails(keys=True) if self.has_edge(*edge)}", "aux_trails = {}\n            for key, edge in self.auxiliary_trails(keys=True):\n                if self.has_edge(*edge):\n                    aux_trails[key] = edge"))
ref("helper", "C07", (T, "self.add_node(Node(xyz=aux_xyz))", "self._add_aux_support(aux_xyz)"),
    (T, "    def build_trails(", "    def _add_aux_support(self, xyz):\n        key = self.add_node(Node(xyz=xyz))\n        self.add_support(NodeSupport(key))\n        return key\n\n    def build_trails("))
ref("two-step", "C07", (T, "            return self.build_trails(auxiliary_trails=False)", "            self.build_trails()\n            return"))
if __name__ == "__main__":
    main(sys.argv[1:])
