from muts import bug, ref, main
import sys
N, E, T, D = "diagrams/mixins/node_mixins.py", "diagrams/mixins/edge_mixins.py", "diagrams/topology/topology.py", "diagrams/diagram.py"
DEL = """            gkey = self.gkey(self.node_coordinates(key))
            if self.gkey_node.get(gkey) == key:
                del self.gkey_node[gkey]
"""
bug("no-del", "C09", (N, "                del self.gkey_node[gkey]\n", "                pass\n"))
bug("del-after", "C09", (N, DEL, "            pass\n"), (N, "        self.gkey_node[self.gkey(xyz)] = node\n", "        self.gkey_node[self.gkey(xyz)] = node\n        if key is not None:\n            stale = [g for g, k in self.gkey_node.items() if k == key and g != self.gkey(xyz)]\n"))
bug("setdefault", "C09", (N, "self.gkey_node[self.gkey(xyz)] = node", "self.gkey_node.setdefault(self.gkey(xyz), node)"))
bug("update-direct", "C09", (N, "self.add_node(Node(key, xyz))", "self.node_attributes(key, 'xyz', xyz)"))
bug("truthy", "C09", (N, "if self.node_key(value) is not None:", "if self.node_key(value):"))
bug("edge-truthy", "C09", (E, "if key is not None:", "if key:"))
bug("support-or", "C09", (T, "        value = support.node\n        if value is None:\n            value = support.xyz", "        value = support.node or support.xyz"))
bug("load-or", "C09", (T, "        value = load.node\n        if value is None:\n            value = load.xyz", "        value = load.node or load.xyz"))
bug("support-adds", "C09", (T, "            raise ValueError(\"A node doesn't exist at {} yet!\".format(value))\n\n        self.node_attribute(node, \"type\", \"support\")", "            node = self.add_node(Node(xyz=value))\n        self.node_attribute(node, 'type', 'support')"))
bug("gkey-2f", "C09", (N, "return geometric_key(xyz, self.tol)", "return geometric_key(xyz, '3f')"))
bug("attrs-swap", "C09", (E, "u, v = edge_keys", "u, v = sorted(edge_keys)"))
bug("load-sum", "C09", (T, "self.node_attributes(node, [\"qx\", \"qy\", \"qz\"], load.vector)", "self.node_attributes(node, ['qx', 'qy'], load.vector)"))
ref("node-local", "C09", (N, "        x, y, z = xyz\n", "        x, y, z = xyz\n        registry = self.gkey_node\n"))
ref("pop", "C09", (N, "                del self.gkey_node[gkey]\n", "                self.gkey_node.pop(gkey)\n"))
ref("exists-return", "C09", (N, "        if self.node_key(value) is not None:\n            return True\n        return False", "        return self.node_key(value) is not None"))
ref("edge-list", "C09", (E, "for node in edge:", "for node in [n for n in edge]:"))
ref("edge-attr", "C09", (E, "attr = {k: v for k, v in edge.attributes.items()}", "attr = dict(edge.attributes)"))
ref("helper", "C09", (T, "        value = support.node\n        if value is None:\n            value = support.xyz\n", "        value = self._locate(support)\n"),
    (T, "    def add_support(self", "    def _locate(self, element):\n        return element.node if element.node is not None else element.xyz\n\n    def add_support(self"))
ref("edge-ensure", "C09", (E, "            key = self.node_key(node)\n            if key is not None:\n                edge_keys.append(key)\n                continue\n", "            key = self.node_key(node)\n            if self.node_exists(node):\n                edge_keys.append(key)\n                continue\n"))
if __name__ == "__main__":
    main(sys.argv[1:])
