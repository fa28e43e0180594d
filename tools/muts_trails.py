from muts import bug, ref, main
import sys
T = "diagrams/topology/topology.py"
bug("k-plus", "C06", (T, 'self.node_attribute(node, "_k", index)', 'self.node_attribute(node, "_k", index + 1)'))
bug("no-reverse", "C06", (T, "            trail.reverse()\n", ""))
bug("no-clear", "C06", (T, "            self.unset_node_attribute(node, \"type\")\n", "            pass\n"))
bug("list-trail", "C06", (T, "trails[origin_node] = tuple(trail)", "trails[origin_node] = trail"))
bug("support-key", "C06", (T, "trails[origin_node] = tuple(trail)", "trails[support] = tuple(trail)"))
bug("no-update", "C06", (T, "nodes_in_trails.update(visited)", "nodes_in_trails.update([support, origin_node])"))
bug("clear-supports", "C06", (T, "for node in list(self.origin_nodes()):", "for node in list(self.nodes()):"))
bug("no-assert", "C06", (T, "        assert len(unassigned) == 0, msg\n", ""))
bug("one-orient", "C06", (T, "is_trail = self.is_trail_edge((neighbor, node))", "is_trail = False"))
bug("merge-trails", "C06", (T, '        self.attributes["_trails"] = trails\n', '        self.attributes["_trails"].update(trails)\n'))
bug("short", "C06", (T, "trails[origin_node] = tuple(trail)", "trails[origin_node] = tuple(trail[:-1])"))
bug("no-visited", "C06", (T, "                    visited.add(node)\n                    node = neighbor", "                    node = neighbor"))
bug("drop-type", "C06", (T, 'self.node_attribute(origin_node, "type", "_origin")', 'self.node_attribute(trail[0], "type", "_origin")'))
ref("insert0", "C06", (T, "trail.append(node)\n                    visited", "trail.insert(0, node)\n                    visited"), (T, "trail.append(origin_node)", "trail.insert(0, origin_node)"), (T, "            trail.reverse()\n", ""))
ref("reversed", "C06", (T, "            trail.reverse()\n", "            trail = list(reversed(trail))\n"))
ref("slice", "C06", (T, "            trail.reverse()\n", "            trail = trail[::-1]\n"))
ref("for-neigh", "C06", (T, "                while neighbors:\n                    neighbor = neighbors.pop()\n", "                for neighbor in neighbors:\n"))
ref("rename", "C06", (T, "visited", "seen"), )
ref("diff", "C06", (T, "unassigned = set(self.nodes()) - nodes_in_trails", "unassigned = {n for n in self.nodes() if n not in nodes_in_trails}"))
ref("helper-trail", "C06", (T, """                    try:
                        is_trail = self.is_trail_edge((node, neighbor))
                    except KeyError:
                        is_trail = self.is_trail_edge((neighbor, node))
""", """                    is_trail = self._joined_by_trail(node, neighbor)
"""), (T, "    def build_trails(", """    def _joined_by_trail(self, u, v):
        edge = (u, v) if self.has_edge(u, v) else (v, u)
        return self.is_trail_edge(edge)

    def build_trails("""))
ref("while-index", "C06", (T, "for index, node in enumerate(trail):\n                self.node_attribute(node, \"_k\", index)", "for index in range(len(trail)):\n                self.node_attribute(trail[index], \"_k\", index)"))
ref("not-trail", "C06", (T, "if not is_trail:", "if is_trail is False:"))
if __name__ == "__main__":
    main(sys.argv[1:])
