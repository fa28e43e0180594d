from muts import bug, ref, main
import sys
T = "diagrams/topology/mesh_mixins.py"
bug("mid", "C15", (T, "n = int(len(polyedge) / 2) - 1", "n = int(len(polyedge) / 2)"))
bug("mid-ceil", "C15", (T, "n = int(len(polyedge) / 2) - 1", "n = int((len(polyedge) + 1) / 2) - 1"))
bug("drop-one", "C15", (T, "trail.extend(list(pairwise(polyedge[n + 1:])))", "trail.extend(list(pairwise(polyedge[n + 2:])))"))
bug("drop-half", "C15", (T, "                trail.extend(list(pairwise(polyedge[n + 1:])))\n", ""))
bug("or-support", "C15", (T, "if start not in supports and end not in supports", "if start not in supports or end not in supports"))
bug("closed", "C15", (T, "if start == end:", "if start == polyedge[1]:"))
bug("along", "C15", (T, "if polyedge[1] in supports:", "if polyedge[-2] in supports and polyedge[1] in supports and len(polyedge) > 2:"))
bug("abs-state", "C15", (T, "force = deviation_state * deviation_force", "force = deviation_state * abs(deviation_force)"))
bug("swap-state", "C15", (T, "signed_length = trail_length * trail_state", "signed_length = trail_length * deviation_state"))
bug("len-sign", "C15", (T, "signed_length = distance_point_point(*edge_coordinates) * trail_state", "signed_length = distance_point_point(*edge_coordinates) * -1"))
bug("sup-used", "C15", (T, "        for vkey in supports:\n", "        for vkey in {e for edge in trail for e in edge} & supports:\n"))
bug("vert-used", "C15", (T, "for edge in trail:", "for edge in trail[1:]:"))
ref("floor", "C15", (T, "n = int(len(polyedge) / 2) - 1", "n = len(polyedge) // 2 - 1"))
ref("hoist", "C15", (T, "        for edge in deviation:\n            force = deviation_state * deviation_force\n", "        force = deviation_state * deviation_force\n        for edge in deviation:\n"))
ref("pairs", "C15", (T, "        for pkey, polyedge in mesh.polyedges(data=True):\n", "        for _, polyedge in mesh.polyedges(data=True):\n            pairs = list(pairwise(polyedge))\n"),
    (T, "deviation.extend(list(pairwise(polyedge)))", "deviation.extend(pairs)"), (T, "deviation.extend(list(pairwise(polyedge)))", "deviation.extend(pairs)"), (T, "trail.extend(list(pairwise(polyedge)))", "trail.extend(pairs)"))
ref("pairs2", "C15", (T, "                    n = int(len(polyedge) / 2) - 1\n", "                    n = int(len(polyedge) / 2) - 1\n                    edges = list(pairwise(polyedge))\n"),
    (T, "deviation.append(tuple(polyedge[n: n + 2]))", "deviation.append(edges[n])"), (T, "trail.extend(list(pairwise(polyedge[:n + 1])))", "trail.extend(edges[:n])"), (T, "trail.extend(list(pairwise(polyedge[n + 1:])))", "trail.extend(edges[n + 1:])"))
ref("plus", "C15", (T, "deviation.extend(list(pairwise(polyedge)))", "deviation += list(pairwise(polyedge))"))
ref("loop", "C15", (T, "deviation.extend(list(pairwise(polyedge)))", "for pair in pairwise(polyedge):\n                    deviation.append(pair)"))
ref("helper", "C15", (T, "    @classmethod\n    def from_dualquadmesh", "    @staticmethod\n    def _edges(polyedge):\n        return list(pairwise(polyedge))\n\n    @classmethod\n    def from_dualquadmesh"), (T, "deviation.extend(list(pairwise(polyedge)))", "deviation.extend(cls._edges(polyedge))"), (T, "trail.extend(list(pairwise(polyedge[:n + 1])))", "trail.extend(cls._edges(polyedge[:n + 1]))"))
ref("trail-first", "C15", (T, "        for vkey in supports:\n", "        for vkey in list(supports):\n"))
ref("merge-cond", "C15", (T, "            if start == end:\n                deviation.extend(list(pairwise(polyedge)))\n\n", "            if start == end:\n                deviation.extend(list(pairwise(polyedge)))\n                continue\n\n"))
ref("uv", "C15", (T, "edge_coordinates = [topology.node_coordinates(node) for node in edge]", "u, v = edge\n                edge_coordinates = [topology.node_coordinates(u), topology.node_coordinates(v)]"))
ref("count", "C15", (T, "            # TODO: closed", "            hits = (start in supports) + (end in supports)\n            # TODO: closed"), (T, "if start not in supports and end not in supports", "if hits == 0"), (T, "elif start in supports and end in supports", "elif hits == 2"))
if __name__ == "__main__":
    main(sys.argv[1:])
