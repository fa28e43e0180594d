from muts import bug, ref, main
import sys
T, NP, EP, CC = "diagrams/topology/topology.py", "optimization/parameters/node.py", "optimization/parameters/edge.py", "optimization/constraints/constraint.py"
bug("no-aux-conv", "C14", (T, 'for name in ("_trails", "_auxiliary_trails"):\n            trails', 'for name in ("_trails",):\n            trails'))
bug("list-trails", "C14", (T, "{int(key): tuple(trail) for", "{int(key): list(trail) for"))
bug("str-keys", "C14", (T, "{int(key): tuple(trail) for", "{key: tuple(trail) for"))
bug("weight-or", "C14", (CC, "self._weight = float(data[\"weight\"])", "self._weight = float(data[\"weight\"] or 1.0)"), )
bug("bound-truthy", "C14", (NP, "if bound is not None:", "if bound:"))
bug("edge-sorted", "C14", (EP, "tuple(literal_eval(data[\"_key\"]))", "tuple(sorted(literal_eval(data[\"_key\"])))"))
bug("copy-shares", "C14", (T, "# ==============================================================================\n# Node Additions", "    def copy(self, cls=None):\n        return type(self).from_data(dict(self.data))\n\n# ====\n# Node Additions"))
bug("aux-vector", "C14", (T, "        Diagram.data.fset(self, data)\n", "        Diagram.data.fset(self, data)\n        self.attributes['_aux_vector'] = [0.0, 0.0, -1.0]\n"))
ref("loop", "C14", (T, "            self.attributes[name] = {int(key): tuple(trail) for key, trail in trails.items()}", "            restored = {}\n            for key in trails:\n                restored[int(key)] = tuple(trails[key])\n            self.attributes[name] = restored"))
ref("bounds-comp", "C14", (NP, "        for bound_name in", "        _ = [b for b in ('a', 'b')]\n        for bound_name in"))
ref("getattr-loop", "C14", (EP, """        data["_bound_up"] = self._bound_up
        data["_bound_low"] = self._bound_low
""", """        for name in ("_bound_up", "_bound_low"):
            data[name] = getattr(self, name)
"""))
if __name__ == "__main__":
    main(sys.argv[1:])
