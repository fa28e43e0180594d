"""Larger behaviour-preserving rewrites."""
from muts import bug, ref, main
import sys
F, N = "equilibrium/force.py", "equilibrium/force_numpy.py"
D, T = "diagrams/diagram.py", "diagrams/topology/topology.py"
DEF = "def form_update("
PL = '''                if plane:
                    # compute length from line plane intersection
                    plength = trail_length_from_plane_intersection(pos, rvec, plane)
                    # The intersection length is None or zero
                    if not plength:
                        msg = "Warning! No intersection found between vector {} of edge {} and plane {}"
                        print(msg.format(rvec, edge, plane))
                        print("Falling back to input length: {}".format(length))
                    #  valid intersection length exists
                    else:
                        # print out warning if there is a swipe in the force state of the edge
                        if plength * length < 0.:
                            print("Warning! Force state has flipped for edge {} due to plane intersection".format(edge))
                        # override signed length
                        length = plength
'''
ref("r-plane-helper", "C02 C01", (F, PL, "                length = _signed_length(pos, rvec, edge, length, plane)\n"),
    (F, DEF, '''def _signed_length(pos, rvec, edge, length, plane):
    if not plane:
        return length
    plength = trail_length_from_plane_intersection(pos, rvec, plane)
    if not plength:
        print("No intersection {} {} {}".format(rvec, edge, plane))
        return length
    if plength * length < 0.:
        print("flipped {}".format(edge))
    return plength


''' + DEF))
MV = '''        distance = 0.0
        for key, pos in node_xyz.items():
            last_pos = last_xyz[key]
            distance += distance_point_point(last_pos, pos)
'''
ref("r-move-helper", "C04 C01", (F, MV, "        distance = _movement(node_xyz, last_xyz)\n"),
    (F, DEF, '''def _movement(node_xyz, last_xyz):
    total = 0.0
    for key in node_xyz:
        total = total + distance_point_point(node_xyz[key], last_xyz[key])
    return total


''' + DEF))
ref("r-get", "C01 C16", (F, "                if k not in trails_sequences[key]:\n                    continue", "                sequence = trails_sequences[key]\n                node = sequence.get(k)\n                if node is None:\n                    continue"),
    (F, "                node = trails_sequences[key][k]\n", ""), (F, "next_node = trails_sequences[key][k + 1]", "next_node = sequence[k + 1]"))
ref("r-min", "C16", (F, "        if kmax < klast:\n            klast = kmax\n", "        klast = min(klast, kmax)\n"))
ref("r-items", "C01 C04", (F, "for key, trail in topology.trails(keys=True):", "for key in trails_sequences:"))
ref("r-state-lit", "C01 C05", (F, "    eq_state = {}\n    eq_state[\"node_xyz\"] = node_xyz\n    eq_state[\"trail_forces\"] = trail_forces\n    eq_state[\"reaction_forces\"] = reaction_forces\n    eq_state[\"trail_directions\"] = trail_directions\n\n    return eq_state",
    "    return dict(node_xyz=node_xyz, trail_forces=trail_forces, reaction_forces=reaction_forces, trail_directions=trail_directions)"))
ref("r-incoming-comp", "C01", (F, '''    vectors = []
    for u, v in edges:
        other = u if u != node else v
        vector = vector_two_nodes(node_xyz[other], node_xyz[node], normalize)
        vectors.append(vector)

    return vectors''', '''    here = node_xyz[node]
    others = [v if u == node else u for u, v in edges]
    return [vector_two_nodes(node_xyz[other], here, normalize) for other in others]'''))
ref("r-np-norm", "C04 C03", (N, "distance = np.sqrt(np.sum(np.square(last_pos_array - pos_array)))", "distance = np.linalg.norm(pos_array - last_pos_array)"))
ref("r-np-pow", "C04", (N, "np.square(last_pos_array - pos_array)", "(pos_array - last_pos_array) ** 2"))
ref("r-np-mul", "C04", (N, "        distance = np.sqrt(np.sum(np.square(last_pos_array - pos_array)))", "        moved = last_pos_array - pos_array\n        distance = np.sqrt(np.sum(moved * moved))"))
ref("r-np-get", "C03", (N, "                if k not in trails_sequences[key]:\n                    continue", "                nodes = trails_sequences[key]\n                if k not in nodes:\n                    continue"),
    (N, "node = trails_sequences[key][k]\n", "node = nodes[k]\n"), (N, "next_node = trails_sequences[key][k + 1]", "next_node = nodes[k + 1]"))
ref("r-np-values", "C04", (N, "np.array([pos for key, pos in node_xyz.items()])", "np.array(list(node_xyz.values()))"),
    (N, "np.array([last_positions[key] for key, pos in node_xyz.items()])", "np.array([last_positions[key] for key in node_xyz])"))
ref("r-np-sign", "C02 C03", (N, "                if trail_force * length < 0.0:\n                    trail_force = trail_force * -1.0\n", "                trail_force = -trail_force if length < 0.0 else trail_force\n"))
ref("r-continue", "C04", (F, "        if t == 0:\n            continue\n", "        if not t:\n            continue\n"))
O, P = "optimization/optimizer.py", "optimization/parameters/"
C = "optimization/constraints/"
ref("s-pred-comp", "C17 C01", (T, "        deviation_edges = []\n        for edge in self.connected_edges(node):\n            if predicate(edge):\n                deviation_edges.append(edge)\n", "        deviation_edges = [edge for edge in self.connected_edges(node) if predicate(edge)]\n"))
ref("s-pred-filter", "C17", (T, "        deviation_edges = []\n        for edge in self.connected_edges(node):\n            if predicate(edge):\n                deviation_edges.append(edge)\n", "        deviation_edges = list(filter(predicate, self.connected_edges(node)))\n"))
ref("s-is-trail", "C17 C06", (T, "        if self.edge_attribute(edge, \"type\") == \"trail\":\n            return True\n        return False", "        return self.edge_attribute(edge, \"type\") == \"trail\""))
ref("s-trailseq-comp", "C08", (T, "        sequences = dict()\n        for node in self.trail(key):\n            sequences[self.node_sequence(node)] = node\n\n        return sequences", "        return {self.node_sequence(node): node for node in self.trail(key)}"))
ref("s-trailsseq-comp", "C08", (T, "        sequences = dict()\n\n        for key, trail in self.trails(keys=True):\n            sequences[key] = self.trail_sequences(key)\n\n        return sequences", "        return {key: self.trail_sequences(key) for key, _ in self.trails(keys=True)}"))
ref("s-max-gen", "C08", (T, "return max(list(self.nodes_attribute(name=\"_k\")))", "return max(self.nodes_attribute(name=\"_k\"))"))
ref("s-max-gen2", "C08", (T, "return max(list(self.nodes_attribute(name=\"_k\")))", "return max(self.node_attribute(node, \"_k\") for node in self.nodes())"))
ref("s-count-sum", "C17", (T, "return len(list(self.trail_edges()))", "return sum(1 for _ in self.trail_edges())"))
ref("s-count-loop", "C17", (T, "return len(list(self.trail_edges()))", "n = 0\n        for _ in self.trail_edges():\n            n += 1\n        return n"))
ref("s-count-pred", "C17", (T, "return len(list(self.trail_edges()))", "return sum(1 for edge in self.edges() if self.is_trail_edge(edge))"))
ref("s-count-if", "C17", (T, "return len(list(self.trail_edges()))", "return sum(1 if self.is_trail_edge(edge) else 0 for edge in self.edges())"))
ref("s-count-bool", "C17", (T, "return len(list(self.trail_edges()))", "return sum(self.is_trail_edge(edge) for edge in self.edges())"))
ref("s-count-supp", "C17", (D, "return len(list(self.support_nodes()))", "count = 0\n        for node in self.nodes():\n            if self.is_node_support(node):\n                count += 1\n        return count"))
bug("s-count-off", "C17", (T, "return len(list(self.trail_edges()))", "return sum(1 for edge in self.edges() if not self.is_deviation_edge(edge)) - 0"))
ref("s-direct", "C17", (T, "            a, b = self.edge_sequence(edge)\n            if a == b:\n                return True\n", "            a, b = self.edge_sequence(x)\n            return a == b\n"))
ref("s-opt-comp", "C10", (O, "        for idx, parameter in enumerate(self.parameters.values()):\n            parameters[idx] = parameter.start_value(topology)", "        idx = 0\n        for parameter in self.parameters.values():\n            parameters[idx] = parameter.start_value(topology)\n            idx += 1"))
ref("s-opt-list", "C10", (O, "        parameters = np.zeros(self.number_of_parameters())\n\n        for idx, parameter in enumerate(self.parameters.values()):\n            parameters[idx] = parameter.start_value(topology)\n\n        return parameters", "        return np.array([parameter.start_value(topology) for parameter in self.parameters.values()])"))
ref("s-pen-sum", "C11 C13", (O, "        penalty = 0.0\n        for constraint in self.constraints.values():\n            penalty += constraint.penalty(eq_state)\n\n        return penalty", "        return sum(constraint.penalty(eq_state) for constraint in self.constraints.values())"))
ref("s-upd-zip", "C13 C10", (O, "        for idx, parameter in enumerate(self.parameters.values()):\n\n            value = parameters[idx]\n", "        for value, parameter in zip(parameters, self.parameters.values()):\n"))
FD = "diagrams/form.py"
CC, EP = C + "constraint.py", P + "edge.py"
LN = "        for node in self.nodes():\n            if self.is_node_loaded(node, min_force):\n                yield node"
ref("t-loaded-gen", "C17", (D, LN, "        return (node for node in self.nodes() if self.is_node_loaded(node, min_force))"))
ref("t-loaded-pred", "C17", (D, LN, "        return self.nodes_where_predicate(lambda node, attr: self.is_node_loaded(node, min_force))"))
ref("t-loaded-not", "C17", (D, LN, "        for node in self.nodes():\n            if not self.is_node_loaded(node, min_force):\n                continue\n            yield node"))
ref("t-is-loaded", "C17", (D, "return length_vector(self.node_load(node)) > min_force", "load = self.node_load(node)\n        return sum(c * c for c in load) ** 0.5 > min_force"))
ref("t-is-loaded2", "C17", (D, "return length_vector(self.node_load(node)) > min_force", "qx, qy, qz = self.node_load(node)\n        magnitude = length_vector([qx, qy, qz])\n        return not magnitude <= min_force"))
ref("t-supported", "C17", (D, "return any([self.is_node_support(node) for node in edge])", "u, v = edge\n        return self.is_node_support(u) or self.is_node_support(v)"))
ref("t-load-comp", "C17 C01", (D, "return self.node_attributes(key=node, names=[\"qx\", \"qy\", \"qz\"])", "return [self.node_attribute(node, name) for name in (\"qx\", \"qy\", \"qz\")]"))
ref("t-form-loop", "C05 C02", (FD, "        del form.attributes[\"_trails\"]\n", "        for name in (\"_trails\",):\n            del form.attributes[name]\n"))
ref("t-pen-order", "C11", (CC, "return diff * diff * self.weight", "return self.weight * diff ** 2"))
ref("t-pen-vec", "C11", (CC, "        vec_a = self.reference(data)\n        vec_b = self.target(vec_a)\n", "        reference = self.reference(data)\n        vec_a, vec_b = reference, self.target(reference)\n"))
ref("t-data-lit", "C14", (EP, "        data = {}\n        data[\"_key\"] = repr(self._key)\n        data[\"_bound_up\"] = self._bound_up\n        data[\"_bound_low\"] = self._bound_low\n        data[\"_attr_name\"] = self._attr_name\n        return data", "        return {\"_key\": repr(self._key), \"_bound_up\": self._bound_up, \"_bound_low\": self._bound_low, \"_attr_name\": self._attr_name}"))
ref("t-data-bound", "C14", (EP, "            if bound is not None:\n                bound = float(bound)\n            setattr(self, bound_name, bound)", "            setattr(self, bound_name, None if bound is None else float(bound))"))
SRC = open("/repo/src/compas_cem/optimization/optimizer.py").read()
def cut(a, b):
    i = SRC.index(a)
    return SRC[i:SRC.index(b, i)]
G1 = cut('        if grad not in ("AD", "FD"):', "        # grad_func = self.gradient_func(")
ref("u-grad-helper", "C12 C13", (O, G1, "        grad_func = self._gradient(grad, topology, tmax, eta, step_size, verbose)\n\n"),
    (O, "    def optimization_parameters(self, topology):", "    def _gradient(self, grad, topology, tmax, eta, step_size, verbose):\n" + G1.replace("            grad_func = ", "            return ") + "    def optimization_parameters(self, topology):"))
R1 = cut("        # fetch last optimum value", "        if verbose:\n            print(f\"Optimization total runtime: {round(time_opt, 6)}")
ref("u-report-helper", "C12 C13", (O, R1, "        time_opt, loss_opt, evals, status = self._report(solver, start, x_opt, grad_func)\n\n"),
    (O, "    def optimization_parameters(self, topology):", "    def _report(self, solver, start, x_opt, grad_func):\n" + R1 + "        return time_opt, loss_opt, evals, status\n\n    def optimization_parameters(self, topology):"))
H1 = cut("        # stack keyword arguments", "        # solve optimization problem")
ref("u-hyper", "C13", (O, H1, "        solver = nlopt_solver(obj_func, algorithm, self.number_of_parameters(), bounds_up, bounds_low, iters, eps, kappa)\n\n"))
ref("u-update-first", "C13", (O, "        # set norm of the gradient\n", "        self._update_parameters(topology, x_opt)\n\n        # set norm of the gradient\n"), (O, "        self._update_parameters(topology, x_opt)\n\n        # exit", "        # exit"))
ref("u-obj-inline", "C12 C13", (O, "obj_func = self.objective_func(topology, grad_func, tmax, eta)", "obj_func = partial(objective_function_numpy, x_func=partial(self._optimize_form, topology=topology, tmax=tmax, eta=eta), grad_func=grad_func)"))
ref("u-norm-abs", "C13", (O, "self.gradient_norm = np.linalg.norm(self.gradient)", "gradient_norm = np.linalg.norm(self.gradient)\n        self.gradient_norm = gradient_norm"))
GR = "optimization/grad.py"
LOOP = "    _x = np.copy(x)\n\n    for i in range(len(x)):\n\n        _xi = _x[i]\n        _x[i] += step_size\n\n        fx1 = x_func(_x)\n\n        delta_fx = (fx1 - fx0) / step_size\n        grad[i] = delta_fx\n        _x[i] = _xi\n"
ref("v-fd-fresh", "C12", (GR, LOOP, "    for i in range(len(x)):\n        probe = np.copy(x)\n        probe[i] = probe[i] + step_size\n        grad[i] = (x_func(probe) - fx0) / step_size\n"))
ref("v-fd-size", "C12", (GR, "for i in range(len(x)):", "for i in range(x.size):"))
ref("v-fd-enum", "C12", (GR, "    for i in range(len(x)):\n\n        _xi = _x[i]\n        _x[i] += step_size\n", "    for i, _xi in enumerate(x):\n        _x[i] = _xi + step_size\n"))
ref("v-fd-array", "C12", (GR, "_x = np.copy(x)", "_x = np.array(x)"))
ref("v-fd-xcopy", "C12", (GR, "_x = np.copy(x)", "_x = x.copy()"))
ref("v-fd-sub", "C12", (GR, "        _x[i] = _xi\n", "        _x[i] = x[i]\n"))
OB = "optimization/objective_func.py"
ref("v-ad-copyto", "C12", (GR, "grad[:] = grad_func(x)", "values = grad_func(x)\n    for i in range(len(x)):\n        grad[i] = values[i]"))
if __name__ == "__main__":
    main(sys.argv[1:])
