from muts import bug, ref, main
import sys
F, T = "plotters/formartist.py", "plotters/topologyartist.py"
bug("zero-color", "C18", (F, "if force == 0.0:", "if force < 0.0 and False:"))
bug("tol-zero", "C18", (F, "if force == 0.0:", "if fabs(force) < 1e-3:"))
bug("swap-state", "C18", (F, "-1: COLORS[\"compression\"]", "-1: COLORS[\"tension\"]"))
bug("no-abs", "C18", (F, "force = fabs(self.network.edge_force(edge))", "force = self.network.edge_force(edge)"))
bug("w-swap", "C18", (F, "(1.0 - ratio) * low + ratio * high", "(1.0 - ratio) * high + ratio * low"))
bug("w-max", "C18", (F, "(force - forcemin) / (forcemax - forcemin)", "force / forcemax"))
bug("origin-support", "C18", (F, "if self.form.is_node_support(node)", "if self.form.degree(node) == 1"))
bug("topo-abs", "C18", (T, "copysign(1.0, topology.edge_attribute(edge, attr_name))", "copysign(1.0, topology.edge_attribute(edge, 'force'))"))
bug("topo-styles", "C18", (T, "for e in self.edges]", "for e in reversed(list(self.edges))]"))
bug("topo-default", "C18", (T, "attr = attr or \"default\"", "attr = 'default' if attr == '_origin' else (attr or 'default')"))
ref("sign-if", "C18", (F, "color = cmap[copysign(1, force)]", "color = cmap[1] if force > 0.0 else cmap[-1]"))
ref("ternary", "C18", (F, "color = cmap[copysign(1, force)]", "key = 1 if force > 0 else -1\n                color = cmap[key]"))
ref("forces-dict", "C18", (F, "forces = [fabs(self.network.edge_force(edge)) for edge in self.edges]", "magnitudes = {edge: fabs(self.network.edge_force(edge)) for edge in self.edges}\n        forces = list(magnitudes.values())"),
    (F, "force = fabs(self.network.edge_force(edge))\n", "force = magnitudes[edge]\n"))
ref("nc-comp", "C18", (F, "cmap = self.node_colors\n", "cmap = self.node_colors\n        pass\n"))
ref("w-lin", "C18", (F, "(1.0 - ratio) * low + ratio * high", "low + ratio * (high - low)"))
ref("abs", "C18", (F, "force = fabs(self.network.edge_force(edge))", "force = abs(self.network.edge_force(edge))"))
ref("attr-ternary", "C18", (T, "attr = attr or \"default\"", "attr = attr if attr else 'default'"))
ref("span", "C18", (F, "            try:\n                ratio = (force - forcemin) / (forcemax - forcemin)\n            except ZeroDivisionError:\n                ratio = 1.0", "            span = forcemax - forcemin\n            ratio = (force - forcemin) / span if span != 0.0 else 1.0"))
bug("a-tol", "C19", (F, "if f_len < tol:", "if f_len <= tol:"))
bug("a-tol-scaled", "C19", (F, "f_len = length_vector(f_vec)\n", "f_len = length_vector(f_vec_scaled)\n"))
bug("a-shift-unscaled", "C19", (F, "length_vector(f_vec_scaled)) * -1", "length_vector(f_vec)) * -1"))
bug("a-max-signed", "C19", (F, "max_force = max(forces, key=lambda f: fabs(f))", "max_force = max(forces)"))
bug("a-swap-scale", "C19", (F, "scale=self.reaction_scale", "scale=self.load_scale"))
bug("a-tol-other", "C19", (F, "tol=self.reaction_tol", "tol=self.load_tol"))
bug("a-any-compr", "C19", (F, "if max_force < 0.0:", "if min(forces) < 0.0:"))
bug("a-return", "C19", (F, "            if f_len < tol:\n                continue", "            if f_len < tol:\n                break"))
bug("a-gap0", "C19", (F, "start, end = translate_points([start, end], gap_vector)", "start, end = translate_points([start, end], gap_vector) if f_len > 1.0 else (start, end)"))
bug("a-len-first", "C19", (F, "gap_arrow = self.node_size[node]\n            if shift[node]:", "gap_arrow = self.node_size[node]\n            if shift[node] and gap_arrow > f_len:"))
ref("a-direct", "C19", (F, "            force = Vector.from_start_end(start, end)\n", "            force = Vector(*f_vec_scaled)\n"))
ref("a-notlt", "C19", (F, "            if f_len < tol:\n                continue", "            if not f_len >= tol:\n                continue"))
ref("a-shift-comp", "C19", (F, "                if max_force < 0.0:\n                    s = True\n                shift[key] = s", "                shift[key] = max_force < 0.0"))
ref("a-abs", "C19", (F, "key=lambda f: fabs(f)", "key=abs"))
ref("a-neg", "C19", (F, "gap_arrow = (gap_arrow + length_vector(f_vec_scaled)) * -1", "gap_arrow = -(gap_arrow + scale * f_len)"))
ref("a-helper", "C19", (F, "    def _draw_forces(self, nodes", "    def _arrow_start(self, start, direction, gap):\n        return add_vectors(start, scale_vector(direction, gap))\n\n    def _draw_forces(self, nodes"),
    (F, "            gap_vector = scale_vector(f_vec_norm, gap_arrow)\n            start, end = translate_points([start, end], gap_vector)\n", "            end = self._arrow_start(end, f_vec_norm, gap_arrow)\n            start = self._arrow_start(start, f_vec_norm, gap_arrow)\n"))
ref("a-loop", "C19", (F, "                max_force = max(forces, key=lambda f: fabs(f))\n", "                max_force = forces[0]\n                for f in forces[1:]:\n                    if fabs(f) > fabs(max_force):\n                        max_force = f\n"))
ref("a-filter", "C19", (F, "        for node in nodes:\n\n            f_vec =", "        drawn = [node for node in nodes if length_vector(self.form.node_attributes(node, attr_names)) >= tol]\n        for node in drawn:\n\n            f_vec ="))
ref("a-order", "C19", (F, "            f_vec_scaled = scale_vector(f_vec, scale)\n            f_vec_norm = normalize_vector(f_vec)\n            f_len = length_vector(f_vec)\n", "            f_len = length_vector(f_vec)\n"),
    (F, "            start = self.form.node_coordinates(node)\n            end", "            f_vec_norm = normalize_vector(f_vec)\n            f_vec_scaled = scale_vector(f_vec, scale)\n            start = self.form.node_coordinates(node)\n            end"))
bug("l-react", "C22", (F, "        if self.show_reactions:\n", "        if self.show_reactions and self.show_loads:\n"))
bug("l-text-swap", "C22", (T, "        if self.show_nodetext:\n", "        if self.show_edgetext:\n"))
bug("l-later", "C22", (F, "        if self.show_edgetext:\n", "        if self.show_edgetext and self._edge_text is not None:\n"))
bug("l-noclear", "C22", (T, "        self.clear()\n", "        if self.show_nodes:\n            self.clear()\n"))
bug("l-default", "C22", (F, "show_reactions=True", "show_reactions=False"))
bug("l-cross-z", "C22", (T, "axis = [0.0, 0.0, 1.0]", "axis = [0.0, 1.0, 0.0]"))
bug("l-cross-break", "C22", (T, "            if node not in self.nodes:\n                continue", "            if node not in self.nodes:\n                break"))
bug("l-cross-one", "C22", (T, "angle=f*angle, point=xyz)", "angle=abs(f)*angle, point=xyz)"))
bug("l-force-abs", "C22", (F, "\"{0:.{1}}\".format(self.form.edge_force(x), precision)", "\"{0:.{1}}\".format(fabs(self.form.edge_force(x)), precision)"))
bug("l-len-attr", "C22", (F, "self.form.edge_length(*x)", "fabs(self.form.edge_length_2(x))"))
bug("l-state", "C22", (T, "parameter = self.topology.edge_length_2(edge)", "parameter = self.topology.edge_force(edge)"))
bug("l-type", "C22", (T, "if topology.is_direct_deviation_edge(edge):", "if not topology.is_direct_deviation_edge(edge):"))
bug("l-seq", "C22", (T, "maxval=maxval)", "maxval=maxval + 1)"))
bug("l-key", "C22", (T, "def key_sequence_format(x):\n            return", "def key_sequence_format(x):\n            x = min(x, 9)\n            return"))
ref("m-fstr", "C22", (F, "return \"f: {}\\nl: {}\".format(force_format(x), length_format(x))", "return f'f: {force_format(x)}\\nl: {length_format(x)}'"))
ref("m-percent", "C22", (F, "\"{0:.{1}}\".format(self.form.edge_force(x), precision)", "'%.2f' % self.form.edge_force(x)"))
ref("m-comp", "C22", (T, "        for edge in self.topology.edges():\n            label = formatter(edge)\n            text_labels[edge] = label\n\n        return text_labels", "        return {edge: formatter(edge) for edge in self.topology.edges()}"),
    (T, "self.topology.edge_length_2(edge)", "self.topology.edge_length_2(x)"), (T, "self.topology.edge_force(edge)", "self.topology.edge_force(x)"))
ref("m-draw-loop", "C22", (F, "        if self.show_loads:\n            self.draw_loads()\n        if self.show_reactions:\n            self.draw_reactions()\n", "        for shown, draw in ((self.show_loads, self.draw_loads), (self.show_reactions, self.draw_reactions)):\n            if shown:\n                draw()\n"))
ref("m-draw-split", "C22", (T, "    def draw(self):", "    def _draw_labels(self):\n        if self.show_nodetext:\n            self.draw_nodelabels()\n        if self.show_edgetext:\n            self.draw_edgelabels()\n\n    def draw(self):"),
    (T, "        if self.show_loads:\n            self.draw_loads()\n        if self.show_nodetext:\n            self.draw_nodelabels()\n        if self.show_edgetext:\n            self.draw_edgelabels()\n", "        if self.show_loads:\n            self.draw_loads()\n        self._draw_labels()\n"))
ref("m-cross", "C22", (T, "            for f in flips:\n\n                line = Line(*[add_vectors(xyz, [nodesize * f, 0.0, 0.0]) for f in flips])\n", "            for f in flips:\n                start = add_vectors(xyz, [-nodesize, 0.0, 0.0])\n                end = add_vectors(xyz, [nodesize, 0.0, 0.0])\n                line = Line(start, end)\n"))
ref("m-cross-in", "C22", (T, "            if node not in self.nodes:\n                continue\n\n            xyz = self.topology.node_coordinates(node)\n", "            if not (node in self.nodes):\n                continue\n\n            xyz = self.topology.node_coordinates(node)\n"))
ref("m-join", "C22", (T, "return \"{}\\n{}\".format(x, sequence_format(x))", "return '\\n'.join([str(x), sequence_format(x)])"))
ref("m-type", "C22", (T, "                    elif topology.has_trails():\n                        if topology.is_direct_deviation_edge(edge):\n                            attr_name = \"edge_deviation\"\n                        elif topology.is_indirect_deviation_edge(edge):\n                            attr_name = \"edge_deviation_indirect\"\n                    else:\n                        if topology.is_deviation_edge(edge):\n                            attr_name = \"edge_deviation\"\n", "                    elif topology.has_trails() and topology.is_indirect_deviation_edge(edge):\n                        attr_name = \"edge_deviation_indirect\"\n                    else:\n                        attr_name = \"edge_deviation\"\n"))
if __name__ == "__main__":
    main(sys.argv[1:])
