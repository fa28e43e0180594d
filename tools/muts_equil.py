from muts import bug, ref, main
import sys
F, N = "equilibrium/force.py", "equilibrium/force_numpy.py"
ref("noop-all", "C01 C02 C03 C04 C05 C16", (F, "    klast = topology.sequence_last()", "    _noop = None\n    klast = topology.sequence_last()"),
    (F, "                node = trails_sequences[key][k]", "                pass\n                node = trails_sequences[key][k]"),
    (N, "    distance = None", "    0\n    distance = None\n    assert True"))
ref("helper-move", "C01 C02 C04", (F, "nrvec = normalize_vector(rvec)\n", "nrvec = _unit(rvec)\n"),
    (F, "def form_update(", "def _unit(v):\n    return normalize_vector(v)\n\n\ndef form_update("))
ref("reorder", "C01 C02", (F, "                trail_directions[edge] = nrvec\n", ""), (F, "                residual_vectors[next_node] = rvec\n", "                residual_vectors[next_node] = rvec\n                trail_directions[edge] = nrvec\n"))
ref("loop-keys", "C01 C04", (F, "for key, trail in topology.trails(keys=True):", "for key in topology.trails_keys():") if False else (F, "for key, trail in topology.trails(keys=True):", "for key, _ in topology.trails(keys=True):"))
ref("dict-copy", "C04", (F, "last_xyz = {k: v for k, v in node_xyz.items()}", "last_xyz = dict(node_xyz)"))
ref("invert-if", "C01 C02", (F, "                indirect = True\n", "                indirect = t > 0\n"), (F, "                if t == 0:\n                    indirect = False\n", "") if False else (F, "                    indirect = False\n", "                    indirect = t > 0\n"))
ref("sum-gen", "C04", (F, """        distance = 0.0
""", "        distance = sum(distance_point_point(last_xyz[key], pos) for key, pos in node_xyz.items())\n"),
    (F, "            distance += distance_point_point(last_pos, pos)", "            pass"))
ref("fold-trailvec", "C01 C03", (F, """    for vec in vectors:
        tvec = add_vectors(tvec, vec)
    return scale_vector(tvec, -1.0)""", """    total = [sum(c) for c in zip(*vectors)]
    return [-c for c in total]"""))
ref("while-res", "C01", (F, """    for force, dev_vec in zip(forces, vectors):
        r_vec = add_vectors(r_vec, scale_vector(dev_vec, force))
""", """    for i, force in enumerate(forces):
        r_vec = add_vectors(r_vec, scale_vector(vectors[i], force))
"""))
bug("copysign-force", "C01 C02", (F, "copysign(length_vector(rvec), length)", "length_vector(rvec)"))
bug("indirect-off", "C01", (F, "                if t == 0:\n                    indirect", "                if t <= 1:\n                    indirect"))
bug("indirect-off-np", "C01 C03", (N, "if t > 0:\n                    indir", "if t > 1:\n                    indir"))
bug("gt-eta", "C04", (F, "if distance > eta:\n            raise", "if distance > 10 * eta:\n            raise"))
bug("break-early-np", "C04", (N, "if distance < eta:", "if distance < eta or t > 50:"))
bug("kmax-strict", "C16", (F, "if topology.is_node_support(node) or k == kmax:", "if topology.is_node_support(node) or k == klast:"))
bug("length-sign", "C02", (F, "length = copysign(length, force)", "length = abs(length) if force >= 0 else length"))
bug("plane-abs", "C02", (F, "return cos_noa / cos_nv", "return cos_noa / fabs(cos_nv)"))
bug("edge-default", "C01", (F, "other = u if u != node else v", "other = u if u > node else v"))
bug("rf-only-support", "C01 C03", (N, "rforce = reaction_forces[node]", "rforce = reaction_forces[node] if form.is_node_support(node) and form.is_node_origin(node) is False else rforce * 1.0"))
bug("mutate-top", "C05", (F, "    if verbose:\n", "    for node in reaction_forces:\n        topology.node_attribute(node, 'rx', reaction_forces[node][0])\n    if verbose:\n"))
if __name__ == "__main__":
    main(sys.argv[1:])
