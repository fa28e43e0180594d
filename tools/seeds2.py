"""Second batch of planted bugs (see seedlib.py)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import B, FRAME
SEEDS = {}
SEEDS["c01-support-deviation"] = dict(prop="C01", edits=[("equilibrium/force_numpy.py",
    "topology._connected_direct_deviation_edges(n) for n in topology.nodes()}", "topology._connected_direct_deviation_edges(n) for n in topology.nodes() if not topology.is_node_support(n)}"),
    ("equilibrium/force_numpy.py", "dir_edges = node_direct[node]", "dir_edges = node_direct.get(node)")],
    needs="a direct deviation edge between two supports, numpy solver",
    breaks="the reaction of such a support leaves out the deviation edge",
    demo=FRAME + '''
t = frame()
t.add_edge(DeviationEdge(0, 1, force=-0.7))
t.add_edge(DeviationEdge(3, 4, force=0.4))
t.build_trails()
f = static_equilibrium_numpy(t)
assert max(imbalance(f, n) for n in f.nodes()) < 1e-6
''')
SEEDS["c02-plane-normal"] = dict(prop="C02", edits=[("equilibrium/force.py",
    "cos_nv = dot_vectors(normal, normalize_vector(vector))", "cos_nv = dot_vectors(normalize_vector(normal), normalize_vector(vector))")],
    needs="a plane whose normal is not of unit length",
    breaks="the end of the trail edge does not lie on the plane",
    demo=B + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 0.0]))
t.add_node(Node(1, [0.0, -1.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0, plane=([0.0, -2.0, 0.0], [0.0, 3.0, 0.0])))
t.add_support(NodeSupport(1))
t.add_load(NodeLoad(0, [0.0, -1.0, 0.0]))
t.build_trails()
assert abs(static_equilibrium(t).node_coordinates(1)[1] + 2.0) < 1e-9
''')
SEEDS["c02-stored-length-sign"] = dict(prop="C02", edits=[("equilibrium/force.py",
    "        length = copysign(length, force)\n", "        length = copysign(length, form.edge_attribute(key=edge, name='length') or force)\n")],
    needs="a trail edge whose force state is flipped by its plane",
    breaks="the stored length has the sign of the given length, not of the force",
    demo=B + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 0.0]))
t.add_node(Node(1, [0.0, -1.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0, plane=([0.0, 2.0, 0.0], [0.0, 1.0, 0.0])))
t.add_support(NodeSupport(1))
t.add_load(NodeLoad(0, [0.0, -1.0, 0.0]))
t.build_trails()
f = static_equilibrium(t)
assert f.edge_force((0, 1)) * f.edge_length_2((0, 1)) > 0
''')
SEEDS["c03-reversed-plane"] = dict(prop="C03", edits=[("equilibrium/force_numpy.py",
    "plane = edge_planes.get(edge)", "plane = edge_planes.get((node, next_node))")],
    needs="a trail edge with a plane added in the direction from the support to the origin",
    breaks="the numpy solver ignores the plane, the other one uses it",
    demo=B + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 0.0]))
t.add_node(Node(1, [0.0, -1.0, 0.0]))
t.add_edge(TrailEdge(1, 0, length=-1.0, plane=([0.0, -2.0, 0.0], [0.0, 1.0, 0.0])))
t.add_support(NodeSupport(1))
t.add_load(NodeLoad(0, [0.0, -1.0, 0.0]))
t.build_trails()
a, b = static_equilibrium(t), static_equilibrium_numpy(t)
assert abs(a.node_coordinates(1)[1] - b.node_coordinates(1)[1]) < 1e-9
''')
SEEDS["c04-two-iterations"] = dict(prop="C04", edits=[("equilibrium/force.py", "    if t > 0:\n        if distance > eta:", "    if t > 1:\n        if distance > eta:")],
    needs="tmax=2 on a diagram that needs more than two iterations",
    breaks="a form that has not converged is returned",
    demo=FRAME + '''
t = frame()
t.add_edge(DeviationEdge(0, 4, force=-0.7))
t.add_edge(DeviationEdge(1, 3, force=-0.4))
t.build_trails()
try:
    static_equilibrium(t, tmax=2, eta=1e-9)
except ValueError:
    pass
else:
    assert False, "not converged, yet returned"
''')
SEEDS["c04-relative-movement"] = dict(prop="C04", edits=[("equilibrium/force_numpy.py",
    "distance = np.sqrt(np.sum(np.square(last_pos_array - pos_array)))", "distance = np.sqrt(np.sum(np.square(last_pos_array - pos_array))) / max(1.0, np.sqrt(np.sum(np.square(pos_array))))")],
    needs="a diagram far from the world origin",
    breaks="form-finding stops although the nodes still move by more than eta",
    demo=FRAME + '''
def steps(shift):
    t = frame()
    for n in list(t.nodes()):
        p = t.node_coordinates(n)
        t.node_xyz(n, [p[0] + shift, p[1], p[2]])
    t.add_edge(DeviationEdge(0, 4, force=-0.7))
    t.add_edge(DeviationEdge(1, 3, force=-0.4))
    t.build_trails()
    c = [0]
    def cb(): c[0] += 1
    static_equilibrium_numpy(t, eta=1e-4, callback=cb)
    return c[0]
assert steps(0.0) == steps(1000.0)
''')
SEEDS["c05-shared-plane"] = dict(prop="C05", edits=[("diagrams/form.py",
    "        del form.attributes[\"_trails\"]\n", "        for edge in topology.edges():\n            form.edge_attribute(edge, 'plane', topology.edge_plane(edge))\n        del form.attributes[\"_trails\"]\n")],
    needs="a plane given as a list and edited in place in the form",
    breaks="editing the plane of the form changes the topology diagram",
    demo=B + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 0.0]))
t.add_node(Node(1, [0.0, -1.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0, plane=[[0.0, -2.0, 0.0], [0.0, 1.0, 0.0]]))
t.add_support(NodeSupport(1))
t.add_load(NodeLoad(0, [0.0, -1.0, 0.0]))
t.build_trails()
f = static_equilibrium(t)
f.edge_plane((0, 1))[0][1] = -5.0
assert t.edge_plane((0, 1))[0][1] == -2.0
''')
SEEDS["c08-cached-map"] = dict(prop="C08", edits=[("diagrams/topology/topology.py",
    "        sequences = dict()\n\n        for key, trail in self.trails(keys=True):\n            sequences[key] = self.trail_sequences(key)\n\n        return sequences\n",
    "        cached = getattr(self, '_tseq', None)\n        stamp = (self.number_of_sequences(), tuple(self.trails()))\n        if cached and cached[0] == stamp:\n            return cached[1]\n        sequences = dict()\n        for key, trail in self.trails(keys=True):\n            sequences[key] = self.trail_sequences(key)\n        self._tseq = (stamp, sequences)\n        return sequences\n")],
    needs="a trail shifted, between two reads of the map, without changing the number of sequences",
    breaks="the trail-to-sequence map shows the old numbers",
    demo=B + '''
t = TopologyDiagram()
for k in range(5):
    t.add_node(Node(k, [float(k), 0.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0))
t.add_edge(TrailEdge(1, 2, length=-1.0))
t.add_edge(TrailEdge(3, 4, length=-1.0))
t.add_support(NodeSupport(2))
t.add_support(NodeSupport(4))
t.build_trails()
t.trails_sequences()
t.shift_trail(3, 1)
assert t.trails_sequences()[3] == {1: 3, 2: 4}
''')
SEEDS["c09-custom-tolerance"] = dict(prop="C09", edits=[("diagrams/mixins/node_mixins.py",
    "return geometric_key(xyz, self.tol)", "return geometric_key(xyz, '3f')")],
    needs="a diagram with a finer tolerance than the default",
    breaks="nodes further apart than the tolerance are taken for one",
    demo=B + '''
t = TopologyDiagram()
t.tol = '6f'
t.add_node(Node(0, [0.0, 0.0, 0.0]))
t.add_node(Node(1, [0.0001, 0.0, 0.0]))
assert t.node_key([0.0, 0.0, 0.0]) == 0
''')
SEEDS["c10-key-reuse"] = dict(prop="C10", edits=[("optimization/optimizer.py",
    "        self._pkey += 1\n        self.parameters[self._pkey] = parameter\n", "        self._pkey = len(self.parameters)\n        self.parameters[self._pkey] = parameter\n")],
    needs="a parameter removed and another added afterwards",
    breaks="the new parameter replaces a remaining one",
    demo=B + '''
from compas_cem.optimization import Optimizer, DeviationEdgeParameter
o = Optimizer()
for k in range(3):
    o.add_parameter(DeviationEdgeParameter((k, k + 1), 1.0, 1.0))
o.remove_parameter(0)
o.add_parameter(DeviationEdgeParameter((3, 4), 1.0, 1.0))
assert [p.key() for p in o.parameters.values()] == [(1, 2), (2, 3), (3, 4)]
''')
SEEDS["c11-polyline-midpoint"] = dict(prop="C11", edits=[("optimization/constraints/polyline.py",
    "        indices = closest_points_in_cloud_numpy([point], cloud, distances=False)\n\n        return cloud[indices[0]]\n",
    "        middles = [[(a + b) / 2.0 for a, b in zip(*segment)] for segment in pairwise(polyline)]\n        indices = closest_points_in_cloud_numpy([point], middles, distances=False)\n        return cloud[indices[0]]\n")],
    needs="a polyline with segments of different lengths",
    breaks="the target is the nearest point of the segment with the nearest middle, not of the polyline",
    demo=B + '''
from compas.geometry import Polyline
from compas_cem.optimization import PolylineConstraint
c = PolylineConstraint(0, Polyline([[0.0, 0.0, 0.0], [10.0, 0.0, 0.0], [10.0, 1.0, 0.0]]))
assert abs(c.penalty({"node_xyz": {0: [9.0, 0.1, 0.0]}}) - 0.01) < 1e-9
''')
SEEDS["c12-relative-step"] = dict(prop="C12", edits=[("optimization/grad.py",
    "        _x[i] += step_size\n", "        _x[i] += step_size * max(1.0, abs(_xi))\n")],
    needs="a variable larger than one",
    breaks="the step taken is larger than the one divided by",
    demo=B + '''
import numpy as np
from compas_cem.optimization.grad import grad_finite_differences
g = grad_finite_differences(np.array([4.0, 0.5]), np.zeros(2), lambda x: x[0] + x[1], 1e-3)
assert np.allclose(g, [1.0, 1.0], atol=1e-6)
''')
SEEDS["c13-positional-tmax"] = dict(prop="C13", edits=[("optimization/optimizer.py",
    "        self._update_parameters(topology, x_opt)\n\n        # exit like a champion\n        return static_equilibrium(topology, tmax=tmax, eta=eta)", "        self._update_parameters(topology, x_opt)\n\n        return static_equilibrium(topology, tmax, eta=eta)")],
    needs="tmax smaller than the last sequence of the diagram",
    breaks="the form returned is computed only up to that sequence",
    demo=B + '''
from compas.geometry import Point
from compas_cem.optimization import Optimizer, TrailEdgeParameter, PointConstraint
t = TopologyDiagram()
for k in range(6):
    t.add_node(Node(k, [0.0, -3.0 * k, 0.0]))
for k in range(5):
    t.add_edge(TrailEdge(k, k + 1, length=-1.0))
t.add_support(NodeSupport(5))
t.add_load(NodeLoad(0, [0.0, -1.0, 0.0]))
t.build_trails()
o = Optimizer()
o.add_parameter(TrailEdgeParameter((0, 1), 1.0, 1.0))
o.add_constraint(PointConstraint(5, Point(0.0, -5.5, 0.0)))
f = o.solve(t, tmax=2)
g = static_equilibrium(t)
assert all(abs(a - b) < 1e-9 for n in g.nodes() for a, b in zip(f.node_coordinates(n), g.node_coordinates(n)))
''')
SEEDS["c14-sorted-key"] = dict(prop="C14", edits=[("optimization/parameters/edge.py",
    "self._key = tuple(literal_eval(data[\"_key\"]))", "self._key = tuple(sorted(literal_eval(data[\"_key\"])))")],
    needs="a parameter of an edge added from the larger to the smaller node key",
    breaks="the parameter read back refers to an edge that does not exist",
    demo=B + '''
from compas_cem.optimization import TrailEdgeParameter
p = TrailEdgeParameter((3, 1), 1.0, 1.0)
assert TrailEdgeParameter.from_data(p.to_data()).key() == (3, 1)
''')
SEEDS["c15-closed-strip"] = dict(prop="C15", edits=[("diagrams/topology/mesh_mixins.py",
    "if start == end:", "if start == end and start not in supports:")],
    needs="a closed strip that starts and ends at a support",
    breaks="part of a closed strip becomes trails",
    demo=B + '''
class M:
    V = {k: [float(k % 2), float(k // 2), 0.5 * k] for k in range(6)}
    def collect_polyedges(self): pass
    def polyedges(self, data=False): return iter([(0, [0, 1, 2, 3, 0])])
    def vertices(self): return iter(self.V)
    def vertex_coordinates(self, k): return self.V[k]
t = TopologyDiagram.from_dualquadmesh(M(), [0])
assert t.number_of_trail_edges() == 0 and t.number_of_deviation_edges() == 4
''')
SEEDS["c16-shifted-last"] = dict(prop="C16", edits=[("equilibrium/force.py",
    "klast = topology.sequence_last()", "klast = max(len(trail) for trail in topology.trails()) - 1")],
    needs="a shifted trail that ends beyond the longest unshifted one",
    breaks="the computation stops before the last sequence even when none was requested",
    demo=B + '''
t = TopologyDiagram()
for k in range(3):
    t.add_node(Node(k, [0.0, -7.0 * k, 0.0]))
    t.add_edge(TrailEdge(k - 1, k, length=-1.0)) if k else None
t.add_support(NodeSupport(2))
t.add_load(NodeLoad(0, [0.1, -1.0, 0.0]))
t.build_trails()
t.shift_trail(0, 2)
f = static_equilibrium(t, kmax=9)
assert abs(f.reaction_force(2)[1]) > 0.5
''')
SEEDS["c17-min-force"] = dict(prop="C17", edits=[("diagrams/diagram.py",
    "if self.is_node_loaded(node, min_force):", "if self.is_node_loaded(node):")],
    needs="a threshold given to the listing",
    breaks="the listing does not agree with the predicate for that threshold",
    demo=B + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 0.0]))
t.add_load(NodeLoad(0, [0.5, 0.0, 0.0]))
assert list(t.loaded_nodes(1.0)) == [] and not t.is_node_loaded(0, 1.0)
''')
SEEDS["c18-length-sign"] = dict(prop="C18", edits=[("plotters/formartist.py",
    "            force = self.form.edge_force(edge)\n            if force == 0.0:", "            force = self.form.edge_length_2(edge)\n            if force == 0.0:")],
    needs="an edge without force",
    breaks="an edge without force is drawn in tension",
    demo=B + '''
from compas_plotters import Plotter
from compas_cem.plotters import FormArtist
t = TopologyDiagram()
for k in range(4):
    t.add_node(Node(k, [float(k % 2), -float(k // 2), 0.0]))
for k in range(2):
    t.add_edge(TrailEdge(k, k + 2, length=-1.0))
    t.add_support(NodeSupport(k + 2))
    t.add_load(NodeLoad(k, [0.0, -1.0, 0.0]))
t.add_edge(DeviationEdge(0, 1, force=0.0))
t.build_trails()
f = static_equilibrium(t)
a = FormArtist(f, context='Plotter', plotter=Plotter())
got = {}
import compas_plotters.artists.networkartist as na
old = na.NetworkArtist.draw_edges
na.NetworkArtist.draw_edges = lambda self, edges=None, color=None: got.update(color)
a.draw_edges()
assert got[(0, 1)] == a.edge_statecolors[0]
''')
SEEDS["c06-isolated-node"] = dict(prop="C06", edits=[("diagrams/topology/topology.py",
    "        assert len(unassigned) == 0, msg", "        assert not any(self.connected_edges(node) for node in unassigned), msg")],
    needs="a node without edges",
    breaks="building succeeds although that node belongs to no trail",
    demo=B + '''
t = TopologyDiagram()
for k in range(3):
    t.add_node(Node(k, [float(k), 0.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0))
t.add_support(NodeSupport(1))
try:
    t.build_trails()
except AssertionError:
    pass
else:
    assert False
''')
SEEDS["c07-reused-node"] = dict(prop="C07", edits=[("diagrams/topology/topology.py",
    "                aux_node = self.add_node(Node(xyz=aux_xyz))", "                aux_node = self.node_key(aux_xyz)\n                if aux_node is None:\n                    aux_node = self.add_node(Node(xyz=aux_xyz))")],
    needs="a node of the diagram at the place of the new support",
    breaks="that node is made a support instead of a new one",
    demo=B + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 0.0]))
t.add_node(Node(1, [1.0, 0.0, 0.0]))
t.add_node(Node(2, [0.0, 3.0, 0.0]))
t.add_edge(TrailEdge(2, 1, length=-1.0))
t.add_support(NodeSupport(1))
t.auxiliary_trail_vector = [0.0, 1.0, 0.0]
t.auxiliary_trail_length = 3.0
t.build_trails(auxiliary_trails=True)
assert sorted(t.support_nodes()) == [1, 3] and not t.is_node_support(2)
''')
