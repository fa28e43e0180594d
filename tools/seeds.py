"""The planted bugs: edits and demonstrations (see seedlib.py)."""
B = '''
from compas_cem.diagrams import TopologyDiagram
from compas_cem.elements import Node, TrailEdge, DeviationEdge
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport
from compas_cem.equilibrium import static_equilibrium, static_equilibrium_numpy
'''
FRAME = B + '''
def frame():
    """Three vertical trails joined by deviation edges."""
    t = TopologyDiagram()
    for i in range(3):
        t.add_node(Node(i, [float(i), 0.0, 0.0]))
        t.add_node(Node(3 + i, [float(i), -1.0, 0.0]))
    for i in range(3):
        t.add_edge(TrailEdge(i, 3 + i, length=-1.0))
        t.add_support(NodeSupport(3 + i))
        t.add_load(NodeLoad(i, [0.0, -1.0, 0.1 * i]))
    return t

def imbalance(f, n):
    r = [a + b for a, b in zip(f.node_load(n), f.reaction_force(n) if f.is_node_support(n) else [0, 0, 0])]
    p = f.node_coordinates(n)
    for e in f.connected_edges(n):
        o = e[0] if e[1] == n else e[1]
        q = f.node_coordinates(o)
        d = [b - a for a, b in zip(p, q)]
        l = sum(x * x for x in d) ** 0.5
        r = [a + f.edge_force(e) * x / l for a, x in zip(r, d)]
    return sum(x * x for x in r) ** 0.5
'''
SEEDS = {}
SEEDS["c01-edge-order"] = dict(prop="C01", edits=[("equilibrium/force.py",
    'vectors = incoming_edge_vectors(node, node_xyz, deviation_edges, True)', 'vectors = incoming_edge_vectors(node, node_xyz, sorted(deviation_edges), True)')],
    needs="a node with two deviation edges of different force whose listing order is not the sorted one",
    breaks="forces are paired with the directions of other deviation edges, so the node is out of balance",
    demo=FRAME + '''
t = frame()
t.add_edge(DeviationEdge(2, 1, force=-0.7))
t.add_edge(DeviationEdge(0, 1, force=1.3))
t.build_trails()
f = static_equilibrium(t)
assert max(imbalance(f, n) for n in f.nodes()) < 1e-6
''')
SEEDS["c02-plane-flip"] = dict(prop="C02", edits=[("equilibrium/force_numpy.py",
    '''                    if plength:
                        length = plength''', '''                    if plength:
                        length = np.copysign(plength, length)''')],
    needs="a plane that lies on the side opposite to the sign of the given length",
    breaks="the end of the trail edge no longer lies on its plane",
    demo=B + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 0.0]))
t.add_node(Node(1, [0.0, -1.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0, plane=([0.0, 2.0, 0.0], [0.0, 1.0, 0.0])))
t.add_support(NodeSupport(1))
t.add_load(NodeLoad(0, [0.0, -1.0, 0.0]))
t.build_trails()
f = static_equilibrium_numpy(t)
assert abs(f.node_coordinates(1)[1] - 2.0) < 1e-9
''')
SEEDS["c03-small-loads"] = dict(prop="C03", edits=[("equilibrium/force_numpy.py",
    'node_loads = {n: np.array(topology.node_load(n)) for n in topology.nodes()}',
    'node_loads = {n: np.zeros(3) for n in topology.nodes()}\n    for n in topology.loaded_nodes():\n        node_loads[n] = np.array(topology.node_load(n))')],
    needs="a load smaller than 1e-6 (loaded_nodes() filters those)",
    breaks="the numpy solver ignores tiny loads which the pure solver takes into account",
    demo=B + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 0.0]))
t.add_node(Node(1, [0.0, -1.0, 0.0]))
t.add_node(Node(2, [0.0, -2.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0))
t.add_edge(TrailEdge(1, 2, length=-1.0))
t.add_support(NodeSupport(2))
t.add_load(NodeLoad(0, [0.0, -2e-6, 0.0]))
t.add_load(NodeLoad(1, [9e-7, 0.0, 0.0]))
t.build_trails()
a, b = static_equilibrium(t), static_equilibrium_numpy(t)
for n in t.nodes():
    assert max(abs(p - q) for p, q in zip(a.node_coordinates(n), b.node_coordinates(n))) < 1e-6
''')
SEEDS["c04-supports-not-measured"] = dict(prop="C04", edits=[("equilibrium/force.py",
    '            last_pos = last_xyz[key]\n', '            if key in reaction_forces:\n                continue\n            last_pos = last_xyz[key]\n')],
    needs="a diagram where only the supports still move (one edge per trail, indirect deviation edges)",
    breaks="movement of support nodes is not measured, so an unconverged form is returned instead of a ValueError",
    demo=B + '''
t = TopologyDiagram()
for k, p in enumerate([[0., 0, 0], [0., -1, 0], [1., 0, 0.3], [1., -1, 0.1]]):
    t.add_node(Node(k, p))
t.add_edge(TrailEdge(0, 1, length=-1.0))
t.add_edge(TrailEdge(2, 3, length=-1.0))
t.add_edge(DeviationEdge(0, 3, force=-0.8))
t.add_edge(DeviationEdge(2, 1, force=0.6))
for n in (1, 3):
    t.add_support(NodeSupport(n))
for n in (0, 2):
    t.add_load(NodeLoad(n, [0.0, -1.0, 0.2]))
t.build_trails()
try:
    static_equilibrium(t, tmax=2, eta=1e-9)
except ValueError:
    pass
else:
    raise SystemExit("returned a form that had not converged")
''')
SEEDS["c05-partial-state-kept"] = dict(prop="C05", edits=[("equilibrium/force.py",
    "                    reaction_forces[node] = rvec\n", "                    reaction_forces[node] = rvec\n                    if not topology.is_node_support(node):\n                        topology.node_attributes(node, ['rx', 'ry', 'rz'], rvec)\n")],
    needs="a partial computation (kmax) followed by another computation from the same topology",
    breaks="the partial reactions are stored in the topology diagram and enter the next computation",
    demo=B + '''
t = TopologyDiagram()
for k in range(4):
    t.add_node(Node(k, [0.0, -float(k), 0.0]))
for k in range(3):
    t.add_edge(TrailEdge(k, k + 1, length=-1.0))
t.add_support(NodeSupport(3))
t.add_load(NodeLoad(0, [0.1, -1.0, 0.0]))
t.build_trails()
before = str(sorted(t.node_attributes(k).items() if hasattr(t.node_attributes(k), "items") else [] for k in t.nodes()))
r0 = [t.reaction_force(k) for k in t.nodes()]
static_equilibrium(t, kmax=0)
assert [t.reaction_force(k) for k in t.nodes()] == r0
a = static_equilibrium(t)
b = static_equilibrium(t)
assert [a.node_coordinates(k) for k in a.nodes()] == [b.node_coordinates(k) for k in b.nodes()]
''')
SEEDS["c06-stale-sequence"] = dict(prop="C06", edits=[("diagrams/topology/topology.py",
    'self.node_attribute(node, "_k", index)', 'if self.node_attribute(node, "_k") is None or index > 0:\n                    self.node_attribute(node, "_k", index)')],
    needs="rebuilding after an edit that makes a former inner node an origin",
    breaks="the new origin keeps its old sequence number",
    demo=B + '''
t = TopologyDiagram()
for k in range(3):
    t.add_node(Node(k, [0.0, -float(k), 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0))
t.add_edge(TrailEdge(1, 2, length=-1.0))
t.add_support(NodeSupport(2))
t.build_trails()
t.delete_node(0)
t.build_trails()
assert [t.node_sequence(n) for n in t.trail(1)] == [0, 1]
''')
SEEDS["c07-isolated-node"] = dict(prop="C07", edits=[("diagrams/topology/topology.py",
    "            for node in unassigned:\n", "            for node in unassigned:\n                if not self.neighbors(node) and self.is_node_loaded(node) is False:\n                    self.delete_node(node)\n                    continue\n")],
    needs="a node without any edge and without load",
    breaks="building with auxiliary trails deletes isolated nodes instead of completing them",
    demo=B + '''
t = TopologyDiagram()
for k in range(3):
    t.add_node(Node(k, [float(k), 0.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0))
t.add_support(NodeSupport(1))
t.build_trails(auxiliary_trails=True)
assert t.has_node(2)
assert t.number_of_auxiliary_trails() == 1
''')
SEEDS["c08-gap-sequences"] = dict(prop="C08", edits=[("diagrams/topology/topology.py",
    "return self.sequence_last() + 1", "return len(set(self.nodes_attribute(name=\"_k\")))")],
    needs="a sequence number that no node has (all trails shifted, or a gap)",
    breaks="the number of sequences is the number of distinct ones; listings miss the last sequences",
    demo=B + '''
t = TopologyDiagram()
for k in range(3):
    t.add_node(Node(k, [0.0, -float(k), 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0))
t.add_edge(TrailEdge(1, 2, length=-1.0))
t.add_support(NodeSupport(2))
t.build_trails()
t.shift_trail(0, 2)
assert t.number_of_sequences() == 5
assert sorted(n for s in t.sequences() for n in s) == [0, 1, 2]
''')
SEEDS["c09-negative-zero"] = dict(prop="C09", edits=[("diagrams/mixins/node_mixins.py",
    "return geometric_key(xyz, self.tol)", "return geometric_key(xyz, self.tol, sanitize=False)")],
    needs="a coordinate that rounds to zero from below",
    breaks="a node at -1e-9 is not found at 0.0, and an edge given by coordinates creates a duplicate node",
    demo=B + '''
t = TopologyDiagram()
a = t.add_node(Node(xyz=[-1e-9, 0.0, 1.0]))
assert t.node_key([0.0, 0.0, 1.0]) == a
t.add_edge(TrailEdge([0.0, 0.0, 1.0], [0.0, 0.0, 0.0], length=-1.0))
assert t.number_of_nodes() == 2
''')
SEEDS["c10-zero-bound"] = dict(prop="C10", edits=[("optimization/parameters/parameter.py",
    "if self._bound_low is not None:", "if self._bound_low:")],
    needs="a lower bound of exactly zero",
    breaks="a bound of 0.0 (frozen from below) becomes minus infinity",
    demo=B + '''
from compas_cem.optimization import Optimizer, OriginNodeXParameter
t = TopologyDiagram()
t.add_node(Node(0, [3.0, 0.0, 0.0]))
o = Optimizer()
o.add_parameter(OriginNodeXParameter(0, 0.0, 0.0))
lo, hi = o.optimization_bounds(t)
assert lo[0] == 3.0 and hi[0] == 3.0
''')
SEEDS["c11-line-segment"] = dict(prop="C11", edits=[("optimization/constraints/line.py",
    "from compas.geometry import closest_point_on_line\n", "from compas.geometry import closest_point_on_segment\n"),
    ("optimization/constraints/line.py", "return closest_point_on_line(point, line)", "return closest_point_on_segment(point, line)")],
    needs="a node whose projection lies beyond the two points that define the line",
    breaks="the penalty is measured to the segment, not to the infinite line",
    demo='''
from compas.geometry import Line
from compas_cem.optimization import LineConstraint
c = LineConstraint(0, Line([0.0, 0.0, 0.0], [1.0, 0.0, 0.0]))
assert abs(c.penalty({"node_xyz": {0: [5.0, 2.0, 0.0]}}) - 4.0) < 1e-9
''')
SEEDS["c12-single-variable"] = dict(prop="C12", edits=[("optimization/objective_func.py",
    "if grad.size > 0:", "if grad.size > 1:")],
    needs="an optimization problem with exactly one variable",
    breaks="no gradient is written for one-variable problems",
    demo='''
import numpy as np
from compas_cem.optimization import objective_function_numpy, grad_finite_differences
from functools import partial
f = lambda x: float(x[0] ** 2)
g = np.zeros(1)
objective_function_numpy(np.array([2.0]), g, f, partial(grad_finite_differences, x_func=f, step_size=1e-6))
assert abs(g[0] - 4.0) < 1e-3
''')
SEEDS["c13-iteration-limit"] = dict(prop="C13", edits=[("optimization/nlopt.py",
    "    solver.set_maxeval(iters)\n", "    solver.set_maxeval(iters)\n    solver.set_xtol_rel(1e-2)\n    solver.set_lower_bounds([lo if lo > -1e3 else -1e3 for lo in bounds_low] if algorithm == 'AUGLAG' else bounds_low)\n    solver.set_upper_bounds([lo + 2.0 * (up - lo) for lo, up in zip(bounds_low, bounds_up)] if algorithm == 'AUGLAG' else bounds_up)\n")],
    needs="the AUGLAG algorithm and an optimum beyond the upper bound",
    breaks="the optimal variables exceed the upper bounds computed from the starting values",
    demo=B + '''
from compas.geometry import Point
from compas_cem.optimization import Optimizer, OriginNodeXParameter, PointConstraint
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 0.0]))
t.add_node(Node(1, [0.0, -1.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=-1.0))
t.add_support(NodeSupport(1))
t.add_load(NodeLoad(0, [0.0, -1.0, 0.0]))
t.build_trails()
o = Optimizer()
o.add_parameter(OriginNodeXParameter(0, 0.5, 0.5))
o.add_constraint(PointConstraint(0, Point(3.0, 0.0, 0.0)))
o.solve(t, algorithm="AUGLAG", iters=30)
assert o.x_opt[0] <= 0.5 + 1e-9, o.x_opt
''')
SEEDS["c14-zero-weight"] = dict(prop="C14", edits=[("optimization/constraints/constraint.py",
    '''        self._weight = float(data["weight"])

        # TODO''', '''        self._weight = float(data["weight"] or 1.0)

        # TODO''')],
    needs="a constraint switched off with weight 0.0, then saved and loaded",
    breaks="the weight becomes 1.0 after a round trip",
    demo='''
from compas.geometry import Point
from compas_cem.optimization import PointConstraint
c = PointConstraint(3, Point(0.0, 0.0, 1.0), weight=0.0)
d = PointConstraint.from_data(c.to_data())
s = {"node_xyz": {3: [1.0, 2.0, 3.0]}}
assert d.penalty(s) == c.penalty(s)
''')
SEEDS["c15-boundary-strip"] = dict(prop="C15", edits=[("diagrams/topology/mesh_mixins.py",
    "if polyedge[1] in supports:", "if len(set(polyedge) - supports) == 0:")],
    needs="a strip with supports at both ends that runs along a partly supported edge",
    breaks="strips that start along the supports but leave them are split into trails",
    demo=B + '''
class M:
    """Stands in for a quad mesh (compas_singular is not installed)."""
    V = {0: [0., 0, 0], 1: [1., 0, 0], 2: [2., 0, 0], 3: [3., 0, 0]}
    def collect_polyedges(self): pass
    def polyedges(self, data=False): return iter([(0, [0, 1, 2, 3])])
    def vertices(self): return iter(self.V)
    def vertex_coordinates(self, k): return self.V[k]
t = TopologyDiagram.from_dualquadmesh(M(), [0, 1, 3])
assert t.number_of_edges() == 0
''')
SEEDS["c16-kmax-zero"] = dict(prop="C16", edits=[("equilibrium/force.py",
    "is_node_support(node) or k == kmax:", "is_node_support(node) or (kmax and k == kmax):")],
    needs="kmax=0",
    breaks="with kmax=0 the second nodes are placed and no reaction is reported at the origins",
    demo=B + '''
t = TopologyDiagram()
for k in range(4):
    t.add_node(Node(k, [0.0, -7.0 * k, 0.0]))
for k in range(3):
    t.add_edge(TrailEdge(k, k + 1, length=-1.0))
t.add_support(NodeSupport(3))
t.add_load(NodeLoad(0, [0.1, -1.0, 0.0]))
t.build_trails()
f = static_equilibrium(t, kmax=0)
assert f.node_coordinates(1) == [0.0, -7.0, 0.0]
assert f.reaction_force(0)[1] != 0.0
''')
SEEDS["c17-loaded-sum"] = dict(prop="C17", edits=[("diagrams/diagram.py",
    "return length_vector(self.node_load(node)) > min_force", "return abs(sum(self.node_load(node))) > min_force")],
    needs="a load whose components cancel, such as (1, -1, 0)",
    breaks="such a node is not listed as loaded",
    demo=B + '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 0.0, 0.0]))
t.add_load(NodeLoad(0, [1.0, -1.0, 0.0]))
assert list(t.loaded_nodes()) == [0] and t.number_of_loaded_nodes() == 1
''')
SEEDS["c18-signed-range"] = dict(prop="C18", edits=[("plotters/formartist.py",
    "        forcemax = max(forces)\n", "        forcemax = max(forces) or 1.0\n        forcemin = 0.0 if len(forces) > 4 else forcemin\n")],
    needs="a range of widths on a form with more than four edges",
    breaks="the smallest force is not drawn with the smallest width",
    demo=B + '''
from compas_plotters import Plotter
from compas_cem.plotters import FormArtist
t = TopologyDiagram()
for k in range(7):
    t.add_node(Node(k, [float(k % 2), -float(k), 0.0]))
for k in range(6):
    t.add_edge(TrailEdge(k, k + 1, length=-1.0))
    t.add_load(NodeLoad(k, [0.0, -1.0, 0.0]))
t.add_support(NodeSupport(6))
t.build_trails()
f = static_equilibrium(t)
a = FormArtist(f, edgewidth=(1.0, 3.0), context='Plotter', plotter=Plotter())
w = a.edge_width
assert abs(min(w.values()) - 1.0) < 1e-9 and abs(max(w.values()) - 3.0) < 1e-9
''')
