"""Planted bugs, third batch: drawing and the Grasshopper parts, defaults and limits of the optimizer."""
SEEDS = {}
B = '''
from compas_cem.diagrams import TopologyDiagram, FormDiagram
from compas_cem.elements import Node, TrailEdge, DeviationEdge
from compas_cem.supports import NodeSupport
from compas_cem.loads import NodeLoad
'''
GH = '''
import importlib.util, os, sys, types
import compas_cem


def module(name, **names):
    m = types.ModuleType(name)
    m.__dict__.update(names)
    m.__path__ = []
    sys.modules[name] = m


class Base(object):
    def __init__(self, diagram=None, *a, **k):
        pass


def keep(items, *a, **k):
    return items


class Convert(object):
    @classmethod
    def from_geometry(cls, g):
        c = cls()
        c.g = g
        return c

    def to_compas(self):
        return self.g


module("ghpythonlib")
module("ghpythonlib.componentbase", executingcomponent=Base)
module("compas_ghpython", draw_points=keep, draw_lines=keep, draw_polylines=keep)
module("compas_ghpython.artists", NetworkArtist=Base)
module("compas_rhino")
module("compas_rhino.geometry", RhinoPoint=Convert, RhinoVector=Convert, RhinoPlane=Convert, RhinoLine=Convert, RhinoPolyline=Convert)
ROOT = os.path.join(os.path.dirname(compas_cem.__file__), "ghpython")


def load(path):
    spec = importlib.util.spec_from_file_location("loaded_" + path.replace("/", "_")[:-3], os.path.join(ROOT, path))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def component(name):
    m = load("components/CompasCem_%s/code.py" % name)
    for v in vars(m).values():
        if isinstance(v, type) and issubclass(v, Base) and v is not Base:
            return v()
'''
F, A, C = "plotters/formartist.py", "ghpython/artists.py", "ghpython/components/CompasCem_%s/code.py"
SEEDS["c19-signed-largest"] = dict(prop="C19", edits=[(F, "max_force = max(forces, key=lambda f: fabs(f))", "max_force = max(forces)")],
    needs="a support where a larger compression and a smaller tension meet",
    breaks="the arrow of its reaction starts at the node instead of ending there",
    demo=B + '''
import types
from compas_cem.plotters.formartist import FormArtist
f = FormDiagram()
for k in range(3):
    f.add_node(Node(k, [float(k), 0.0, 0.0]))
for e, q in (((0, 1), -5.0), ((1, 2), 1.0)):
    f.add_edge(DeviationEdge(*e, force=q))
    f.edge_attribute(e, "force", q)
f.node_attributes(1, ["rx", "ry", "rz"], [0.0, 2.0, 0.0])
got = []
rec = types.SimpleNamespace(add=lambda v, **k: got.append((v, k["point"])))
a = FormArtist(f, context="Plotter", plotter=rec)
a.node_size = {k: 0.5 for k in f.nodes()}
a.draw_reactions()
v, p = got[0]
end = [p[i] + v[i] for i in range(3)]
assert abs(end[1]) < 1.0 and end[1] < 0.0, (list(p), list(v))
''')
SEEDS["c20-move-in-order"] = dict(prop="C20", edits=[(C % "OriginNodesMove", "for node_key, point in zip(origin_node_keys, points):", "for node_key, point in zip(sorted(origin_node_keys), points):")],
    needs="keys that are not given in ascending order",
    breaks="the points are given to other origin nodes",
    demo=GH + B + '''
t = TopologyDiagram()
for k in range(2):
    t.add_node(Node(k, [float(k), 0.0, 0.0]))
r = component("OriginNodesMove").RunScript(t, [1, 0], [[5.0, 0.0, 0.0], [7.0, 0.0, 0.0]])
assert r.node_coordinates(1) == [5.0, 0.0, 0.0] and r.node_coordinates(0) == [7.0, 0.0, 0.0]
assert t.node_coordinates(1) == [1.0, 0.0, 0.0]
''')
SEEDS["c20-zero-load"] = dict(prop="C20", edits=[(C % "TopologyDiagram", "                if load:\n", "                if load and any(load.vector):\n")],
    needs="a load of zero after another one on the same node",
    breaks="the zero load is not put on the node, which keeps the other one",
    demo=GH + B + '''
e = TrailEdge([0.0, 0.0, 0.0], [1.0, 0.0, 0.0], length=1.0)
r = component("TopologyDiagram").RunScript([e], None, [NodeLoad(0, [0.0, 0.0, 1.0]), NodeLoad(0, [0.0, 0.0, 0.0])], None, False)
assert r.node_load(0) == [0.0, 0.0, 0.0], r.node_load(0)
''')
SEEDS["c21-gap-scaled"] = dict(prop="C21", edits=[(A, "gap_arrow = (gap + length_vector(q_vec_scaled)) * -1", "gap_arrow = (gap + length_vector(q_vec)) * -1")],
    needs="a reaction at a node under compression drawn with a scale other than one",
    breaks="the line does not end at the node",
    demo=GH + B + '''
f = FormDiagram()
for k in range(2):
    f.add_node(Node(k, [float(k), 0.0, 0.0]))
f.add_edge(DeviationEdge(0, 1, force=-2.0))
f.edge_attribute((0, 1), "force", -2.0)
f.node_attributes(1, ["rx", "ry", "rz"], [0.0, 3.0, 0.0])
(line,) = load("artists.py").FormArtist(f).draw_reactions([1], scale=0.5)
assert max(abs(a - b) for a, b in zip(line["end"], [1.0, 0.0, 0.0])) < 1e-9, line
''')
SEEDS["c21-selection-of-kind"] = dict(prop="C21", edits=[(A, "            keys = [key for key in keys if filterer(key)]", "            keys = [key for key in keys if filterer(key)] or list(getattr(self.diagram, iterator_func)())")],
    needs="a selection without any edge of the kind",
    breaks="all edges of the kind are drawn instead of none",
    demo=GH + B + '''
t = TopologyDiagram()
for k in range(3):
    t.add_node(Node(k, [float(k), 0.0, 0.0]))
t.add_edge(TrailEdge(0, 1, length=1.0))
t.add_edge(DeviationEdge(0, 2, force=1.0))
a = load("artists.py").TopologyArtist(t)
assert len(a.draw_edges_trail()) == 1
assert not a.draw_edges_trail([(0, 2)])
''')
SEEDS["c13-tolerances-swapped"] = dict(prop="C13", edits=[("optimization/nlopt.py", "        solver.set_ftol_abs(ftol)", "        solver.set_ftol_rel(ftol)")],
    needs="a problem with a large penalty at the optimum",
    breaks="the optimization stops at a relative change of the penalty",
    demo='''
import nlopt
from compas_cem.optimization import nlopt_solver
s = nlopt_solver(lambda x, g: 0.0, "LBFGS", 1, [1.0], [0.0], 10, 1e-6, 1e-3)
assert s.get_ftol_abs() == 1e-3 and s.get_maxeval() == 10
''')
SEEDS["c12-step-lost"] = dict(prop="C12", edits=[("optimization/optimizer.py", "return partial(grad_f, x_func=x_func, step_size=step_size)", "return partial(grad_f, x_func=x_func, step_size=min(step_size, 1e-4))")],
    needs="finite differences with a step above 1e-4",
    breaks="another step than the one asked for is used",
    demo='''
import numpy as np
from compas_cem.optimization import Optimizer, grad_finite_differences
o = Optimizer()
o._optimize_form = lambda parameters, topology, tmax, eta: float(np.sum(np.asarray(parameters) ** 2))
g = o.gradient_func(grad_finite_differences, None, 100, 1e-6, 0.5)(np.array([1.0]), np.zeros(1))
assert abs(g[0] - 2.5) < 1e-6, g
''')
TA = "plotters/topologyartist.py"
DRAW = B + '''
import types
from compas_plotters.artists import NetworkArtist
from compas_cem.plotters.formartist import FormArtist
from compas_cem.plotters.topologyartist import TopologyArtist
t = TopologyDiagram()
for k in range(12):
    t.add_node(Node(k, [float(k), 0.5 * k, 0.0]))
for k in range(11):
    t.add_edge(TrailEdge(k, k + 1, length=-1.0 if k % 2 else 2.0))
t.add_support(NodeSupport(11))
for k in (2, 5, 7):
    t.add_load(NodeLoad(k, [0.0, 0.0, -1.0]))
'''
SEEDS["c22-marks-stop"] = dict(prop="C22", edits=[(TA, "            if node not in self.nodes:\n                continue", "            if node not in self.nodes:\n                break")],
    needs="a selection of nodes that leaves out a loaded node before another loaded node",
    breaks="the loads after it are not marked",
    demo=DRAW + '''
got = []
rec = types.SimpleNamespace(add=lambda v, **k: got.append(v))
a = TopologyArtist(t, context="Plotter", plotter=rec, nodes=[5, 6, 7])
a.draw_loads()
assert len(got) == 4, len(got)
''')
SEEDS["c22-reactions-need-loads"] = dict(prop="C22", edits=[(F, "        if self.show_reactions:\n", "        if self.show_loads and self.show_reactions:\n")],
    needs="reactions asked for with the loads switched off",
    breaks="the reactions are not drawn",
    demo=DRAW + '''
f = FormDiagram()
for k in range(2):
    f.add_node(Node(k, [float(k), 0.0, 0.0]))
f.add_edge(DeviationEdge(0, 1, force=1.0))
f.node_attributes(1, ["rx", "ry", "rz"], [0.0, 2.0, 0.0])
got = []
a = FormArtist(f, context="Plotter", plotter=types.SimpleNamespace(add=lambda v, **k: got.append(v)), show_loads=False, show_nodes=False, show_edges=False)
a.draw()
assert len(got) == 1, len(got)
''')
SEEDS["c22-state-by-force"] = dict(prop="C22", edits=[(TA, "                parameter = self.topology.edge_length_2(edge)", "                parameter = self.topology.edge_force(edge) or self.topology.edge_length_2(edge)")],
    needs="a trail edge whose stored force has another sign than its length",
    breaks="the state label is that of the force",
    demo=DRAW + '''
t.edge_attribute((0, 1), "force", -3.0)
a = TopologyArtist(t, context="Plotter", plotter=None, edgetext="state")
assert [a.edge_text[e] for e in ((0, 1), (1, 2))] == ["1.00", "-1.00"], a.edge_text
''')
SEEDS["c22-origin-indirect"] = dict(prop="C22", edits=[(TA, "                        elif topology.is_indirect_deviation_edge(edge):", "                        else:"),
                                           (TA, "                        if topology.is_direct_deviation_edge(edge):", "                        if topology.is_direct_deviation_edge(edge) and not topology.is_node_origin(edge[0]):")],
    needs="a direct deviation edge that starts at an origin node, coloured by type",
    breaks="it is coloured as an indirect one",
    demo=DRAW + '''
from compas_cem import COLORS
t = TopologyDiagram()
for k in range(4):
    t.add_node(Node(k, [float(k % 2), float(k // 2), 0.0]))
for k in (0, 1):
    t.add_edge(TrailEdge(k, k + 2, length=1.0))
    t.add_support(NodeSupport(k + 2))
t.add_edge(DeviationEdge(0, 1, force=1.0))
t.build_trails()
got = {}
NetworkArtist.draw_edges = lambda self, **k: got.update(k["color"])
a = TopologyArtist(t, context="Plotter", plotter=None, edgecolor="type")
a._edgecollection = types.SimpleNamespace(set_linestyle=lambda x: None)
a.draw_edges()
assert got[0, 1] == COLORS["edge_deviation"], got
''')
VIEW = '''
import sys, types


class Base(object):
    def __init__(self, data, **k):
        pass

    register = classmethod(lambda cls, a, b: None)


def module(name, **names):
    m = types.ModuleType(name)
    m.__dict__.update(names)
    m.__path__ = []
    sys.modules[name] = m


module("compas_view2")
module("compas_view2.objects", Object=Base, NetworkObject=Base)
module("compas_view2.shapes", Text=lambda t, p, **k: (t, list(p)), Arrow=lambda p, v, **k: (list(p), list(v)))
module("compas_view2.collections", Collection=lambda x: x)
module("compas_view2.app", App=Base)
added = []
board = types.SimpleNamespace(add=lambda x, **k: added.append((x, k)))
from compas_cem import viewers
''' + B
VO = "viewers/diagramobject.py"
SEEDS["c23-arrow-unscaled"] = dict(prop="C23", edits=[(VO, "gap_arrow = length_vector(f_vec_scaled) * -1", "gap_arrow = length_vector(f_vec) * -1")],
    needs="a reaction in compression drawn with another scale than 1",
    breaks="its arrow does not end at the node",
    demo=VIEW + '''
f = FormDiagram()
for k in range(2):
    f.add_node(Node(k, [float(k), 0.0, 0.0]))
f.add_edge(DeviationEdge(0, 1, force=-5.0))
f.edge_attribute((0, 1), "force", -5.0)
f.node_attributes(1, ["rx", "ry", "rz"], [0.0, 2.0, 0.0])
viewers.FormDiagramObject(f, viewer=board, show_edges=False, show_loads=False, residualscale=0.5)
(p, v), = added[0][0]
assert max(abs(p[i] + v[i] - (1.0, 0.0, 0.0)[i]) for i in range(3)) < 1e-9, (p, v)
''')
SEEDS["c23-width-of-all"] = dict(prop="C23", edits=[(VO, "            forces = [fabs(self.diagram.edge_force(edge)) for edge in self.edges]", "            forces = [fabs(self.diagram.edge_force(edge)) for edge in self.diagram.edges()]")],
    needs="a selection of edges without the edge of the largest force",
    breaks="no drawn edge has the largest width",
    demo=VIEW + '''
f = FormDiagram()
for k in range(4):
    f.add_node(Node(k, [float(k), 0.0, 0.0]))
for k, q in enumerate((1.0, -2.0, 9.0)):
    f.add_edge(DeviationEdge(k, k + 1, force=q))
    f.edge_attribute((k, k + 1), "force", q)
o = viewers.FormDiagramObject(f, viewer=board, edges=[(0, 1), (1, 2)], edgewidth=(0.1, 0.5))
assert abs(o.edge_width[1, 2] - 0.5) < 1e-9 and abs(o.edge_width[0, 1] - 0.1) < 1e-9, o.edge_width
''')
SEEDS["c23-zero-group"] = dict(prop="C23", edits=[("viewers/formobject.py", "            if edge_force >= 0.0:\n                edges[\"tension\"]", "            if edge_force > 0.0:\n                edges[\"tension\"]")],
    needs="a form with an edge without force",
    breaks="the edge is not drawn",
    demo=VIEW + '''
f = FormDiagram()
for k in range(4):
    f.add_node(Node(k, [float(k), 0.0, 0.0]))
for k, q in enumerate((1.0, -2.0, 0.0)):
    f.add_edge(DeviationEdge(k, k + 1, force=q))
    f.edge_attribute((k, k + 1), "force", q)
viewers.FormDiagramObject(f, viewer=board, show_loads=False, show_residuals=False)
assert sum(len(x) for x, k in added) == 3, added
''')
