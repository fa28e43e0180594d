"""Stand-ins for the host of the Grasshopper components (Rhino, Grasshopper and their COMPAS bridges).

The components and artists in compas_cem.ghpython import modules that exist only inside Rhino. These
stand-ins take their place: geometry passes through unchanged, drawing functions return what they are
asked to draw. The components themselves are loaded from /repo as they are.
"""
import importlib.util
import json
import os
import sys
import types

ROOT = os.path.join(os.environ.get("VP_SRC", "/repo/src"), "compas_cem", "ghpython")


class executingcomponent(object):
    pass


class Geometry(object):
    """A Rhino object; compas is the COMPAS object it corresponds to."""

    def __init__(self, compas):
        self.compas = compas


class Segment(object):
    """A line."""

    def __init__(self, start, end):
        self.start, self.end = start, end


class Wrapped(object):
    def __init__(self, geometry):
        self.geometry = geometry

    @classmethod
    def from_geometry(cls, geometry):
        return cls(geometry)

    def to_compas(self):
        return self.geometry.compas


class RhinoPoint(Wrapped):
    pass


class RhinoVector(Wrapped):
    pass


class RhinoLine(Wrapped):
    pass


class RhinoPlane(Wrapped):
    pass


class RhinoPolyline(Wrapped):
    pass


def draw_points(points):
    return points


def draw_lines(lines):
    return lines


def draw_polylines(polylines):
    return polylines


class NetworkArtist(object):
    def __init__(self, network, *args, **kwargs):
        self.network = network


def AddPoint(x, y, z):
    return (x, y, z)


def CreateColor(color):
    return color


class Proxy(object):
    """Solves in this process."""

    def __init__(self, package=None, port=None):
        self.package = package

    def solve_proxy(self, *args, **kwargs):
        from compas_cem.optimization import solve_proxy
        return solve_proxy(*args, **kwargs)

    def stop_server(self):
        pass


sticky = {}


def install():
    def module(name, **names):
        m = types.ModuleType(name)
        m.__dict__.update(names)
        sys.modules[name] = m
        if "." in name:
            parent = name.rpartition(".")[0]
            if parent not in sys.modules:
                module(parent)
            setattr(sys.modules[parent], name.rpartition(".")[2], m)
        return m
    if getattr(sys.modules.get("ghpythonlib"), "vp_stub", False):
        return
    module("ghpythonlib", vp_stub=True)
    module("ghpythonlib.componentbase", executingcomponent=executingcomponent)
    rh = dict(RhinoPoint=RhinoPoint, RhinoVector=RhinoVector, RhinoLine=RhinoLine, RhinoPlane=RhinoPlane, RhinoPolyline=RhinoPolyline)
    module("compas_rhino.geometry", **rh)
    module("compas_rhino.conversions", **rh)
    module("rhinoscriptsyntax", AddPoint=AddPoint, CreateColor=CreateColor)
    module("scriptcontext", sticky=sticky)
    module("compas_bootstrapper", ENVIRONMENT_NAME="here")
    module("compas_ghpython", draw_points=draw_points, draw_lines=draw_lines, draw_polylines=draw_polylines)
    module("compas_ghpython.artists", NetworkArtist=NetworkArtist)
    import compas.rpc
    compas.rpc.Proxy = Proxy


def load(path, name):
    install()
    if name in sys.modules:
        return sys.modules[name]
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def artists():
    """The module with the Grasshopper artists."""
    import compas_cem.ghpython as g
    m = load(os.path.join(ROOT, "artists.py"), "compas_cem.ghpython.artists")
    g.artists, g.TopologyArtist, g.FormArtist = m, m.TopologyArtist, m.FormArtist
    return m


def component(name):
    """The component class in components/CompasCem_<name>/code.py."""
    install()
    if name.startswith("Artist"):
        artists()
    m = load(os.path.join(ROOT, "components", "CompasCem_" + name, "code.py"), "compas_cem.ghpython.components." + name)
    cs = [c for c in vars(m).values() if isinstance(c, type) and issubclass(c, executingcomponent) and c is not executingcomponent and "RunScript" in dir(c)]
    return cs[-1]


def ports(name):
    """The names of the inputs and outputs that the component has in Grasshopper."""
    with open(os.path.join(ROOT, "components", "CompasCem_" + name, "metadata.json")) as f:
        d = json.load(f)["ghpython"]
    return [p["name"] for p in d.get("inputParameters", ())], [p["name"] for p in d.get("outputParameters", ())]


def names():
    d = os.path.join(ROOT, "components")
    return sorted(x[len("CompasCem_"):] for x in os.listdir(d) if x.startswith("CompasCem_") and os.path.exists(os.path.join(d, x, "code.py")))
