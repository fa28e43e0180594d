"""Stand-ins for the 3D viewer (compas_view2), which is not installed here.

compas_cem.viewers is loaded from the source tree as it is; shapes are what they are made of.
"""
import importlib
import sys
import types


class Object(object):
    @classmethod
    def register(cls, a, b):
        pass


class NetworkObject(Object):
    def __init__(self, data, **kwargs):
        self.data = data


class App(object):
    def __init__(self, *a, **k):
        self.added = []

    def add(self, data, **kwargs):
        self.added.append((data, kwargs))


def Text(text, position, **kwargs):
    return (text, position[0], position[1], position[2])


def Arrow(position, direction, **kwargs):
    return (position[0], position[1], position[2], direction[0], direction[1], direction[2])


def Collection(items, *args, **kwargs):
    return items


def load():
    """compas_cem.viewers with the stand-ins in the place of compas_view2."""
    if "compas_view2" not in sys.modules:
        for name, content in (("compas_view2", {}), ("compas_view2.objects", {"Object": Object, "NetworkObject": NetworkObject}),
                              ("compas_view2.shapes", {"Text": Text, "Arrow": Arrow}), ("compas_view2.collections", {"Collection": Collection}),
                              ("compas_view2.app", {"App": App})):
            m = types.ModuleType(name)
            m.__dict__.update(content)
            m.__path__ = []
            sys.modules[name] = m
        for k in [k for k in sys.modules if k == "compas_cem.viewers" or k.startswith("compas_cem.viewers.")]:
            del sys.modules[k]
    return importlib.import_module("compas_cem.viewers")
