"""Compare the models of the verifier (pyvc) with the real Python, numpy and compas on random programs.

usage: conformance.py [SEED [PROGRAMS]]

Each program is a random straight-line or looping function over concrete values; it is run by
Python and by the verifier's interpreter, and results (or exception types) must agree.  A program
the interpreter does not support is counted but says nothing.  Exit 1 on a difference.
"""
import importlib.util, os, random, sys, tempfile, types
from fractions import Fraction
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get("VP_SRC", "/repo/src")]
os.environ.setdefault("MPLBACKEND", "Agg")
import contracts.common as C
from pyvc import core, values
from pyvc.core import Sym, FList, Unsupported, PyRaise, Choice
from pyvc.values import ListObj, DictObj, SetObj, FDict, SSeq, SColl, Alts, force, d_keys, d_lookup
import z3
HEAD = '''
import math
from math import fabs, copysign
import numpy as np
from copy import deepcopy, copy
from compas.geometry import add_vectors, subtract_vectors, scale_vector, dot_vectors, length_vector, length_vector_sqrd, distance_point_point, distance_point_point_sqrd, normalize_vector, cross_vectors
from compas.geometry import closest_point_on_line, closest_point_on_plane
from compas.utilities import pairwise
from compas_cem.diagrams import TopologyDiagram, FormDiagram
from compas_cem.elements import Node, TrailEdge, DeviationEdge
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport
'''


# ------------------------------------------------------------------ programs
def num(r):
    return r.choice(["%d" % r.randint(-4, 6), "%r" % (r.randint(-8, 8) / 4)])


def p_builtin(r):
    L = ["a = [%s]" % ", ".join(num(r) for _ in range(r.randint(0, 6))), "b = [%s]" % ", ".join(str(r.randint(0, 5)) for _ in range(r.randint(1, 5))),
         "d = {%s}" % ", ".join("%d: %s" % (r.randint(0, 5), num(r)) for _ in range(r.randint(0, 5))), "s = set(b)", "out = []"]
    one = [
        "out.append(len(a))", "out.append(sum(a))", "out.append(max(b) + min(b))", "out.append(max(a))", "out.append(sorted(b))", "out.append(sorted(a, reverse=True))",
        "out.append(sorted(a, key=lambda v: fabs(v)))", "out.append(max(a, key=lambda v: -v))", "out.append([x for x in a if x > 0])", "out.append({k: v for k, v in d.items() if v})",
        "out.append(list(zip(a, b)))", "out.append(list(enumerate(a)))", "out.append([x * y for x, y in zip(a, b)])", "out.append(list(d))", "out.append(list(d.items()))",
        "out.append(list(d.values()))", "out.append(d.get(3))", "out.append(d.get(2, 'none'))", "out.append(d[%d])" % r.randint(0, 5), "d[%d] = %s" % (r.randint(0, 6), num(r)),
        "d.pop(%d)" % r.randint(0, 5), "d.pop(%d, None)" % r.randint(0, 5), "del d[%d]" % r.randint(0, 5), "d.update({7: 1, 0: 9})", "a.append(%s)" % num(r), "a.extend(b)", "a.reverse()", "a.pop()", "out.append(a.pop(0))",
        "a.insert(1, %s)" % num(r), "out.append(a[%d])" % r.randint(-3, 3), "out.append(a[%d:%d])" % (r.randint(-3, 3), r.randint(-3, 5)), "out.append(a[::-1])", "out.append(%d in s)" % r.randint(0, 6),
        "out.append(%s in a)" % num(r), "out.append(%d in d)" % r.randint(0, 6), "s.add(%d)" % r.randint(0, 9), "s.discard(%d)" % r.randint(0, 5), "s.remove(%d)" % r.randint(0, 5), "out.append(sorted(s))",
        "out.append(sorted(s | {1, 8}))", "out.append(sorted(s - {1, 2}))", "out.append(sorted(s & {1, 2, 3}))", "s.update(b)", "out.append(any(x > 2 for x in a))", "out.append(all(a))", "out.append(any(a))",
        "out.append(tuple(b))", "out.append(list(pairwise(a)))", "out.append(list(reversed(a)))", "out.append(list(range(%d, %d)))" % (r.randint(-2, 3), r.randint(-2, 6)),
        "out.append(bool(a))", "out.append(abs(%s))" % num(r), "out.append(copysign(%s, %s))" % (num(r), num(r)), "out.append(int(%s))" % num(r), "out.append(float(%s))" % num(r), "out.append(round(%s))" % num(r),
        "out.append(%s // 2)" % r.randint(-5, 5), "out.append(%d %% 3)" % r.randint(-5, 5), "out.append(%s / %s)" % (num(r), num(r)), "out.append(%s ** 2)" % num(r),
        "out.append(%s if a else %s)" % (num(r), num(r)), "out.append(a == b)", "out.append(a is a)", "out.append(isinstance(%s, int))" % num(r), "x, y = b[0], b[-1]\nout.append(x - y)",
        "try:\n    out.append(d[%d])\nexcept KeyError:\n    out.append('missing')" % r.randint(0, 6), "try:\n    out.append(a[5])\nexcept IndexError:\n    out.append('short')",
        "for i, v in enumerate(a):\n    if v > 3:\n        break\n    if v < 0:\n        continue\n    out.append((i, v))", "n = 0\nwhile b:\n    n += b.pop()\nout.append(n)",
        "c = list(a)\nc.append(1)\nout.append(len(a) - len(c))", "c = a\nc.append(2)\nout.append(len(a))", "c = deepcopy(d)\nc[0] = 5\nout.append(d.get(0))", "e = dict(d)\ne[0] = 7\nout.append(d.get(0))",
        "out.append(sum([1 for x in b if x in s]))", "out.append(list(map(lambda v: v + 1, b)))", "out.append(list(filter(lambda v: v > 1, b)))", "out.append('%s' % ('x' if a else 'y'))",
        "out.append(d.setdefault(4, 2))", "out.append([list(t) for t in zip(*[a, b])])", "out.append(next(iter(b)))", "out.append([x for y in [a, b] for x in y])",
        "for k in list(d):\n    d[k] = d[k] + 1\nout.append(list(d.items()))", "try:\n    assert a\nexcept AssertionError:\n    out.append('empty')\nelse:\n    out.append('some')\nfinally:\n    out.append(1)"]
    return L + [r.choice(one) for _ in range(r.randint(3, 10))] + ["return out"]


def p_vector(r):
    v = lambda: "[%s]" % ", ".join("%r" % (r.randint(-8, 8) / 2) for _ in range(3))
    L = ["u = %s" % v(), "w = %s" % v(), "p = np.array(u)", "q = np.array(w)", "out = []"]
    one = ["out.append(add_vectors(u, w))", "out.append(subtract_vectors(u, w))", "out.append(scale_vector(u, %s))" % num(r), "out.append(dot_vectors(u, w))", "out.append(length_vector(u) ** 2)",
           "out.append(length_vector_sqrd(u))", "out.append(distance_point_point_sqrd(u, w))", "out.append(distance_point_point(u, w) ** 2)", "out.append(cross_vectors(u, w))",
           "out.append([c * length_vector(u) for c in normalize_vector(u)])", "out.append(list(p + q))", "out.append(list(p - q))", "out.append(list(2.0 * p))", "out.append(list(p * q))", "out.append(np.dot(p, q))",
           "out.append(np.linalg.norm(p) ** 2)", "out.append(list(np.square(p)))", "out.append(np.sum(p))", "out.append(list(np.abs(p)))", "out.append(np.copysign(%s, %s))" % (num(r), num(r)), "out.append(list(np.zeros(3)))",
           "p[1] = 7.0\nout.append(list(p))", "c = np.copy(p)\nc[0] = 9.0\nout.append(list(p))", "c = p\nc[0] = 9.0\nout.append(list(p))", "p += q\nout.append(list(p))", "p = p + q\nout.append(list(p))", "u[0] += 1\nout.append(list(p))",
           "out.append(list(-1.0 * (p + q)))", "out.append(closest_point_on_line(u, ([0.0, 0.0, 0.0], %s)))" % r.choice(["[1.0, 0.0, 0.0]", "[0.0, 2.0, 0.0]", "[3.0, 4.0, 0.0]"]),
           "out.append(closest_point_on_plane(u, (w, %s)))" % r.choice(["[1.0, 0.0, 0.0]", "[0.0, 0.0, 2.0]"]), "out.append(p.size)", "out.append(len(p))", "g = np.zeros(3)\ng[:] = p\nout.append(list(g))",
           "a, b, c = u\nout.append(a - b + c)", "out.append([x for x in p])", "out.append(p[0] < q[0])", "out.append(bool(np.isnan(p[0])))", "out.append(fabs(u[0]))"]
    return L + [r.choice(one) for _ in range(r.randint(3, 9))] + ["return out"]


def p_diagram(r):
    n = r.randint(2, 5)
    L = ["t = TopologyDiagram()", "out = []"]
    for i in range(n):
        L.append("t.add_node(Node(%s, [%r, %r, %r]))" % (i if r.random() < .7 else None, r.randint(-9, 9) / 2, i / 2, r.randint(-3, 3) * 1.0))
    k = lambda: r.randint(0, n)
    for i in range(r.randint(1, n)):
        L.append("t.add_edge(%s)" % r.choice(["TrailEdge(%d, %d, length=%s)" % (r.randint(0, n - 1), r.randint(0, n - 1), num(r)), "DeviationEdge(%d, %d, force=%s)" % (r.randint(0, n - 1), r.randint(0, n - 1), num(r))]))
    at = lambda: r.choice(["x", "y", "z", "qx", "rz", "_k", "type"])
    et = lambda: r.choice(["type", "length", "force", "plane"])
    one = lambda: r.choice([
        "out.append(t.node_attribute(%d, '%s'))" % (k(), at()), "t.node_attribute(%d, '%s', %s)" % (k(), r.choice(["x", "qx", "_k"]), num(r)), "t.unset_node_attribute(%d, '%s')" % (k(), at()),
        "out.append(t.node_attributes(%d, ['%s', '%s']))" % (k(), at(), at()), "t.node_attributes(%d, ['qx', 'qy', 'qz'], [1.0, 2.0, %s])" % (k(), num(r)),
        "out.append(t.edge_attribute((%d, %d), '%s'))" % (k(), k(), et()), "t.edge_attribute((%d, %d), '%s', %s)" % (k(), k(), r.choice(["length", "force"]), num(r)),
        "out.append(list(t.nodes()))", "out.append(list(t.edges()))", "out.append(sorted(t.neighbors(%d)))" % k(), "out.append(sorted(t.connected_edges(%d)))" % k(), "out.append(t.neighbors(%d))" % k(), "out.append(t.connected_edges(%d))" % k(),
        "out.append(t.has_edge(%d, %d))" % (k(), k()), "out.append(t.has_node(%d))" % k(), "out.append(t.number_of_nodes())", "out.append(t.number_of_edges())", "out.append(list(t.nodes_where({'type': 'support'})))",
        "out.append(list(t.edges_where({'type': 'trail'})))", "out.append(list(t.trail_edges()))", "out.append(list(t.deviation_edges(data=False)))", "out.append(list(t.nodes_where_predicate(lambda key, attr: key > 1)))",
        "out.append(list(t.edges_where_predicate(lambda key, attr: key[0] < key[1])))", "t.add_support(NodeSupport(%d))" % k(), "t.add_load(NodeLoad(%d, [0.0, %s, 1.0]))" % (k(), num(r)), "out.append(t.node_coordinates(%d))" % k(),
        "out.append(t.nodes_attribute('_k'))", "out.append(t.edges_attribute('force'))", "out.append(t.edges_attribute(name='force', keys=list(t.edges())[:1]))", "out.append(list(t.loaded_nodes()))", "out.append(t.node_load(%d))" % k(),
        "out.append(t.edge_length(*list(t.edges())[0]) ** 2)", "c = t.copy()\nc.node_attribute(0, 'x', 55.0)\nout.append(t.node_attribute(0, 'x'))\nout.append(list(c.edges()))", "t.node_xyz(%d, [1.5, %s, 0.25])" % (k(), num(r)),
        "out.append(t.is_trail_edge((%d, %d)))" % (k(), k()), "out.append(t.is_node_support(%d))" % k(), "t.update_default_node_attributes({'_k': %d})" % r.randint(0, 3), "out.append(t.is_node_loaded(%d))" % k(),
        "out.append(sorted(t.node_attributes(%d)))" % k(), "out.append(t.node_sequence(%d))" % k(), "out.append(t.degree(%d))" % k(), "out.append(t.is_deviation_edge((%d, %d)))" % (k(), k()),
        "out.append(t.add_node(Node(xyz=[7.0, 8.0, %s])))" % num(r), "out.append(t.add_edge(TrailEdge(%d, %d, length=-1.0, plane=([0.0, 0.0, 1.0], [0.0, 0.0, 1.0]))))" % (k(), k()), "out.append(t.edge_plane(list(t.edges())[-1]))"])
    return L + [one() for _ in range(r.randint(3, 10))] + ["return out"]


# ------------------------------------------------------------------ results
def norm(v):
    import numpy
    if isinstance(v, (bool, numpy.bool_)):
        return ("b", bool(v))
    if isinstance(v, (int, float, Fraction, numpy.integer, numpy.floating)):
        return ("n", float(v))
    if isinstance(v, numpy.ndarray):
        return ("l", [norm(x) for x in v])
    if isinstance(v, list):
        return ("l", [norm(x) for x in v])
    if isinstance(v, tuple):
        return ("t", [norm(x) for x in v])
    if isinstance(v, dict):
        return ("d", [(norm(k), norm(x)) for k, x in v.items()])
    return ("o", v if isinstance(v, (str, type(None))) else type(v).__name__)


def value(e):
    """Numeric value of a ground term."""
    import math
    k, c = e.decl().name(), [value(x) for x in e.children()] if not z3.is_quantifier(e) else None
    if z3.is_int_value(e) or z3.is_rational_value(e):
        return float(e.as_fraction()) if not z3.is_int_value(e) else e.as_long()
    if z3.is_true(e) or z3.is_false(e):
        return z3.is_true(e)
    ops = {"mul": lambda a, b: a * b, "*": lambda *a: math.prod(a), "+": lambda *a: sum(a), "-": lambda a, b=None: -a if b is None else a - b, "div": lambda a, b: a / b, "/": lambda a, b: a / b,
           "sqrt": lambda a: math.sqrt(max(a, 0.0)), "if": lambda c, a, b: a if c else b, "<=": lambda a, b: a <= b, "<": lambda a, b: a < b, ">=": lambda a, b: a >= b, ">": lambda a, b: a > b,
           "=": lambda a, b: a == b, "and": lambda *a: all(a), "or": lambda *a: any(a), "not": lambda a: not a, "to_real": lambda a: a}
    if k not in ops:
        raise Unsupported("term %s" % k)
    try:
        return ops[k](*c)
    except ZeroDivisionError:
        return 0.0


def conc(it, v):
    v = force(it.ctx, v)
    if isinstance(v, Sym):
        z = z3.simplify(v.z)
        if v.kind == "bool":
            return ("b", it.ctx.decide(z))
        if z3.is_int_value(z):
            return ("n", float(z.as_long()))
        if z3.is_rational_value(z):
            return ("n", float(z.as_fraction()))
        return ("n", float(value(z)))
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, (int, float, Fraction)):
        return ("n", float(v))
    if isinstance(v, FList):
        return ("l", [conc(it, x) for x in v.items])
    if isinstance(v, ListObj):
        base, items = it.get(v)
        if base is not None:
            raise Unsupported("symbolic list")
        return ("l", [conc(it, x) for x in items])
    if isinstance(v, tuple):
        return ("t", [conc(it, x) for x in v])
    if isinstance(v, (DictObj, FDict)):
        c = v.c if isinstance(v, FDict) else it.get(v)
        ks = d_keys(it.ctx, c)
        return ("d", [(conc(it, k), conc(it, d_lookup(it.ctx, c, k)[1])) for k in ks])
    if isinstance(v, (str, type(None))):
        return ("o", v)
    raise Unsupported("result %r" % (v,))


def same(a, b):
    if a[0] != b[0]:
        return {a[0], b[0]} <= {"b", "n"} and float(a[1]) == float(b[1])
    if a[0] == "n":
        return abs(a[1] - b[1]) <= 1e-9 * max(1.0, abs(a[1]))
    if a[0] in "lt":
        return len(a[1]) == len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1]))
    if a[0] == "d":
        return len(a[1]) == len(b[1]) and all(same(x, y) and same(v, w) for (x, v), (y, w) in zip(a[1], b[1]))
    return a == b


def main():
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    count = int(sys.argv[2]) if len(sys.argv) > 2 else 600
    r = random.Random(seed)
    progs = []
    for i in range(count):
        kind = r.choice([p_builtin, p_vector, p_diagram])
        progs.append((kind.__name__, kind(r)))
    d = tempfile.mkdtemp(prefix="conf")
    path = os.path.join(d, "conf_progs.py")
    with open(path, "w") as f:
        f.write(HEAD)
        for i, (k, ls) in enumerate(progs):
            f.write("\n\ndef prog_%d():\n%s\n" % (i, "\n".join("    " + x for l in ls for x in l.split("\n"))))
    spec = importlib.util.spec_from_file_location("conf_progs", path)
    m = importlib.util.module_from_spec(spec)
    sys.modules["conf_progs"] = m
    spec.loader.exec_module(m)
    stat, bad = {}, 0
    for i, (k, ls) in enumerate(progs):
        fn = getattr(m, "prog_%d" % i)
        try:
            with_native = ("ok", norm(fn()))
        except Exception as e:
            with_native = ("raise", type(e))
        got = []

        def unit(it):
            kind, v = C.outcome(it, fn)
            got.append((kind, conc(it, v) if kind == "ok" else v))
            it.ctx.prove("done", z3.BoolVal(True))
        V = C.Verifier(budget=20)
        res = V.unit("p", unit)
        if res.status != "ok" or not got:
            s = "unsupported: " + res.detail.split("[")[0][:50] if res.status != "error" else "error"
            if res.status == "error":
                print("ERROR", k, i, res.detail[-300:])
                print("\n".join(ls))
                bad += 1
        else:
            hit = [g[0] == with_native[0] and (same(g[1], with_native[1]) if g[0] == "ok" else (isinstance(g[1], type) and (issubclass(g[1], with_native[1]) or issubclass(with_native[1], g[1])))) for g in got]
            ok = any(hit)
            s = "same" if all(hit) else "among" if ok else "DIFFERENT"   # among: the model keeps further outcomes, the real one with them
            if not ok:
                bad += 1
                print("DIFFERENT", k, i, "\n   real:", with_native, "\n  model:", got[:2])
                print("\n".join("    " + x for x in ls))
        stat.setdefault(k, {}).setdefault(s, 0)
        stat[k][s] += 1
    import shutil
    shutil.rmtree(d)
    for k, v in stat.items():
        print(k, sum(v.values()), "programs; same:", v.get("same", 0), "; among several:", v.get("among", 0), "; different:", v.get("DIFFERENT", 0))
        for s, n in sorted(v.items(), key=lambda x: -x[1])[:8]:
            if s.startswith("unsupp"):
                print("      %4d %s" % (n, s))
    sys.exit(1 if bad else 0)


main()
