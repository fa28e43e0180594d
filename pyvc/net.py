"""Contracts assumed for compas.datastructures.Network (the storage of a diagram).

The nodes, edges and their attributes are kept as maps in a store object.  A map
``n:<name>`` or ``e:<name>`` holds the stored values of one attribute; reading an
attribute that is not stored gives the default of the diagram, as in compas.
These models are compared with the real class by tools/conformance.py.
"""
import z3

from .core import (Poison, Unsupported, PyRaise, Sym, FList, Choice, Opaque, I, B, R, toz, merge, mk, simp, subst, is_int, literal,
                   as_val)
from .values import (Obj, Inst, ListObj, DictC, DELETED, SMap, DictObj, FDict, SetObj, SColl, Alts, BoundMethod, Native,
                     GKey, force, key_terms, eq, d_lookup, d_keys)
from .loops import NetMaps
from . import lib


class Store(Obj):
    __slots__ = ()

    def __init__(self, ctx, maps=None):
        super().__init__(ctx, {"m": NetMaps(maps or {"node": DictC(), "edge": DictC()})})


class NetData:
    """The value of Network.data: shares the store unless it was deep-copied."""

    def __init__(self, store, attributes, dna, dea, max_node):
        self.store, self.attributes, self.dna, self.dea, self.max_node = store, attributes, dna, dea, max_node


STORE = "$store"


def store_of(it, net):
    s = it.get(net).get(STORE)
    if s is None:
        raise Unsupported("diagram without storage")
    return s


def maps(it, net):
    return it.get(store_of(it, net))["m"]


def setmap(it, net, name, c):
    s = store_of(it, net)
    m = NetMaps(it.get(s)["m"])
    m[name] = c
    it.put(s, {"m": m})


def default(it, net, which, name):
    d = it.get(net).get(which)
    dom, val = d_lookup(it.ctx, it.get(d), name)
    if z3.is_true(dom):
        return val
    return None


def effective(it, net, prefix, key, name):
    """The stored value of an attribute or its default."""
    which = "default_node_attributes" if prefix == "n:" else "default_edge_attributes"
    if not isinstance(name, str):
        raise Unsupported("attribute name %r" % (name,))
    c = maps(it, net).get(prefix + name)
    dflt = default(it, net, which, name)
    if c is None:
        return dflt
    dom, val = d_lookup(it.ctx, c, key)
    if z3.is_true(dom):
        return val
    if z3.is_false(dom) or val is None:
        return dflt
    return merge(dom, val, dflt)


def store(it, net, prefix, key, name, value):
    if not isinstance(name, str):
        raise Unsupported("attribute name %r" % (name,))
    c = maps(it, net).get(prefix + name, DictC())
    setmap(it, net, prefix + name, c.put(key, it.freeze(value)))


def has_node_f(it, net, key):
    key = force(it.ctx, key)
    if isinstance(key, (ListObj, FList)):
        raise PyRaise(TypeError, ("unhashable",))
    return d_lookup(it.ctx, maps(it, net)["node"], key)[0]


def check_node(it, net, key):
    if not it.ctx.decide(has_node_f(it, net, key)):
        raise PyRaise(KeyError, (key,))


def edge_key(it, key):
    u, v = it.unpack(key, [None, None])
    return (force(it.ctx, u), force(it.ctx, v))


def has_edge_f(it, net, u, v):
    return d_lookup(it.ctx, maps(it, net)["edge"], (u, v))[0]


def check_edge(it, net, key):
    k = edge_key(it, key)
    if not it.ctx.decide(has_edge_f(it, net, *k)):
        raise PyRaise(KeyError, (k,))
    return k


# ------------------------------------------------------------------- methods

def nodes(it, net, data=False):
    ks = d_keys(it.ctx, maps(it, net)["node"])
    if it.truth(data):
        if isinstance(ks, list):
            return ListObj(it.ctx, [(k, AttrView(net, "n:", k)) for k in ks])
        return ListObj(it.ctx, (), SColl(ks.width, ks.guard, lambda *p: (ks.raw(p), AttrView(net, "n:", ks.raw(p))), None))
    return wrap(it, ks)


def edge_list(it, net):
    """The edges, grouped by their first node in the order of the nodes."""
    ks = d_keys(it.ctx, maps(it, net)["edge"])
    if isinstance(ks, list):
        ns = d_keys(it.ctx, maps(it, net)["node"])
        if isinstance(ns, list) and all(isinstance(n, int) for n in ns) and all(k[0] in ns for k in ks):
            ks = sorted(ks, key=lambda k: ns.index(k[0]))
    return ks


def edges(it, net, data=False):
    ks = edge_list(it, net)
    if it.truth(data):
        if isinstance(ks, list):
            return ListObj(it.ctx, [(k, AttrView(net, "e:", k)) for k in ks])
        return ListObj(it.ctx, (), SColl(ks.width, ks.guard, lambda *p: (ks.raw(p), AttrView(net, "e:", ks.raw(p))), None))
    return wrap(it, ks)


def wrap(it, ks):
    if isinstance(ks, list):
        return ListObj(it.ctx, ks)
    return ListObj(it.ctx, (), ks)


class AttrView:
    """The attributes of one node or edge (a live view)."""

    def __init__(self, net, prefix, key):
        self.net, self.prefix, self.key = net, prefix, key

    def subst(self, pairs):
        return AttrView(self.net, self.prefix, subst(self.key, pairs))


def has_node(it, net, key):
    return mk("bool", has_node_f(it, net, key))


def has_edge(it, net, u, v, directed=True):
    u, v = force(it.ctx, u), force(it.ctx, v)
    if it.truth(directed):
        return mk("bool", has_edge_f(it, net, u, v))
    return mk("bool", z3.Or(has_edge_f(it, net, u, v), has_edge_f(it, net, v, u)))


def node_attribute(it, net, key, name, value=None):
    key = force(it.ctx, key)
    check_node(it, net, key)
    value = force(it.ctx, value)
    if value is not None and not (isinstance(value, Sym) and value.kind == "val" and it.ctx.decide(value.z == literal(None))):
        store(it, net, "n:", key, name, value)
        return None
    return force(it.ctx, effective(it, net, "n:", key, name))


def unset_node_attribute(it, net, key, name):
    key = force(it.ctx, key)
    check_node(it, net, key)
    c = maps(it, net).get("n:" + name)
    if c is not None:
        setmap(it, net, "n:" + name, c.put(key, default(it, net, "default_node_attributes", name)))


def node_attributes(it, net, key, names=None, values=None):
    key = force(it.ctx, key)
    check_node(it, net, key)
    if force(it.ctx, values) is not None:
        ns, vs = it.iterate(names), it.iterate(values)
        if not isinstance(ns, list) or not isinstance(vs, list):
            raise Unsupported("attribute values of symbolic length")
        for n, v in zip(ns, vs):
            store(it, net, "n:", key, n, v)
        return None
    if not names:
        return AttrView(net, "n:", key)
    return ListObj(it.ctx, [effective(it, net, "n:", key, n) for n in it.iterate(names)])


def edge_attribute(it, net, key, name, value=None):
    k = check_edge(it, net, key)
    value = force(it.ctx, value)
    if value is not None and not (isinstance(value, Sym) and value.kind == "val" and it.ctx.decide(value.z == literal(None))):
        store(it, net, "e:", k, name, value)
        return None
    return force(it.ctx, effective(it, net, "e:", k, name))


def edge_attributes(it, net, key, names=None, values=None):
    k = check_edge(it, net, key)
    if values is not None and it.truth(values):
        ns, vs = it.iterate(names), it.iterate(values)
        for n, v in zip(ns, vs):
            edge_attribute(it, net, k, n, v)
        return None
    if not names:
        return AttrView(net, "e:", k)
    return ListObj(it.ctx, [edge_attribute(it, net, k, n) for n in it.iterate(names)])


def unset_edge_attribute(it, net, key, name):
    k = check_edge(it, net, key)
    c = maps(it, net).get("e:" + name)
    if c is not None:
        setmap(it, net, "e:" + name, c.put(k, default(it, net, "default_edge_attributes", name)))


def node_coordinates(it, net, key, axes="xyz"):
    key = force(it.ctx, key)
    check_node(it, net, key)
    it.ctx.assumptions.add("every node has stored coordinates (nodes are added through Diagram.add_node)")
    return ListObj(it.ctx, [effective(it, net, "n:", key, a) for a in it.iterate(axes)])


def neighbors(it, net, key):
    key = force(it.ctx, key)
    check_node(it, net, key)
    E = maps(it, net)["edge"]
    if E.base is None:
        out = []
        for k in d_keys(it.ctx, E):
            for a, b in ((k[0], k[1]), (k[1], k[0])):
                if it.ctx.decide(eq(a, key)) and not any(it.ctx.decide(eq(b, o)) for o in out):
                    out.append(b)
        return ListObj(it.ctx, out)

    def guard(m):
        mm = Sym("int", m)
        return simp(z3.Or(d_lookup(it.ctx, E, (key, mm))[0], d_lookup(it.ctx, E, (mm, key))[0]))
    return ListObj(it.ctx, (), SColl(1, guard, lambda m: Sym("int", m)))


def connected_edges(it, net, key):
    key = force(it.ctx, key)
    check_node(it, net, key)
    E = maps(it, net)["edge"]
    if E.base is None:
        out = []
        for b in it.iterate(neighbors(it, net, key)):
            out.append((key, b) if it.ctx.decide(has_edge_f(it, net, key, b)) else (b, key))
        return ListObj(it.ctx, out)

    def fwd(m):
        return d_lookup(it.ctx, E, (key, Sym("int", m)))[0]

    def guard(m):
        return simp(z3.Or(fwd(m), d_lookup(it.ctx, E, (Sym("int", m), key))[0]))

    def elem(m):
        mm = Sym("int", m)
        return Alts([(fwd(m), (key, mm)), (z3.Not(fwd(m)), (mm, key))])
    return ListObj(it.ctx, (), SColl(1, guard, elem))


def match(it, net, prefix, key, conditions):
    conds = []
    for name, want in conditions:
        got = effective(it, net, prefix, key, name)
        w = as_val(force(it.ctx, want))
        if w is None:
            raise Unsupported("filter by a value that is not text")
        conds.append(eq(got, force(it.ctx, want)))
    return simp(z3.And(*conds)) if conds else z3.BoolVal(True)


def where(it, net, prefix, mapname, conditions, data, kw):
    cs = list(kw.items())
    if conditions is not None:
        d = force(it.ctx, conditions)
        c = d.c if isinstance(d, FDict) else it.get(d)
        if c.base is not None:
            raise Unsupported("symbolic filter")
        cs = [(k, v) for k, v in c.writes] + cs
    if any(name in dir_of(net) for name, _ in cs):
        raise Unsupported("filter by a method")
    ks = edge_list(it, net) if mapname == "edge" else d_keys(it.ctx, maps(it, net)[mapname])
    with_data = it.truth(data)

    def out(k):
        return (k, AttrView(net, prefix, k)) if with_data else k
    if isinstance(ks, list):
        return ListObj(it.ctx, [out(k) for k in ks if it.ctx.decide(match(it, net, prefix, k, cs))])
    snap = dict(it.ctx.heap)   # the filter is evaluated now

    def guard(*ps):
        cur, it.ctx.heap = it.ctx.heap, snap
        try:
            return simp(z3.And(ks.guard(*ps), match(it, net, prefix, ks.raw(ps), cs)))
        finally:
            it.ctx.heap = cur
    coll = SColl(ks.width, guard, lambda *ps: out(ks.raw(ps)))

    def live(heap, *ps):
        """The filter evaluated in another state: listings of compas are generators."""
        cur, it.ctx.heap = it.ctx.heap, heap
        try:
            now = d_keys(it.ctx, maps(it, net)[mapname])
            return simp(z3.And(now.guard(*ps), match(it, net, prefix, now.raw(ps), cs)))
        finally:
            it.ctx.heap = cur
    coll.live = live
    return ListObj(it.ctx, (), coll)


def dir_of(net):
    return dir(net.cls)


def nodes_where(it, net, conditions=None, data=False, **kw):
    return where(it, net, "n:", "node", conditions, data, kw)


def edges_where(it, net, conditions=None, data=False, **kw):
    return where(it, net, "e:", "edge", conditions, data, kw)


def where_predicate(it, net, prefix, listing, predicate, data):
    out = ListObj(it.ctx)
    with_data = it.truth(data)

    def body(k):
        if it.truth(it.call(predicate, (k, AttrView(net, prefix, k)))):
            it.list_append(out, (k, AttrView(net, prefix, k)) if with_data else k)
    ks = it.iterate(listing)
    if isinstance(ks, list):
        for k in ks:
            body(k)
    else:
        from .values import Frame
        it.sym_loop(ks, body, Frame(it.ctx, None, {}), [])
    return out


def nodes_where_predicate(it, net, predicate, data=False):
    return where_predicate(it, net, "n:", nodes(it, net), predicate, data)


def edges_where_predicate(it, net, predicate, data=False):
    return where_predicate(it, net, "e:", edges(it, net), predicate, data)


def add_node(it, net, key=None, attr_dict=None, **kw):
    ctx = it.ctx
    key = force(ctx, key)
    mx = it.get(net)["_max_node"]
    if key is None:
        key = mk("int", toz(mx) + 1)
        it.setattr(net, "_max_node", key)
    elif is_int(key) and isinstance(mx, Poison):
        pass                    # the largest key stays unknown
    elif is_int(key):
        it.setattr(net, "_max_node", mk("int", z3.If(toz(key) > toz(mx), toz(key), toz(mx))))
    else:
        raise Unsupported("node key %r" % (key,))
    if not ctx.decide(has_node_f(it, net, key)):
        for name, c in list(maps(it, net).items()):
            if name == "node":
                setmap(it, net, name, c.put(key, True))
            elif name.startswith("n:") and not z3.is_false(d_lookup(ctx, c, key)[0]):
                setmap(it, net, name, c.put(key, default(it, net, "default_node_attributes", name[2:])))
    attrs = list(kw.items())
    if attr_dict is not None:
        c = it.get(attr_dict)
        attrs = list(c.writes) + attrs
    for n, v in attrs:
        store(it, net, "n:", key, n, v)
    return key


def add_edge(it, net, u, v, attr_dict=None, **kw):
    ctx = it.ctx
    u, v = force(ctx, u), force(ctx, v)
    for k in (u, v):
        if not ctx.decide(has_node_f(it, net, k)):
            it.call(it.getattr(net, "add_node"), (k,))
    k = (u, v)
    if not ctx.decide(has_edge_f(it, net, u, v)):
        for name, c in list(maps(it, net).items()):
            if name == "edge":
                setmap(it, net, name, c.put(k, True))
            elif name.startswith("e:") and not z3.is_false(d_lookup(ctx, c, k)[0]):
                setmap(it, net, name, c.put(k, default(it, net, "default_edge_attributes", name[2:])))
    attrs = list(kw.items())
    if attr_dict is not None:
        d = force(ctx, attr_dict)
        c = d.c if isinstance(d, FDict) else it.get(d)
        if c.base is not None:
            raise Unsupported("symbolic attribute dictionary")
        last = {}
        for n, x in c.writes:
            last[n] = x
        attrs = list(last.items()) + attrs
    for n, x in attrs:
        store(it, net, "e:", k, n, x)
    return k


def graph_init(it, net, name=None, default_node_attributes=None, default_edge_attributes=None):
    from fractions import Fraction
    ctx = it.ctx
    a = dict(it.get(net))
    a["_max_node"] = -1
    a["attributes"] = DictObj(ctx, None, [("name", name or "Network")])
    a["default_node_attributes"] = DictObj(ctx, None, [("x", Fraction(0)), ("y", Fraction(0)), ("z", Fraction(0))])
    a["default_edge_attributes"] = DictObj(ctx)
    a[STORE] = Store(ctx)
    for n in ("node", "edge", "adjacency"):
        a[n] = Opaque("network storage")
    for n in ("_guid", "_name", "_jsondefinitions", "_JSONSCHEMA", "_jsonvalidator"):
        a[n] = None
    it.put(net, a)
    for extra, which in ((default_node_attributes, "default_node_attributes"), (default_edge_attributes, "default_edge_attributes")):
        if extra is not None:
            it.call(it.method(a[which], "update"), (extra,))


def data_get(it, net):
    a = it.get(net)
    return NetData(store_of(it, net), a["attributes"], a["default_node_attributes"], a["default_edge_attributes"], a["_max_node"])


def data_set(it, net, data):
    data = force(it.ctx, data)
    if not isinstance(data, NetData):
        raise Unsupported("diagram data of unknown origin")
    a = dict(it.get(net))
    a["_max_node"] = data.max_node
    a[STORE] = data.store
    it.put(net, a)
    for which, src in (("attributes", data.attributes), ("default_node_attributes", data.dna), ("default_edge_attributes", data.dea)):
        it.call(it.method(a[which], "update"), (src,))


def data_deepcopy(it, d):
    st = Store(it.ctx, it.get(d.store)["m"])
    return NetData(st, lib.deep_copy(it, d.attributes), lib.deep_copy(it, d.dna), lib.deep_copy(it, d.dea), d.max_node)


def m_geometric_key(it, xyz, precision=None, sanitize=True):
    xs = lib.vec_items(it, xyz)
    if xs is None:
        try:
            xs = it.iterate(xyz)
        except PyRaise:
            raise
    if not isinstance(xs, list) or len(xs) != 3:
        raise PyRaise(ValueError, ("unpack",))
    from .core import zreal
    prec = as_val(force(it.ctx, precision))
    if prec is None or precision is None:
        raise Unsupported("tolerance %r" % (precision,))
    if sanitize is not True:
        raise Unsupported("geometric_key that tells 0.0 from -0.0")
    f = z3.Function("gkey", I, R, R, R, I)
    it.ctx.assumptions.add("geometric_key is a function of the coordinates and the tolerance")
    return GKey(f(prec, *[zreal(force(it.ctx, x)) for x in xs]))


def install(it):
    from compas.datastructures import Network, Graph
    m = it.models
    table = dict(nodes=nodes, edges=edges, has_node=has_node, has_edge=has_edge, node_attribute=node_attribute,
                 unset_node_attribute=unset_node_attribute, node_attributes=node_attributes, edge_attribute=edge_attribute,
                 edge_attributes=edge_attributes, unset_edge_attribute=unset_edge_attribute, neighbors=neighbors,
                 connected_edges=connected_edges, nodes_where=nodes_where, edges_where=edges_where,
                 nodes_where_predicate=nodes_where_predicate, edges_where_predicate=edges_where_predicate,
                 add_node=add_node, add_edge=add_edge)
    for n, f in table.items():
        m[Graph.__dict__[n]] = f
    m[Network.__dict__["node_coordinates"]] = node_coordinates
    m[Network.__dict__["__init__"]] = graph_init
    prop = Graph.__dict__["data"]
    m[prop.fget] = data_get
    m[prop.fset] = data_set
    for n in ("delete_node", "delete_edge", "clear"):
        m[Graph.__dict__[n]] = lambda it, *a, **k: (_ for _ in ()).throw(Unsupported("deletion from a diagram"))
    from compas.utilities import geometric_key
    m[geometric_key] = m_geometric_key
