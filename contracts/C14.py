"""C14: serialization round trips.

The data of an object is taken from the real getter, sent through a model of JSON (integer keys
become text, tuples become lists) and given to the real setter; every attribute of the restored
object equals the original's, so the two behave alike, and any number of round trips does.
"""
from .opt import *  # noqa: F401,F403
from pyvc.core import Opaque
from pyvc.values import Obj, JKey, GKey
from pyvc.loops import NetMaps
from pyvc.net import NetData, Store

TARGET = "COMPAS geometry (Point, Vector, Line, Plane, Polyline): cls_from_dtype(t.dtype).from_data(t.to_data()) equals t, also through JSON"
JSON = "JSON keeps numbers, text and None, turns integer keys into text and tuples into lists, and keeps dictionary order"
NETDATA = "Network.data lists attributes, default attributes, nodes, edges and adjacency; setting it restores them (compas)"


class TargetData:
    def __init__(self, z):
        self.z = z


class Target:
    """A COMPAS geometry object."""

    def __init__(self, z):
        self.z = z

    def pv_getattr(self, it, name):
        if name == "to_data":
            return Native(lambda it: TargetData(self.z))
        if name == "data":
            return TargetData(self.z)
        if name == "dtype":
            return Opaque("dtype")
        raise Unsupported("attribute %s of a target" % name)


def tojson(it, v):
    v = v if isinstance(v, Choice) else force(it.ctx, v)
    if isinstance(v, Choice):
        return Choice(v.c, tojson(it, v.a), tojson(it, v.b))
    if v is None or isinstance(v, (str, bool, TargetData, GKey, JKey, Opaque)) or core.is_scalar(v) or type(v).__name__ == "ReprText":
        return v
    if isinstance(v, Sym):
        return v
    if isinstance(v, FList):
        if v.arr:
            raise PyRaise(TypeError, ("array",))
        return FList([tojson(it, x) for x in v.items])
    if isinstance(v, tuple):
        return FList([tojson(it, x) for x in v])
    if isinstance(v, ListObj):
        base, its = it.get(v)
        if base is not None:
            raise Unsupported("JSON of a list")
        return ListObj(it.ctx, [tojson(it, x) for x in its])
    if isinstance(v, SSeq):
        return SSeq(v.n, lambda i: tojson(it, v.item(i)), v.tag, "list")
    if isinstance(v, DictObj):
        return DictObj(it.ctx, *jsonmap(it, it.get(v), True))
    if isinstance(v, NetData):
        m = NetMaps({k: DictC(*jsonmap(it, c, False)) for k, c in it.get(v.store)["m"].items()})
        st = Store(it.ctx, m)
        return NetData(st, tojson(it, v.attributes), tojson(it, v.dna), tojson(it, v.dea), v.max_node)
    raise Unsupported("JSON of %r" % (v,))


def jsonmap(it, c, keys):
    def key(k):
        if not keys or isinstance(k, (str, GKey, JKey)):
            return k
        if core.is_int(k):
            return JKey(toz(k))
        raise PyRaise(TypeError, ("keys must be text or numbers",))
    base = c.base
    if base is not None:
        if keys and base.tup is True:
            raise PyRaise(TypeError, ("keys must be text or numbers",))
        base = SMap(base.width, base.dom, lambda *ks: tojson(it, c.base.val(*ks)), base.tag, base.tup if base.tup or not keys else JKey)
    return base, [(key(k), v if v is DELETED else tojson(it, v)) for k, v in c.writes]


def same(it, a, b, path="", kinds=True):
    """Formulas: the two values are equal; lists the named parts."""
    a = a if isinstance(a, Choice) else force(it.ctx, a)
    b = b if isinstance(b, Choice) else force(it.ctx, b)
    if isinstance(a, Target) and isinstance(b, Target):
        return [(path, a.z == b.z)]
    if isinstance(a, (tuple, FList)) and isinstance(b, (ListObj, tuple, FList)) or isinstance(a, ListObj) and isinstance(b, (ListObj, FList)):
        xa, xb = it.iterate(a), it.iterate(b)
        if not isinstance(xa, list) or not isinstance(xb, list) or len(xa) != len(xb):
            return [(path, z3.BoolVal(False))]
        # a key or a trail must stay a tuple: it is looked up
        out = [(path + " stays a tuple", z3.BoolVal(isinstance(b, tuple) or not isinstance(a, tuple) or not kinds))]
        for i, (x, y) in enumerate(zip(xa, xb)):
            out += same(it, x, y, path, kinds)
        return out
    if isinstance(a, Choice) and isinstance(b, Choice) and a.c.eq(b.c):
        return [(path, z3.Implies(a.c, f)) for p, f in same(it, a.a, b.a, path, kinds)] + \
               [(path, z3.Implies(z3.Not(a.c), f)) for p, f in same(it, a.b, b.b, path, kinds)]
    if isinstance(a, SSeq):
        if not isinstance(b, SSeq):
            return [(path, z3.BoolVal(False))]
        i = z3.Int("any_i")
        return [(path + " stays a tuple", z3.BoolVal(a.kind == b.kind)), (path, a.n == b.n)] + \
               [(path, z3.Implies(z3.And(i >= 0, i < a.n), f)) for p, f in same(it, a.item(i), b.item(i), path, kinds)]
    if isinstance(a, DictObj):
        if not isinstance(b, DictObj):
            return [(path, z3.BoolVal(False))]
        return samemap(it, it.get(a), it.get(b), path)
    return [(path, eq(a, b))]


def samemap(it, ca, cb, path, kinds=True):
    out = []
    if ca.base is None:
        names = [k for k, v in ca.writes]
        more = [k for k, v in cb.writes if v is not DELETED and not any(z3.is_true(eq(k, n)) for n in names)] if cb.base is None else [1]
        out.append((path + ": no other entries", z3.BoolVal(not more)))
    else:
        ks = [z3.Int("any_%d" % i) for i in range(ca.base.width)]
        names = [ca.base.key(ks)] + [k for k, v in ca.writes]
    for k in names:
        (da, va), (db, vb) = d_lookup(it.ctx, ca, k), d_lookup(it.ctx, cb, k)
        p = path + ("." if path else "") + (k if isinstance(k, str) else "entry")
        out.append((p + " is there", da == db))
        if va is not None:
            if vb is None:
                out.append((p, z3.Not(da)))
            else:
                out += [(q, z3.Implies(da, f)) for q, f in same(it, va, vb, p, kinds)]
    return out


def prove_all(it, fs):
    for name, f in fs:
        it.ctx.prove("the same %s" % name, f)


def reach(it, v, seen=None):
    """The objects of the heap reachable from a value."""
    seen = {} if seen is None else seen
    if isinstance(v, Obj):
        if v.oid in seen:
            return seen
        c = it.ctx.heap.get(v.oid)
        if isinstance(c, dict) and c.get("$frozen"):
            return seen
        seen[v.oid] = v
        reach(it, c, seen)
    elif isinstance(v, dict):
        for x in v.values():
            reach(it, x, seen)
    elif isinstance(v, (tuple, list)):
        for x in v:
            reach(it, x, seen)
    elif isinstance(v, DictC):
        for k, x in v.writes:
            reach(it, x, seen)
    elif isinstance(v, FList):
        reach(it, list(v.items), seen)
    elif isinstance(v, Choice):
        reach(it, v.a, seen)
        reach(it, v.b, seen)
    return seen


def round_trip(it, obj, how, copier=None):
    """Through data, JSON or copy()."""
    if how == "copy":
        return method(it, obj, "copy")
    if how == "data":
        d = it.getattr(obj, "data")
        return it.call(it.getattr(obj.cls, "from_data"), (d,))
    d = tojson(it, method(it, obj, "to_data"))
    return it.call(it.getattr(obj.cls, "from_data"), (d,))


IGNORED = ("_guid", "_name", "_jsondefinitions", "_JSONSCHEMA", "_jsonvalidator")


def same_object(it, p, q):
    q = force(it.ctx, q)
    it.ctx.prove("the restored object has the same class", z3.BoolVal(isinstance(q, Inst) and q.cls is p.cls))
    if not isinstance(q, Inst):
        return
    a, b = it.get(p), it.get(q)
    for n in sorted(set(a) | set(b)):
        if n.startswith("$") or n in IGNORED:
            continue
        if n not in a or n not in b:
            it.ctx.prove("attribute %s is restored" % n, z3.BoolVal(False))
            continue
        prove_all(it, same(it, a[n], b[n], n))


def parameters(V, how):
    import compas_cem.optimization as O

    def one(cls, edge):
        def go(it):
            ctx = it.ctx
            key = (integer("u"), integer("v")) if edge else integer("n")
            lo = Choice(z3.Bool("has_low"), real("low"), None)
            up = Choice(z3.Bool("has_up"), real("up"), None)
            p = it.call(cls, (key, lo, up))
            ctx.assumptions.add(JSON)
            q = round_trip(it, p, how)
            same_object(it, p, q)
        return go
    for n in Params.NODE_ATTR:
        V.unit("%s through %s" % (n, how), one(getattr(O, n), False))
    for n in Params.EDGE_ATTR:
        V.unit("%s through %s" % (n, how), one(getattr(O, n), True))


def constraints(V, how):
    import compas_cem.optimization as O
    from compas.data import encoders
    from compas_cem.optimization.constraints import constraint as cm
    kinds = [("PointConstraint", "node", "geo"), ("LineConstraint", "node", "geo"), ("PlaneConstraint", "node", "geo"),
             ("PolylineConstraint", "node", "geo"), ("ReactionForceConstraint", "node", "geo"),
             ("EdgeDirectionConstraint", "edge", "geo"), ("TrailEdgeForceConstraint", "edge", "num"),
             ("DeviationEdgeLengthConstraint", "edge", "num")]

    def one(cls, on, what):
        def go(it):
            ctx = it.ctx
            key = (integer("u"), integer("v")) if on == "edge" else integer("n")
            t = Target(z3.Int("target")) if what == "geo" else real("target")

            def restore(it, d):
                d = force(it.ctx, d)
                if not isinstance(d, TargetData):
                    raise Unsupported("target data of unknown origin")
                return Target(d.z)

            class TargetCls:
                def pv_getattr(self, it, name):
                    if name == "from_data":
                        return Native(restore)
                    raise Unsupported("attribute of a target class")
            ctx.contracts[encoders.cls_from_dtype] = lambda it, d: TargetCls()
            ctx.assumptions.update([JSON, TARGET] if what == "geo" else [JSON])
            w = real("weight")
            c = it.call(cls, (key, t, w))
            q = round_trip(it, c, how)
            same_object(it, c, q)
        return go
    for n, on, what in kinds:
        V.unit("%s through %s" % (n, how), one(getattr(O, n), on, what))


def diagrams(V, how):
    from compas_cem.diagrams import TopologyDiagram, FormDiagram
    s = Sig()

    def go(cls):
        def run(it):
            ctx = it.ctx
            well_formed(it, s)
            t = topology(it, s, cls=cls)
            at = it.get(t)["attributes"]
            keep = [(k, Sym("val", z3.Const("any_" + k, core.literal(None).sort())) if k in ("name", "tol") else v) for k, v in it.get(at).writes
                    if cls is TopologyDiagram or k in ("name", "tol", "gkey_node")]
            it.put(at, DictC(None, keep))
            ctx.assumptions.update([JSON, NETDATA])
            before = {o: ctx.heap[o] for o in reach(it, t)}
            q = force(ctx, round_trip(it, t, how))
            if not isinstance(q, Inst) or q.cls is not t.cls:
                ctx.prove("the restored object has the same class", z3.BoolVal(False))
                return
            ctx.prove("the original is untouched", z3.BoolVal(all(ctx.heap[o] is c for o, c in before.items())))
            a, b = it.get(t), it.get(q)
            ma, mb = it.get(a["$store"])["m"], it.get(b["$store"])["m"]
            ctx.prove("the same attributes are stored", z3.BoolVal(set(ma) == set(mb)))
            for n in ma:
                if n in mb:
                    prove_all(it, samemap(it, ma[n], mb[n], n, False))
            for n in ("attributes", "default_node_attributes", "default_edge_attributes", "_max_node"):
                prove_all(it, same(it, a[n], b[n], n))
            if how in ("copy", "JSON"):
                ra, rb = reach(it, t), reach(it, q)
                shared = [o for o in ra if o in rb]
                ctx.prove("the two share no state", z3.BoolVal(not shared))
        return run
    V.unit("TopologyDiagram through %s" % how, go(TopologyDiagram))
    V.unit("FormDiagram through %s" % how, go(FormDiagram))


def verify(V):
    for how in ("data", "JSON", "copy"):
        parameters(V, how)
        constraints(V, how)
        diagrams(V, how)
