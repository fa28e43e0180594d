"""C09: the registry of node positions is a representation invariant of the diagram.

INV: every node is registered under the geometric key of its position, and every
registered key leads to a node at that position.  An empty diagram satisfies it, every
operation that adds or moves nodes preserves it, and under it looking up coordinates
answers with the node at that position.
"""
from .topo import *  # noqa: F401,F403
from pyvc.core import as_val

GK = z3.Function("gkey", I, R, R, R, I)


class View:
    """The content of a diagram as formulas over its current state."""

    def __init__(self, it, t):
        self.it, self.t, self.m = it, t, net.maps(it, t)
        self.heap = dict(it.ctx.heap)
        at = it.get(force(it.ctx, it.getattr(t, "attributes")))
        self.gk = it.get(force(it.ctx, d_lookup(it.ctx, at, "gkey_node")[1]))
        self.tol = as_val(force(it.ctx, d_lookup(it.ctx, at, "tol")[1]))
        self.rest = {n: d_lookup(it.ctx, at, n)[1] for n in ("_trails", "_auxiliary_trails", "_aux_length", "_aux_vector")}

    def node(self, n):
        return d_lookup(self.it.ctx, self.m["node"], Sym("int", n))[0]

    def edge(self, u, v):
        return d_lookup(self.it.ctx, self.m["edge"], (Sym("int", u), Sym("int", v)))[0]

    def nattr(self, n, a):
        return self.then(lambda: net.effective(self.it, self.t, "n:", Sym("int", n), a))

    def eattr(self, u, v, a):
        return self.then(lambda: net.effective(self.it, self.t, "e:", (Sym("int", u), Sym("int", v)), a))

    def then(self, f):
        """Evaluate in the state of the view."""
        cur, self.it.ctx.heap = self.it.ctx.heap, dict(self.heap)
        try:
            return f()
        finally:
            self.it.ctx.heap = cur

    def key(self, n):
        return GK(self.tol, *[zreal(self.nattr(n, a)) for a in "xyz"])

    def reg(self, g):
        """(registered, node key)"""
        return d_lookup(self.it.ctx, self.gk, GKey(g))


def same_value(a, b):
    return z3.BoolVal(True) if a is b else eq(a, b)


def verify(V):
    from compas_cem.diagrams import TopologyDiagram, FormDiagram
    from compas_cem.elements import Node, TrailEdge, DeviationEdge, Edge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    s = Sig()
    n, m, u, v, g, key = z3.Ints("n m u v g key")
    tol = z3.Int("tol")

    def setup(it, cls=None):
        ctx = it.ctx
        well_formed(it, s)
        one_orientation(it, s)
        t = topology(it, s, cls=cls)
        it.call(it.method(force(ctx, it.getattr(t, "attributes")), "update"), (DictObj(ctx, None, [("tol", Sym("val", tol))]),))
        a, b = z3.Ints("inv_n inv_g")
        gk = GK(tol, *s.xyz(a))
        ctx.axioms += [z3.ForAll([a], z3.Implies(s.NODE(a), z3.And(s.GK(gk), s.GKV(gk) == a)), patterns=[s.NODE(a)]),
                       z3.ForAll([b], z3.Implies(s.GK(b), z3.And(s.NODE(s.GKV(b)), GK(tol, *s.xyz(s.GKV(b))) == b)), patterns=[s.GK(b)])]
        return t

    def gkey_of(it, p):
        return GK(tol, *[zreal(x) for x in items(it, p)])

    def free_for(it, p, k=None):
        """No node (other than k) is at the position p."""
        a = z3.Int("pre_n")
        it.ctx.assumptions.add("nodes are added and moved to positions that differ from those of the other nodes by more than the tolerance")
        other = s.NODE(a) if k is None else z3.And(s.NODE(a), a != k)
        it.ctx.axioms.append(z3.ForAll([a], z3.Implies(other, GK(tol, *s.xyz(a)) != gkey_of(it, p)), patterns=[s.NODE(a)]))

    def occupied(p):
        """Some node is at the position p: the registered one, by the invariant."""
        return z3.And(s.GK(p), s.NODE(s.GKV(p)), GK(tol, *s.xyz(s.GKV(p))) == p)

    def invariant(it, t):
        w, ctx = View(it, t), it.ctx
        ctx.prove("the tolerance is unchanged", w.tol == tol)
        dom, val = w.reg(w.key(n))
        ctx.prove("every node is registered at its position", z3.Implies(w.node(n), z3.And(dom, num(val) == n)))
        dom, val = w.reg(g)
        ctx.prove("every registered position is the position of a node", z3.Implies(dom, z3.And(w.node(num(val)), w.key(num(val)) == g)))
        return w

    def num(val):
        return toz(val) if val is not None else z3.IntVal(-1)

    def frame(it, old, new, nodes=(), edges=(), attrs=()):
        """Everything but the given attributes of the given nodes, and the given edges, is as it was."""
        ctx = it.ctx
        other = z3.And(*[n != k for k in nodes]) if nodes else z3.BoolVal(True)
        ctx.prove("the other nodes are the ones there were", z3.Implies(other, new.node(n) == s.NODE(n)))
        for a in sorted({x[2:] for x in list(new.m) if x.startswith("n:")}):
            keep = s.NODE(n) if a not in attrs else z3.And(s.NODE(n), other)
            ctx.prove("attribute %s of other nodes is unchanged" % a, z3.Implies(keep, same_value(new.nattr(n, a), old[("n", a)])))
        for k in [x for x in nodes if nodes]:
            ctx.prove("the node is in the diagram", new.node(k))
        oe = z3.And(*[z3.Not(z3.And(u == p, v == q)) for p, q in edges]) if edges else z3.BoolVal(True)
        ctx.prove("the other edges are the ones there were", z3.Implies(oe, new.edge(u, v) == s.EDGE(u, v)))
        for a in sorted({x[2:] for x in list(new.m) if x.startswith("e:")}):
            ctx.prove("attribute %s of other edges is unchanged" % a, z3.Implies(z3.And(oe, s.EDGE(u, v)), same_value(new.eattr(u, v, a), old[("e", a)])))
        for name, x in old["rest"].items():
            ctx.prove("%s is unchanged" % name, z3.BoolVal(new.rest[name] is x))

    def before(it, t):
        w = View(it, t)
        old = {("n", x[2:]): w.nattr(n, x[2:]) for x in list(w.m) if x.startswith("n:")}
        old.update({("e", x[2:]): w.eattr(u, v, x[2:]) for x in list(w.m) if x.startswith("e:")})
        old["rest"] = w.rest
        return old

    for cls in (TopologyDiagram, FormDiagram):
        def empty(it, cls=cls):
            t = it.call(cls)
            w = View(it, t) if cls is TopologyDiagram else None
            if w is not None:
                it.ctx.prove("no node", z3.Not(w.node(n)))
                it.ctx.prove("no registered position", z3.Not(w.reg(g)[0]))
            r = method(it, t, "node_key", lvec(it, "p"))
            it.ctx.prove("nothing is found in an empty diagram", z3.BoolVal(r is None))
        V.unit("%s.__init__" % cls.__name__, empty)

    # ------------------------------------------------------------- look-up
    def lookup(it):
        t = setup(it)
        ctx = it.ctx
        p = lvec(it, "p")
        P = gkey_of(it, p)
        r = force(ctx, method(it, t, "node_key", p))
        ex = method(it, t, "node_exists", p)
        if r is None:
            ctx.prove("nothing is found only where no node is", z3.Implies(s.NODE(n), GK(tol, *s.xyz(n)) != P))
            ctx.prove("node_exists agrees with the look-up", z3.Not(as_bool(it, ex)))
            return
        ctx.prove("what is found is a node at that position", z3.And(s.NODE(toz(r)), GK(tol, *s.xyz(toz(r))) == P))
        ctx.prove("it is the only node there", z3.Implies(z3.And(s.NODE(n), GK(tol, *s.xyz(n)) == P), n == toz(r)))
        ctx.prove("node_exists agrees with the look-up", as_bool(it, ex))
        frame(it, before(it, t), View(it, t))
    V.unit("node_key, node_exists (coordinates)", lookup)

    def lookup_key(it):
        t = setup(it)
        it.ctx.assume(s.NODE(key))
        r = method(it, t, "node_key", Sym("int", key))
        it.ctx.prove("a key stands for itself", toz(r) == key)
        xyz = method(it, t, "node_xyz", Sym("int", key))
        it.ctx.prove("node_xyz reads the position", z3.And(*[zreal(a) == b for a, b in zip(items(it, xyz), s.xyz(key))]))
        back = force(it.ctx, method(it, t, "node_key", xyz))
        it.ctx.prove("the position of a node leads back to it", toz(back) == key if back is not None else z3.BoolVal(False))
    V.unit("node_key, node_xyz (key)", lookup_key)

    # ------------------------------------------------------ adding and moving
    def placed(it, t, old, k, p):
        ctx = it.ctx
        w = invariant(it, t)
        ctx.prove("the node is at the given position", z3.And(w.node(k), *[zreal(w.nattr(k, a)) == zreal(x) for a, x in zip("xyz", items(it, p))]))
        frame(it, old, w, nodes=[k], attrs=("x", "y", "z"))
        r = force(ctx, method(it, t, "node_key", p))
        ctx.prove("the position leads to the node", toz(r) == k if r is not None else z3.BoolVal(False))
        return w

    def add_new(it):
        t = setup(it)
        p = lvec(it, "p")
        free_for(it, p)
        old = before(it, t)
        node = it.call(Node, (), {"xyz": p})
        k = toz(method(it, t, "add_node", node))
        it.ctx.prove("a node without key gets a key of its own", z3.Not(s.NODE(k)))
        w = placed(it, t, old, k, p)
        it.ctx.prove("a new node is free of loads, reactions, type and sequence",
                     z3.And(*[zreal(w.nattr(k, a)) == 0 for a in ("qx", "qy", "qz", "rx", "ry", "rz")] + [
                         same_value(w.nattr(k, "type"), None), same_value(w.nattr(k, "_k"), None)]))
    V.unit("add_node (new)", add_new)

    def add_keyed(it):
        t = setup(it)
        it.ctx.assume(key >= 0)
        p = lvec(it, "p")
        free_for(it, p, key)
        old = before(it, t)
        k = toz(method(it, t, "add_node", it.call(Node, (Sym("int", key), p))))
        it.ctx.prove("the node has the given key", k == key)
        placed(it, t, old, key, p)
    V.unit("add_node (key given)", add_keyed)

    for name in ("update_node_xyz", "node_xyz"):
        def move(it, name=name):
            t = setup(it)
            it.ctx.assume(s.NODE(key))
            p = lvec(it, "p")
            free_for(it, p, key)
            old = before(it, t)
            method(it, t, name, Sym("int", key), p)
            placed(it, t, old, key, p)
            q = lvec(it, "q")
            Q = gkey_of(it, q)
            it.ctx.assume(z3.And(Q == GK(tol, *s.xyz(key)), Q != gkey_of(it, p)))
            it.ctx.prove("nothing is found where the node was", z3.BoolVal(force(it.ctx, method(it, t, "node_key", q)) is None))
        V.unit("%s (move)" % name, move)

    # ---------------------------------------------------------------- edges
    def edge_unit(kind, how):
        def fn(it):
            t = setup(it)
            ctx = it.ctx
            ends, want = [], []
            for i, h in enumerate(how):
                if h == "key":
                    k = z3.Int("end%d" % i)
                    ctx.assume(s.NODE(k))
                    ends.append(Sym("int", k))
                    want.append(("key", k))
                else:
                    p = lvec(it, "end%d" % i)
                    ends.append(p)
                    want.append(("xyz", gkey_of(it, p), p))
            # two different ends
            gk = [w[1] if w[0] == "xyz" else GK(tol, *s.xyz(w[1])) for w in want]
            ctx.assume(gk[0] != gk[1])
            if all(h == "key" for h in how):
                ctx.assume(want[0][1] != want[1][1])
            old = before(it, t)
            val = z3.Real("prescribed")
            par = "length" if kind is TrailEdge else "force"
            if how == ("xyz", "xyz"):
                e = it.call(it.getattr(kind, "from_line"), ((ends[0], ends[1]),), {par: Sym("real", val)})
            else:
                e = it.call(kind, (ends[0], ends[1], Sym("real", val)))
            r = it.unpack(method(it, t, "add_edge", e), [None, None])
            ru, rv = [toz(force(ctx, x)) for x in r]
            ctx.assume(z3.Not(s.EDGE(rv, ru)))       # no edge between the two in the other direction
            for w, k, side in zip(want, (ru, rv), ("first", "second")):
                if w[0] == "key":
                    ctx.prove("the %s end is the given node" % side, k == w[1])
                    continue
                P = w[1]
                ctx.prove("the %s end is the node at the given position" % side, z3.Implies(occupied(P), k == s.GKV(P)))
                ctx.prove("a node is created for the %s end only where there is none" % side, s.NODE(k) == occupied(P))
                new = View(it, t)
                ctx.prove("the created %s end is at the given position" % side, z3.Implies(z3.Not(occupied(P)), z3.And(
                    *[zreal(new.nattr(k, a)) == zreal(x) for a, x in zip("xyz", items(it, w[2]))])))
            w = invariant(it, t)
            frame(it, old, w, nodes=[ru, rv], edges=[(ru, rv)])
            ctx.prove("the edge is in the diagram", w.edge(ru, rv))
            ctx.prove("the edge has its type and prescribed value", z3.And(
                same_value(w.eattr(ru, rv, "type"), "trail" if kind is TrailEdge else "deviation"),
                zreal(w.eattr(ru, rv, par)) == val))
        V.unit("add_edge(%s, %s - %s)" % (kind.__name__, how[0], how[1]), fn)
    for kind in (TrailEdge, DeviationEdge):
        for how in (("key", "key"), ("xyz", "xyz"), ("key", "xyz"), ("xyz", "key")):
            edge_unit(kind, how)

    # ------------------------------------------------------ supports and loads
    def attach(name, make, attrs, value, by):
        def fn(it):
            t = setup(it)
            ctx = it.ctx
            p = lvec(it, "p")
            P = gkey_of(it, p)
            o = make(it, Sym("int", key) if by == "key" else None, p)
            old = before(it, t)
            kind, r = outcome(it, it.getattr(t, name), (o,))
            there = s.NODE(key) if by == "key" else occupied(P)
            if kind == "raise":
                ctx.prove("refused only when there is no node", z3.Not(there))
                if by == "xyz":
                    ctx.prove("refused with a ValueError", z3.BoolVal(r is ValueError))
                frame(it, old, View(it, t))
                return
            ctx.prove("accepted only when there is a node", there)
            w = invariant(it, t)
            k = key if by == "key" else s.GKV(P)
            frame(it, old, w, nodes=[k], attrs=attrs)
            ctx.prove("the node has the given value", value(it, w, k))
        V.unit("%s (by %s)" % (name, "key" if by == "key" else "coordinates"), fn)

    def support(it, k, p):
        return it.call(NodeSupport, (k,)) if k is not None else it.call(it.getattr(NodeSupport, "from_point"), (p,))

    def load(it, k, p):
        q = lvec(it, "load")
        return it.call(NodeLoad, (k, q)) if k is not None else it.call(it.getattr(NodeLoad, "from_point_and_vector"), (p, q))

    def is_support(it, w, k):
        return same_value(w.nattr(k, "type"), "support")

    def is_load(it, w, k):
        return z3.And(*[zreal(w.nattr(k, "q" + a)) == z3.Real("load" + a) for a in "xyz"])
    for by in ("key", "xyz"):
        attach("add_support", support, ("type",), is_support, by)
        attach("add_load", load, ("qx", "qy", "qz"), is_load, by)
