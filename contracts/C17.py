"""C17: collections, counters and filters describe the diagram's content."""
from .topo import *  # noqa: F401,F403


def lsq(ts):
    return z3.Sum([mk_mul(t, t) for t in ts])


def verify(V):
    s = Sig()
    n, u, v = z3.Ints("n u v")

    def setup(it):
        well_formed(it, s)
        numbered(it, s)
        one_orientation(it, s)
        return topology(it, s)

    NODES = {
        "support_nodes": ("number_of_support_nodes", "is_node_support", lambda n: s.support(n)),
        "origin_nodes": (None, "is_node_origin", lambda n: s.origin(n)),
    }
    for name, (counter, pred, cond) in NODES.items():
        def nodes(it, name=name, counter=counter, pred=pred, cond=cond):
            t = setup(it)
            check_listing(it, name, method(it, t, name), 1, lambda n: z3.And(s.NODE(n), cond(n)))
            if counter:
                c = method(it, t, counter)
                it.ctx.prove("%s is the length of the listing" % counter, toz(c) == count_of(1, lambda n: z3.And(s.NODE(n), cond(n))))
            it.ctx.assume(s.NODE(n))
            it.ctx.prove("%s agrees with the listing" % pred, as_bool(it, method(it, t, pred, Sym("int", n))) == cond(n))
        V.unit(name, nodes)

    def loaded(it):
        t = setup(it)
        h = real("min_force")
        it.ctx.assume(h.z >= 0)

        def cond(f):
            return lambda n: z3.And(s.NODE(n), mk_sqrt(lsq(s.load(n))) > f)
        check_listing(it, "loaded_nodes", method(it, t, "loaded_nodes", min_force=h), 1, cond(h.z))
        dflt = core.rv(core.Fraction("1e-06"))
        check_listing(it, "loaded_nodes (default)", method(it, t, "loaded_nodes"), 1, cond(dflt))
        c = method(it, t, "number_of_loaded_nodes")
        it.ctx.prove("number_of_loaded_nodes is the length of the listing", toz(c) == count_of(1, cond(dflt)))
        it.ctx.assume(s.NODE(n))
        it.ctx.prove("is_node_loaded agrees with the listing", as_bool(it, method(it, t, "is_node_loaded", Sym("int", n), h)) == (mk_sqrt(lsq(s.load(n))) > h.z))
    V.unit("loaded_nodes", loaded)

    def same(u, v):
        return s.K(u) == s.K(v)
    EDGES = {
        "trail_edges": ("number_of_trail_edges", "is_trail_edge", lambda u, v: s.trail(u, v)),
        "deviation_edges": ("number_of_deviation_edges", "is_deviation_edge", lambda u, v: s.deviation(u, v)),
        "direct_deviation_edges": ("number_of_direct_deviation_edges", "is_direct_deviation_edge", lambda u, v: z3.And(s.deviation(u, v), same(u, v))),
        "indirect_deviation_edges": ("number_of_indirect_deviation_edges", "is_indirect_deviation_edge", lambda u, v: z3.And(s.deviation(u, v), z3.Not(same(u, v)))),
        "auxiliary_trail_edges": (None, "is_auxiliary_trail_edge", None),
    }
    k = z3.Int("auxk")

    def aux(u, v):
        return z3.Exists([k], z3.And(s.AUX(k), s.AUXU(k) == u, s.AUXV(k) == v))
    for name, (counter, pred, cond) in EDGES.items():
        cond = cond or aux

        def edges(it, name=name, counter=counter, pred=pred, cond=cond):
            t = setup(it)
            check_listing(it, name, method(it, t, name), 2, lambda u, v: z3.And(s.EDGE(u, v), cond(u, v)))
            check_listing(it, name + "(data=True)", method(it, t, name, data=True), 2, lambda u, v: z3.And(s.EDGE(u, v), cond(u, v)), data=t)
            if counter:
                c = method(it, t, counter)
                it.ctx.prove("%s is the length of the listing" % counter, toz(c) == count_of(2, lambda u, v: z3.And(s.EDGE(u, v), cond(u, v))))
            it.ctx.assume(s.EDGE(u, v))
            it.ctx.prove("%s agrees with the listing" % pred, as_bool(it, method(it, t, pred, (Sym("int", u), Sym("int", v)))) == cond(u, v))
        V.unit(name, edges)

    def trail_counts(it):
        t = setup(it)
        it.ctx.prove("number_of_trails", toz(method(it, t, "number_of_trails")) == count_of(1, lambda k: s.TR(k)))
        it.ctx.prove("number_of_auxiliary_trails", toz(method(it, t, "number_of_auxiliary_trails")) == count_of(1, lambda k: s.AUX(k)))
        has = as_bool(it, method(it, t, "has_trails"))
        it.ctx.prove("has_trails", has == (count_of(1, lambda k: s.TR(k)) > 0))
        it.ctx.prove("number_of_nodes", toz(method(it, t, "number_of_nodes")) == count_of(1, lambda k: s.NODE(k)))
        it.ctx.prove("number_of_edges", toz(method(it, t, "number_of_edges")) == count_of(2, lambda a, b: s.EDGE(a, b)))
    V.unit("trail, node and edge counters", trail_counts)

    def reads(it):
        t = setup(it)
        it.ctx.assume(z3.And(s.NODE(n), s.EDGE(u, v)))
        N, E = Sym("int", n), (Sym("int", u), Sym("int", v))
        it.ctx.prove("node_load reads the stored load", vz(it, method(it, t, "node_load", N), s.load(n)))
        it.ctx.prove("reaction_force reads the stored reaction", vz(it, method(it, t, "reaction_force", N), s.reac(n)))
        it.ctx.prove("node_xyz reads the stored position", vz(it, method(it, t, "node_xyz", N), s.xyz(n)))
        it.ctx.prove("edge_force reads the stored force", numeq(method(it, t, "edge_force", E), Sym("real", s.FRC(u, v))))
        it.ctx.prove("edge_length_2 reads the stored length", numeq(method(it, t, "edge_length_2", E), Sym("real", s.LEN(u, v))))
        p = method(it, t, "edge_plane", E)
        if p is None:
            it.ctx.prove("edge_plane is None exactly when there is none", z3.Not(s.HASPL(u, v)))
        else:
            it.ctx.prove("edge_plane is None exactly when there is none", s.HASPL(u, v))
            o, nn = it.unpack(p, [None, None])
            it.ctx.prove("edge_plane reads the stored plane", z3.And(vz(it, o, [f(u, v) for f in s.PLO]), vz(it, nn, [f(u, v) for f in s.PLN])))
        it.ctx.prove("is_edge_supported", as_bool(it, method(it, t, "is_edge_supported", E)) == z3.Or(s.support(u), s.support(v)))
    V.unit("attribute readers", reads)

    def seqs(it):
        t = setup(it)
        it.ctx.assume(z3.And(s.NODE(n), s.EDGE(u, v)))
        it.ctx.prove("node_sequence reads the stored number", toz(method(it, t, "node_sequence", Sym("int", n))) == s.K(n))
        a, b = it.unpack(method(it, t, "edge_sequence", (Sym("int", u), Sym("int", v))), [0, 0])
        it.ctx.prove("edge_sequence", z3.And(toz(a) == s.K(u), toz(b) == s.K(v)))
    V.unit("sequence readers", seqs)

    stored(V, s)


def vz(it, v, ts):
    xs = items(it, v)
    if xs is None or len(xs) != len(ts):
        return z3.BoolVal(False)
    return z3.And(*[zreal(force(it.ctx, x)) == t for x, t in zip(xs, ts)])


def stored(V, s):
    """What was stored through the element classes is what is read back."""
    n, m, u, v, a, b = z3.Ints("n m u v a b")
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    from compas_cem.elements import TrailEdge, DeviationEdge

    def loads(it):
        well_formed(it, s)
        t = topology(it, s)
        it.ctx.assume(z3.And(s.NODE(n), s.NODE(m)))
        q = [z3.Real("l" + c) for c in "xyz"]
        ld = it.call(NodeLoad, (Sym("int", n), ListObj(it.ctx, [Sym("real", x) for x in q])))
        method(it, t, "add_load", ld)
        got = method(it, t, "node_load", Sym("int", m))
        it.ctx.prove("the load read back is the load last stored", vz(it, got, [z3.If(m == n, x, y) for x, y in zip(q, s.load(m))]))
        it.ctx.prove("positions are untouched", vz(it, method(it, t, "node_coordinates", Sym("int", m)), s.xyz(m)))
        method(it, t, "add_support", it.call(NodeSupport, (Sym("int", n),)))
        it.ctx.prove("exactly that node became a support", as_bool(it, method(it, t, "is_node_support", Sym("int", m))) == z3.Or(m == n, s.support(m)))
    V.unit("add_load, add_support", loads)

    def edge(it, kind):
        well_formed(it, s)
        t = topology(it, s)
        it.ctx.assume(z3.And(s.NODE(u), s.NODE(v), u != v, s.EDGE(a, b)))
        val = z3.Real("value")
        if kind == "trail":
            e = it.call(TrailEdge, (Sym("int", u), Sym("int", v)), {"length": Sym("real", val)})
        else:
            e = it.call(DeviationEdge, (Sym("int", u), Sym("int", v)), {"force": Sym("real", val)})
        k = method(it, t, "add_edge", e)
        it.ctx.prove("the key returned is the pair of nodes", eq(k, (Sym("int", u), Sym("int", v))))
        E, O = (Sym("int", u), Sym("int", v)), (Sym("int", a), Sym("int", b))
        hit = z3.And(u == a, v == b)
        it.ctx.prove("the edge has the right kind", z3.And(as_bool(it, method(it, t, "is_trail_edge", E)) == (kind == "trail"),
                                                           as_bool(it, method(it, t, "is_deviation_edge", E)) == (kind != "trail")))
        reader, other = ("edge_length_2", "edge_force") if kind == "trail" else ("edge_force", "edge_length_2")
        old, oldo = (s.LEN, s.FRC) if kind == "trail" else (s.FRC, s.LEN)
        it.ctx.prove("its value is the value given", numeq(method(it, t, reader, E), Sym("real", val)))
        it.ctx.prove("other edges keep theirs", z3.Implies(z3.Not(hit), numeq(method(it, t, reader, O), Sym("real", old(a, b)))))
        it.ctx.prove("the other attribute of existing edges is kept", numeq(method(it, t, other, O), Sym("real", oldo(a, b))))
        c, d = z3.Ints("c d")
        it.ctx.prove("exactly this edge was added", as_bool(it, method(it, t, "has_edge", Sym("int", c), Sym("int", d))) == z3.Or(s.EDGE(c, d), z3.And(c == u, d == v)))
        it.ctx.prove("no node was added", as_bool(it, method(it, t, "has_node", Sym("int", c))) == s.NODE(c))
    V.unit("add_edge (trail)", lambda it: edge(it, "trail"))
    V.unit("add_edge (deviation)", lambda it: edge(it, "deviation"))
