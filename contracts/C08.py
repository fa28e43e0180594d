"""C08: sequences and the direct or indirect kind of deviation edges."""
from .topo import *  # noqa: F401,F403


def verify(V):
    s = Sig()
    n, m, u, v, key, seq = z3.Ints("n m u v key seq")

    def setup(it, **kw):
        well_formed(it, s)
        one_orientation(it, s)
        W = Trails(it, s, **kw)
        return topology(it, s), W

    def node_k(it, t, n):
        """The sequence number stored for n: (present, value)."""
        c = net.maps(it, t)["n:_k"]
        dom, val = d_lookup(it.ctx, c, Sym("int", n))
        return val

    def check_map(it, W, d, key):
        x = z3.Int("x")
        c = d.c if isinstance(d, FDict) else it.get(d)
        dom, val = d_lookup(it.ctx, c, Sym("int", x))
        inside = z3.And(x >= W.K0(key), x < W.K0(key) + s.TLEN(key))
        it.ctx.prove("the sequences of the trail are its consecutive numbers", dom == inside)
        it.ctx.prove("each sequence maps to the node of the trail with that number", z3.Implies(inside, toz(val) == s.AT(key, x - W.K0(key))))

    def shift(it):
        t, W = setup(it)
        it.ctx.assume(z3.And(s.TR(key), s.NODE(key), seq >= 0))
        kind, r = outcome(it, it.getattr(t, "shift_trail"), (Sym("int", key), Sym("int", seq)))
        if kind == "raise":
            it.ctx.prove("refused only when the key is not an origin", z3.Not(s.origin(key)))
            return
        it.ctx.assume(s.NODE(m))
        got = method(it, t, "node_sequence", Sym("int", m))
        it.ctx.prove("exactly the nodes of the trail are renumbered consecutively",
                     toz(got) == z3.If(W.TRK(m) == key, seq + W.POS(m), s.K(m)))
        x = method(it, t, "trail", Sym("int", key))
        i = z3.Int("i")
        it.ctx.prove("the trail itself is unchanged", z3.And(x.n == s.TLEN(key), z3.Implies(z3.And(i >= 0, i < s.TLEN(key)), toz(x.item(i)) == s.AT(key, i))))
    V.unit("shift_trail", shift)

    def listings_after_shift(it):
        """Queries reflect whatever numbers are stored (any numbering)."""
        t, W = setup(it, consecutive=False)
        numbered(it, s)
        it.ctx.assume(s.NODE(n))
        last = method(it, t, "sequence_last")
        it.ctx.prove("the last sequence is an upper bound", s.K(n) <= toz(last))
        it.ctx.prove("the last sequence is reached by a node", aggr_exists(lambda x: z3.And(s.NODE(x), s.K(x) == toz(last))))
        num = method(it, t, "number_of_sequences")
        it.ctx.prove("the number of sequences is the last one plus one", toz(num) == toz(last) + 1)
    V.unit("sequence_last, number_of_sequences", listings_after_shift)

    def sequences(it):
        t, W = setup(it, consecutive=False)
        numbered(it, s)
        it.ctx.assume(s.NODE(n))
        num = toz(method(it, t, "number_of_sequences"))
        j = z3.Int("j")
        for keys in (False, True):
            r = it.iterate(method(it, t, "sequences", keys=keys))
            if not isinstance(r, SSeq):
                raise Unsupported("sequences as %r" % (r,))
            it.ctx.prove("one listing per sequence", r.n == num)
            it.ctx.assume(z3.And(j >= 0, j < num))
            x = force(it.ctx, r.item(j))
            if keys:
                kk, x = it.unpack(x, [0, 0])
                it.ctx.prove("sequences come in order", toz(kk) == j)
            check_listing(it, "nodes of a sequence", x, 1, lambda a: z3.And(s.NODE(a), s.K(a) == j))
    V.unit("sequences", sequences)

    def trail_sequences(it):
        t, W = setup(it)
        it.ctx.assume(s.TR(key))
        d = method(it, t, "trail_sequences", Sym("int", key))
        check_map(it, W, d, key)
    V.unit("trail_sequences", trail_sequences)

    def trails_sequences(it):
        t, W = setup(it)
        d = method(it, t, "trails_sequences")
        dom, val = d_lookup(it.ctx, it.get(d), Sym("int", key))
        it.ctx.prove("one entry per trail", dom == s.TR(key))
        it.ctx.assume(s.TR(key))
        val = force(it.ctx, val)
        check_map(it, W, val, key)
    V.unit("trails_sequences", trails_sequences)

    def classify(it):
        t, W = setup(it, consecutive=False)
        numbered(it, s)
        it.ctx.assume(s.EDGE(u, v))
        E = (Sym("int", u), Sym("int", v))
        d = as_bool(it, method(it, t, "is_direct_deviation_edge", E))
        i = as_bool(it, method(it, t, "is_indirect_deviation_edge", E))
        it.ctx.prove("direct exactly when both ends have the same number", d == z3.And(s.deviation(u, v), s.K(u) == s.K(v)))
        it.ctx.prove("indirect otherwise", i == z3.And(s.deviation(u, v), s.K(u) != s.K(v)))
        it.ctx.prove("a trail edge is neither", z3.Implies(s.trail(u, v), z3.And(z3.Not(d), z3.Not(i))))
    V.unit("is_direct_deviation_edge, is_indirect_deviation_edge", classify)

    KINDS = {"connected_trail_edges": lambda a, b: s.trail(a, b), "connected_deviation_edges": lambda a, b: s.deviation(a, b),
             "_connected_direct_deviation_edges": lambda a, b: z3.And(s.deviation(a, b), s.K(a) == s.K(b)),
             "_connected_indirect_deviation_edges": lambda a, b: z3.And(s.deviation(a, b), s.K(a) != s.K(b))}
    for name, cond in KINDS.items():
        def conn(it, name=name, cond=cond):
            t, W = setup(it, consecutive=False)
            numbered(it, s)
            it.ctx.assume(s.NODE(n))
            r = method(it, t, name, Sym("int", n))
            mem, once = edge_listing(it, r, u, v)
            it.ctx.prove("exactly the incident edges of that kind, whatever their direction",
                         mem == z3.And(s.EDGE(u, v), z3.Or(u == n, v == n), cond(u, v)))
            it.ctx.prove("each listed once", once)
        V.unit(name, conn)

    def unnumbered(it):
        well_formed(it, s)
        t = topology(it, s)
        it.ctx.assume(s.NODE(n))
        kind, r = outcome(it, it.getattr(t, "node_sequence"), (Sym("int", n),))
        if kind == "raise":
            it.ctx.prove("refused with a ValueError only without a number", z3.And(z3.Not(s.HASK(n)), z3.BoolVal(r is ValueError)))
        else:
            it.ctx.prove("the stored number", z3.And(s.HASK(n), toz(r) == s.K(n)))
    V.unit("node_sequence", unnumbered)


def aggr_exists(pred):
    from pyvc import aggr
    p = z3.FreshInt("ex")
    return aggr.aggregate("exists", [p], simp(pred(p)))
