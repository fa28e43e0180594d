"""C10: optimization variables, bounds and written attributes stay aligned."""
from .opt import *  # noqa: F401,F403


def verify(V):
    alignment(V, full=True)


def alignment(V, full=False):
    """Variables, bounds and writing back; with full, also the histories of parameters."""
    s = Sig()
    i, j, m, u, v, a = z3.Ints("i j m u v a")

    def setup(it, distinct=False):
        well_formed(it, s)
        P = Params(it, s, distinct=distinct)
        return P, optimizer(it, P), topology(it, s)

    def low(P, i):
        INF = it_inf()
        return z3.If(P.HASLO(i), P.start(i) - absz(P.LO(i)), -INF)

    def up(P, i):
        INF = it_inf()
        return z3.If(P.HASUP(i), P.start(i) + absz(P.UP(i)), INF)

    def it_inf():
        from pyvc.interp import Interp
        return Interp.INF

    def entry(it, arr, i):
        t, n = it.get(force(it.ctx, arr))
        return z3.Select(t, i)

    def variables(it):
        P, o, t = setup(it)
        r = method(it, o, "optimization_parameters", t)
        it.ctx.prove("one variable per parameter", it.get(r)[1] == P.n)
        it.ctx.assume(z3.And(i >= 0, i < P.n))
        it.ctx.prove("entry i is the current value of parameter i", entry(it, r, i) == P.start(i))
    V.unit("optimization_parameters", variables)

    def bounds(it):
        P, o, t = setup(it)
        r = method(it, o, "optimization_bounds", t)
        lo, hi = it.unpack(r, [0, 0])
        it.ctx.prove("one bound per parameter", z3.And(it.get(lo)[1] == P.n, it.get(hi)[1] == P.n))
        it.ctx.assume(z3.And(i >= 0, i < P.n))
        it.ctx.prove("lower bound i", entry(it, lo, i) == low(P, i))
        it.ctx.prove("upper bound i", entry(it, hi, i) == up(P, i))
    V.unit("optimization_bounds", bounds)

    def write(it):
        P, o, t = setup(it, distinct=True)
        x = sym_array(it, "x", P.n)
        x0 = it.get(x)[0]
        method(it, o, "_update_parameters", t, x)
        nn = len(P.NODE_ATTR)

        def want(c, inv, same, old):
            return z3.If(z3.And(inv >= 0, inv < P.n, P.CLS(inv) == c, same(inv)), z3.Select(x0, inv), old)
        it.ctx.assume(z3.And(s.NODE(m), s.EDGE(u, v)))
        for c, name in enumerate(P.names):
            if c < nn:
                at = P.NODE_ATTR[name]
                got = method(it, t, "node_attribute", Sym("int", m), at)
                it.ctx.prove("attribute %s is set exactly where there is such a parameter" % at,
                             zreal(got) == want(c, P.INVN(c, m), lambda q: P.PK(q) == m, s.N[at](m)))
            else:
                at = P.EDGE_ATTR[name]
                old = (s.LEN if at == "length" else s.FRC)(u, v)
                got = method(it, t, "edge_attribute", (Sym("int", u), Sym("int", v)), at)
                it.ctx.prove("attribute %s is set exactly where there is such a parameter" % at,
                             zreal(got) == want(c, P.INVE(c, u, v), lambda q: z3.And(P.PU(q) == u, P.PV(q) == v), old))
        it.ctx.prove("reactions are untouched", z3.And(*[zreal(method(it, t, "node_attribute", Sym("int", m), r)) == s.N[r](m) for r in ("rx", "ry", "rz")]))
        it.ctx.prove("kinds are untouched", z3.And(eq(method(it, t, "node_attribute", Sym("int", m), "type"), Sym("val", s.NTYPE(m))),
                                                   eq(method(it, t, "edge_attribute", (Sym("int", u), Sym("int", v)), "type"), Sym("val", s.ETYPE(u, v)))))
        it.ctx.prove("no node or edge appears", z3.And(as_bool(it, method(it, t, "has_node", Sym("int", a))) == s.NODE(a),
                                                       as_bool(it, method(it, t, "has_edge", Sym("int", a), Sym("int", m))) == s.EDGE(a, m)))
        k = z3.Int("k")
        it.ctx.prove("the vector is unchanged", z3.Select(it.get(x)[0], k) == z3.Select(x0, k))
    V.unit("_update_parameters", write, budget=300)
    if not full:
        return

    def held(it, o, pos):
        """The parameter held at a position of the optimizer."""
        d = it.get(o)["parameters"]
        if not isinstance(d, ODict):
            raise Unsupported("the optimizer stores its parameters differently")
        n, key, value, index = it.get(d)
        return force(it.ctx, value(pos))

    def is_param(it, obj, P, i):
        """obj is the parameter number i of P."""
        if not isinstance(obj, Inst) or obj.cls not in P.classes:
            return z3.BoolVal(False)
        a = it.get(obj)
        c = P.classes.index(obj.cls)
        key = Sym("int", P.PK(i)) if c < len(P.NODE_ATTR) else (Sym("int", P.PU(i)), Sym("int", P.PV(i)))
        return z3.And(P.CLS(i) == c, eq(a["_key"], key), eq(a["_bound_low"], Choice(P.HASLO(i), Sym("real", P.LO(i)), None)),
                      eq(a["_bound_up"], Choice(P.HASUP(i), Sym("real", P.UP(i)), None)))

    def invariant(it, o):
        """What the next operation relies on."""
        n2, key, value, index = it.get(it.get(o)["parameters"])
        it.ctx.assume(z3.And(j >= 0, j < n2))
        it.ctx.prove("dictionary keys stay below the counter and distinct", z3.And(key(j) <= toz(it.get(o)["_pkey"]), index(key(j)) == j))
        return n2

    def add(it):
        P, o, t = setup(it)
        new = Inst(it.ctx, object, {})
        method(it, o, "add_parameter", new)
        n2 = invariant(it, o)
        it.ctx.prove("one more parameter", z3.And(n2 == P.n + 1, toz(method(it, o, "number_of_parameters")) == P.n + 1))
        it.ctx.prove("the new parameter is the last one", z3.BoolVal(held(it, o, P.n) == new))
        it.ctx.assume(z3.And(i >= 0, i < P.n))
        it.ctx.prove("earlier parameters stay in place", is_param(it, held(it, o, i), P, i))
    V.unit("add_parameter", add)

    def remove(it):
        P, o, t = setup(it)
        k = z3.Int("pkey")
        there = z3.And(P.IDX(k) >= 0, P.IDX(k) < P.n, P.DK(P.IDX(k)) == k)
        kind, r = outcome(it, it.getattr(o, "remove_parameter"), (Sym("int", k),))
        if kind == "raise":
            it.ctx.prove("refused with a KeyError only when absent", z3.And(z3.Not(there), z3.BoolVal(r is KeyError)))
            return
        it.ctx.prove("removes a present parameter", there)
        n2 = invariant(it, o)
        it.ctx.prove("one parameter less", z3.And(n2 == P.n - 1, toz(method(it, o, "number_of_parameters")) == P.n - 1))
        it.ctx.assume(z3.And(i >= 0, i < P.n - 1))
        ii = simp(z3.If(i < P.IDX(k), i, i + 1))
        it.ctx.prove("the others keep their order", is_param(it, held(it, o, i), P, ii))
    V.unit("remove_parameter", remove)

    def fresh(it):
        from compas_cem.optimization import Optimizer
        o = it.call(Optimizer, ())
        it.ctx.prove("a new optimizer has no parameter", toz(method(it, o, "number_of_parameters")) == 0)
    V.unit("Optimizer.__init__", fresh)


def absz(x):
    return z3.If(x >= 0, x, -x)
