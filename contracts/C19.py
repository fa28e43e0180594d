"""C19: loads and reactions are drawn as arrows at their nodes.

The artist is made by its real constructor on an arbitrary form diagram; every arrow it hands to the
plotter is recorded and compared with the load, the reaction and the position of its node.
"""
from .C18 import *  # noqa: F401,F403
from .topo import *  # noqa: F401,F403
from pyvc.core import Opaque
from pyvc.values import Obj

PLOT = "compas_plotters.Plotter.add(vector, point=p) draws the vector as an arrow that starts at p"
SIZES = "NetworkArtist.node_size gives every node a positive size"
SHOWN = z3.Function("shown", z3.IntSort(), z3.BoolSort())
SIZE = z3.Function("node_size", z3.IntSort(), z3.RealSort())


class PlotterObj(Obj):
    """The plotter: what is added to it is recorded in a list."""
    __slots__ = ()

    def pv_getattr(self, it, name):
        if name == "add":
            def add(it, item, artist=None, **kw):
                from compas.geometry import Vector
                item, p = force(it.ctx, item), force(it.ctx, kw.get("point"))
                if not isinstance(item, Inst) or item.cls is not Vector or p is None:
                    raise Unsupported("something else than a vector at a point is drawn")
                v = [it.getattr(item, a) for a in "xyz"]
                q = [it.getattr(p, a) for a in "xyz"] if isinstance(p, Inst) else it.unpack(p, [0, 0, 0])
                col = force(it.ctx, kw.get("color"))
                col = Opaque("no colour") if not isinstance(col, tuple) else col
                it.list_append(it.get(self)["arrows"], tuple(v) + tuple(q) + (col,))
            return Native(add)
        raise Unsupported("attribute %s of the plotter" % name)


def verify(V):
    from compas_cem.plotters import FormArtist
    from compas_cem.diagrams import FormDiagram
    from compas_plotters.artists import NetworkArtist
    import compas_cem
    COL = compas_cem.COLORS
    s = Sig()
    n = z3.Int("n")
    I, B = z3.IntSort(), z3.BoolSort()

    def setup(it, **kw):
        ctx = it.ctx
        well_formed(it, s)
        t = topology(it, s, cls=FormDiagram)
        rec = {}
        base_artist(it, rec)
        ctx.assumptions.update([PLOT, SIZES, "the form that is drawn has an edge"])
        ctx.assume(s.EDGE(*z3.Ints("some_u some_v")))
        a = it.call(FormArtist, (t,), dict(kw, nodes=ListObj(ctx, (), SColl(1, lambda m: z3.And(s.NODE(m), SHOWN(m)), lambda m: Sym("int", m)))))
        arrows = ListObj(ctx, ())
        p = PlotterObj(ctx, {"arrows": arrows})
        sizes = DictObj(ctx, SMap(1, lambda k: s.NODE(k), lambda k: Sym("real", SIZE(k))))
        q = z3.Int("qn")
        ctx.axioms.append(z3.ForAll([q], z3.Implies(s.NODE(q), SIZE(q) > 0), patterns=[SIZE(q)]))
        it.put(a, dict(it.get(a), _plotter=p, _node_size=sizes))
        return t, a, arrows

    def arrow(it, arrows, what, attrs, scale, tol, shifted, color):
        """The arrow of an arbitrary node n."""
        ctx = it.ctx
        c = it.iterate(arrows)
        f = [s.N[x](n) for x in attrs]
        xyz = [s.N[x](n) for x in "xyz"]
        ln = core.mk_sqrt(simp(sum_sq(f)))
        ctx.assume(s.NODE(n))
        if isinstance(c, list):
            if c:
                raise Unsupported("arrows that do not belong to the nodes")
            ctx.prove("%s: a drawn node has an arrow exactly when the force reaches the tolerance" % what, z3.Or(z3.Not(SHOWN(n)), ln < tol))
            return
        if not isinstance(c, SColl) or c.width != 1:
            raise Unsupported("arrows that do not belong to the nodes")
        g = simp(c.guard(n))
        ctx.prove("%s: a drawn node has an arrow exactly when the force reaches the tolerance" % what, g == z3.And(SHOWN(n), ln >= tol))
        ctx.assume(z3.And(g, ln >= tol))
        r = force(ctx, c.raw((n,)))
        v, p, col = [zreal(x) for x in r[:3]], [zreal(x) for x in r[3:6]], r[6]
        ctx.prove("%s: the arrow is the force times the scale" % what, z3.And(*[a == core.mk_mul(scale, b) for a, b in zip(v, f)]))
        ctx.prove("%s: the arrow has the colour of its kind" % what, is_color(it, col, color) if isinstance(col, tuple) else z3.BoolVal(False))
        u = [core.mk_div(x, ln) for x in f]
        fs = [core.mk_mul(x, scale) for x in f]
        size = SIZE(n)
        ls = core.mk_sqrt(simp(sum_sq(fs)))

        def at(d):
            return z3.And(*[a == b + core.mk_mul(c_, d) for a, b, c_ in zip(p, xyz, u)])
        plain = at(size)
        back = z3.Or(at(simp(-(size + ls))), at(simp(-(size + core.mk_mul(scale, ln)))))
        if shifted is None:
            ctx.prove("%s: the arrow starts one node size away from its node" % what, plain)
        else:
            push, pull = shifted
            ctx.prove("%s: where the edges pull, the arrow starts one node size away from its node" % what, z3.Implies(pull, plain))
            ctx.prove("%s: where the edges push, the arrow ends one node size before its node" % what, z3.Implies(push, back))

    def sum_sq(f):
        r = core.mk_mul(f[0], f[0])
        for x in f[1:]:
            r = r + core.mk_mul(x, x)
        return r

    def loads(it):
        sc, tol = z3.Real("scale"), z3.Real("tol")
        it.ctx.assume(z3.And(tol > 0, sc > 0))
        t, a, arrows = setup(it, loadscale=Sym("real", sc), loadtol=Sym("real", tol), reactionscale=real("other_scale"), reactiontol=real("other_tol"))
        method(it, a, "draw_loads")
        arrow(it, arrows, "load", ["qx", "qy", "qz"], sc, tol, None, COL["load"])
    V.unit("FormArtist.draw_loads", loads)

    def reactions(it):
        ctx = it.ctx
        sc, tol = z3.Real("scale"), z3.Real("tol")
        ctx.assume(z3.And(tol > 0, sc > 0))
        t, a, arrows = setup(it, reactionscale=Sym("real", sc), reactiontol=Sym("real", tol), loadscale=real("other_scale"), loadtol=real("other_tol"))
        m, u, v = z3.Ints("m some_u some_v")
        OTHER = z3.Function("some_neighbour", I, I)
        ctx.assumptions.add("every node of the form has an edge")
        ctx.axioms.append(z3.ForAll([m], z3.Implies(s.NODE(m), z3.Or(s.EDGE(m, OTHER(m)), s.EDGE(OTHER(m), m))), patterns=[s.NODE(m)]))
        ctx.assumptions.add("no two edges of the form join the same nodes")
        ctx.axioms.append(z3.ForAll([u, v], z3.Implies(s.EDGE(u, v), z3.Not(s.EDGE(v, u))), patterns=[s.EDGE(u, v)]))
        method(it, a, "draw_reactions")
        # the edge with the largest force at the node
        b = z3.Int("b")
        bu, bv = (n, b) if ctx.decide(z3.Bool("the edge leaves the node")) else (b, n)

        def ab(x):
            return z3.If(x >= 0, x, -x)
        ctx.assume(s.EDGE(bu, bv))
        ctx.pc.append(z3.ForAll([u, v], z3.Implies(z3.And(s.EDGE(u, v), z3.Or(u == n, v == n)),
                                                  z3.And(ab(s.FRC(u, v)) <= ab(s.FRC(bu, bv)),
                                                         z3.Implies(ab(s.FRC(u, v)) == ab(s.FRC(bu, bv)), s.FRC(u, v) == s.FRC(bu, bv)))),
                                patterns=[s.EDGE(u, v)]))
        arrow(it, arrows, "reaction", ["rx", "ry", "rz"], sc, tol, (s.FRC(bu, bv) < 0, s.FRC(bu, bv) >= 0), COL["support_force"])
    V.unit("FormArtist.draw_reactions", reactions)
