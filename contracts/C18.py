"""C18: drawings encode the force state.

The artists are made by their real constructors on arbitrary diagrams; what they hand to the base
artist of compas_plotters (colours, widths, line styles) is recorded and compared with the diagram.
"""
from .topo import *  # noqa: F401,F403
from pyvc.core import Opaque
from pyvc.values import Obj

BASE = "compas_plotters.NetworkArtist draws every node and edge with the colour, width and line style handed to it"


class Lines(Obj):
    """The line collection of the base artist."""
    __slots__ = ()

    def pv_getattr(self, it, name):
        if name in ("set_linestyle", "set_linestyles"):
            def ls(it, v):
                it.put(self, {"styles": it.iterate(v)})
            return Native(ls)
        raise Unsupported("attribute %s of a line collection" % name)


SHOWN = z3.Function("shown", z3.IntSort(), z3.BoolSort())
SHOWN_E = z3.Function("shown_edge", z3.IntSort(), z3.IntSort(), z3.BoolSort())


def base_artist(it, rec):
    """Contracts of the base artist."""
    from compas_plotters.artists import NetworkArtist
    from compas.colors import Color, ColorMap
    ctx = it.ctx
    ctx.assumptions.add(BASE)
    C = ctx.contracts

    def init(it, me, network, nodes=None, edges=None, nodecolor=None, edgecolor=None, edgewidth=1, show_nodes=True, show_edges=True,
             nodesize=5, sizepolicy="relative", zorder=1000, **kw):
        it.put(me, dict(it.get(me), _network=network, _nodes=nodes, _edges=edges, _node_xyz=None, _node_text=None, _edge_text=None,
                        _edge_width=None, _node_size=None, _edgecollection=None, _nodecollection=None, _plotter=Opaque("plotter")))
        it.setattr(me, "edge_width", edgewidth)
        it.setattr(me, "show_nodes", show_nodes)
        it.setattr(me, "show_edges", show_edges)
    C[NetworkArtist.__init__] = init

    def draw_nodes(it, me, nodes=None, color=None, **kw):
        rec["nodes"] = color
        rec["count_nodes"] = rec.get("count_nodes", 0) + 1

    def draw_edges(it, me, edges=None, color=None, **kw):
        rec["edges"] = color
        rec["lines"] = Lines(it.ctx, {"styles": None})
        it.put(me, dict(it.get(me), _edgecollection=rec["lines"]))
    C[NetworkArtist.draw_nodes] = draw_nodes
    C[NetworkArtist.draw_edges] = draw_edges
    for f in (Color.from_rgb255, ColorMap.from_color):
        C[f] = lambda it, *a, **k: Opaque("colour map")
        C[f.__func__] = C[f]


def color_of(it, d, key):
    d = force(it.ctx, d)
    if not isinstance(d, DictObj):
        raise Unsupported("colours that are not a dictionary")
    return d_lookup(it.ctx, it.get(d), key)


def is_color(it, c, want):
    """The colour is the given triple."""
    return eq(c, want) if not isinstance(c, tuple) else z3.And(*[eq(x, y) for x, y in zip(c, want)]) if len(c) == len(want) else z3.BoolVal(False)


def colored(it, name, d, key, cases):
    """The colour stored for a key, by cases."""
    dom, c = color_of(it, d, key)
    it.ctx.prove("%s has a colour" % name, dom)
    if c is None:
        return
    for cond, want in cases:
        it.ctx.prove("%s: colour by its state" % name, z3.Implies(cond, is_color(it, c, want)))


def verify(V):
    from compas_cem.plotters import FormArtist, TopologyArtist
    from compas_cem.diagrams import FormDiagram, TopologyDiagram
    import compas_cem
    C = compas_cem.COLORS
    s = Sig()
    u, v, n = z3.Ints("u v n")
    LIT = core.literal

    def setup(it, cls, artist, rec, **kw):
        well_formed(it, s)
        t = topology(it, s, cls=cls)
        base_artist(it, rec)
        it.ctx.assumptions.add("an edge is drawn")
        it.ctx.assume(z3.And(s.EDGE(*z3.Ints("some_u some_v")), SHOWN_E(*z3.Ints("some_u some_v"))))     # precondition: an edge is drawn
        ns = ListObj(it.ctx, (), SColl(1, lambda m: z3.And(s.NODE(m), SHOWN(m)), lambda m: Sym("int", m)))
        es = ListObj(it.ctx, (), SColl(2, lambda p, q: z3.And(s.EDGE(p, q), SHOWN_E(p, q)), lambda p, q: (Sym("int", p), Sym("int", q))))
        return t, it.call(artist, (t,), dict(kw, nodes=ns, edges=es))

    def distinct(it):
        names = ["compression", "tension", "edge"]
        ok = all(C[a] != C[b] for a in names for b in names if a < b) and C["node_support"] != C["node"] and len({
            C["node_support"], C["node_origin"], C["node"]}) == 3 and C["auxiliary_trail"] not in (C["compression"], C["tension"])
        it.ctx.prove("the colours of different states differ", z3.BoolVal(ok))
    V.unit("COLORS", distinct)

    def form_edges(it):
        rec = {}
        t, a = setup(it, FormDiagram, FormArtist, rec)
        method(it, a, "draw_edges")
        it.ctx.assume(z3.And(s.EDGE(u, v), SHOWN_E(u, v)))
        f = s.FRC(u, v)
        colored(it, "an edge of a form", rec.get("edges"), (Sym("int", u), Sym("int", v)),
                [(f < 0, C["compression"]), (f > 0, C["tension"]), (f == 0, C["edge"])])
    V.unit("FormArtist.draw_edges", form_edges)

    def form_nodes(it):
        rec = {}
        t, a = setup(it, FormDiagram, FormArtist, rec)
        method(it, a, "draw_nodes")
        it.ctx.assume(z3.And(s.NODE(n), SHOWN(n)))
        sup = s.NTYPE(n) == LIT("support")
        colored(it, "a node of a form", rec.get("nodes"), Sym("int", n), [(sup, C["node_support"]), (z3.Not(sup), C["node"])])
    V.unit("FormArtist.draw_nodes", form_nodes)

    def widths(it):
        rec = {}
        lo, hi = real("low"), real("high")
        t, a = setup(it, FormDiagram, FormArtist, rec, edgewidth=(lo, hi))
        e, e1, e2 = [tuple(z3.Ints("%s_u %s_v" % (x, x))) for x in ("e", "e1", "e2")]
        ctx = it.ctx
        p, q = z3.Ints("p q")

        def F(x):
            f = s.FRC(*x)
            return z3.If(f >= 0, f, -f)
        for x in (e, e1, e2):
            ctx.assume(z3.And(s.EDGE(*x), SHOWN_E(*x)))
        ctx.pc.append(z3.ForAll([p, q], z3.Implies(z3.And(s.EDGE(p, q), SHOWN_E(p, q)), z3.And(F(e1) <= F((p, q)), F((p, q)) <= F(e2))), patterns=[s.EDGE(p, q)]))
        w = it.getattr(a, "edge_width")

        def width(x):
            dom, val = d_lookup(ctx, it.get(force(ctx, w)), (Sym("int", x[0]), Sym("int", x[1])))
            ctx.prove("an edge has a width", dom)
            return zreal(val)
        we = width(e)
        d = F(e2) - F(e1)
        r = mk_div(simp(F(e) - F(e1)), simp(d))
        want = mk_mul(simp(1 - r), lo.z) + mk_mul(r, hi.z)
        ctx.prove("widths interpolate linearly between the smallest and the largest force", z3.Implies(d > 0, we == want))
        ctx.prove("the edge with the smallest force has the low width", z3.Implies(d > 0, width(e1) == lo.z))
        ctx.prove("the edge with the largest force has the high width", width(e2) == hi.z)
    V.unit("FormArtist.edge_width", widths)

    def topo_nodes(it):
        rec = {}
        t, a = setup(it, TopologyDiagram, TopologyArtist, rec)
        ctx = it.ctx
        m = z3.Int("m")
        kinds = [LIT("support"), LIT("_origin"), LIT(None)]
        ctx.axioms.append(z3.ForAll([m], z3.Implies(s.NODE(m), z3.Or(*[s.NTYPE(m) == k for k in kinds])), patterns=[s.NTYPE(m)]))
        method(it, a, "draw_nodes")
        ctx.assume(z3.And(s.NODE(n), SHOWN(n)))
        colored(it, "a node of a topology", rec.get("nodes"), Sym("int", n),
                [(s.NTYPE(n) == kinds[0], C["node_support"]), (s.NTYPE(n) == kinds[1], C["node_origin"]), (s.NTYPE(n) == kinds[2], C["node"])])
    V.unit("TopologyArtist.draw_nodes", topo_nodes)

    def topo_edges(it):
        rec = {}
        t, a = setup(it, TopologyDiagram, TopologyArtist, rec)
        ctx = it.ctx
        p, q = z3.Ints("p q")
        trail, dev = LIT("trail"), LIT("deviation")
        ctx.axioms.append(z3.ForAll([p, q], z3.Implies(s.EDGE(p, q), z3.Or(s.ETYPE(p, q) == trail, s.ETYPE(p, q) == dev)), patterns=[s.ETYPE(p, q)]))
        ctx.assume(z3.And(s.EDGE(u, v), SHOWN_E(u, v)))
        aux = as_bool(it, method(it, t, "is_auxiliary_trail_edge", (Sym("int", u), Sym("int", v))))
        method(it, a, "draw_edges")
        x = z3.If(s.ETYPE(u, v) == trail, s.LEN(u, v), s.FRC(u, v))
        colored(it, "an edge of a topology", rec.get("edges"), (Sym("int", u), Sym("int", v)),
                [(aux, C["auxiliary_trail"]), (z3.And(z3.Not(aux), x < 0), C["compression"]), (z3.And(z3.Not(aux), x > 0), C["tension"])])
        styles = it.get(rec["lines"])["styles"] if "lines" in rec else None
        if styles is None:
            ctx.prove("line styles are set", z3.BoolVal(False))
            return
        edges = it.iterate(it.getattr(a, "edges"))
        if isinstance(edges, list) or type(styles) is not type(edges):
            raise Unsupported("line styles")
        qs = [z3.Int("style_%d" % i) for i in range(edges.width)]
        st = lib.flat(styles.raw(qs) if hasattr(styles, "raw") else styles.item(qs[0]))
        ed = lib.flat(edges.raw(qs) if hasattr(edges, "raw") else edges.item(qs[0]))
        g = edges.guard(*qs)
        ctx.prove("one line style per edge", styles.guard(*qs) == g)
        et = s.ETYPE(toz(ed[0]), toz(ed[1]))
        ctx.prove("trail edges are solid and deviation edges dashed", z3.Implies(g, z3.And(
            z3.Implies(et == trail, eq(st, "-")), z3.Implies(et == dev, eq(st, "--")))))
    V.unit("TopologyArtist.draw_edges", topo_edges)
