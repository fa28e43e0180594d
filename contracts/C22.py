"""C22: a drawing shows what was asked for.

The artists are made by their real constructors; what they hand to the base artist and to the plotter is
recorded.  Labels are texts made of literal parts and formatted values (pyvc.values.Text).
"""
from .C18 import *  # noqa: F401,F403
from .topo import *  # noqa: F401,F403
from pyvc.core import Opaque
from pyvc.values import GKey, Obj, Text, same_text

ROT = "compas: a Line transformed by Rotation.from_axis_and_angle([0, 0, 1], a, p) is the line rotated by a about the vertical through p; cos and sin of +-pi/4 are exact"
LAYERS = "compas_plotters: NetworkArtist.draw_nodes, draw_edges, draw_nodelabels, draw_edgelabels draw their layer, clear removes what was drawn before"
CROSS = z3.Real("cos_of_45_degrees")


class Turn(Obj):
    """A rotation about a vertical axis."""
    __slots__ = ()


class Canvas(Obj):
    """The plotter: lines added to it are recorded, the first and the second line of a node in a list each."""
    __slots__ = ()

    def pv_getattr(self, it, name):
        if name == "add":
            def add(it, item, artist=None, **kw):
                from compas.geometry import Line
                item = force(it.ctx, item)
                if not isinstance(item, Inst) or item.cls is not Line:
                    raise Unsupported("something else than a line is drawn")
                p, q = [[it.getattr(it.getattr(item, e), c) for c in "xyz"] for e in ("start", "end")]
                st = it.get(self)
                st["turn"][0] ^= 1
                it.list_append(st["even" if st["turn"][0] else "odd"], tuple(p) + tuple(q))
            return Native(add)
        raise Unsupported("attribute %s of the plotter" % name)


def layers(it, rec):
    """Contracts of the layers of the base artist: what is drawn is recorded in order."""
    from compas_plotters.artists import NetworkArtist
    from compas_cem.plotters import FormArtist, TopologyArtist
    C = it.ctx.contracts
    it.ctx.assumptions.add(LAYERS)

    def event(name, f=None):
        def run(it, me, *a, **k):
            rec.append(name)
        return run
    for name in ("draw_nodes", "draw_edges", "draw_nodelabels", "draw_edgelabels"):
        C[getattr(NetworkArtist, name)] = event(name)
    C[NetworkArtist.clear] = event("clear")
    for cls in (FormArtist, TopologyArtist):
        for name in ("draw_nodes", "draw_edges", "draw_loads", "draw_reactions"):
            f = cls.__dict__.get(name)
            if f is not None:
                C[f] = event(name)


def verify(V):
    from compas_cem.plotters import FormArtist, TopologyArtist
    from compas_cem.diagrams import FormDiagram, TopologyDiagram
    from compas.geometry import Line, Rotation
    import compas_cem
    COL = compas_cem.COLORS
    s = Sig()
    u, v, n = z3.Ints("u v n")
    LIT = core.literal

    def setup(it, cls, artist, rec, **kw):
        well_formed(it, s)
        t = topology(it, s, cls=cls)
        base_artist(it, rec)
        it.ctx.assumptions.add("the diagram that is drawn has an edge")
        it.ctx.assume(s.EDGE(*z3.Ints("some_u some_v")))
        return t, it.call(artist, (t,), kw)

    # ------------------------------------------------------------------ layers
    SW = [("show_nodes", "draw_nodes"), ("show_edges", "draw_edges"), ("show_loads", "draw_loads"), ("show_reactions", "draw_reactions"),
          ("show_nodetext", "draw_nodelabels"), ("show_edgetext", "draw_edgelabels")]

    def drawing(cls, artist, reactions, later):
        def unit(it):
            ctx = it.ctx
            rec = []
            sw = [x for x in SW if reactions or x[0] != "show_reactions"]
            on = {a: z3.Bool(a) for a, _ in sw}
            given = {a: Sym("bool", b) for a, b in on.items()}
            t, a = setup(it, cls, artist, {}, **({} if later else given))
            if later:
                for k, b in given.items():
                    it.setattr(a, k, b)
            layers(it, rec)
            method(it, a, "draw")
            for k, name in sw:
                ctx.prove("%s: drawn once if it is switched on, and not otherwise" % name,
                          z3.And(z3.Implies(on[k], z3.BoolVal(rec.count(name) == 1)), z3.Implies(z3.Not(on[k]), z3.BoolVal(name not in rec))))
            ctx.prove("what was drawn before is cleared first", z3.BoolVal(rec[:1] == ["clear"] and rec.count("clear") == 1))
        return unit
    V.unit("FormArtist.draw", drawing(FormDiagram, FormArtist, True, False))
    V.unit("FormArtist.draw, switched after it is made", drawing(FormDiagram, FormArtist, True, True))
    V.unit("TopologyArtist.draw", drawing(TopologyDiagram, TopologyArtist, False, False))
    V.unit("TopologyArtist.draw, switched after it is made", drawing(TopologyDiagram, TopologyArtist, False, True))

    def defaults(cls, artist, want):
        def unit(it):
            t, a = setup(it, cls, artist, {})
            for k, w in want.items():
                it.ctx.prove("%s when nothing is asked for" % k, z3.BoolVal(it.getattr(a, k) is w))
        return unit
    V.unit("FormArtist: defaults", defaults(FormDiagram, FormArtist, dict(show_nodes=True, show_edges=True, show_loads=True, show_reactions=True, show_nodetext=False, show_edgetext=False)))
    V.unit("TopologyArtist: defaults", defaults(TopologyDiagram, TopologyArtist, dict(show_nodes=True, show_edges=True, show_loads=True, show_nodetext=False, show_edgetext=False)))

    # ------------------------------------------------------------------ crosses
    def crosses(it):
        ctx = it.ctx
        ctx.assumptions.update([ROT, "NetworkArtist.node_size gives every node a positive size"])
        ctx.axioms.append(z3.And(CROSS > 0, CROSS * CROSS * 2 == 1))

        def rotation(it, *a, **k):
            import math
            names = ["axis", "angle", "point"]
            k = dict(zip(names, a), **k)
            axis = [force(ctx, x) for x in it.unpack(k["axis"], [0, 0, 0])]
            if axis != [0, 0, 1]:
                raise Unsupported("rotation about %r" % (axis,))
            ang = force(ctx, k["angle"])
            if not isinstance(ang, (Fraction, float, int)) or abs(abs(float(ang)) - math.pi / 4) > 1e-12:
                raise Unsupported("rotation by %r" % (ang,))
            return Turn(ctx, {"s": CROSS if ang > 0 else -CROSS, "p": tuple(it.unpack(k["point"], [0, 0, 0]))})

        def transform(it, line, R):
            R = force(ctx, R)
            if not isinstance(R, Turn):
                raise Unsupported("transformation")
            r = it.get(R)
            px, py, _ = [zreal(x) for x in r["p"]]
            for e in ("start", "end"):
                q = it.getattr(line, e)
                x, y, z = [zreal(it.getattr(q, c)) for c in "xyz"]
                dx, dy = simp(x - px), simp(y - py)
                nx = px + core.mk_mul(CROSS, dx) - core.mk_mul(r["s"], dy)
                ny = py + core.mk_mul(r["s"], dx) + core.mk_mul(CROSS, dy)
                it.setattr(line, e, (core.mk("real", nx), core.mk("real", ny), core.mk("real", z)))
        from compas.geometry import Primitive
        C = ctx.contracts
        for f in (Rotation.from_axis_and_angle,):
            C[f] = rotation
            C[f.__func__] = lambda it, cls, *a, **k: rotation(it, *a, **k)
        C[Line.transform] = transform
        shown = z3.Function("shown", z3.IntSort(), z3.BoolSort())
        t, a = setup(it, TopologyDiagram, TopologyArtist, {}, nodes=ListObj(ctx, (), SColl(1, lambda m: z3.And(s.NODE(m), shown(m)), lambda m: Sym("int", m))))
        ls = [ListObj(ctx, ()), ListObj(ctx, ())]
        sizes = DictObj(ctx, SMap(1, lambda k: s.NODE(k), lambda k: Sym("real", SIZE(k))))
        it.put(a, dict(it.get(a), _plotter=Canvas(ctx, {"even": ls[0], "odd": ls[1], "turn": [0]}), _node_size=sizes))
        method(it, a, "draw_loads")
        ctx.assume(s.NODE(n))
        loaded = as_bool(it, method(it, t, "is_node_loaded", Sym("int", n)))
        cs = [it.iterate(x) for x in ls]
        if any(isinstance(c, list) and c or not isinstance(c, list) and (not isinstance(c, SColl) or c.width != 1) for c in cs):
            raise Unsupported("lines that do not belong to the nodes")
        gs = [z3.BoolVal(False) if isinstance(c, list) else simp(c.guard(n)) for c in cs]
        for g in gs:
            ctx.prove("a node has a cross exactly when it is drawn and loaded", g == z3.And(loaded, shown(n)))
        if any(isinstance(c, list) for c in cs):
            return
        ctx.assume(z3.And(*gs))
        size = SIZE(n)
        q = z3.Int("qn")
        ctx.axioms.append(z3.ForAll([q], z3.Implies(s.NODE(q), SIZE(q) > 0), patterns=[SIZE(q)]))
        xyz = [s.N[c](n) for c in "xyz"]
        ends = [[zreal(x) for x in force(ctx, c.raw((n,)))] for c in cs]
        d = core.mk_mul(CROSS, size)
        arms = []
        for r in ends:
            for e in (r[:3], r[3:]):
                ctx.prove("the lines of a cross lie at the height of its node", e[2] == xyz[2])
                ctx.prove("the lines of a cross end one node size away from its node along a diagonal",
                          z3.And(z3.Or(e[0] == xyz[0] + d, e[0] == xyz[0] - d), z3.Or(e[1] == xyz[1] + d, e[1] == xyz[1] - d)))
            ctx.prove("the lines of a cross go through its node", z3.And(*[r[i] + r[i + 3] == 2 * xyz[i] for i in range(3)]))
            arms.append((r[3] - r[0], r[4] - r[1]))
        (ax, ay), (bx, by) = arms
        same = z3.Or(z3.And(ax == bx, ay == by), z3.And(ax == -bx, ay == -by))
        ctx.prove("the two lines of a cross differ", z3.Not(same))
    V.unit("TopologyArtist.draw_loads", crosses)

    # ------------------------------------------------------------------ colours by type
    def by_type(it):
        rec = {}
        t, a = setup(it, TopologyDiagram, TopologyArtist, rec, edgecolor="type")
        ctx = it.ctx
        p, q = z3.Ints("p q")
        trail, dev = LIT("trail"), LIT("deviation")
        ctx.axioms.append(z3.ForAll([p, q], z3.Implies(s.EDGE(p, q), z3.Or(s.ETYPE(p, q) == trail, s.ETYPE(p, q) == dev)), patterns=[s.ETYPE(p, q)]))
        ctx.assume(s.EDGE(u, v))
        E = (Sym("int", u), Sym("int", v))
        aux = as_bool(it, method(it, t, "is_auxiliary_trail_edge", E))
        built = as_bool(it, method(it, t, "has_trails"))
        m = z3.Int("m")
        ctx.assumptions.add("diagram: where trails have been built every node has a sequence number (postcondition of build_trails, C06)")
        ctx.axioms.append(z3.ForAll([m], z3.Implies(z3.And(s.NODE(m), built), z3.And(s.HASK(m), s.K(m) >= 0)), patterns=[s.NODE(m)]))
        direct = as_bool(it, method(it, t, "is_direct_deviation_edge", E)) if ctx.decide(z3.And(s.ETYPE(u, v) == dev, built)) else z3.BoolVal(True)
        method(it, a, "draw_edges")
        tr = s.ETYPE(u, v) == trail
        colored(it, "an edge of a topology drawn by type", rec.get("edges"), E,
                [(aux, COL["auxiliary_trail"]), (z3.And(z3.Not(aux), tr), COL["edge_trail"]),
                 (z3.And(z3.Not(aux), z3.Not(tr), direct), COL["edge_deviation"]),
                 (z3.And(z3.Not(aux), z3.Not(tr), z3.Not(direct)), COL["edge_deviation_indirect"])])
    V.unit("TopologyArtist.draw_edges by type", by_type)

    def by_sequence(it):
        from compas.colors import ColorMap
        rec = {}
        ctx = it.ctx
        numbered(it, s)
        well_formed(it, s)
        t = topology(it, s, cls=TopologyDiagram)
        base_artist(it, rec)
        ctx.assumptions.add("compas.colors.ColorMap: the colour is a function of the value and of the largest value")
        ctx.contracts[ColorMap.from_color] = lambda it, *a, **k: Native(lambda it, value, minval=0, maxval=1: (value, minval, maxval))
        ctx.contracts[ColorMap.from_color.__func__] = ctx.contracts[ColorMap.from_color]
        ctx.assume(s.EDGE(*z3.Ints("some_u some_v")))
        a = it.call(TopologyArtist, (t,), {"nodecolor": "sequence"})
        method(it, a, "draw_nodes")
        ctx.assume(s.NODE(n))
        last = toz(method(it, t, "sequence_last"))
        dom, c = color_of(it, rec.get("nodes"), Sym("int", n))
        ctx.prove("a node drawn by sequence has a colour", dom)
        if not isinstance(c, tuple):
            raise Unsupported("colours by sequence")
        ctx.prove("the colour of a node is that of its sequence, of all sequences", z3.And(
            zreal(c[0]) == z3.ToReal(s.K(n)), zreal(c[1]) == 0, zreal(c[2]) == z3.ToReal(last)))
    V.unit("TopologyArtist.draw_nodes by sequence", by_sequence)

    # ------------------------------------------------------------------ labels
    def label(it, what, d, key, want):
        ctx = it.ctx
        d = force(ctx, d)
        if not isinstance(d, DictObj):
            ctx.prove("%s: there are labels" % what, z3.BoolVal(False))
            return
        dom, val = d_lookup(ctx, it.get(d), key)
        ctx.prove("%s: every item has a label" % what, dom)
        val = force(ctx, val)
        if isinstance(val, GKey):
            val = Text([(val, "")])
        same = same_text(val, Text(want))
        if same is None:
            raise Unsupported("%s: label %r" % (what, val))
        ctx.prove("%s: the label shows the values of its item" % what, same)

    f, ln = s.FRC(u, v), s.LEN(u, v)

    def S(x):
        return Sym("real", simp(x))

    def ab(x):
        return S(z3.If(x >= 0, x, -x))

    def edge_labels(cls, artist, tag, want):
        def unit(it):
            t, a = setup(it, cls, artist, {}, edgetext=tag)
            it.ctx.assume(s.EDGE(u, v))
            label(it, "edge text %r" % tag, it.getattr(a, "edge_text"), (Sym("int", u), Sym("int", v)), want(it, t))
        return unit
    F2 = ".2f"

    def state(it):
        x = z3.If(s.ETYPE(u, v) == LIT("trail"), ln, f)
        it.ctx.assume(x != 0)
        return S(z3.If(x < 0, z3.RealVal(-1), z3.RealVal(1)))

    def dist(it, t):
        return it.call(it.getattr(t, "edge_length"), (Sym("int", u), Sym("int", v)), {})
    for tag, want in {"force": lambda it, t: [(S(f), F2)], "length": lambda it, t: [(dist(it, t), F2)],
                      "forcelength": lambda it, t: ["f: ", (S(f), F2), "\nl: ", (dist(it, t), F2)]}.items():
        V.unit("FormArtist._edge_textlabel(%r)" % tag, edge_labels(FormDiagram, FormArtist, tag, want))
    for tag, want in {"force": lambda it, t: [(ab(f), F2)], "length": lambda it, t: [(ab(ln), F2)],
                      "forcelength": lambda it, t: ["f: ", (ab(f), F2), "\nl: ", (ab(ln), F2)],
                      "state": lambda it, t: [(state(it), F2)],
                      "forcelengthstate": lambda it, t: ["f: ", (ab(f), F2), "\nl: ", (ab(ln), F2), "\ns: ", (state(it), F2)],
                      "type": lambda it, t: [(Sym("val", s.ETYPE(u, v)), "")]}.items():
        V.unit("TopologyArtist._edge_textlabel(%r)" % tag, edge_labels(TopologyDiagram, TopologyArtist, tag, want))

    def node_labels(cls, artist, tag, want):
        def unit(it):
            if "sequence" in tag:
                numbered(it, s)
            t, a = setup(it, cls, artist, {}, nodetext=tag)
            it.ctx.assume(s.NODE(n))
            label(it, "node text %r" % tag, it.getattr(a, "node_text"), Sym("int", n), want(it, t))
        return unit

    def gk(it, t):
        from compas.utilities import geometric_key
        return it.call(geometric_key, (tuple(Sym("real", s.N[c](n)) for c in "xyz"), "2f"), {})
    for cls, artist in ((FormDiagram, FormArtist), (TopologyDiagram, TopologyArtist)):
        for tag, want in {"xyz": lambda it, t: [(gk(it, t), "")], "keyxyz": lambda it, t: [(Sym("int", n), ""), "\n", (gk(it, t), "")]}.items():
            V.unit("%s._node_textlabel(%r)" % (artist.__name__, tag), node_labels(cls, artist, tag, want))
    V.unit("TopologyArtist._node_textlabel('type')", node_labels(TopologyDiagram, TopologyArtist, "type", lambda it, t: [(Sym("val", s.NTYPE(n)), "")]))
    for tag, pre in (("sequence", []), ("keysequence", [(Sym("int", n), ""), "\n"])):
        V.unit("TopologyArtist._node_textlabel(%r)" % tag, node_labels(TopologyDiagram, TopologyArtist, tag, lambda it, t, pre=pre: pre + [
            (method(it, t, "node_sequence", Sym("int", n)), "")]))


SIZE = z3.Function("node_size", z3.IntSort(), z3.RealSort())
