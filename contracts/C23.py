"""C23: the 3D viewer draws the state of a diagram.

The objects are made by their real constructors; what they hand to the viewer is recorded.  The viewer library
itself (compas_view2) is not installed here; its classes are replaced by the stand-ins in vp/viewstub.py.
"""
import ast
import collections
import inspect

from .C18 import *  # noqa: F401,F403
from .topo import *  # noqa: F401,F403
from vp import viewstub
from pyvc.core import Opaque
from pyvc.values import GKey, Obj, Text, same_text

VIEW = "compas_view2 (replaced by vp/viewstub.py): the viewer draws the shapes it is given, in the colour it is given; Arrow(p, v) starts at p and ends at p + v"


class Groups(Obj):
    """A defaultdict(list) filled under the keys named in the source."""
    __slots__ = ()

    def pv_getitem(self, it, k):
        k = force(it.ctx, k)
        if k not in it.get(self):
            raise Unsupported("key %r of a defaultdict" % (k,))
        return it.get(self)[k]

    def pv_getattr(self, it, name):
        full = Native(lambda it: [k for k, x in it.get(self).items() if it.truth(x)])
        if name == "items":
            return Native(lambda it: ListObj(it.ctx, [(k, x) for k, x in it.get(self).items() if it.truth(x)]))
        if name == "values":
            return Native(lambda it: ListObj(it.ctx, [x for k, x in it.get(self).items() if it.truth(x)]))
        if name in ("keys", "__iter__"):
            return Native(lambda it: ListObj(it.ctx, full.f(it)))
        raise Unsupported("attribute %s of a defaultdict" % name)


class ViewerObj(Obj):
    """The viewer: what is added to it is recorded."""
    __slots__ = ()

    def pv_getattr(self, it, name):
        if name == "add":
            def add(it, item, **kw):
                it.get(self)["rec"].append((item, kw))
            return Native(add)
        raise Unsupported("attribute %s of the viewer" % name)


def verify(V):
    vw = viewstub.load()
    FO, TO = vw.FormDiagramObject, vw.TopologyDiagramObject
    from compas_cem.diagrams import FormDiagram, TopologyDiagram
    from compas.colors import Color
    import compas_cem
    COL = {k: tuple(Fraction(repr(x)) for x in Color.from_rgb255(*v[:3]).rgb) if isinstance(v, tuple) else v for k, v in compas_cem.COLORS.items()}
    s = Sig()
    u, v, n = z3.Ints("u v n")
    LIT = core.literal

    def setup(it, form, **kw):
        ctx = it.ctx
        well_formed(it, s)
        t = topology(it, s, cls=FormDiagram if form else TopologyDiagram)
        ctx.assumptions.update([VIEW, "an edge is drawn"])
        ctx.assume(z3.And(s.EDGE(*z3.Ints("some_u some_v")), SHOWN_E(*z3.Ints("some_u some_v"))))
        rec = []
        ns = ListObj(ctx, (), SColl(1, lambda m: z3.And(s.NODE(m), SHOWN(m)), lambda m: Sym("int", m)))
        es = ListObj(ctx, (), SColl(2, lambda p, q: z3.And(s.EDGE(p, q), SHOWN_E(p, q)), lambda p, q: (Sym("int", p), Sym("int", q))))
        if not form:
            p, q, m = z3.Ints("p q m")
            ctx.axioms.append(z3.ForAll([p, q], z3.Implies(s.EDGE(p, q), z3.Or(s.ETYPE(p, q) == LIT("trail"), s.ETYPE(p, q) == LIT("deviation"))), patterns=[s.ETYPE(p, q)]))
            built = as_bool(it, method(it, t, "has_trails"))
            ctx.assumptions.add("diagram: where trails have been built every node has a sequence number (postcondition of build_trails, C06)")
            ctx.axioms.append(z3.ForAll([m], z3.Implies(z3.And(s.NODE(m), built), z3.And(s.HASK(m), s.K(m) >= 0)), patterns=[s.NODE(m)]))
        off = dict(show_edges=False, show_loads=False, show_residuals=False, show_nodetext=False, show_edgetext=False)
        o = it.call(FO if form else TO, (t,), dict(off, **dict(dict(viewer=ViewerObj(ctx, {"rec": rec}), nodes=ns, edges=es), **kw)))
        return t, o, rec

    def nodes(form):
        def unit(it):
            t, o, rec = setup(it, form)
            it.ctx.assume(z3.And(s.NODE(n), SHOWN(n)))
            sup, org = s.NTYPE(n) == LIT("support"), s.NTYPE(n) == LIT("_origin")
            cases = [(sup, COL["node_support"])]
            cases += [(z3.Not(sup), COL["node_black"])] if form else [(org, COL["node_origin"]), (z3.Not(z3.Or(sup, org)), COL["node_black"])]
            colored(it, "a node", it.getattr(o, "pointcolors"), Sym("int", n), cases)
        return unit
    V.unit("FormDiagramObject.node_color", nodes(True))
    V.unit("TopologyDiagramObject.node_color", nodes(False))

    def edge_cases(it, t, form):
        f = s.FRC(u, v)
        if form:
            return [(f < 0, COL["compression"]), (f >= 0, COL["tension"])]
        E = (Sym("int", u), Sym("int", v))
        aux = as_bool(it, method(it, t, "is_auxiliary_trail_edge", E))
        built = as_bool(it, method(it, t, "has_trails"))
        tr = s.ETYPE(u, v) == LIT("trail")
        direct = z3.Or(z3.Not(built), s.K(u) == s.K(v))
        return [(aux, COL["auxiliary_trail"]), (z3.And(z3.Not(aux), tr), COL["edge_trail"]),
                (z3.And(z3.Not(aux), z3.Not(tr), direct), COL["edge_deviation"]),
                (z3.And(z3.Not(aux), z3.Not(tr), z3.Not(direct)), COL["edge_deviation_indirect"])]

    def edges(form):
        def unit(it):
            t, o, rec = setup(it, form)
            it.ctx.assume(z3.And(s.EDGE(u, v), SHOWN_E(u, v)))
            colored(it, "an edge", it.getattr(o, "linecolors"), (Sym("int", u), Sym("int", v)), edge_cases(it, t, form))
        return unit
    V.unit("FormDiagramObject.edge_color", edges(True))
    V.unit("TopologyDiagramObject.edge_color", edges(False))

    def groups(form):
        def unit(it):
            ctx = it.ctx
            C = ctx.contracts
            from compas.geometry import Circle, Cylinder, Plane
            cls = FO if form else TO
            ctx.assumptions.add("an entry of a defaultdict(list) that holds an empty list is as good as absent")
            keys = sorted({x.value for x in ast.walk(ast.parse(inspect.getsource(inspect.getmodule(cls)))) if isinstance(x, ast.Constant) and isinstance(x.value, str)})
            C[collections.defaultdict] = lambda it, f: Groups(ctx, {k: ListObj(ctx, ()) for k in keys})
            C[Plane] = lambda it, p, q: tuple(it.unpack(p, [0] * 3)) + tuple(it.unpack(q, [0] * 3))
            C[Circle] = lambda it, plane, radius: plane + (radius,)
            C[Cylinder] = lambda it, circle, height: circle + (height,)
            ctx.any_first = True
            t, o, rec = setup(it, form, edgewidth=real("width"))
            if "_edge_width" not in it.get(o):
                raise Unsupported("widths")
            if not it.truth(it.getattr(o, "_edge_width")):
                ctx.prove("edges that are drawn have a width", z3.BoolVal(False))
                return
            it.setattr(o, "show_edges", True)
            method(it, o, "draw_edges")
            ctx.assume(z3.And(s.EDGE(u, v), SHOWN_E(u, v)))
            cases = edge_cases(it, t, form)
            hits = []
            for items, kw in rec:
                c = it.iterate(items)
                if not isinstance(c, SColl) or c.width != 2:
                    raise Unsupported("shapes that do not belong to the edges")
                g = simp(c.guard(u, v))
                hits.append(g)
                for name in ("facecolor", "linecolor"):
                    col = force(ctx, kw.get(name))
                    for cond, want in cases:
                        ctx.prove("an edge is drawn in its colour", z3.Implies(z3.And(g, cond), is_color(it, col, want) if isinstance(col, tuple) else z3.BoolVal(False)))
                r = [zreal(x) for x in force(ctx, c.raw((u, v)))]
                a, b = [s.N[x](u) for x in "xyz"], [s.N[x](v) for x in "xyz"]
                ctx.prove("the cylinder of an edge is centred between its nodes", z3.Implies(g, z3.And(*[2 * m == p + q for m, p, q in zip(r[:3], a, b)])))
                ctx.prove("the cylinder of an edge points along it", z3.Implies(g, z3.And(*[m == q - p for m, p, q in zip(r[3:6], a, b)])))
                ctx.prove("the cylinder of an edge is as wide as the edge", z3.Implies(g, 2 * r[6] == z3.Real("width")))
                ln = zreal(it.call(it.getattr(t, "edge_length"), (Sym("int", u), Sym("int", v)), {}))
                ctx.prove("the cylinder of an edge is as long as the edge", z3.Implies(g, r[7] == ln))
            ctx.prove("every drawn edge is drawn once", z3.And(z3.Or(*hits), *[z3.Not(z3.And(x, y)) for i, x in enumerate(hits) for y in hits[:i]]))
        return unit
    V.unit("FormDiagramObject.draw_edges", groups(True))
    V.unit("TopologyDiagramObject.draw_edges", groups(False))

    def widths(form):
        def unit(it):
            ctx = it.ctx
            lo, hi = real("low"), real("high")
            t, a, rec = setup(it, form, edgewidth=(lo, hi))
            e, e1, e2 = [tuple(z3.Ints("%s_u %s_v" % (x, x))) for x in ("e", "e1", "e2")]
            p, q = z3.Ints("p q")

            def F(x):
                f = s.FRC(*x)
                return z3.If(f >= 0, f, -f)
            for x in (e, e1, e2):
                ctx.assume(z3.And(s.EDGE(*x), SHOWN_E(*x)))
            ctx.pc.append(z3.ForAll([p, q], z3.Implies(z3.And(s.EDGE(p, q), SHOWN_E(p, q)), z3.And(F(e1) <= F((p, q)), F((p, q)) <= F(e2))), patterns=[s.EDGE(p, q)]))
            w = it.getattr(a, "edge_width")

            def width(x):
                dom, val = d_lookup(ctx, it.get(force(ctx, w)), (Sym("int", x[0]), Sym("int", x[1])))
                ctx.prove("an edge has a width", dom)
                return zreal(val)
            we = width(e)
            d = F(e2) - F(e1)
            r = mk_div(simp(F(e) - F(e1)), simp(d))
            want = mk_mul(simp(1 - r), lo.z) + mk_mul(r, hi.z)
            ctx.prove("widths interpolate linearly between the smallest and the largest force", z3.Implies(d > 0, we == want))
            ctx.prove("the edge with the smallest force has the low width", z3.Implies(d > 0, width(e1) == lo.z))
            ctx.prove("the edge with the largest force has the high width", width(e2) == hi.z)
        return unit
    V.unit("DiagramObject.edge_width", widths(True))

    # ------------------------------------------------------------------ arrows
    def sum_sq(f):
        r = core.mk_mul(f[0], f[0])
        for x in f[1:]:
            r = r + core.mk_mul(x, x)
        return r

    def arrow(it, rec, what, attrs, scale, tol, shifted, color):
        ctx = it.ctx
        if len(rec) != 1:
            raise Unsupported("%d collections of arrows" % len(rec))
        items, kw = rec[0]
        col = force(ctx, kw.get("facecolor"))
        ctx.prove("%s: the arrows have the colour of their kind" % what, is_color(it, col, color) if isinstance(col, tuple) else z3.BoolVal(False))
        c = it.iterate(items)
        f = [s.N[x](n) for x in attrs]
        xyz = [s.N[x](n) for x in "xyz"]
        ln = core.mk_sqrt(simp(sum_sq(f)))
        ctx.assume(s.NODE(n))
        if isinstance(c, list) and c or not isinstance(c, list) and (not isinstance(c, SColl) or c.width != 1):
            raise Unsupported("arrows that do not belong to the nodes")
        g = z3.BoolVal(False) if isinstance(c, list) else simp(c.guard(n))
        ctx.prove("%s: a drawn node has an arrow exactly when the force reaches the tolerance" % what, g == z3.And(SHOWN(n), ln >= tol))
        if isinstance(c, list):
            return
        ctx.assume(z3.And(g, ln >= tol))
        r = [zreal(x) for x in force(ctx, c.raw((n,)))]
        p, d = r[:3], r[3:]
        ctx.prove("%s: the arrow is the force times the scale" % what, z3.And(*[a == core.mk_mul(scale, b) for a, b in zip(d, f)]))
        plain = z3.And(*[a == b for a, b in zip(p, xyz)])
        fs = [core.mk_mul(x, scale) for x in f]
        uu = [core.mk_div(x, ln) for x in f]
        ls = core.mk_sqrt(simp(sum_sq(fs)))
        back = z3.Or(z3.And(*[a + b == x for a, b, x in zip(p, d, xyz)]), z3.And(*[a == x - core.mk_mul(y, ls) for a, x, y in zip(p, xyz, uu)]))
        if shifted is None:
            ctx.prove("%s: the arrow starts at its node" % what, plain)
        else:
            push, pull = shifted
            ctx.prove("%s: where the edges pull, the arrow starts at its node" % what, z3.Implies(pull, plain))
            ctx.prove("%s: where the edges push, the arrow ends at its node" % what, z3.Implies(push, back))

    def loads(form):
        def unit(it):
            sc, tol = z3.Real("scale"), z3.Real("tol")
            it.ctx.assume(z3.And(tol > 0, sc > 0))
            t, o, rec = setup(it, form, show_loads=True, loadscale=Sym("real", sc), loadtol=Sym("real", tol), residualscale=real("other_scale"), residualtol=real("other_tol"))
            arrow(it, rec, "load", ["qx", "qy", "qz"], sc, tol, None, COL["load"])
        return unit
    V.unit("FormDiagramObject.draw_loads", loads(True))
    V.unit("TopologyDiagramObject.draw_loads", loads(False))

    def residuals(it):
        ctx = it.ctx
        I = z3.IntSort()
        sc, tol = z3.Real("scale"), z3.Real("tol")
        ctx.assume(z3.And(tol > 0, sc > 0))
        m, a, b = z3.Ints("m some_u some_v")
        OTHER = z3.Function("some_neighbour", I, I)
        ctx.assumptions.update(["every node of the form has an edge", "no two edges of the form join the same nodes"])
        ctx.axioms.append(z3.ForAll([m], z3.Implies(s.NODE(m), z3.Or(s.EDGE(m, OTHER(m)), s.EDGE(OTHER(m), m))), patterns=[s.NODE(m)]))
        ctx.axioms.append(z3.ForAll([a, b], z3.Implies(s.EDGE(a, b), z3.Not(s.EDGE(b, a))), patterns=[s.EDGE(a, b)]))
        t, o, rec = setup(it, True, show_residuals=True, residualscale=Sym("real", sc), residualtol=Sym("real", tol), loadscale=real("other_scale"), loadtol=real("other_tol"))
        k = z3.Int("b")
        bu, bv = (n, k) if ctx.decide(z3.Bool("the edge leaves the node")) else (k, n)

        def ab(x):
            return z3.If(x >= 0, x, -x)
        ctx.assume(s.EDGE(bu, bv))
        ctx.pc.append(z3.ForAll([a, b], z3.Implies(z3.And(s.EDGE(a, b), z3.Or(a == n, b == n)),
                                                  z3.And(ab(s.FRC(a, b)) <= ab(s.FRC(bu, bv)),
                                                         z3.Implies(ab(s.FRC(a, b)) == ab(s.FRC(bu, bv)), s.FRC(a, b) == s.FRC(bu, bv)))),
                                patterns=[s.EDGE(a, b)]))
        arrow(it, rec, "reaction", ["rx", "ry", "rz"], sc, tol, (s.FRC(bu, bv) < 0, s.FRC(bu, bv) >= 0), COL["support_force"])
    V.unit("FormDiagramObject.draw_residuals", residuals)

    # ------------------------------------------------------------------ points
    def points(form):
        def unit(it):
            ctx = it.ctx
            I = z3.IntSort()
            N, SEL, IDX = z3.Int("count"), z3.Function("selected", I, I), z3.Function("index_of", I, I)
            i = z3.Int("i")
            ctx.assumptions.add("a selection of nodes names no node twice")
            ctx.axioms.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(s.NODE(SEL(i)), IDX(SEL(i)) == i)), patterns=[SEL(i)]))
            t, o, rec = setup(it, form, nodes=ListObj(ctx, (), SSeq(N, lambda i: Sym("int", SEL(i)))))
            ctx.assume(z3.And(i >= 0, i < N))
            for name in ("_node_xyz", "_node_color"):
                it.getattr(o, name[1:])
                if name not in it.get(o):
                    raise Unsupported("points")
                dom, _ = d_lookup(ctx, it.get(force(ctx, it.getattr(o, name))), Sym("int", SEL(i)))
                ctx.prove("%s: a drawn node has an entry" % name, dom)
                ctx.assume(dom)
                if not it.truth(it.getattr(o, name)):
                    ctx.prove("%s is not empty where something is drawn" % name, z3.BoolVal(False))
                    return
            pos, cols, els = it.unpack(method(it, o, "_points_data"), [0, 0, 0])
            m = SEL(i)
            sup, org = s.NTYPE(m) == LIT("support"), s.NTYPE(m) == LIT("_origin")
            cases = [(sup, COL["node_support"])]
            cases += [(z3.Not(sup), COL["node_black"])] if form else [(org, COL["node_origin"]), (z3.Not(z3.Or(sup, org)), COL["node_black"])]
            pos, cols, els = [it.iterate(x) for x in (pos, cols, els)]
            if any(not isinstance(x, SSeq) for x in (pos, cols, els)):
                raise Unsupported("points %r" % [type(x) for x in (pos, cols, els)])
            for x in (pos, cols, els):
                ctx.prove("one point per drawn node", x.n == N)
            p = it.unpack(force(ctx, pos.item(i)), [0, 0, 0])
            ctx.prove("a point is at its node", z3.And(*[zreal(a) == s.N[b](m) for a, b in zip(p, "xyz")]))
            col = force(ctx, cols.item(i))
            for cond, want in cases:
                ctx.prove("a point has the colour of its node", z3.Implies(cond, is_color(it, col, want)))
            e = it.unpack(force(ctx, els.item(i)), [0])
            ctx.prove("a point is its own element", toz(e[0]) == i)
        return unit
    V.unit("FormDiagramObject._points_data", points(True))
    V.unit("TopologyDiagramObject._points_data", points(False))

    # ------------------------------------------------------------------ layers
    def switches(form):
        def unit(it):
            ctx = it.ctx
            t, o, rec = setup(it, form)
            ctx.prove("nothing is drawn when every layer is switched off", z3.BoolVal(not rec))
        return unit
    V.unit("FormDiagramObject: no layer", switches(True))
    V.unit("TopologyDiagramObject: no layer", switches(False))

    LAYERS = ["draw_edges", "draw_loads", "draw_nodetext", "draw_edgetext"]

    def made(form):
        def unit(it):
            ctx = it.ctx
            log = []
            for name in LAYERS + ["draw_residuals"]:
                def event(it, me, name=name):
                    log.append(name)
                ctx.contracts[getattr(vw.DiagramObject, name)] = event
            on = dict(show_edges=True, show_loads=True, show_residuals=True, show_nodetext=True, show_edgetext=True)
            t, o, rec = setup(it, form, **on)
            for name in LAYERS + (["draw_residuals"] if form else []):
                ctx.prove("%s: drawn once when the object is made" % name, z3.BoolVal(log.count(name) == 1))
        return unit
    V.unit("FormDiagramObject.__init__", made(True))
    V.unit("TopologyDiagramObject.__init__", made(False))

    def defaults(form):
        def unit(it):
            ctx = it.ctx
            for name in LAYERS + ["draw_residuals"]:
                ctx.contracts[getattr(vw.DiagramObject, name)] = lambda it, me: None
            well_formed(it, s)
            t = topology(it, s, cls=FormDiagram if form else TopologyDiagram)
            for f in ("node_color", "edge_color"):
                ctx.contracts[getattr(FO if form else TO, f).fget] = lambda it, me: Opaque("colours")
            o = it.call(FO if form else TO, (t,), {})
            for k, w in dict(show_nodes=False, show_edges=True, show_loads=True, show_residuals=True, show_nodetext=False, show_edgetext=False).items():
                ctx.prove("%s when nothing is asked for" % k, z3.BoolVal(it.getattr(o, k) is w))
            for k, w in dict(load_scale=1, load_tol=Fraction(1, 1000), residual_scale=1, residual_tol=Fraction(1, 1000)).items():
                ctx.prove("%s when nothing is asked for" % k, zreal(it.getattr(o, k)) == zreal(w))
        return unit
    V.unit("FormDiagramObject: defaults", defaults(True))
    V.unit("TopologyDiagramObject: defaults", defaults(False))

    def viewer(form):
        def unit(it):
            ctx = it.ctx
            well_formed(it, s)
            t = topology(it, s, cls=FormDiagram if form else TopologyDiagram)
            log = []
            ctx.contracts[viewstub.App.__init__] = lambda it, me, *a, **k: None
            ctx.contracts[viewstub.App.add] = lambda it, me, data, **k: log.append((me, data, k))
            o = it.call(vw.Viewer, (), {})
            method(it, o, "add", t, edgewidth=real("w"))
            ok = len(log) == 1 and log[0][0] is o and force(ctx, log[0][1]) is t and set(log[0][2]) == {"edgewidth", "viewer"} and force(ctx, log[0][2]["viewer"]) is o
            ctx.prove("a diagram is added with the viewer itself and the options given", z3.BoolVal(bool(ok)))
        return unit
    V.unit("Viewer.add(form)", viewer(True))
    V.unit("Viewer.add(topology)", viewer(False))

    def shown(form):
        def unit(it):
            ctx = it.ctx
            t, o, rec = setup(it, form)
            for k in ("show_nodes", "show_edges"):
                for other in ("show_nodes", "show_edges"):
                    was = it.getattr(o, other)
                    for b in (True, False):
                        it.setattr(o, k, b)
                        if other != k:
                            ctx.prove("%s does not switch %s" % (k, other), z3.BoolVal(it.getattr(o, other) is was))
                        else:
                            ctx.prove("%s reads back" % k, z3.BoolVal(it.getattr(o, k) is b))
                            ctx.prove("%s is handed on to the viewer" % k, z3.BoolVal(it.getattr(o, {"show_nodes": "show_points", "show_edges": "show_lines"}[k]) is b))
        return unit
    V.unit("FormDiagramObject: switches", shown(True))
    V.unit("TopologyDiagramObject: switches", shown(False))

    # ------------------------------------------------------------------ labels
    f, ln = s.FRC(u, v), s.LEN(u, v)
    F2 = ".2f"

    def S(x):
        return Sym("real", simp(x))

    def ab(x):
        return S(z3.If(x >= 0, x, -x))

    def label(it, what, texts, ps, want, at):
        ctx = it.ctx
        c = it.iterate(texts)
        if not isinstance(c, SColl) or c.width != len(ps):
            raise Unsupported("labels that do not belong to their items")
        g = simp(c.guard(*ps))
        ctx.prove("%s: every drawn item has a label" % what, g)
        ctx.assume(g)
        r = force(ctx, c.raw(ps))
        val = force(ctx, r[0])
        if isinstance(val, (GKey, Sym)):
            val = Text([(val, "")])
        same = same_text(val, Text(want))
        if same is None:
            raise Unsupported("%s: label %r" % (what, val))
        ctx.prove("%s: the label shows the values of its item" % what, same)
        ctx.prove("%s: the label is at its item" % what, z3.And(*[zreal(a) == b for a, b in zip(r[1:], at)]))

    class Board(Obj):
        __slots__ = ()

        def pv_getattr(self, it, name):
            if name != "add":
                raise Unsupported("attribute %s of the viewer" % name)
            return Native(lambda it, item, **kw: it.list_append(it.get(self)["texts"], item))

    def filled(it, o, name):
        """Split off the case of an empty dictionary, which cannot be where something is drawn."""
        it.getattr(o, name)
        if "_" + name not in it.get(o):
            raise Unsupported(name)
        if it.truth(it.getattr(o, "_" + name)):
            return True
        it.ctx.prove("%s is not empty where something is drawn" % name, z3.BoolVal(False))

    def node_labels(form, tag, want):
        def unit(it):
            texts = ListObj(it.ctx, ())
            t, o, rec = setup(it, form, nodetext=tag, viewer=Board(it.ctx, {"texts": texts}))
            it.ctx.assume(z3.And(s.NODE(n), SHOWN(n)))
            if not filled(it, o, "node_text"):
                return
            it.setattr(o, "show_nodetext", True)
            method(it, o, "draw_nodetext")
            label(it, "node text %r" % tag, texts, (n,), want(it, t), [s.N[c](n) for c in "xyz"])
        return unit

    def gk(it, t):
        from compas.utilities import geometric_key
        return it.call(geometric_key, (tuple(Sym("real", s.N[c](n)) for c in "xyz"), "2f"), {})
    NT = {None: lambda it, t: [(Sym("int", n), "")], "key": lambda it, t: [(Sym("int", n), "")], "xyz": lambda it, t: [(gk(it, t), "")],
          "keyxyz": lambda it, t: [(Sym("int", n), ""), "\n", (gk(it, t), "")], "type": lambda it, t: [(Sym("val", s.NTYPE(n)), "")]}
    for form in (True, False):
        for tag, want in NT.items():
            V.unit("%sDiagramObject.draw_nodetext(%r)" % ("Form" if form else "Topology", tag), node_labels(form, tag, want))

    def edge_labels(form, tag, want):
        def unit(it):
            texts = ListObj(it.ctx, ())
            t, o, rec = setup(it, form, edgetext=tag, viewer=Board(it.ctx, {"texts": texts}))
            it.ctx.assume(z3.And(s.EDGE(u, v), SHOWN_E(u, v)))
            if not filled(it, o, "edge_text"):
                return
            it.setattr(o, "show_edgetext", True)
            method(it, o, "draw_edgetext")
            label(it, "edge text %r" % tag, texts, (u, v), want(it, form), [(s.N[c](u) + s.N[c](v)) / 2 for c in "xyz"])
        return unit

    def state(it, form):
        x = f if form else z3.If(s.ETYPE(u, v) == LIT("trail"), ln, f)
        it.ctx.assume(x != 0)
        return S(z3.If(x < 0, z3.RealVal(-1), z3.RealVal(1)))

    def key(it, form):
        return [(Sym("int", u), ""), "-", (Sym("int", v), "")]
    ET = {None: key, "key": key, "force": lambda it, form: [(ab(f), F2)], "length": lambda it, form: [(ab(ln), F2)],
          "forcelength": lambda it, form: ["f: ", (ab(f), F2), "\nl: ", (ab(ln), F2)], "state": lambda it, form: [(state(it, form), F2)],
          "forcelengthstate": lambda it, form: ["f: ", (ab(f), F2), "\nl: ", (ab(ln), F2), "\ns: ", (state(it, form), F2)],
          "type": lambda it, form: [(Sym("val", s.ETYPE(u, v)), "")]}
    for form in (True, False):
        for tag, want in ET.items():
            V.unit("%sDiagramObject.draw_edgetext(%r)" % ("Form" if form else "Topology", tag), edge_labels(form, tag, want))
