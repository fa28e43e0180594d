"""C21: the Grasshopper artists draw the diagram as it is.

The artists are loaded from /repo and made by their real constructors on arbitrary diagrams; the drawing
functions of compas_ghpython are replaced by stand-ins that return what they are asked to draw.
"""
from .C20 import *  # noqa: F401,F403
from .C20 import missing, run
from pyvc.values import key_terms

DRAW = "compas_ghpython.draw_points, draw_lines and draw_polylines draw what they are given"


def field(it, d, name):
    d = force(it.ctx, d)
    return it.getitem(d, name)


def coords(it, v):
    return [zreal(force(it.ctx, x)) for x in it.unpack(v, [0, 0, 0])]


def at(it, v, ts):
    return z3.And(*[a == b for a, b in zip(coords(it, v), ts)])


class Selection:
    """All nodes (edges), or an arbitrary list of them."""

    def __init__(self, it, s, width, all_=None):
        ctx = it.ctx
        self.it, self.s, self.width = it, s, width
        self.n = z3.Int("n_keys")
        ctx.assume(self.n > 0)
        self.K = [z3.Function("key%d" % a, I, I) for a in range(width)]
        i = z3.Int("i")
        dom = s.NODE if width == 1 else s.EDGE
        ctx.axioms.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), dom(*[k(i) for k in self.K])), patterns=[self.K[0](i)]))
        ctx.assumptions.add("a selection names an element once")
        INV = z3.Function("index_of", *([I] * width + [I]))
        ctx.axioms.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), INV(*[k(i) for k in self.K]) == i), patterns=[self.K[0](i)]))
        self.all = ctx.decide(z3.Bool("everything is drawn")) if all_ is None else all_

        def item(p):
            ks = [Sym("int", k(p)) for k in self.K]
            return ks[0] if width == 1 else tuple(ks)
        self.keys = None if self.all else ListObj(ctx, (), SSeq(self.n, item))

    def check(self, what, got, cond, drawn):
        """One drawing per selected element with cond, as drawn(drawing, key) says."""
        it, ctx = self.it, self.it.ctx
        got = force(ctx, got)
        c = [] if got is None else it.iterate(got)
        ps = [z3.Int("key_%d" % a) for a in range(self.width if self.all else 1)]
        ks = ps if self.all else [k(ps[0]) for k in self.K]
        dom = (self.s.NODE if self.width == 1 else self.s.EDGE)(*ks)
        inside = z3.And(dom, cond(*ks)) if self.all else z3.And(ps[0] >= 0, ps[0] < self.n, dom, cond(*ks))
        if isinstance(c, list):
            ctx.prove("%s: exactly the selected elements of the kind are drawn" % what, z3.Not(inside) if not c else z3.BoolVal(False))
            return
        if c.width != len(ps):
            raise Unsupported("drawings that do not follow the keys")
        ctx.prove("%s: exactly the selected elements of the kind are drawn" % what, c.guard(*ps) == inside)
        ctx.assume(inside)
        v = c.item(ps[0]) if isinstance(c, SSeq) else c.elem(ctx, ps)
        drawn(force(ctx, v), *ks)


def verify(V):
    import inspect
    from compas_cem.diagrams import TopologyDiagram, FormDiagram
    A = gh.artists()
    s = Sig()

    def setup(it, form):
        ctx = it.ctx
        well_formed(it, s)
        one_orientation(it, s)
        ctx.assumptions.add(DRAW)
        t = topology(it, s, cls=FormDiagram if form else TopologyDiagram)
        return t, it.call(A.FormArtist if form else A.TopologyArtist, (t,))

    def nodes(it, form, name, cond):
        t, a = setup(it, form)
        sel = Selection(it, s, 1)
        it.ctx.assumptions.add("the diagram has a node")
        it.ctx.assume(s.NODE(z3.Int("some_node")))
        r = method(it, a, name, *([] if sel.all else [sel.keys]))

        def drawn(v, n):
            it.ctx.prove("%s: a node is drawn at its position" % name, at(it, field(it, v, "pos"), s.xyz(n)))
        sel.check(name, r, cond, drawn)

    def edges(it, form, name, cond):
        t, a = setup(it, form)
        sel = Selection(it, s, 2)
        it.ctx.assumptions.add("the diagram has an edge")
        it.ctx.assume(s.EDGE(*z3.Ints("some_u some_v")))
        r = method(it, a, name, *([] if sel.all else [sel.keys]))

        def drawn(v, p, q):
            it.ctx.prove("%s: an edge is drawn from its start to its end" % name, z3.And(at(it, field(it, v, "start"), s.xyz(p)), at(it, field(it, v, "end"), s.xyz(q))))
        sel.check(name, r, cond, drawn)

    yes = lambda *k: z3.BoolVal(True)
    for form, tag in ((False, "TopologyArtist."), (True, "FormArtist.")):
        V.unit(tag + "draw_nodes", lambda it, f=form: nodes(it, f, "draw_nodes", yes))
        V.unit(tag + "draw_nodes_support", lambda it, f=form: nodes(it, f, "draw_nodes_support", lambda n: s.support(n)))
        V.unit(tag + "draw_edges", lambda it, f=form: edges(it, f, "draw_edges", yes))
    V.unit("TopologyArtist.draw_nodes_origin", lambda it: nodes(it, False, "draw_nodes_origin", lambda n: s.origin(n)))
    V.unit("TopologyArtist.draw_edges_trail", lambda it: edges(it, False, "draw_edges_trail", lambda u, v: s.trail(u, v)))
    V.unit("TopologyArtist.draw_edges_deviation", lambda it: edges(it, False, "draw_edges_deviation", lambda u, v: s.deviation(u, v)))

    def trails(it):
        ctx = it.ctx
        t, a = setup(it, False)
        k, i = z3.Ints("tk ti")
        ctx.assumptions.add("the nodes of a trail are nodes of the diagram (C06)")
        ctx.axioms.append(z3.ForAll([k, i], z3.Implies(z3.And(s.TR(k), i >= 0, i < s.TLEN(k)), s.NODE(s.AT(k, i))), patterns=[s.AT(k, i)]))
        ctx.axioms.append(z3.ForAll([k], z3.Implies(s.TR(k), s.TLEN(k) >= 2), patterns=[s.TR(k)]))
        c = it.iterate(method(it, a, "draw_trails"))
        K, J = z3.Ints("trail_key position")
        if isinstance(c, list):
            ctx.prove("one polyline per trail", z3.Not(s.TR(K)) if not c else z3.BoolVal(False))
            return
        if not isinstance(c, SColl) or c.width != 1:
            raise Unsupported("polylines that do not follow the trails")
        ctx.prove("one polyline per trail", c.guard(K) == s.TR(K))
        ctx.assume(z3.And(s.TR(K), J >= 0, J < s.TLEN(K)))
        p = it.iterate(field(it, c.elem(ctx, (K,)), "points"))
        if not isinstance(p, SSeq):
            raise Unsupported("points that do not follow the trail")
        ctx.prove("it has one point per node of the trail", p.n == s.TLEN(K))
        ctx.prove("its points are those of the nodes, in order", at(it, p.item(J), s.xyz(s.AT(K, J))))
    V.unit("TopologyArtist.draw_trails", trails)

    def sum_sq(f):
        return core.mk_mul(f[0], f[0]) + core.mk_mul(f[1], f[1]) + core.mk_mul(f[2], f[2])

    def arrows(it, form, name, attrs, tolname):
        ctx = it.ctx
        t, a = setup(it, form)
        sel = Selection(it, s, 1)
        ctx.assumptions.add("the diagram has a node")
        ctx.assume(s.NODE(z3.Int("some_node")))
        sc, tol, gap = z3.Reals("scale tol gap")
        ctx.assume(z3.And(sc > 0, tol > 0, gap >= 0))
        m, u, v = z3.Ints("m some_u some_v")
        react = name == "draw_reactions"
        if react:
            OTHER = z3.Function("some_neighbour", I, I)
            ctx.assumptions.add("every node of the form has an edge")
            ctx.axioms.append(z3.ForAll([m], z3.Implies(s.NODE(m), z3.Or(s.EDGE(m, OTHER(m)), s.EDGE(OTHER(m), m))), patterns=[s.NODE(m)]))
        kw = {"scale": Sym("real", sc), "gap": Sym("real", gap), tolname: Sym("real", tol)}
        r = method(it, a, name, *([] if sel.all else [sel.keys]), **kw)
        cond = lambda n: core.mk_sqrt(simp(sum_sq([s.N[x](n) for x in attrs]))) >= tol

        def drawn(w, n):
            f = [s.N[x](n) for x in attrs]
            ln = core.mk_sqrt(simp(sum_sq(f)))
            unit = [core.mk_div(x, ln) for x in f]
            fs = [core.mk_mul(x, sc) for x in f]
            ls = core.mk_sqrt(simp(sum_sq(fs)))
            st, en = coords(it, field(it, w, "start")), coords(it, field(it, w, "end"))
            ctx.prove("%s: the arrow is the force times the scale" % name, z3.And(*[e - b == c for e, b, c in zip(en, st, fs)]))

            def start(d):
                return z3.And(*[p == x + core.mk_mul(q, d) for p, x, q in zip(st, s.xyz(n), unit)])
            plain = start(gap)
            if not react:
                ctx.prove("%s: the arrow starts at its node, or the gap away from it" % name, plain)
                return
            b = z3.Int("b")
            bu, bv = (n, b) if ctx.decide(z3.Bool("the edge leaves the node")) else (b, n)

            def ab(x):
                return z3.If(x >= 0, x, -x)
            ctx.assume(s.EDGE(bu, bv))
            ctx.pc.append(z3.ForAll([u, v], z3.Implies(z3.And(s.EDGE(u, v), z3.Or(u == n, v == n)),
                                                      z3.And(ab(s.FRC(u, v)) <= ab(s.FRC(bu, bv)),
                                                             z3.Implies(ab(s.FRC(u, v)) == ab(s.FRC(bu, bv)), s.FRC(u, v) == s.FRC(bu, bv)))),
                                    patterns=[s.EDGE(u, v)]))
            back = z3.Or(start(simp(-(gap + ls))), start(simp(-(gap + core.mk_mul(sc, ln)))))
            ctx.prove("%s: where the edges pull, the arrow starts at its node" % name, z3.Implies(s.FRC(bu, bv) >= 0, plain))
            ctx.prove("%s: where the edges push, the arrow ends at its node" % name, z3.Implies(s.FRC(bu, bv) < 0, back))
        sel.check(name, r, cond, drawn)
    V.background("TopologyArtist.draw_loads", lambda it: arrows(it, False, "draw_loads", ["qx", "qy", "qz"], "min_load"))
    V.background("FormArtist.draw_loads", lambda it: arrows(it, True, "draw_loads", ["qx", "qy", "qz"], "min_load"))
    V.background("FormArtist.draw_reactions", lambda it: arrows(it, True, "draw_reactions", ["rx", "ry", "rz"], "min_force"))

    def component(it, comp, inp, cls, table):
        ctx = it.ctx
        t = missing(it, inp, topology(it, s, cls=FormDiagram if inp == "form" else TopologyDiagram))
        n, m = z3.Ints("n_nodes n_edges")
        ctx.assume(z3.And(n > 0, m > 0))
        KN, KU, KV = [z3.Function(x, I, I) for x in ("kn", "ku", "kv")]
        nk = missing(it, "node_keys", ListObj(ctx, (), SSeq(n, lambda p: Sym("int", KN(p)))), True)
        ek = missing(it, "edge_keys", ListObj(ctx, (), SSeq(m, lambda p: (Sym("int", KU(p)), Sym("int", KV(p))))), True)
        fm, fs = missing(it, "force_min", real("force_min")), missing(it, "force_scale", real("force_scale"))
        for x in (fm, fs):
            if x is not None:
                ctx.assume(x.z > 0)
        calls = {}
        C = ctx.contracts

        def contract(fn, name):
            sig = list(inspect.signature(fn).parameters)

            def call(it, me, *a, **k):
                it.ctx.prove("it is the diagram given that is drawn", z3.BoolVal(force(it.ctx, it.getattr(me, "diagram")) is t))
                out = Opaque("drawing " + name)
                calls.setdefault(name, []).append((dict(zip(sig[1:], a), **k), out))
                return out
            C[fn] = call
        for out, (name, kind) in table.items():
            contract(getattr(cls, name), name)
        ctx.assumptions.add("the artists draw as the other obligations of this property say")
        r = run(it, comp, **{inp: t, "node_keys": nk, "edge_keys": ek, "force_min": fm, "force_scale": fs})
        if t is None:
            ctx.prove("nothing is drawn without a diagram", z3.BoolVal(all(v is None for v in r.values()) and not calls))
            return
        ctx.prove("the outputs are the documented ones", z3.BoolVal(set(r) == set(table)))

        def chosen(v, keys):
            """The selection handed on is the one given; an empty one stands for everything."""
            full = isinstance(keys, ListObj) and not isinstance(it.iterate(keys), list)
            v = force(ctx, v)
            if not full:
                return v is None
            if v is None:
                return False
            return v is keys or it.iterate(v) is it.iterate(keys)
        for out, (name, kind) in table.items():
            got = force(ctx, r.get(out))
            hit = [a for a, o in calls.get(name, ()) if o is got]
            ctx.prove("%s is what %s draws" % (out, name), z3.BoolVal(len(hit) == 1))
            if len(hit) != 1 or kind is None:
                continue
            first = "nodes" if kind == "n" or kind.startswith("f") else "edges"
            ctx.prove("%s: the selection is handed on" % out, z3.BoolVal(chosen(hit[0].get(first), ek if first == "edges" else nk)))
            if kind.startswith("f"):
                thr = core.frac(core.rv(core.Fraction("0.001")))
                ctx.prove("%s: the smallest force is handed on, or 0.001" % out, eq(hit[0].get(kind[1:], thr), thr if fm is None else fm))
                one = core.frac(core.rv(1))
                ctx.prove("%s: the scale is handed on, or 1" % out, eq(hit[0].get("scale", one), one if fs is None else fs))
    FORM = {"nodes": ("draw_nodes", "n"), "support_nodes": ("draw_nodes_support", "n"), "edges": ("draw_edges", "e"), "loads": ("draw_loads", "fmin_load"), "reactions": ("draw_reactions", "fmin_force")}
    TOPO = {"nodes": ("draw_nodes", "n"), "origin_nodes": ("draw_nodes_origin", "n"), "support_nodes": ("draw_nodes_support", "n"), "edges": ("draw_edges", "e"),
            "trail_edges": ("draw_edges_trail", "e"), "deviation_edges": ("draw_edges_deviation", "e"), "trails": ("draw_trails", None), "loads": ("draw_loads", "fmin_load")}
    V.unit("ArtistForm", lambda it: component(it, "ArtistForm", "form", A.FormArtist, FORM))
    V.unit("ArtistTopology", lambda it: component(it, "ArtistTopology", "topology", A.TopologyArtist, TOPO))
