"""C20: the Grasshopper components do what the library calls they stand for do.

Every component class is loaded from its file in /repo and its RunScript executed on arbitrary inputs,
given in the order of the component's metadata; outputs are taken in that order too. The host (Rhino,
Grasshopper) is replaced by the stand-ins in vp/ghstub.py.
"""
from .topo import *  # noqa: F401,F403
from pyvc.core import Opaque
from pyvc.values import Obj
from vp import ghstub as gh

HOST = "Grasshopper hands the inputs to RunScript in the order of metadata.json and takes the outputs in that order; missing items are None, missing lists None or empty"
CONV = "compas_rhino.geometry converts Rhino geometry into the COMPAS geometry it describes"
COPY = "Diagram.copy() returns an independent diagram with the same content (C14)"


def missing(it, name, v, empty=()):
    """The input v, or nothing."""
    if it.ctx.decide(z3.Bool(name + " is given")):
        return v
    if empty and it.ctx.decide(z3.Bool(name + " is an empty list")):
        return ListObj(it.ctx, ())
    return None


def run(it, comp, **inputs):
    """The outputs of a component by name (None if it returns nothing)."""
    ins, outs = gh.ports(comp)
    it.ctx.assumptions.update([HOST])
    cls = gh.component(comp)
    if set(ins) != set(inputs):
        if len(ins) != len(inputs):
            raise Unsupported("component with other inputs: %s" % ins)
        ins = list(inputs)
    r = it.call(it.getattr(it.call(cls), "RunScript"), [inputs[k] for k in ins])
    r = force(it.ctx, r)
    if len(outs) == 1:
        return {outs[0]: r}
    if r is None:
        return {k: None for k in outs}
    xs = it.iterate(r)
    it.ctx.prove("there is one value per output", z3.BoolVal(isinstance(xs, list) and len(xs) == len(outs)))
    if not isinstance(xs, list) or len(xs) != len(outs):
        raise Unsupported("outputs")
    return dict(zip(outs, xs))


def geo(it, v):
    it.ctx.assumptions.add(CONV)
    return it.call(gh.Geometry, (v,))


def alike(it, a, b):
    """Same type and content."""
    ctx = it.ctx
    a, b = force(ctx, a), force(ctx, b)
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, Inst) and isinstance(b, Inst):
        if a.cls is not b.cls:
            return z3.BoolVal(False)
        x, y = it.get(a), it.get(b)
        ks = [k for k in sorted(set(x) | set(y)) if k not in ("_guid", "_name", "_jsondefinitions", "_JSONSCHEMA", "_jsonvalidator")]
        if any(k not in x or k not in y for k in ks):
            return z3.BoolVal(False)
        return z3.And(z3.BoolVal(True), *[alike(it, x[k], y[k]) for k in ks])
    if isinstance(a, DictObj) and isinstance(b, DictObj):
        x, y = it.iterate(a), it.iterate(b)
        if not isinstance(x, list) or not isinstance(y, list) or set(map(str, x)) != set(map(str, y)):
            raise Unsupported("comparison of dictionaries")
        return z3.And(z3.BoolVal(True), *[alike(it, d_lookup(ctx, it.get(a), k)[1], d_lookup(ctx, it.get(b), k)[1]) for k in x])
    if isinstance(a, (ListObj, tuple, FList)) and isinstance(b, (ListObj, tuple, FList)):
        x, y = it.iterate(a), it.iterate(b)
        if isinstance(x, list) and isinstance(y, list):
            return z3.And(z3.BoolVal(len(x) == len(y)), *[alike(it, p, q) for p, q in zip(x, y)])
        if isinstance(x, SSeq) and isinstance(y, SSeq):
            i = z3.FreshInt("i")
            return z3.And(x.n == y.n, z3.Implies(z3.And(i >= 0, i < x.n), alike(it, x.item(i), y.item(i))))
        raise Unsupported("comparison of collections")
    return eq(a, b)


def yields(it, what, got, want):
    got = force(it.ctx, got)
    it.ctx.prove(what, z3.BoolVal(got is None) if want is None else z3.BoolVal(False) if got is None else alike(it, got, want))


def vz3(it, name):
    return ListObj(it.ctx, [real(name + a) for a in "xyz"])


def builders(V):
    import compas_cem.optimization as O
    from compas_cem.elements import TrailEdge, DeviationEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport

    def node(it):
        return integer("node")

    def edge(it):
        return (integer("u"), integer("v"))

    def parameter(it, comp, cls, key, name):
        k = missing(it, name, key(it))
        lo, up = missing(it, "bound_low", real("low")), missing(it, "bound_up", real("up"))
        r = run(it, comp, **{name: k, "bound_low": lo, "bound_up": up})["parameter"]
        yields(it, "the parameter is that of the given element and bounds", r, None if k is None else it.call(cls, (k, lo, up)))
    for a in "XYZ":
        for kind, c in (("NodeOrigin", "OriginNode%sParameter"), ("NodeLoad", "NodeLoad%sParameter")):
            V.unit("Parameter%s%s" % (kind, a), lambda it, n="Parameter%s%s" % (kind, a), c=getattr(O, c % a): parameter(it, n, c, node, "node_key"))
    for kind, c in (("TrailEdge", O.TrailEdgeParameter), ("DeviationEdge", O.DeviationEdgeParameter)):
        V.unit("Parameter" + kind, lambda it, n="Parameter" + kind, c=c: parameter(it, n, c, edge, "edge_key"))

    def constraint(it, comp, cls, key, kname, tname, target, host):
        k = missing(it, kname, key(it))
        g = target(it)
        t = missing(it, tname, geo(it, g) if host else g)
        w = missing(it, "weight", real("weight"))
        if w is not None:
            it.ctx.assumptions.add("a weight that is given is not zero")
            it.ctx.assume(w.z != 0)
        r = run(it, comp, **{kname: k, tname: t, "weight": w})["constraint"]
        one = core.frac(core.rv(1))
        yields(it, "the constraint is that of the given element, target and weight", r,
               None if k is None or t is None else it.call(cls, (k, g, one if w is None else w)))

    def pair(it):
        return (vz3(it, "a"), vz3(it, "b"))
    CON = [("ConstraintNodePoint", O.PointConstraint, node, "node_key", "point", lambda it: vz3(it, "t"), True),
           ("ConstraintNodeLine", O.LineConstraint, node, "node_key", "line", pair, True),
           ("ConstraintNodePlane", O.PlaneConstraint, node, "node_key", "plane", pair, True),
           ("ConstraintNodePolyline", O.PolylineConstraint, node, "node_key", "polyline", lambda it: ListObj(it.ctx, [vz3(it, "p"), vz3(it, "q"), vz3(it, "r")]), True),
           ("ConstraintReactionForce", O.ReactionForceConstraint, node, "node_key", "vector", lambda it: vz3(it, "t"), True),
           ("ConstraintEdgeDirection", O.EdgeDirectionConstraint, edge, "edge_key", "vector", lambda it: vz3(it, "t"), True),
           ("ConstraintTrailEdgeForce", O.TrailEdgeForceConstraint, edge, "edge_key", "force", lambda it: real("t"), False),
           ("ConstraintDeviationEdgeLength", O.DeviationEdgeLengthConstraint, edge, "edge_key", "length", lambda it: real("t"), False)]
    for c in CON:
        V.unit(c[0], lambda it, c=c: constraint(it, *c))

    def trail(it):
        a, pl, ln = pair(it), pair(it), missing(it, "length", real("value"))
        line = missing(it, "line", geo(it, a))
        plane = missing(it, "plane", geo(it, pl))
        r = run(it, "EdgeTrail", line=line, length=ln, plane=plane)["trail_edge"]
        yields(it, "the trail edge has the given ends, length and plane", r,
               None if line is None or ln is None else it.call(TrailEdge, a, {"length": ln, "plane": None if plane is None else pl}))
    V.unit("EdgeTrail", trail)

    def deviation(it):
        a, f = pair(it), missing(it, "force", real("value"))
        line = missing(it, "line", geo(it, a))
        r = run(it, "EdgeDeviation", line=line, force=f)["deviation_edge"]
        yields(it, "the deviation edge has the given ends and force", r, None if line is None or f is None else it.call(DeviationEdge, a, {"force": f}))
    V.unit("EdgeDeviation", deviation)

    def load(it):
        p, q = vz3(it, "p"), vz3(it, "q")
        a, b = missing(it, "point", geo(it, p)), missing(it, "vector", geo(it, q))
        r = run(it, "NodeLoad", point=a, vector=b)["node_load"]
        if a is None or b is None:
            yields(it, "no load without point or vector", r, None)
            return
        w = it.call(NodeLoad, (None, q))
        it.setattr(w, "xyz", p)
        yields(it, "the load has the given position and vector", r, w)
    V.unit("NodeLoad", load)

    def support(it):
        p = vz3(it, "p")
        a = missing(it, "point", geo(it, p))
        r = run(it, "NodeSupport", point=a)["node_support"]
        if a is None:
            yields(it, "no support without point", r, None)
            return
        w = it.call(NodeSupport, (None,))
        it.setattr(w, "xyz", p)
        yields(it, "the support has the given position", r, w)
    V.unit("NodeSupport", support)


def assemble(V):
    from compas_cem.diagrams import TopologyDiagram
    NONE = literal(None)

    def go(it):
        ctx = it.ctx
        C = ctx.contracts
        kinds = ("trail_edges", "deviation_edges", "loads", "supports")
        E = {k: z3.Function("elem_" + k, I, I) for k in kinds}
        N = {k: z3.Int("n_" + k) for k in kinds}
        log = {k: ListObj(ctx, ()) for k in kinds}
        seen, built, made = [], [], []
        i = z3.Int("i")
        ctx.assumptions.add("add_edge, add_load, add_support and build_trails do what C06, C09 and C17 say")
        ctx.assumptions.add("the first element of a list that is not empty is given")
        given = {}
        # elements of one kind are told apart from those of another
        for p, k in enumerate(kinds):
            ctx.assume(N[k] >= 0)
            for l in kinds[p + 1:]:
                j = z3.Int("j")
                ctx.axioms.append(z3.ForAll([i, j], z3.Or(E[k](i) != E[l](j), E[k](i) == NONE), patterns=[z3.MultiPattern(E[k](i), E[l](j))]))
            ctx.assume(z3.Implies(N[k] > 0, E[k](0) != NONE))
            given[k] = missing(it, k, ListObj(ctx, (), SSeq(N[k], lambda p, k=k: Sym("val", E[k](p)))), True)

        def init(it, me, *a, **k):
            made.append(me)
        C[TopologyDiagram.__init__] = init

        def adder(what, ks):
            def add(it, me, e, *a):
                it.ctx.prove("everything goes into the diagram that is returned", z3.BoolVal(len(made) == 1 and force(it.ctx, me) is made[0]))
                late = [x for x in seen if x == "build" or (what == "edge" and x != "edge")]
                it.ctx.prove("edges come before loads and supports, and all before the trails are built", z3.BoolVal(not late))
                seen.append(what)
                it.list_append(log[what], e)
            return add
        log["edge"], log["load"], log["support"] = log["trail_edges"], log["loads"], log["supports"]
        log["dev"] = log["deviation_edges"]
        phase = {}

        def add_edge(it, me, e, *a):
            # which list the edge comes from is known from its symbol
            e = force(it.ctx, e)
            n = [k for k in kinds[:2] if isinstance(e, Sym) and e.kind == "val" and E[k].name() in str(e.z.decl().name())]
            if len(n) != 1:
                raise Unsupported("an edge of unknown origin")
            it.ctx.prove("trail edges come before deviation edges", z3.BoolVal(n[0] != "trail_edges" or "dev" not in phase))
            if n[0] == "deviation_edges":
                phase["dev"] = True
                late = [x for x in seen if x not in ("edge",)]
                it.ctx.prove("edges come before loads and supports, and all before the trails are built", z3.BoolVal(not late))
                seen.append("edge")
                it.list_append(log["dev"], e)
                return None
            return adder("edge", None)(it, me, e)
        C[TopologyDiagram.add_edge] = add_edge
        C[TopologyDiagram.add_load] = adder("load", None)
        C[TopologyDiagram.add_support] = adder("support", None)

        def build(it, me, aux=False, *a, **k):
            seen.append("build")
            built.append(aux)
        C[TopologyDiagram.build_trails] = build
        aux = missing(it, "add_auxiliary_trails", Sym("bool", z3.Bool("aux")))
        r = run(it, "TopologyDiagram", add_auxiliary_trails=aux, **given)["topology"]
        ctx.prove("the assembled diagram is returned", z3.BoolVal(len(made) == 1 and r is made[0]))
        for k in kinds:
            c = it.iterate(log[k])
            n = N[k] if isinstance(given[k], ListObj) and not isinstance(it.iterate(given[k]), list) else z3.IntVal(0)
            inside = z3.And(i >= 0, i < n, E[k](i) != NONE)
            if isinstance(c, list):
                ctx.prove("%s: exactly those that are given are added" % k, z3.Not(inside) if not c else z3.BoolVal(False))
                continue
            ctx.prove("%s: exactly those that are given are added" % k, c.guard(i) == inside)
            v = force(ctx, c.item(i) if isinstance(c, SSeq) else c.raw((i,)))
            ctx.prove("%s: they are added as they are" % k, z3.Implies(inside, eq(v, Sym("val", E[k](i)))))

        def some(k):
            return z3.BoolVal(False) if given[k] is None or isinstance(it.iterate(given[k]), list) else N[k] > 0
        ax = z3.BoolVal(False) if aux is None else aux.z
        want = z3.Or(z3.And(some("trail_edges"), some("supports")), z3.And(some("deviation_edges"), ax))
        ctx.prove("the trails are built once when there are trails to build", z3.And(want == (len(built) == 1), z3.BoolVal(len(built) <= 1)))
        if built:
            b = force(ctx, built[0])
            ctx.prove("auxiliary trails are added as asked", (toz(b) if isinstance(b, Sym) else z3.BoolVal(bool(b))) == ax)
    V.background("TopologyDiagram", go)


def finding(V):
    from compas_cem.equilibrium import static_equilibrium
    from compas_cem.diagrams import TopologyDiagram, FormDiagram

    def form(it):
        ctx = it.ctx
        s = Sig()
        t = missing(it, "topology", topology(it, s))
        calls = []
        f = Opaque("form")
        names = ("topology", "tmax", "eta", "kmax", "verbose", "callback")
        import inspect
        names = list(inspect.signature(static_equilibrium).parameters)

        def eqm(it, *a, **k):
            calls.append(dict(zip(names, a), **k))
            return f
        ctx.contracts[static_equilibrium] = eqm
        ctx.assumptions.add("static_equilibrium finds the form (C01 to C05)")
        tm, eta, kmax = missing(it, "tmax", integer("tmax")), missing(it, "eta", real("eta")), missing(it, "kmax", integer("kmax"))
        for x in (tm, eta, kmax):
            if x is not None:
                ctx.assume(x.z > 0)
        r = run(it, "FormFinding", topology=t, kmax=kmax, tmax=tm, eta=eta)["form"]
        if t is None:
            yields(it, "no form without topology", r, None)
            return
        ctx.prove("one form is found and returned", z3.BoolVal(len(calls) == 1 and r is f))
        if len(calls) != 1:
            return
        c = calls[0]
        ctx.prove("it is the form of the given topology", z3.BoolVal(force(ctx, c.get("topology")) is t))
        ctx.prove("the iteration limit is handed on, or 100", eq(c.get("tmax", 100), 100 if tm is None else tm))
        ctx.prove("the tolerance is handed on, or 1e-6", eq(c.get("eta", core.frac(core.rv(core.Fraction("1e-06")))), core.frac(core.rv(core.Fraction("1e-06"))) if eta is None else eta))
        ctx.prove("the number of steps is handed on", z3.BoolVal(c.get("kmax") is None) if kmax is None else eq(c.get("kmax"), kmax))
    V.unit("FormFinding", form)

    def constrained(it):
        ctx = it.ctx
        s = Sig()
        src = topology(it, s)
        t = missing(it, "topology", src)
        dup = Inst(ctx, TopologyDiagram, {})
        ctx.assumptions.add(COPY)

        def copy(it, me, *a, **k):
            it.ctx.prove("the diagram that is copied is the one given", z3.BoolVal(force(it.ctx, me) is src))
            return dup
        ctx.contracts[TopologyDiagram.copy] = copy
        NONE = literal(None)
        i = z3.Int("i")
        E = {k: z3.Function("elem_" + k, I, I) for k in ("constraints", "parameters")}
        N = {k: z3.Int("n_" + k) for k in E}
        lists = {}
        for k in E:
            ctx.assume(N[k] > 0)
            lists[k] = missing(it, k, ListObj(ctx, (), SSeq(N[k], lambda p, k=k: Choice(E[k](p) != NONE, Sym("val", E[k](p)), None))), True)
        calls, stopped, made = [], [], []
        out = [Opaque("topology out"), Opaque("form")] + [real("result%d" % j) for j in range(5)]
        C = ctx.contracts
        C[gh.Proxy.__init__] = lambda it, me, *a, **k: made.append(me)
        C[gh.Proxy.stop_server] = lambda it, me: stopped.append(me)

        def solve(it, me, *a, **k):
            it.ctx.prove("the proxy is still running", z3.BoolVal(not stopped))
            names = ("topology", "constraints", "parameters", "algorithm", "iters", "eps", "kappa", "tmax", "eta")
            calls.append(dict(zip(names, a), **k))
            return ListObj(it.ctx, out)
        C[gh.Proxy.solve_proxy] = solve
        gh.sticky.clear()
        kept = None
        if ctx.decide(z3.Bool("a proxy is running")):
            kept = Inst(ctx, gh.Proxy, {})
            gh.sticky["proxy_cem"] = kept
        opts = {"algorithm": missing(it, "algorithm", "MMA"), "iters_max": missing(it, "iters", integer("iters")), "eps": missing(it, "eps", real("eps")),
                "kappa": real("kappa"), "tmax": missing(it, "tmax", integer("tmax")), "eta": real("eta")}
        for x in opts.values():
            if isinstance(x, Sym):
                ctx.assume(x.z > 0)
        go = missing(it, "solve", Sym("bool", z3.Bool("solve")))
        try:
            r = run(it, "ConstrainedFormFinding", solve=go, topology=t, **dict(lists, **opts))
        finally:
            gh.sticky.clear()
        ok = t is not None and go is not None and all(isinstance(x, ListObj) and not isinstance(it.iterate(x), list) for x in lists.values())
        want = z3.And(z3.BoolVal(ok), go.z) if go is not None else z3.BoolVal(False)
        ctx.prove("the problem is solved once when it is complete and solving is asked for", z3.And(want == (len(calls) == 1), z3.BoolVal(len(calls) <= 1)))
        if len(calls) != 1:
            ctx.prove("otherwise nothing is returned", z3.BoolVal(all(v is None for v in r.values())))
            return
        c = calls[0]
        ctx.prove("a copy of the diagram is solved", z3.BoolVal(force(ctx, c.get("topology")) is dup))
        for k in E:
            v = c.get(k)
            x = it.iterate(v) if v is not None else []
            inside = z3.And(i >= 0, i < N[k], E[k](i) != NONE)
            if isinstance(x, list):
                ctx.prove("the given %s are handed on" % k, z3.BoolVal(False))
                continue
            ctx.prove("exactly the given %s are handed on" % k, x.guard(i) == inside)
            ctx.prove("the given %s are handed on as they are" % k, z3.Implies(inside, eq(x.item(i) if isinstance(x, SSeq) else x.raw((i,)), Sym("val", E[k](i)))))
        six = core.frac(core.rv(core.Fraction("1e-06")))
        for k, n, d in (("algorithm", "algorithm", "SLSQP"), ("iters_max", "iters", 100), ("eps", "eps", six), ("kappa", "kappa", None), ("tmax", "tmax", 100), ("eta", "eta", None)):
            ctx.prove("%s is handed on, or its default" % n, z3.BoolVal(False) if n not in c else eq(c[n], d if opts[k] is None else opts[k]))
        for (k, v), w in zip(r.items(), out):
            v = force(ctx, v)
            ctx.prove("output %s is that of the solution" % k, z3.BoolVal(v is w) if not isinstance(w, Sym) else eq(v, w))
        ctx.prove("a running proxy is used and left running, a temporary one is stopped",
                  z3.BoolVal((not made and not stopped) if kept is not None else (len(made) == 1 and len(stopped) == 1)))
    V.background("ConstrainedFormFinding", constrained)


def edits(V):
    from compas_cem.diagrams import TopologyDiagram
    from compas.utilities import iterable_like

    def like(it, target, reference, fillvalue=None):
        """compas.utilities.iterable_like: as many items as in target, missing ones filled."""
        a, b = it.iterate(target), it.iterate(reference)
        if not isinstance(a, SSeq) or not isinstance(b, SSeq):
            raise Unsupported("iterable_like of other sequences")
        it.ctx.assumptions.add("compas.utilities.iterable_like(target, reference, fillvalue) yields len(target) items of reference, filled up with fillvalue")

        def item(i):
            return Choice(i < b.n, b.item(i), fillvalue)
        return ListObj(it.ctx, (), SSeq(a.n, item))

    def go(it, comp, other, value, attr):
        ctx = it.ctx
        ctx.contracts[iterable_like] = like
        s = Sig()
        src = topology(it, s)
        t = missing(it, "topology", src)
        dup = Inst(ctx, TopologyDiagram, {})
        ctx.assumptions.add(COPY)

        def copy(it, me, *a, **k):
            it.ctx.prove("the diagram that is copied is the one given", z3.BoolVal(force(it.ctx, me) is src))
            return dup
        ctx.contracts[TopologyDiagram.copy] = copy
        n, m, i = z3.Int("n_keys"), z3.Int("n_values"), z3.Int("i")
        ctx.assume(z3.And(n > 0, m > 0))
        KEY = z3.Function("origin_key", I, I)
        keys = missing(it, "origin_node_keys", ListObj(ctx, (), SSeq(n, lambda p: Sym("int", KEY(p)))), True)
        vals = missing(it, other, ListObj(ctx, (), SSeq(m, lambda p: value(it, p))), True)
        log = ListObj(ctx, ())

        def on_copy(it, me):
            it.ctx.prove("the diagram that is given is left alone", z3.BoolVal(force(it.ctx, me) is dup))
        attr(it, log, on_copy)
        r = run(it, comp, topology=t, origin_node_keys=keys, **{other: vals})["topology"]
        c = it.iterate(log)
        if any(x is None or (isinstance(x, ListObj) and isinstance(it.iterate(x), list)) for x in (t, keys, vals)):
            ctx.prove("nothing happens when an input is missing", z3.BoolVal(r is None and isinstance(c, list) and not c))
            return
        ctx.prove("the copy is returned", z3.BoolVal(r is dup))
        if not isinstance(c, SSeq):
            raise Unsupported("edits that do not follow the keys")
        ctx.prove("one edit per key", c.n == n)
        k, *v = it.iterate(force(ctx, c.item(i)))
        ctx.assume(z3.And(i >= 0, i < n))
        ctx.prove("edit i is that of key i", eq(k, Sym("int", KEY(i))))
        j = z3.If(i < m, i, m - 1)
        w = value(it, j)
        w = [w] if isinstance(w, Sym) else w.parts
        ctx.prove("its value is value i, or the last one", z3.And(z3.BoolVal(len(v) == len(w)), *[eq(x, y) for x, y in zip(v, w)]))

    S = z3.Function("sequence", I, I)

    def shift_attr(it, log, on_copy):
        def shift(it, me, key, seq):
            on_copy(it, me)
            it.list_append(log, (key, seq))
        it.ctx.contracts[TopologyDiagram.shift_trail] = shift
        it.ctx.assumptions.add("shift_trail shifts the trail (C08)")
    V.unit("TrailsShift", lambda it: go(it, "TrailsShift", "sequences", lambda it, p: Sym("int", S(p)), shift_attr))

    P = [z3.Function("point_" + a, I, R) for a in "xyz"]

    class HostPoint(Obj):
        __slots__ = ("parts",)

        def __init__(self, ctx, p):
            Obj.__init__(self, ctx, {})
            self.parts = [Sym("real", f(p)) for f in P]

        def subst(self, pairs):
            from pyvc.values import subst
            h = HostPoint.__new__(HostPoint)
            for k in Obj.__slots__ if hasattr(Obj, "__slots__") else ():
                setattr(h, k, getattr(self, k))
            h.parts = [subst(x, pairs) for x in self.parts]
            return h

    def move_attr(it, log, on_copy):
        def attrs(it, me, key, names=None, values=None):
            on_copy(it, me)
            ns = it.iterate(names)
            it.ctx.prove("it is the position that is set", z3.BoolVal(list(ns) == ["x", "y", "z"]) if isinstance(ns, list) else z3.BoolVal(False))
            it.list_append(log, (key,) + tuple(it.unpack(values, [0, 0, 0])))
        it.ctx.contracts[TopologyDiagram.node_attributes] = attrs
        it.ctx.assumptions.add("Network.node_attributes(key, names, values) sets these attributes of the node and nothing else")

        def conv(it, me):
            g = force(it.ctx, it.getattr(me, "geometry"))
            if not isinstance(g, HostPoint):
                raise Unsupported("conversion of another object")
            return FList(g.parts)
        it.ctx.contracts[gh.Wrapped.to_compas] = conv
        it.ctx.assumptions.add(CONV)
    V.unit("OriginNodesMove", lambda it: go(it, "OriginNodesMove", "points", lambda it, p: HostPoint(it.ctx, p), move_attr))


def listings(V):
    from compas_cem.diagrams import FormDiagram

    def same(it, what, got, want):
        x, y = it.iterate(got), it.iterate(want)
        if isinstance(x, list) and isinstance(y, list):
            it.ctx.prove(what, z3.And(z3.BoolVal(len(x) == len(y)), *[alike(it, a, b) for a, b in zip(x, y)]))
            return
        if isinstance(x, SSeq) and isinstance(y, SSeq):
            i = z3.FreshInt("i")
            it.ctx.prove(what, z3.And(x.n == y.n, z3.Implies(z3.And(i >= 0, i < x.n), plain(it, x.item(i), y.item(i)))))
            return
        if isinstance(x, SColl) and isinstance(y, SColl):
            if x.width != y.width:
                it.ctx.prove(what, z3.BoolVal(False))
                return
            ps = [z3.FreshInt("p") for _ in range(x.width)]
            it.ctx.prove(what + ": the same elements", x.guard(*ps) == y.guard(*ps))
            a, b = x.raw(ps), y.raw(ps)
            it.ctx.prove(what + ": the same values", z3.Implies(x.guard(*ps), plain(it, a, b)))
            return
        it.ctx.prove(what, z3.BoolVal(False))

    def plain(it, a, b):
        if isinstance(a, SSeq) and isinstance(b, SSeq):
            i = z3.FreshInt("i")
            return z3.And(a.n == b.n, z3.Implies(z3.And(i >= 0, i < a.n), eq(a.item(i), b.item(i))))
        if isinstance(a, SColl) and isinstance(b, SColl) and a.width == b.width:
            ps = [z3.FreshInt("p") for _ in range(a.width)]
            return z3.And(a.guard(*ps) == b.guard(*ps), z3.Implies(a.guard(*ps), plain(it, a.raw(ps), b.raw(ps))))
        return alike(it, a, b)

    TOPO = {"node_keys": "nodes", "origin_node_keys": "origin_nodes", "support_node_keys": "support_nodes", "edge_keys": "edges", "trail_edge_keys": "trail_edges",
            "deviation_edge_keys": "deviation_edges", "sequence_keys": "sequences", "trail_keys": "trails", "auxiliary_trail_keys": "auxiliary_trails"}

    def dis(it, comp, inp, table, cls):
        s = Sig()
        well_formed(it, s)
        one_orientation(it, s)
        if inp == "topology":
            numbered(it, s)
            it.ctx.assumptions.add("the topology that is taken apart has a node")
            it.ctx.assume(s.NODE(z3.Int("some_node")))
        t = missing(it, inp, topology(it, s, cls=cls))
        r = run(it, comp, **{inp: t})
        if t is None:
            it.ctx.prove("nothing without a diagram", z3.BoolVal(all(v is None for v in r.values())))
            return
        it.ctx.prove("the outputs are the documented ones", z3.BoolVal(set(r) == set(table)))
        for k, m in table.items():
            if k in r:
                same(it, "%s lists the %s of the diagram" % (k, m), r[k], method(it, t, m))
    V.unit("DisassembleTopology", lambda it: dis(it, "DisassembleTopology", "topology", TOPO, None))
    V.unit("DisassembleForm", lambda it: dis(it, "DisassembleForm", "form", {k: TOPO[k] for k in ("node_keys", "support_node_keys", "edge_keys")}, FormDiagram))

    def results(it):
        ctx = it.ctx
        s = Sig()
        well_formed(it, s)
        f = missing(it, "form", topology(it, s, cls=FormDiagram))
        n, i = z3.Int("n_keys"), z3.Int("i")
        EU, EV = z3.Function("key_u", I, I), z3.Function("key_v", I, I)
        ctx.assume(n > 0)
        ctx.axioms.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), s.EDGE(EU(i), EV(i))), patterns=[EU(i)]))
        keys = missing(it, "edge_keys", ListObj(ctx, (), SSeq(n, lambda p: (Sym("int", EU(p)), Sym("int", EV(p))))), True)
        r = run(it, "ResultsEdges", form=f, edge_keys=keys)
        if f is None:
            ctx.prove("nothing without a form", z3.BoolVal(all(v is None for v in r.values())))
            return
        full = isinstance(keys, ListObj) and not isinstance(it.iterate(keys), list)
        for out, fun in (("lengths", s.LEN), ("forces", s.FRC)):
            x = it.iterate(r[out])
            if full:
                if not isinstance(x, SSeq):
                    raise Unsupported("results that do not follow the keys")
                ctx.prove("%s: one per key" % out, x.n == n)
                ctx.prove("%s: in the order of the keys" % out, z3.Implies(z3.And(i >= 0, i < n), numeq(force(ctx, x.item(i)), Sym("real", fun(EU(i), EV(i))))))
            else:
                same(it, "%s are those of all edges" % out, r[out], SColl(2, lambda u, v: s.EDGE(u, v), lambda u, v: Sym("real", fun(u, v))))
    V.unit("ResultsEdges", results)

    def reactions(it):
        ctx = it.ctx
        s = Sig()
        well_formed(it, s)
        f = missing(it, "form", topology(it, s, cls=FormDiagram))
        n, i = z3.Int("n_keys"), z3.Int("i")
        KEY = z3.Function("key", I, I)
        ctx.assume(n > 0)
        ctx.axioms.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), s.NODE(KEY(i))), patterns=[KEY(i)]))
        keys = missing(it, "support_node_keys", ListObj(ctx, (), SSeq(n, lambda p: Sym("int", KEY(p)))), True)
        r = run(it, "ResultsSupportNodes", form=f, support_node_keys=keys)
        (out, r), = r.items()
        if f is None:
            ctx.prove("nothing without a form", z3.BoolVal(r is None))
            return
        ctx.assumptions.add("rhinoscriptsyntax.AddPoint(x, y, z) makes the point with these coordinates")
        if isinstance(keys, ListObj) and not isinstance(it.iterate(keys), list):
            x = it.iterate(r)
            if not isinstance(x, SSeq):
                raise Unsupported("results that do not follow the keys")
            ctx.prove("one reaction per key", x.n == n)
            v = it.iterate(force(ctx, x.item(i)))
            ctx.prove("in the order of the keys", z3.Implies(z3.And(i >= 0, i < n), z3.And(*[numeq(force(ctx, a), Sym("real", b)) for a, b in zip(v, s.reac(KEY(i)))])))
        else:
            same(it, "the reactions are those of all supports", r, SColl(1, lambda k: z3.And(s.NODE(k), s.support(k)), lambda k: tuple(Sym("real", x) for x in s.reac(k))))
    V.unit("ResultsSupportNodes", reactions)

    def search(it):
        ctx = it.ctx
        s = Sig()
        well_formed(it, s)
        t = topology(it, s)
        g = missing(it, "diagram", t)
        p = vz3(it, "p")
        a = missing(it, "point", geo(it, p))
        key = method(it, t, "node_key", p)
        if force(ctx, key) is None:
            return
        r = run(it, "SearchNodeKey", diagram=g, point=a)
        (out, r), = r.items()
        yields(it, "the key is that of the node at the point", r, None if g is None or a is None else key)
    V.unit("SearchNodeKey", search)

    def search_edge(it):
        ctx = it.ctx
        s = Sig()
        well_formed(it, s)
        t = topology(it, s)
        g = missing(it, "diagram", t)
        p, q = vz3(it, "p"), vz3(it, "q")
        from compas.geometry import Line
        ln = Inst(ctx, gh.Segment, {"start": p, "end": q})
        a = missing(it, "line", geo(it, ln))
        k, l = method(it, t, "node_key", p), method(it, t, "node_key", q)
        if force(ctx, k) is None or force(ctx, l) is None:
            return
        r = run(it, "SearchEdgeKey", diagram=g, line=a)
        (out, r), = r.items()
        yields(it, "the key is that of the nodes at the ends of the line", r, None if g is None or a is None else ListObj(ctx, [(k, l)]))
    V.unit("SearchEdgeKey", search_edge)


def files(V):
    import os
    from compas_cem.diagrams import TopologyDiagram, FormDiagram

    def path(it):
        it.ctx.assumptions.add("os.path.abspath names the same file")
        it.ctx.contracts[os.path.abspath] = lambda it, p: p
        return missing(it, "filepath", Sym("val", literal("a file")))

    def imp(it, comp, cls):
        p = path(it)
        calls = []
        out = Opaque("diagram")

        def from_json(it, c, f, *a, **k):
            calls.append((c, f))
            return out
        for c in (TopologyDiagram, FormDiagram):
            it.ctx.contracts[c.from_json.__func__] = from_json
        it.ctx.assumptions.add("from_json reads the diagram (C14)")
        r = run(it, comp, filepath=p)
        (o, r), = r.items()
        if p is None:
            it.ctx.prove("nothing without a file", z3.BoolVal(r is None and not calls))
            return
        it.ctx.prove("the diagram in the file is returned, as a %s" % cls.__name__, z3.And(z3.BoolVal(r is out and len(calls) == 1 and calls[0][0] is cls), eq(calls[0][1], p) if calls else z3.BoolVal(False)))
    V.unit("JSONImportForm", lambda it: imp(it, "JSONImportForm", FormDiagram))
    V.unit("JSONImportTopology", lambda it: imp(it, "JSONImportTopology", TopologyDiagram))

    def exp(it):
        p = path(it)
        s = Sig()
        t = topology(it, s)
        d = missing(it, "diagram", t)
        calls = []

        def to_json(it, me, f, *a, **k):
            calls.append((force(it.ctx, me), f))
        it.ctx.contracts[TopologyDiagram.to_json] = to_json
        data = Opaque("data")
        it.ctx.contracts[TopologyDiagram.data.fget] = lambda it, me: data
        it.ctx.assumptions.add("to_json writes the diagram (C14)")
        r = run(it, "JSONExportDiagram", diagram=d, filepath=p)["data"]
        if p is None or d is None:
            it.ctx.prove("nothing without a diagram and a file", z3.BoolVal(r is None and not calls))
            return
        it.ctx.prove("the diagram is written to the file once", z3.And(z3.BoolVal(len(calls) == 1 and calls[0][0] is t), eq(calls[0][1], p) if calls else z3.BoolVal(False)))
        it.ctx.prove("its data is returned", z3.BoolVal(r is data))
    V.unit("JSONExportDiagram", exp)


def verify(V):
    builders(V)
    assemble(V)
    finding(V)
    edits(V)
    listings(V)
    files(V)
