"""C06: trails partition the nodes into paths from an origin to a support."""
from .trails import *  # noqa: F401,F403
from .C09 import View, same_value


def state(it, s, cls=None):
    """An arbitrary diagram whose trail edges form paths, in whatever state earlier builds left it."""
    well_formed(it, s)
    one_orientation(it, s)
    p = Paths(s)
    it.ctx.axioms += p.axioms()
    it.ctx.assumptions.add("PATHS: the trail edges form disjoint simple paths, each with at least one edge and a support at exactly one end")
    it.ctx.inverse_hints = [lambda x: p.SUP(x), lambda x: p.L(p.SUP(x)) - 1 - p.POS(x), lambda x: p.POS(x)]
    n = z3.Int("wf_n")
    it.ctx.axioms.append(z3.ForAll([n], z3.Implies(p.issup(n), p.of_support(n)), patterns=[s.NTYPE(n)]))
    t = topology(it, s, cls=cls)
    return t, p


def verify(V):
    from compas_cem.diagrams import TopologyDiagram
    s = Sig()
    n, u, v, k, j = z3.Ints("n u v k j")

    def build(it):
        t, p = state(it, s)
        ctx = it.ctx
        walk = Walk(p)
        ctx.hooks[:] = [walk]
        w0 = View(it, t)
        old = {x: w0.nattr(n, x[2:]) for x in list(w0.m) if x.startswith("n:")}
        olde = {x: w0.eattr(u, v, x[2:]) for x in list(w0.m) if x.startswith("e:")}
        rest0 = w0.rest
        kind, r = outcome(it, it.getattr(t, "build_trails"))
        a, b = z3.Ints("some_u some_v")
        bad = z3.Int("unreached")
        if kind == "raise":
            ctx.prove("only an AssertionError is raised", z3.BoolVal(r is AssertionError))
            # it is raised only for a reason: contradiction from "all reached, an edge and a support exist"
            ctx.pc.append(z3.ForAll([n], z3.Implies(s.NODE(n), p.REACH(n)), patterns=[s.NODE(n)]))
            ctx.assume(z3.And(p.issup(k), s.EDGE(a, b), s.trail(a, b)))
            ctx.prove("an AssertionError is raised only when a node is not reached, or there is no trail edge or no support", z3.BoolVal(False))
            return
        w = View(it, t)
        ctx.prove("every node is reached when building succeeds", z3.Implies(s.NODE(n), p.REACH(n)))
        ctx.prove("there is a support when building succeeds", z3.Implies(s.NODE(n), p.issup(p.SUP(n))))
        ctx.assume(z3.Implies(s.NODE(n), z3.And(p.of_node(n), p.of_support(p.SUP(n)))))
        last = p.L(p.SUP(n)) - 1
        ctx.prove("the sequence number of a node is its position in its trail", z3.Implies(s.NODE(n), num(w.nattr(n, "_k")) == last - p.POS(n)))
        ty = w.nattr(n, "type")
        ctx.prove("exactly the first nodes of the trails are marked as origins", z3.Implies(s.NODE(n), same_value(ty, "_origin") == p.isorigin(n)))
        ctx.prove("supports stay supports", z3.Implies(s.NODE(n), same_value(ty, "support") == s.support(n)))
        tr = method(it, t, "trails", True)
        dom, val = trail_lookup(it, t, n)
        ctx.prove("the trails are named by their origins", dom == p.isorigin(n))
        if val is not None:
            S = p.SUP(n)
            ctx.assume(dom)
            sq = sequence(it, val)
            ctx.prove("a trail is a tuple", z3.BoolVal(getattr(sq, "kind", None) == "tuple"))
            ctx.prove("a trail has all nodes of its path", sq.n == p.L(S))
            ctx.assume(z3.And(0 <= j, j < p.L(S), p.on_path(S, simp(p.L(S) - 1 - j)), p.step(S, simp(p.L(S) - 2 - j)), p.on_path(S, simp(p.L(S) - 2 - j)), p.on_path(S, z3.IntVal(0))))
            ctx.prove("a trail runs along its path from the origin to the support", toz(sq.item(j)) == p.P(S, p.L(S) - 1 - j))
            ctx.prove("a trail starts at the origin that names it", z3.Implies(j == 0, toz(sq.item(z3.IntVal(0))) == n))
            ctx.prove("a trail ends at a support", p.issup(toz(sq.item(simp(p.L(S) - 1)))))
            ctx.prove("consecutive nodes of a trail are joined by a trail edge", z3.Implies(j + 1 < p.L(S), p.adj(toz(sq.item(j)), toz(sq.item(simp(j + 1))))))
            ctx.prove("a node is in the trail of one origin at one position", z3.And(p.SUP(toz(sq.item(j))) == S, p.POS(toz(sq.item(j))) == p.L(S) - 1 - j))
        frame(it, s, w, old, olde, rest0, n, u, v, ("_k", "type"))
    V.unit("build_trails", build)

    def access(it):
        """Queries read what is stored."""
        well_formed(it, s)
        t = topology(it, s)
        ctx = it.ctx
        m = z3.Int("wf_n")
        ctx.axioms.append(z3.ForAll([m], z3.Implies(s.TR(m), s.NODE(m)), patterns=[s.TR(m)]))
        num_ = method(it, t, "number_of_trails")
        ctx.prove("the number of trails is the number of stored ones", toz(num_) == count_of(1, lambda q: s.TR(q)))
        has = as_bool(it, method(it, t, "has_trails"))
        ctx.prove("trails exist when one is stored", z3.Implies(s.TR(k), has))
        check_listing(it, "origin_nodes", method(it, t, "origin_nodes"), 1, lambda q: z3.And(s.NODE(q), s.origin(q)))
        ctx.prove("no trails exist only when none is stored", z3.Implies(z3.Not(has), z3.Not(s.TR(n))))
        ctx.assume(s.TR(k))
        sq = sequence(it, method(it, t, "trail", Sym("int", k)))
        ctx.prove("a trail is found by the origin that names it", z3.And(sq.n == s.TLEN(k), z3.Implies(z3.And(0 <= j, j < s.TLEN(k)), toz(sq.item(j)) == s.AT(k, j))))
        for keys in (False, True):
            x = it.iterate(method(it, t, "trails", keys))
            if isinstance(x, list) or x.width != 1:
                raise Unsupported("listing of trails")
            ctx.prove("all stored trails are listed, and no others", x.guard(k) == s.TR(k))
            e = x.raw([k])
            if keys:
                e0, e = it.unpack(e, [None, None])
                ctx.prove("a trail is listed with its origin", toz(e0) == k)
            sq = sequence(it, e)
            ctx.prove("trails are listed as stored", z3.And(sq.n == s.TLEN(k), z3.Implies(z3.And(0 <= j, j < s.TLEN(k)), toz(sq.item(j)) == s.AT(k, j))))
    V.unit("trail, trails, has_trails, number_of_trails, origin_nodes", access)


def num(val):
    return toz(val) if core.is_scalar(val) else z3.If(val.c, toz(val.a), z3.IntVal(-1)) if isinstance(val, Choice) and core.is_scalar(val.a) else z3.IntVal(-1)


def trail_lookup(it, t, k):
    at = it.get(force(it.ctx, it.getattr(t, "attributes")))
    d = force(it.ctx, d_lookup(it.ctx, at, "_trails")[1])
    return d_lookup(it.ctx, it.get(d) if not isinstance(d, FDict) else d.c, Sym("int", k))


def sequence(it, val):
    val = force(it.ctx, val)
    x = val if isinstance(val, SSeq) else it.iterate(val)
    if not isinstance(x, SSeq):
        raise Unsupported("a trail of another form")
    return x


def frame(it, s, w, old, olde, rest0, n, u, v, attrs):
    ctx = it.ctx
    ctx.prove("no node is added or removed", w.node(n) == s.NODE(n))
    ctx.prove("no edge is added or removed", w.edge(u, v) == s.EDGE(u, v))
    for x in sorted(set(list(w.m))):
        if x.startswith("n:") and x[2:] not in attrs:
            ctx.prove("attribute %s of nodes is unchanged" % x[2:], z3.Implies(s.NODE(n), same_value(w.nattr(n, x[2:]), old.get(x))))
        if x.startswith("e:"):
            ctx.prove("attribute %s of edges is unchanged" % x[2:], z3.Implies(s.EDGE(u, v), same_value(w.eattr(u, v, x[2:]), olde.get(x))))
    for name, x in rest0.items():
        if name != "_trails":
            ctx.prove("%s is unchanged" % name, z3.BoolVal(w.rest[name] is x))
