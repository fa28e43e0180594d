"""C07: auxiliary trails complete a diagram without disturbing it.

The first part of build_trails(auxiliary_trails=True) is verified in place; the call that
builds the trails again is replaced by the contract of build_trails discharged in C06: its
precondition PATHS is an obligation for the completed diagram (with the ghost functions
below), and afterwards sequence numbers, origin marks and trails are the ones it promises.
"""
from .C06 import *  # noqa: F401,F403
from .C06 import state, num, frame
from .C06 import verify as verify_build
from pyvc.core import mk_div, mk_mul, mk_sqrt


class Completed(Paths):
    """The paths of the completed diagram, from those of the given one."""

    def __init__(self, w, p, s, aux, owner):
        self.s = s
        old = lambda n: n <= s.MAXN          # noqa: E731
        self.P = lambda S, i: z3.If(old(S), p.P(S, i), z3.If(i == 0, S, owner(S)))
        self.L = lambda S: z3.If(old(S), p.L(S), z3.IntVal(2))
        self.REACH = lambda n: z3.BoolVal(True)
        self.SUP = lambda n: z3.If(old(n), z3.If(p.REACH(n), p.SUP(n), aux(n)), n)
        self.POS = lambda n: z3.If(old(n), z3.If(p.REACH(n), p.POS(n), z3.IntVal(1)), z3.IntVal(0))
        self.NODE = w.node
        self.SUPP = lambda n: same_value(w.nattr(n, "type"), "support")
        self.EDGE = w.edge
        self.TRAIL = lambda a, b: same_value(w.eattr(a, b, "type"), "trail")


def verify(V):
    from compas_cem.diagrams import TopologyDiagram
    s = Sig()
    n, u, v, x, y = z3.Ints("n u v x y")
    S, i, a, b = z3.Ints("S i a b")

    def aux_edge(it, w, k):
        """The auxiliary trail registered for node k: (listed, first, second)."""
        d = force(it.ctx, w.rest["_auxiliary_trails"])
        dom, val = w.then(lambda: d_lookup(it.ctx, d.c if isinstance(d, FDict) else it.get(d), Sym("int", k)))
        if val is None:
            return dom, z3.IntVal(-1), z3.IntVal(-1)
        vals = it.unpack(val, [None, None])
        return dom, toz(vals[0]), toz(vals[1])

    def owner_of(it):
        """The node an added support belongs to, by the order in which they were added (ghost)."""
        en = getattr(it.ctx, "enumerations", [])
        if not en:
            raise Unsupported("auxiliary supports are not added in a loop")
        E = en[-1][2]
        return lambda k: E(k - s.MAXN - 1)

    def common(it):
        t, p = state(it, s)
        ctx = it.ctx
        ctx.enumerations = []
        ctx.hooks[:] = [Walk(p)]
        k = z3.Int("wf_n")
        # nodes that no support reaches have no trail edges: the trail edges form paths ending at a support
        c, d = z3.Ints("wf_u wf_v")
        ctx.axioms.append(z3.ForAll([c, d], z3.Implies(z3.And(s.EDGE(c, d), s.trail(c, d)), z3.And(p.REACH(c), p.REACH(d))), patterns=[s.EDGE(c, d)]))
        ctx.assumptions.update(["the diagram has a node", "the auxiliary direction is not the zero vector",
                                "nodes that no support reaches have no trail edges"])
        ctx.assume(s.NODE(z3.Int("some_node")))
        ctx.assume(z3.Not(z3.And(*[c == 0 for c in s.AUXVEC])))
        return t, p

    def rebuilt(it, t, p, called):
        def h(it, self, auxiliary_trails=False):
            ctx = it.ctx
            if it.truth(auxiliary_trails):
                if called:
                    raise Unsupported("auxiliary trails are built again")
                return NotImplemented
            w = View(it, self)
            q = Completed(w, p, s, lambda k: aux_edge(it, w, k)[2], owner_of(it))
            called.append((w, q))
            ctx.prove("precondition of the second build: the supports are ends of paths", q.of_support(S))
            pc0 = list(ctx.pc)
            ctx.pc += [p.of_support(S), p.on_path(S, i), p.step(S, i), p.on_path(S, simp(i + 1))]
            ctx.prove("precondition of the second build: nodes on the paths", q.on_path(S, i))
            ctx.prove("precondition of the second build: consecutive nodes are joined", q.step(S, i))
            ctx.prove("precondition of the second build: every node is on a path", z3.Implies(w.node(n), z3.And(q.of_node(n))))
            ctx.prove("precondition of the second build: trail edges join consecutive nodes", q.near(a, b))
            ctx.pc = pc0
            # postcondition of the second build
            def typ(m):
                return z3.If(q.SUPP(m), literal("support"), z3.If(q.isorigin(m), literal("_origin"), literal(None)))
            net.setmap(it, self, "n:_k", DictC(SMap(1, lambda m: z3.BoolVal(True), lambda m: Sym("int", simp(q.L(q.SUP(m)) - 1 - q.POS(m))))))
            net.setmap(it, self, "n:type", DictC(SMap(1, lambda m: z3.BoolVal(True), lambda m: Sym("val", simp(typ(m))))))
            TR2, TL2, AT2 = z3.Function("TR2", I, B), z3.Function("TLEN2", I, I), z3.Function("AT2", I, I, I)
            trails = DictObj(ctx, SMap(1, lambda k: TR2(k), lambda k: SSeq(TL2(k), lambda j: Sym("int", AT2(k, j)), None, "tuple")))
            it.call(it.method(force(ctx, it.getattr(self, "attributes")), "update"), (DictObj(ctx, None, [("_trails", trails)]),))
            return None
        it.ctx.contracts[TopologyDiagram.__dict__["build_trails"]] = h

    def build(it):
        t, p = common(it)
        ctx = it.ctx
        w0 = View(it, t)
        old = {k: w0.nattr(n, k[2:]) for k in list(w0.m) if k.startswith("n:")}
        olde = {k: w0.eattr(u, v, k[2:]) for k in list(w0.m) if k.startswith("e:")}
        rest0 = w0.rest
        called = []
        rebuilt(it, t, p, called)
        kind, r = outcome(it, it.getattr(t, "build_trails"), (True,))
        if kind != "ok":
            ctx.prove("no %s is raised" % r.__name__, z3.BoolVal(False))
            return
        if not called:
            raise Unsupported("trails are not built again")
        w = View(it, t)
        owner = owner_of(it)

        def unreached(k):
            return z3.And(s.NODE(k), z3.Not(p.REACH(k)))
        un = unreached(x)
        listed, first, sup = aux_edge(it, w, x)
        ctx.prove("an auxiliary trail is listed for every node that no trail reaches", z3.Implies(un, z3.And(listed, first == x)))
        ctx.prove("its support is a new node", z3.Implies(un, z3.And(w.node(sup), z3.Not(s.NODE(sup)))))
        ctx.prove("its support is a support", z3.Implies(un, same_value(w.nattr(sup, "type"), "support")))
        ctx.prove("they are connected by a trail edge", z3.Implies(un, z3.And(w.edge(x, sup), same_value(w.eattr(x, sup, "type"), "trail"))))
        ctx.prove("the trail edge has the auxiliary length", z3.Implies(un, zreal(w.eattr(x, sup, "length")) == s.AUXLEN))
        vec_ = s.AUXVEC
        for k, c in zip("xyz", vec_):
            got = zreal(w.nattr(sup, k))
            ctx.prove("its support is at the auxiliary length along the normalised direction (%s)" % k,
                      z3.Implies(un, got == s.N[k](x) + mk_mul(mk_div(c, norm_term(ctx, vec_)), s.AUXLEN)))
        for k in ("qx", "qy", "qz", "rx", "ry", "rz"):
            ctx.prove("its support carries no load or reaction", z3.Implies(un, zreal(w.nattr(sup, k)) == 0))
        sup2 = aux_edge(it, w, y)[2]
        ctx.prove("different nodes get different supports", z3.Implies(z3.And(un, unreached(y), x != y), sup != sup2))
        new = z3.And(w.node(n), z3.Not(s.NODE(n)))
        ctx.prove("a node is added only for a node that no trail reaches",
                  z3.Implies(new, z3.And(unreached(owner(n)), aux_edge(it, w, owner(n))[2] == n)))
        ctx.prove("an edge is added only for a node that no trail reaches",
                  z3.Implies(z3.And(w.edge(u, v), z3.Not(s.EDGE(u, v))), z3.And(unreached(u), aux_edge(it, w, u)[2] == v)))
        kept = z3.And(s.AUX(x), s.EDGE(s.AUXU(x), s.AUXV(x)))
        ctx.prove("the auxiliary trails listed are the new ones and those of earlier builds that are still there", listed == z3.Or(un, kept))
        ctx.prove("auxiliary trails of earlier builds stay as they are", z3.Implies(z3.And(kept, z3.Not(un)), z3.And(first == s.AUXU(x), sup == s.AUXV(x))))
        # nothing else changes
        ctx.prove("no node is removed", z3.Implies(s.NODE(n), w.node(n)))
        ctx.prove("no edge is removed", z3.Implies(s.EDGE(u, v), w.edge(u, v)))
        for k in sorted(set(list(w.m))):
            if k.startswith("n:") and k[2:] not in ("_k", "type"):
                ctx.prove("attribute %s of the nodes there were is unchanged" % k[2:], z3.Implies(s.NODE(n), same_value(w.nattr(n, k[2:]), old.get(k))))
            if k.startswith("e:"):
                ctx.prove("attribute %s of the edges there were is unchanged" % k[2:], z3.Implies(s.EDGE(u, v), same_value(w.eattr(u, v, k[2:]), olde.get(k))))
        ctx.prove("the supports there were stay supports and no other node becomes one",
                  z3.Implies(s.NODE(n), same_value(w.nattr(n, "type"), "support") == s.support(n)))
        for k in ("_aux_length", "_aux_vector"):
            ctx.prove("%s is unchanged" % k, z3.BoolVal(w.rest[k] is rest0[k]))
    V.unit("build_trails(auxiliary_trails=True)", build)

    def listing(it):
        """The auxiliary trails listed are the registered ones."""
        well_formed(it, s)
        t = topology(it, s)
        ctx = it.ctx
        ctx.assume(s.EDGE(u, v))
        got = as_bool(it, method(it, t, "is_auxiliary_trail_edge", (Sym("int", u), Sym("int", v))))
        k = z3.Int("aux_k")
        pc0 = list(ctx.pc)
        ctx.assume(z3.And(s.AUX(k), s.AUXU(k) == u, s.AUXV(k) == v))
        ctx.prove("the edge of a listed trail is an auxiliary edge", got)
        ctx.pc = pc0
        ctx.pc.append(z3.ForAll([k], z3.Not(z3.And(s.AUX(k), s.AUXU(k) == u, s.AUXV(k) == v)), patterns=[s.AUX(k)]))
        ctx.prove("no other edge is an auxiliary edge", z3.Not(got))
        ctx.pc = pc0
        num_ = method(it, t, "number_of_auxiliary_trails")
        ctx.prove("the number of auxiliary trails is the number of listed ones", toz(num_) == count_of(1, lambda q: s.AUX(q)))
    V.unit("auxiliary_trails, is_auxiliary_trail_edge", listing)

    def edges(it):
        well_formed(it, s)
        t = topology(it, s)
        ctx = it.ctx
        ls = Listing(it, method(it, t, "auxiliary_trail_edges"), 2)
        ctx.assume(s.EDGE(u, v))
        ctx.prove("the auxiliary trail edges are the edges for which the query says so",
                  ls.has(u, v) == as_bool(it, method(it, t, "is_auxiliary_trail_edge", (Sym("int", u), Sym("int", v)))))
    V.unit("auxiliary_trail_edges", edges)
    verify_build(V)


def norm_term(ctx, vec_):
    """The length of the auxiliary direction as the code computes it."""
    from pyvc.core import mk_sqrt
    return mk_sqrt(simp(mk_mul(vec_[0], vec_[0]) + mk_mul(vec_[1], vec_[1]) + mk_mul(vec_[2], vec_[2])))
