"""Contract of TopologyDiagram.build_trails.

Precondition (PATHS): the trail edges at nodes connected to a support form disjoint paths,
each with one support at one end.  Ghost functions name them: P(S, i) is the i-th node on
the path of the support S, L(S) >= 2 the number of its nodes, and for a node n that some
support reaches, SUP(n) is that support and POS(n) the position of n from it.

The loop that walks from a support is verified against the invariant "after i steps the
walk is at P(S, i), and what was collected are the first i nodes of the path"; the shapes of
the collected lists and sets are inferred among the candidates of Walk.candidates.
"""
import ast
from .topo import *  # noqa: F401,F403
from pyvc import loops
from pyvc.core import BreakSig, ContinueSig, ReturnSig, Poison, subst
from pyvc.values import SetObj


class Paths:
    """The ghost description of the paths of one diagram, as functions over its terms."""

    def __init__(self, s, NODE=None, EDGE=None, TRAIL=None, SUPP=None, p=""):
        F = z3.Function
        self.s, p = s, s.p + p
        self.P, self.L = F(p + "path_at", I, I, I), F(p + "path_len", I, I)
        self.REACH, self.SUP, self.POS = F(p + "REACHED", I, B), F(p + "sup_of", I, I), F(p + "pos_from_sup", I, I)
        self.NODE = NODE or s.NODE
        self.SUPP = SUPP or (lambda n: s.support(n))
        self.EDGE = EDGE or s.EDGE
        self.TRAIL = TRAIL or (lambda a, b: s.trail(a, b))

    def adj(self, a, b):
        """A trail edge joins a and b, in either direction."""
        return z3.Or(z3.And(self.EDGE(a, b), self.TRAIL(a, b)), z3.And(self.EDGE(b, a), self.TRAIL(b, a)))

    def issup(self, n):
        return z3.And(self.NODE(n), self.SUPP(n))

    def reached(self, n):
        return z3.And(self.NODE(n), self.REACH(n))

    def isorigin(self, n):
        """n is the first node of a trail: the last one seen from the support."""
        return z3.And(self.reached(n), self.POS(n) == self.L(self.SUP(n)) - 1)

    def on_path(self, S, i):
        """Facts about the i-th node of the path of S."""
        x = self.P(S, i)
        return z3.Implies(z3.And(self.issup(S), 0 <= i, i < self.L(S)),
                          z3.And(self.reached(x), self.SUP(x) == S, self.POS(x) == i))

    def of_support(self, S):
        return z3.Implies(self.issup(S), z3.And(self.L(S) >= 2, self.P(S, 0) == S, self.reached(S), self.SUP(S) == S, self.POS(S) == 0))

    def of_node(self, n):
        S = self.SUP(n)
        return z3.Implies(self.reached(n), z3.And(self.issup(S), 0 <= self.POS(n), self.POS(n) < self.L(S), self.P(S, self.POS(n)) == n,
                                                  self.SUPP(n) == (self.POS(n) == 0)))

    def step(self, S, i):
        """Consecutive nodes of a path are joined by a trail edge."""
        return z3.Implies(z3.And(self.issup(S), 0 <= i, i + 1 < self.L(S)), self.adj(self.P(S, i), self.P(S, i + 1)))

    def near(self, a, b):
        """Trail edges join consecutive nodes of one path, or two nodes no support reaches."""
        return z3.Implies(z3.And(self.NODE(a), self.NODE(b), self.adj(a, b)), z3.And(
            self.REACH(a) == self.REACH(b),
            z3.Implies(self.REACH(a), z3.And(self.SUP(a) == self.SUP(b),
                                             z3.Or(self.POS(a) == self.POS(b) + 1, self.POS(b) == self.POS(a) + 1)))))

    def axioms(self):
        S, i, a, b = z3.Ints("pa_S pa_i pa_a pa_b")
        return [z3.ForAll([S, i], self.on_path(S, i), patterns=[self.P(S, i)]),
                z3.ForAll([S], self.of_support(S), patterns=[self.SUPP(S)] if z3.is_app(self.SUPP(S)) and False else [self.L(S)]),
                z3.ForAll([a], self.of_node(a), patterns=[self.REACH(a)]),
                z3.ForAll([a, b], self.near(a, b), patterns=[self.EDGE(a, b)])]


class Walk:
    """Loop rule for the walk along a path (a hook of the interpreter)."""

    def __init__(self, paths):
        self.p = paths
        self.used = 0

    def candidates(self, it, pre, S, i, oid, loc):
        """Closed forms of a variable after i steps from S."""
        p = self.p
        ctx = it.ctx

        def prefix(n, rev=False):
            if rev:
                return (SSeq(n, lambda j: Sym("int", p.P(S, simp(n - 1 - j))), None, "list"), ())
            return (SSeq(n, lambda j: Sym("int", p.P(S, j)), None, "list"), ())

        def seen(n):
            return DictC(SMap(1, lambda x: z3.And(p.reached(x), p.SUP(x) == S, p.POS(x) < n), lambda x: True))
        if loc[0] == "var" and core.is_int(pre):
            return [("P(S, i)", Sym("int", p.P(S, i))), ("i", mk("int", i + toz(pre)))]
        if oid[0] == "ListObj":
            return [("first i nodes", prefix(i)), ("first i + 1 nodes", prefix(i + 1)), ("first i nodes, reversed", prefix(i, True)),
                    ("first i + 1 nodes, reversed", prefix(i + 1, True))]
        if oid[0] == "SetObj":
            return [("first i nodes", seen(i)), ("first i + 1 nodes", seen(i + 1))]
        return []

    def same(self, it, a, b, oid, facts):
        """Two contents are equal (entailed by the facts)."""
        ctx = it.ctx

        def ent(g):
            return aggr._entails(ctx, facts, g, 3000)
        if oid[0] == "ListObj":
            sa, sb = [self.seq(x) for x in (a, b)]
            if sa is None or sb is None:
                return False
            j = z3.FreshInt("j")
            return ent(sa.n == sb.n) and aggr._entails(ctx, facts + [0 <= j, j < sa.n], eq(sa.item(j), sb.item(j)), 3000)
        if oid[0] == "SetObj":
            x = z3.FreshInt("x")
            return ent(d_lookup(ctx, a, Sym("int", x))[0] == d_lookup(ctx, b, Sym("int", x))[0])
        if a is b:
            return True
        if core.is_scalar(a) and core.is_scalar(b):
            return ent(eq(a, b))
        return False

    def seq(self, c):
        base, items = c
        if base is None:
            if any(not core.is_scalar(x) for x in items):
                return None
            its = list(items)

            def item(j):
                v = its[-1] if its else Sym("int", z3.IntVal(0))
                for k in range(len(its) - 2, -1, -1):
                    v = merge(j == k, its[k], v)
                return v
            return SSeq(z3.IntVal(len(its)), item, None, "list")
        if not isinstance(base, SSeq):
            return None
        return lib.seq_cat(base, items) if items else base

    def __call__(self, it, st, fr, coll, val):
        if not isinstance(st, ast.While) or isinstance(st.test, ast.Name):
            return NotImplemented
        ctx, p = it.ctx, self.p
        heap0 = dict(ctx.heap)

        def body():
            if not it.truth(it.eval(st.test, fr)):
                raise BreakSig()
            try:
                it.block(st.body, fr)
            except ContinueSig:
                pass
        first = ctx.explore(body)
        changed = loops.find_changes(heap0, first)
        local = heap0[fr.oid] if isinstance(heap0[fr.oid], dict) else None
        starts = [toz(pre) for (oid, loc), pre in changed.items() if loc[0] == "var" and pre is not loops.MISSING and core.is_int(pre)]
        base = ctx.axioms + ctx.pc
        for S in starts:
            if aggr._entails(ctx, base, p.issup(S), 3000):
                break
        else:
            raise Unsupported("a walk that does not start at a support")
        ctx.assume(z3.And(p.L(S) >= 2, p.P(S, 0) == S, p.of_support(S)))
        facts0 = ctx.axioms + ctx.pc
        i = ctx.fresh("step", I)
        chosen = {}

        def form(k, at):
            (oid, loc), name = k, chosen[k]
            return dict(self.candidates(it, changed[k], S, at, oid, loc))[name]
        open_ = {}
        for k, pre in changed.items():
            oid, loc = k
            if pre is loops.MISSING:
                continue
            z = z3.IntVal(0)
            names = [n for n, v in self.candidates(it, pre, S, z, oid, loc) if self.same(it, pre, v, oid, facts0)]
            open_[k] = names
        for attempt in range(4):
            bad = None
            chosen = {k: ns[0] for k, ns in open_.items() if ns}
            heap1 = dict(heap0)
            for k in changed:
                if changed[k] is loops.MISSING:
                    continue
                oid, loc = k
                v = form(k, i) if k in chosen else None
                if v is None:
                    if loc[0] != "var":
                        raise Unsupported("no invariant for %r in a walk" % (oid,))
                    v = Poison("value of an earlier step of a walk")
                heap1[oid] = loops.with_location(heap1[oid], loc, v)
            pc0 = list(ctx.pc)
            ctx.heap = dict(heap1)
            ctx.pc += [0 <= i, i < p.L(S), p.on_path(S, i), p.on_path(S, simp(i + 1)), p.step(S, i), p.of_support(S)]
            facts = ctx.axioms + ctx.pc
            try:
                outs = ctx.explore(body)
            finally:
                ctx.pc = pc0
                ctx.heap = dict(heap0)
            for o in outs:
                f = facts + o.pc
                if o.kind != "ok":
                    continue
                if not aggr._entails(ctx, f, i + 1 < p.L(S), 3000):
                    raise Unsupported("a walk that may go on past its path")
                for k in chosen:
                    oid, loc = k
                    new = loops.locations(o.heap[oid]).get(loc, loops.MISSING)
                    if not self.same(it, new, form(k, simp(i + 1)), oid, f):
                        bad = k
                        break
                if bad is None:
                    for oid, c in o.heap.items():
                        if oid in heap1 and heap1[oid] is not c:
                            for loc, new in loops.locations(c).items():
                                if (oid, loc) not in changed and new is not loops.locations(heap1[oid]).get(loc, loops.MISSING) and loops.locations(heap1[oid]).get(loc, loops.MISSING) is not loops.MISSING:
                                    raise Unsupported("a walk that changes %r" % (oid,))
                if bad is not None:
                    break
            if bad is None:
                break
            open_[bad] = open_[bad][1:]
        else:
            raise Unsupported("no invariant found for a walk")
        exits = [o for o in outs if o.kind in ("break", "return", "raise")]
        for o in exits:
            if not aggr._entails(ctx, facts + o.pc, i == p.L(S) - 1, 3000):
                if o.kind != "break":
                    raise Unsupported("a walk that may end before its path")
                pc0 = list(ctx.pc)
                ctx.pc = pc0 + facts[len(ctx.axioms) + len(pc0):] + o.pc
                ctx.prove("a walk ends only where its path does", i == p.L(S) - 1)
                ctx.pc = pc0
                raise core.PathCut()
        if len(exits) != 1 or exits[0].kind != "break":
            raise Unsupported("several ways to end a walk")
        o = exits[0]
        last = simp(p.L(S) - 1)
        pairs = [(i, last)]
        for oid, c in o.heap.items():
            if oid in heap1 and heap1[oid] is c and oid not in {k[0] for k in changed}:
                continue
            ctx.heap[oid] = loops.subst_content(c, pairs)
        ctx.assume(z3.And(p.on_path(S, last), p.L(S) >= 2))
        # what was collected, in closed form
        facts = ctx.axioms + ctx.pc
        for k in chosen:
            oid, loc = k
            now = loops.locations(ctx.heap[oid])[loc]
            for n in (p.L(S), last):
                for name, v in self.candidates(it, changed[k], S, n, oid, loc):
                    if self.same(it, now, v, oid, facts):
                        loops.set_loc(it, oid, loc, v)
                        break
                else:
                    continue
                break
        self.used += 1
        return True
