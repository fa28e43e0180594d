"""Form-finding: the sequence of states both solvers must go through, and the loop invariants.

The specification of one run is a family of functions, recursively defined over
(iteration, sequence, order of the trails); the invariants say that after any number
of iterations, sequences and trails the state of the solver is the one these
functions describe. The recursion is well founded, every definition is instantiated
at the node at hand, never assumed in general.
"""
import ast

from .topo import *  # noqa: F401,F403
from pyvc.core import BreakSig, ContinueSig, PathCut, ReturnSig, _Signal, Poison, rv, mk_mul, mk_div, mk_sqrt
from pyvc.loops import find_changes, locations
from pyvc.values import DictC, SMap, FDict, Frame, Alts

TOL = rv(core.Fraction("1e-06"))


def sq(v):
    return simp(z3.Sum([mk_mul(x, x) for x in v]))


def norm(v):
    return mk_sqrt(sq([simp(x) for x in v]))


def unit(v):
    """v / |v|, and zero when v is zero (0/0 is read as 0)."""
    v = [simp(x) for x in v]
    ln = norm(v)
    return [mk_div(x, ln) for x in v]


def dotp(a, b):
    return simp(z3.Sum([mk_mul(x, y) for x, y in zip(a, b)]))


def vsub(a, b):
    return [simp(x - y) for x, y in zip(a, b)]


def vadd(a, b):
    return [simp(x + y) for x, y in zip(a, b)]


def vif(c, a, b):
    return [simp(z3.If(c, x, y)) for x, y in zip(a, b)]


def vscale(a, v):
    return [mk_mul(a, x) for x in v]


class TrialSig(_Signal):
    kind = "trial"


class Spec:
    """The specification functions of one run on an arbitrary valid diagram."""

    def __init__(self, it, s, kmax=None):
        ctx = it.ctx
        self.it, self.s, self.ctx = it, s, ctx
        F, p = z3.Function, s.p
        well_formed(it, s)
        one_orientation(it, s)
        numbered(it, s)
        self.W = W = Trails(it, s, minlen=2)
        self.XS = [F(p + "spec_x" + a, I, I, R) for a in "xyz"]
        self.RHO = [F(p + "spec_r" + a, I, I, R) for a in "xyz"]
        self.LEF = F(p + "spec_len", I, I, R)
        self.SEQ = F(p + "node_in", I, I, I)
        self.ORD, self.TRAT, self.NT = F(p + "order", I, I), F(p + "trail_no", I, I), z3.Int(p + "n_trails")
        self.LAST, self.WIT = z3.Int(p + "last_seq"), z3.Int(p + "last_node")
        k, j, n, u, v, i = z3.Ints("eq_k eq_j eq_n eq_u eq_v eq_i")
        ctx.axioms += [
            # the trails come in a fixed order
            z3.ForAll([k], z3.Implies(s.TR(k), z3.And(self.ORD(k) >= 0, self.ORD(k) < self.NT, self.TRAT(self.ORD(k)) == k)), patterns=[s.TR(k)]),
            z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.NT), z3.And(s.TR(self.TRAT(j)), self.ORD(self.TRAT(j)) == j)), patterns=[self.TRAT(j)]),
            self.NT >= 1,
            # the node of a trail in a sequence
            z3.ForAll([k, i], z3.Implies(z3.And(s.TR(k), i >= W.K0(k), i < W.K0(k) + s.TLEN(k)),
                                         z3.And(s.NODE(self.SEQ(k, i)), W.TRK(self.SEQ(k, i)) == k, s.K(self.SEQ(k, i)) == i, W.POS(self.SEQ(k, i)) == i - W.K0(k))), patterns=[self.SEQ(k, i)]),
            z3.ForAll([n], z3.Implies(s.NODE(n), z3.And(self.SEQ(W.TRK(n), s.K(n)) == n, s.K(n) == W.K0(W.TRK(n)) + W.POS(n))), patterns=[s.NODE(n)]),
            # the last sequence
            z3.ForAll([n], z3.Implies(s.NODE(n), s.K(n) <= self.LAST), patterns=[s.NODE(n)]),
            s.NODE(self.WIT), s.K(self.WIT) == self.LAST, self.LAST >= 1,
            # trail edges join the consecutive nodes of a trail, and nothing else does
            z3.ForAll([u, v], z3.Implies(z3.And(s.EDGE(u, v), s.trail(u, v)),
                                         z3.And(W.TRK(u) == W.TRK(v), z3.Or(W.POS(v) == W.POS(u) + 1, W.POS(u) == W.POS(v) + 1))), patterns=[s.EDGE(u, v)]),
            # an edge is a trail edge or a deviation edge
            z3.ForAll([u, v], z3.Implies(s.EDGE(u, v), z3.Or(s.trail(u, v), s.deviation(u, v))), patterns=[s.EDGE(u, v)]),
            # supports are the ends of the trails
            z3.ForAll([n], z3.Implies(s.NODE(n), s.support(n) == (W.POS(n) == s.TLEN(W.TRK(n)) - 1)), patterns=[s.NODE(n)]),
        ]
        self.kmax = kmax
        self.KL = self.LAST if kmax is None else z3.If(kmax < self.LAST, kmax, self.LAST)

    # -- the diagram
    def X0(self, n):
        return self.s.xyz(n)

    def R0(self, n):
        return self.s.reac(n)

    def nxt(self, n):
        return self.SEQ(self.W.TRK(n), simp(self.s.K(n) + 1))

    def prev(self, n):
        return self.SEQ(self.W.TRK(n), simp(self.s.K(n) - 1))

    def placed(self, n):
        return z3.And(self.W.POS(n) > 0, self.s.K(n) <= self.KL)

    def stop(self, n):
        """The trail is not continued from n."""
        return z3.Or(self.s.support(n), self.s.K(n) == self.KL)

    # -- the specification functions
    def pos(self, t, n):
        """Position of n at the start of iteration t."""
        if z3.is_int_value(t) and t.as_long() == 0:
            return self.X0(n)
        return vif(self.placed(n), [f(t, n) for f in self.XS], self.X0(n))

    def rho(self, t, n):
        """Trail force leaving n in iteration t."""
        return [f(t, n) for f in self.RHO]

    def reached(self, m, k, j):
        """The trail node before m comes before trail number j of sequence k."""
        return z3.Or(self.s.K(m) <= k, z3.And(self.s.K(m) == k + 1, self.ORD(self.W.TRK(m)) < j))

    def mixed(self, t, m, k, j):
        return vif(z3.And(self.placed(m), self.reached(m, k, j)), [f(t + 1, m) for f in self.XS], self.pos(t, m))

    def rin(self, t, n):
        """Trail force arriving at n in iteration t."""
        return vif(self.W.POS(n) == 0, self.R0(n), self.rho(t, self.prev(n)))

    def deviation_sum(self, t, n, k, j, direct, here=None, where=None):
        """Sum over the deviation edges at n of force times unit vector away from n."""
        s = self.s
        m = z3.FreshInt("m")
        g = kind_guard(s, n, m, direct)
        u = unit(vsub(where(m) if where else self.mixed(t, m, k, j), here["X"] if here else self.mixed(t, n, k, j)))
        fw, bw = [[mk_mul(a, f) for a in u] for f in (s.FRC(n, m), s.FRC(m, n))]
        return [aggr.aggregate("sum", [m], simp(g), x) for x in vif(s.EDGE(n, m), fw, bw)]

    def rho_def(self, t, n, k=None, j=None, here=None):
        """Definition of the trail force leaving n in iteration t, as a fact.

        k and j: terms equal to the sequence of n and the number of its trail.
        """
        k = self.s.K(n) if k is None else k
        j = self.ORD(self.W.TRK(n)) if j is None else j
        sd = self.deviation_sum(t, n, k, j, True, here)
        if z3.is_int_value(t) and t.as_long() == 0:
            si = [rv(0)] * 3
        else:
            si = self.deviation_sum(t, n, k, j, False, here)
        return [r == a - q - d - i for r, a, q, d, i in zip(self.rho(t, n), here["R"] if here else self.rin(t, n), self.s.load(n), sd, si)]

    def joined(self, n, x=None):
        """Consecutive nodes of a trail are joined by a trail edge (instantiated at n)."""
        s, x = self.s, self.nxt(n) if x is None else x
        return z3.Or(z3.And(s.EDGE(n, x), s.trail(n, x)), z3.And(s.EDGE(x, n), s.trail(x, n)))

    def edge_of(self, f, n, x):
        """Attribute of the trail edge from n to x, whatever its direction."""
        return z3.If(self.s.EDGE(n, x), f(n, x), f(x, n))

    def plane_length(self, t, n, o, m, here=None):
        """(the force line meets the plane, signed distance along it)."""
        c = dotp(m, unit(self.rho(t, n)))
        pl = mk_div(dotp(m, vsub(o, here["X"] if here else self.pos(simp(t + 1), n))), c)
        return z3.And(z3.Or(c >= TOL, -c >= TOL), pl != 0), pl

    def len_def(self, t, n, x=None, here=None):
        """Definition of the signed length of the trail edge leaving n."""
        s, x = self.s, self.nxt(n) if x is None else x

        def one(u, v):
            ok, pl = self.plane_length(t, n, [f(u, v) for f in s.PLO], [f(u, v) for f in s.PLN], here)
            return self.LEF(t, n) == z3.If(z3.And(s.HASPL(u, v), ok), pl, s.LEN(u, v))
        return z3.And(z3.Implies(s.EDGE(n, x), one(n, x)), z3.Implies(s.EDGE(x, n), one(x, n)))

    def pos_def(self, t, n, x=None, here=None):
        """Definition of the position of the node after n."""
        x = self.nxt(n) if x is None else x
        u = unit(self.rho(t, n))
        base = here["X"] if here else self.pos(simp(t + 1), n)
        return [f(t + 1, x) == b + mk_mul(self.LEF(t, n), a) for f, b, a in zip(self.XS, base, u)]

    def force(self, t, n):
        r = norm(self.rho(t, n))
        return simp(z3.If(self.LEF(t, n) >= 0, r, -r))

    def upstream(self, u, v):
        return z3.If(self.W.POS(u) < self.W.POS(v), u, v)

    # -- the state of a solver in iteration t before trail number j of sequence k
    def processed(self, n, k, j):
        return z3.Or(self.s.K(n) < k, z3.And(self.s.K(n) == k, self.ORD(self.W.TRK(n)) < j))

    def state(self, role, t, k, j, arr, here=None):
        s = self.s
        first = z3.is_int_value(t) and t.as_long() == 0

        def vec(ts):
            return FList([mk("real", x) for x in ts], arr)
        if k is None:
            return self.end_state(role, t, vec)
        if role == "X":
            return DictC(SMap(1, lambda n: s.NODE(n), lambda n: vec(here["X"] if here and n.eq(here["n"]) else self.mixed(t, n, k, j))))
        if role == "R":
            def r(n):
                if here and n.eq(here["n"]):
                    return vec(here["R"])
                old = self.R0(n) if first else vif(self.placed(n), self.rho(t - 1, self.prev(n)), self.R0(n))
                return vec(vif(z3.And(self.placed(n), self.reached(n, k, j)), self.rho(t, self.prev(n)), old))
            return DictC(SMap(1, lambda n: s.NODE(n), r))
        if role == "A":
            def adom(n):
                d = z3.And(s.NODE(n), self.stop(n), s.K(n) <= self.KL)
                return simp(z3.And(d, self.processed(n, k, j)) if first else d)

            def aval(n):
                if first:
                    return vec(self.rho(t, n))
                return vec(vif(self.processed(n, k, j), self.rho(t, n), self.rho(t - 1, n)))
            return DictC(SMap(1, adom, aval))

        def edom(u, v):
            d = z3.And(s.EDGE(u, v), s.trail(u, v), s.K(self.upstream(u, v)) < self.KL)
            return simp(z3.And(d, self.processed(self.upstream(u, v), k, j)) if first else d)

        def pick(f):
            def g(u, v):
                n = self.upstream(u, v)
                if first:
                    return f(t, n)
                a, b = f(t, n), f(t - 1, n)
                c = self.processed(n, k, j)
                return vif(c, a, b) if isinstance(a, list) else simp(z3.If(c, a, b))
            return g
        if role == "F":
            f = pick(self.force)
            return DictC(SMap(2, edom, lambda u, v: mk("real", f(u, v))))
        if role == "D":
            f = pick(lambda t, n: unit(self.rho(t, n)))
            return DictC(SMap(2, edom, lambda u, v: vec(f(u, v))))
        raise KeyError(role)


    def end_state(self, role, t, vec):
        """The state after iteration t."""
        s = self.s

        def up(f):
            return lambda u, v: f(t, self.upstream(u, v))

        def edom(u, v):
            return z3.And(s.EDGE(u, v), s.trail(u, v), s.K(self.upstream(u, v)) < self.KL)
        if role == "X":
            return DictC(SMap(1, lambda n: s.NODE(n), lambda n: vec(self.pos(simp(t + 1), n))))
        if role == "R":
            return DictC(SMap(1, lambda n: s.NODE(n), lambda n: vec(vif(self.placed(n), self.rho(t, self.prev(n)), self.R0(n)))))
        if role == "A":
            return DictC(SMap(1, lambda n: z3.And(s.NODE(n), self.stop(n), s.K(n) <= self.KL), lambda n: vec(self.rho(t, n))))
        if role == "F":
            return DictC(SMap(2, edom, lambda u, v: mk("real", up(self.force)(u, v))))
        if role == "D":
            return DictC(SMap(2, edom, lambda u, v: vec(unit(up(self.rho)(u, v)))))
        raise KeyError(role)


class Hooks:
    """Loop invariants of the form-finding loops (iterations, sequences, trails)."""

    def __init__(self, spec, tmax, eta=None, move=None, case=None):
        self.spec, self.tmax, self.eta, self.move, self.case = spec, tmax, eta, move, case
        self.left = None
        self.level = 0
        self.trial = False
        self.t = self.k = None
        self.roles = None

    # -- dispatch
    def __call__(self, it, s, fr, iterable, val):
        sp = self.spec
        if iterable is None or not isinstance(s, ast.For) or s.orelse:
            return NotImplemented
        rng = isinstance(iterable, SSeq) and isinstance(iterable.tag, tuple) and iterable.tag and iterable.tag[0] == "range"
        if self.level == 0 and rng and has_const(iterable.n, self.tmax):
            return self.iterations(it, s, fr, iterable)
        if self.level == 1 and rng:
            return self.sequences(it, s, fr, iterable)
        if self.level == 2 and isinstance(iterable, SColl) and iterable.width == 1:
            return self.trails(it, s, fr, iterable)
        return NotImplemented

    def pick(self, it, what):
        """Which part of the induction this path is about (the units cover all of them)."""
        fixed = {"first": {"iterations": 0, "sequences": 0, "trails": 0}, "later": {"iterations": 1, "sequences": 0, "trails": 0},
                 "rest": {"trails": 1}}.get(self.case, {}).get(what)
        return it.ctx.choose(2) if fixed is None else fixed

    # -- states
    def put_state(self, it, t, k, j, here=None):
        for role, (ref, arr) in self.roles.items():
            it.ctx.heap[ref] = self.spec.state(role, t, k, j, arr, here)

    def name_here(self, it, node, tau, j):
        """Names for the position of the node at hand and the force arriving there."""
        ctx, sp = it.ctx, self.spec
        here = {"n": node, "X": [z3.Real("here_" + a) for a in "xyz"], "R": [z3.Real("arriving_" + a) for a in "xyz"]}
        inside = z3.And(self.k >= sp.W.K0(tau), self.k < sp.W.K0(tau) + sp.s.TLEN(tau))
        for role, spec in (("X", sp.pos(simp(self.t + 1), node)), ("R", sp.rin(self.t, node))):
            now = lib.vec_items(it, sp.state(role, self.t, self.k, j, False).base.val(node))
            goal = z3.And(*[zreal(x) == y for x, y in zip(now, spec)])
            what = {"X": "the node at hand has its position of this iteration", "R": "the force arriving at the node at hand is that of this iteration"}[role]
            if not ctx.prove(what, z3.Implies(inside, goal)):
                return None
            ctx.assume(z3.And(*[x == y for x, y in zip(here[role], spec)]))
        return here

    def prove_state(self, it, what, t, k, j):
        ctx = it.ctx
        s = self.spec.s
        m, u, v = z3.Int("any_m"), z3.Int("any_u"), z3.Int("any_v")
        label = {"X": "node positions", "R": "residual forces", "A": "reactions", "F": "trail forces", "D": "trail directions"}
        for role, (oid, arr) in self.roles.items():
            want = self.spec.state(role, t, k, j, arr)
            have = ctx.heap[oid]
            ks = [m] if want.base.width == 1 else [u, v]
            # the keys just written, one by one, and all other keys
            cases, other = [], []
            for w, _ in have.writes:
                kt = key_terms(w)
                if kt is not None and not any(all(x.eq(y) for x, y in zip(kt, c)) for c in cases):
                    cases.append(kt)
                    other.append(z3.Not(z3.And(*[x == y for x, y in zip(ks, kt)])))
            for kt in cases + [ks]:
                key = mk("int", kt[0]) if len(kt) == 1 else tuple(mk("int", x) for x in kt)
                hd, hv = d_lookup(ctx, have, key)
                wd, wv = want.base.dom(*kt), want.base.val(*kt)
                pre = z3.And(*other) if kt is ks else z3.BoolVal(True)
                ctx.prove("%s: %s are recorded for the right elements" % (what, label[role]), z3.Implies(pre, hd == wd), split="lazy")
                ctx.prove("%s: %s follow the specification" % (what, label[role]), z3.Implies(z3.And(pre, wd), same(it, hv, wv)), split="lazy")

    def check_frame(self, it, heap0, names, fr, what):
        """Nothing else has changed."""
        allowed = {r[0] for r in self.roles.values()}
        out = type("O", (), {"heap": it.ctx.heap})()
        for (oid, loc), pre in find_changes(heap0, [out]).items():
            if oid in allowed:
                continue
            if oid[0] == "f":
                if oid == fr.oid and loc[0] == "var" and loc[1] in names:
                    continue
                if loc[0] == "var" and loc[1] == "$exc":
                    continue
            raise Unsupported("%s changes %r %r" % (what, oid, loc))

    def poison(self, it, fr, names):
        loc = dict(it.get(fr))
        for n in names:
            if n in loc:
                loc[n] = Poison("value of an earlier iteration")
        it.put(fr, loc)

    def run_body(self, it, s, fr, v):
        self.level += 1
        try:
            it.assign(s.target, v, fr)
            it.block(s.body, fr)
        except ContinueSig:
            pass
        finally:
            self.level -= 1

    # -- iterations
    def iterations(self, it, s, fr, iterable):
        ctx = it.ctx
        tag, a, b = iterable.tag
        names = assigned(s)
        if self.roles is None:
            known = it.__dict__.setdefault("known_roles", {})
            sig = (id(s), tuple(sorted((str(k), id(type(v))) for k, v in ctx.heap.items() if k[0] == "DictObj")))
            if sig not in known:
                self.find_roles(it, s, fr, iterable)
                known[sig] = self.roles
            self.roles = known[sig]
        ctx.prove("iterations are numbered from 0 and end at tmax", z3.And(a == 0, b == self.tmax))
        heap0 = dict(ctx.heap)
        if self.pick(it, "iterations") == 0:
            t = z3.IntVal(0)
            val = 0
        else:
            t = z3.Int("t")
            ctx.assume(z3.And(t >= 1, t < self.tmax))
            val = Sym("int", t)
            self.put_state(it, simp(t - 1), None, None)
            self.poison(it, fr, names)
        self.t = t
        try:
            self.run_body(it, s, fr, val)
        except BreakSig:
            self.check_frame(it, heap0, names, fr, "the last iteration")
            self.left = "break"
            ctx.prove("the iterations stop early only from the second one on", t >= 1)
            ctx.prove("the iterations stop early only if the last one moved the nodes by less than eta", self.move(self.spec, t) < self.eta)
            return True
        ctx.prove("the iterations go on only if the last one moved the nodes by eta or more", z3.Or(t == 0, z3.Not(self.move(self.spec, t) < self.eta)))
        self.check_frame(it, heap0, names, fr, "an iteration")
        if ctx.decide(t == self.tmax - 1):
            self.left = "end"
            return True
        self.end_of_iteration(it, t)
        raise PathCut()

    def end_of_iteration(self, it, t):
        self.prove_state(it, "after an iteration", t, None, None)

    # -- sequences
    def sequences(self, it, s, fr, iterable):
        ctx, sp = it.ctx, self.spec
        tag, a, b = iterable.tag
        names = assigned(s)
        if self.trial:
            k = ctx.fresh("k", I)
            ctx.assume(z3.And(k >= 0, k <= sp.KL))
            self.k = k
            self.run_body(it, s, fr, Sym("int", k))
            return True
        z = z3.IntVal(0)
        if self.pick(it, "sequences") == 0:
            k = z3.Int("k")
            ctx.assume(z3.And(k >= 0, k <= sp.KL))
            heap0 = dict(ctx.heap)
            self.put_state(it, self.t, k, z)
            self.poison(it, fr, names)
            self.k = k
            try:
                self.run_body(it, s, fr, Sym("int", k))
            except BreakSig:
                raise Unsupported("the loop over the sequences is left early")
            self.check_frame(it, heap0, names, fr, "a sequence")
            self.prove_state(it, "after a sequence", self.t, simp(k + 1), z)
            raise PathCut()
        ctx.prove("an iteration visits the sequences from 0 to the last requested one", z3.And(a == 0, b == sp.KL + 1))
        self.prove_state(it, "before the first sequence", self.t, z, z)
        self.put_state(it, self.t, simp(sp.KL + 1), z)
        self.prove_state(it, "after the last sequence", self.t, None, None)
        self.put_state(it, self.t, None, None)
        self.poison(it, fr, names)
        return True

    # -- trails
    def trails(self, it, s, fr, coll):
        ctx, sp = it.ctx, self.spec
        names = assigned(s)
        p = z3.Int("any_trail")
        if not in_order(coll, sp.s.p + "trails"):
            raise Unsupported("trails visited in an unknown order")
        if self.trial:
            tau = ctx.fresh("trail", I)
            ctx.assume(z3.And(sp.s.TR(tau), coll.guard(tau)))
            node = sp.SEQ(tau, self.k)
            ctx.assume(z3.Implies(sp.W.POS(node) + 1 < sp.s.TLEN(tau), sp.joined(node)))
            self.run_body(it, s, fr, coll.elem(ctx, [tau]))
            self.tries += 1
            raise TrialSig()
        z = z3.IntVal(0)
        if self.pick(it, "trails") == 0:
            j = z3.Int("j")
            tau = z3.Int("tau")
            ctx.assume(z3.And(j >= 0, j < sp.NT))
            ctx.assume(z3.And(sp.s.TR(tau), sp.ORD(tau) == j))
            heap0 = dict(ctx.heap)
            node = sp.SEQ(tau, self.k)
            here = self.name_here(it, node, tau, j)
            self.put_state(it, self.t, self.k, j, here)
            self.poison(it, fr, names)
            self.here = (node, tau, j)
            ctx.assume(self.facts(node, tau, j, here))
            if ctx.decide(coll.guard(tau)):
                try:
                    self.run_body(it, s, fr, coll.elem(ctx, [tau]))
                except BreakSig:
                    raise Unsupported("the loop over the trails is left early")
            self.check_frame(it, heap0, names, fr, "a trail")
            self.prove_state(it, "after a trail", self.t, self.k, simp(j + 1))
            raise PathCut()
        ctx.prove("only trails are visited", z3.Implies(coll.guard(p), sp.s.TR(p)))
        self.prove_state(it, "before the first trail", self.t, self.k, z)
        self.put_state(it, self.t, self.k, sp.NT)
        self.poison(it, fr, names)
        return True

    def facts(self, node, tau, j, here):
        """The definitions of the specification functions at the node at hand."""
        sp = self.spec
        W, s = sp.W, sp.s
        i = self.k - W.K0(tau)
        nx = sp.SEQ(tau, self.k + 1)
        inside = z3.And(i >= 0, i < s.TLEN(tau))
        defs = [s.NODE(node), W.TRK(node) == tau, W.POS(node) == i, s.K(node) == self.k]
        defs += sp.rho_def(self.t, node, self.k, j, here)
        more = [sp.nxt(node) == nx, s.NODE(nx), W.POS(nx) == i + 1, W.TRK(nx) == tau, s.K(nx) == self.k + 1, sp.joined(node, nx), sp.prev(nx) == node]
        more += [sp.len_def(self.t, node, nx, here)] + sp.pos_def(self.t, node, nx, here)
        return z3.And(z3.Implies(inside, z3.And(*defs)), z3.Implies(z3.And(inside, i + 1 < s.TLEN(tau)), z3.And(*more)))

    # -- which container plays which role
    def find_roles(self, it, s, fr, iterable):
        ctx = it.ctx
        heap0 = dict(ctx.heap)

        self.tries = 0

        def thunk():
            self.trial = True
            if self.tries > 12:
                raise PathCut()
            if ctx.choose(2) == 0:
                self.t = z3.IntVal(0)
                self.run_body(it, s, fr, 0)
            else:
                self.t = ctx.fresh("t", I)
                ctx.assume(z3.And(self.t >= 1, self.t < self.tmax))
                self.run_body(it, s, fr, Sym("int", self.t))
        level = self.level
        try:
            outs = ctx.explore(thunk)
        finally:
            self.trial = False
            self.level = level
        outs = [o for o in outs if o.kind == "trial"]
        roles = {}
        n = z3.Int("role_n")
        for (oid, loc), pre in find_changes(heap0, outs).items():
            if oid[0] == "f":
                continue
            if oid[0] != "DictObj":
                raise Unsupported("form-finding changes %r" % (oid,))
            c = heap0[oid]
            role, arr = None, False
            if c.base is not None and c.base.width == 1 and not c.writes:
                v = c.base.val(n)
                if isinstance(v, FList) and len(v.items) == 3:
                    arr = v.arr
                    ts = [zreal(x) for x in v.items]
                    if all(x.eq(y) for x, y in zip(ts, self.spec.X0(n))):
                        role = "X"
                    elif all(x.eq(y) for x, y in zip(ts, self.spec.R0(n))):
                        role = "R"
            elif c.base is None and not c.writes:
                for o in outs:
                    for k, v in locations(o.heap[oid])[loc].writes:
                        kt = key_terms(k)
                        f = it_freeze(it, o.heap, v)
                        vec = isinstance(f, FList)
                        arr = vec and f.arr
                        role = {(1, True): "A", (2, False): "F", (2, True): "D"}.get((len(kt or []), vec))
            if role is None or role in roles:
                raise Unsupported("role of a container that form-finding changes")
            roles[role] = (oid, arr)
        if "X" not in roles or "R" not in roles:
            raise Unsupported("positions or residuals not found")
        self.roles = roles


def key_terms(k):
    from pyvc.values import key_terms as f
    return f(k)


def it_freeze(it, heap, v):
    from pyvc.loops import freeze_in
    return freeze_in(it, heap, v)


def same(it, a, b):
    """Equality of two recorded values."""
    if a is None or b is None:
        return z3.BoolVal(False)
    if isinstance(a, Choice):
        return z3.If(a.c, same(it, a.a, b), same(it, a.b, b))
    xa, xb = lib.vec_items(it, a) if not core.is_scalar(a) else None, lib.vec_items(it, b) if not core.is_scalar(b) else None
    if xa is not None and xb is not None:
        return z3.And(*[numeq(x, y) for x, y in zip(xa, xb)]) if len(xa) == len(xb) else z3.BoolVal(False)
    if core.is_scalar(a) and core.is_scalar(b):
        return numeq(a, b)
    return z3.BoolVal(False)


def has_const(t, c):
    return core.has_var(t, [c])


def assigned(s):
    """Names a loop assigns."""
    out = set()
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
    return out


def in_order(coll, tag):
    """The collection follows the order of the trails."""
    t = coll.tag
    while isinstance(t, tuple) and t and t[0] in ("items", "values", "filter", "keys"):
        t = t[1]
    return t == tag


# ------------------------------------------------- contracts of the helpers

def installed(it, contracts, sp):
    """Use the discharged contracts of the helpers."""
    for f, h in contracts.items():
        it.ctx.contracts[f] = h(sp) if h is sequences_contract else h


def kind_guard(s, n, m, direct):
    same_k = s.K(m) == s.K(n)
    return z3.And(z3.Or(z3.And(s.EDGE(n, m), s.deviation(n, m)), z3.And(s.EDGE(m, n), s.deviation(m, n))), same_k if direct else z3.Not(same_k))


def connected_contract(s, direct):
    """The deviation edges at a node whose other end has the same (another) sequence number."""
    def h(it, self, node):
        st = it.get(self).get("$store") if isinstance(self, Inst) else None
        node = force(it.ctx, node)
        if st is None or st.oid != it.the_store[0] or net.maps(it, self) is not it.the_store[1] or not core.is_int(node):
            return NotImplemented
        n = toz(node)
        if not it.ctx.entailed(s.NODE(n)):
            return NotImplemented

        def elem(m):
            mm = Sym("int", m)
            return Alts([(s.EDGE(n, m), (node, mm)), (z3.Not(s.EDGE(n, m)), (mm, node))])
        return ListObj(it.ctx, (), SColl(1, lambda m: simp(kind_guard(s, n, m, direct)), elem, None, "list", True))
    return h


def resultant(it, coll, node, X, force_of, arr):
    """Sum over a collection of edges at a node of force times unit vector away from the node."""
    ctx = it.ctx
    p = z3.FreshInt("m")
    raw = coll.raw([p])
    alts = raw.alts if isinstance(raw, Alts) else [(z3.BoolVal(True), raw)]
    nz = toz(node)

    def at(n):
        d, v = d_lookup(ctx, X, Sym("int", n))
        xs = lib.vec_items(it, v)
        if xs is None:
            raise Unsupported("positions")
        return d, [zreal(x) for x in xs]
    d0, here = at(nz)
    pre, val = [d0], None
    for c, e in reversed(alts):
        u, v = key_terms(e)
        other = u if v.eq(nz) else (v if u.eq(nz) else simp(z3.If(u != nz, u, v)))
        d, there = at(other)
        pre.append(z3.Implies(c, z3.And(d, z3.Or(u == nz, v == nz))))
        fd, f = force_of(e)
        pre.append(z3.Implies(c, fd))
        w = [mk_mul(x, f) for x in unit(vsub(there, here))]
        val = w if val is None else vif(c, w, val)
    g = simp(coll.guard(p))
    if not aggr._entails(ctx, ctx.axioms + ctx.pc + [g], z3.And(*pre), 4000):
        return None
    return [aggr.aggregate("sum", [p], g, simp(x)) for x in val]


def sequences_contract(sp):
    """Trail key -> sequence -> node."""
    s, W = sp.s, sp.W

    def h(it, self):
        st = it.get(self).get("$store") if isinstance(self, Inst) else None
        if st is None or st.oid != it.the_store[0] or net.maps(it, self) is not it.the_store[1]:
            return NotImplemented

        def one(k):
            return FDict(DictC(SMap(1, lambda i: z3.And(i >= W.K0(k), i < W.K0(k) + s.TLEN(k)), lambda i: Sym("int", sp.SEQ(k, i)))))
        return DictObj(it.ctx, SMap(1, lambda k: s.TR(k), one, tag=s.p + "trails"))
    return h


def cut(it, hooks, fns):
    """Results of these functions that equal the specified trail force are named by it."""
    def wrap(fn):
        busy = []

        def h(it, *a, **k):
            if busy or hooks.trial or hooks.level != 3:
                return NotImplemented
            busy.append(1)
            try:
                r = it.call(fn, a, k)
            finally:
                busy.pop()
            if isinstance(r, (FList, ListObj)):
                xs = lib.vec_items(it, r)
                if xs is not None and len(xs) == 3 and all(core.is_scalar(x) for x in xs) and aggr.find_aggs([zreal(x) for x in xs]) and core.apps([zreal(x) for x in xs], {hooks.spec.s.N["q" + a] for a in "xyz"}):
                    node = hooks.here[0]
                    want = hooks.spec.rho(hooks.t, node)
                    ctx = it.ctx
                    goal = z3.And(*[zreal(x) == y for x, y in zip(xs, want)])
                    n = len(ctx.obligations)
                    if ctx.prove("the trail force leaving a node balances what arrives there", goal, split=False, ms=3000):
                        xs = [Sym("real", y) for y in want]
                        return FList(xs, True) if isinstance(r, FList) and r.arr else ListObj(ctx, xs)
                    del ctx.obligations[n:]
            return r
        return h
    for fn in fns:
        if not it.ctx.contracts.get(fn) or getattr(it.ctx.contracts[fn], "is_cut", False):
            h = it.ctx.contracts[fn] = wrap(fn)
            h.is_cut = True


def pure_resultant(s):
    def h(it, form, node, node_xyz, deviation_edges):
        st = it.get(form).get("$store") if isinstance(form, Inst) else None
        if st is None or st.oid != it.the_store[0] or net.maps(it, form) is not it.the_store[1]:
            return NotImplemented
        return resultant_call(it, node, node_xyz, deviation_edges, lambda e: (s.EDGE(*key_terms(e)), s.FRC(*key_terms(e))), False)
    return h


def numpy_resultant(s):
    def h(it, node, node_xyz, deviation_edges, edge_forces):
        edge_forces = force(it.ctx, edge_forces)
        if not isinstance(edge_forces, (DictObj, FDict)):
            return NotImplemented
        c = edge_forces.c if isinstance(edge_forces, FDict) else it.get(edge_forces)

        def f(e):
            d, v = d_lookup(it.ctx, c, e)
            if v is None or not core.is_scalar(v):
                raise Unsupported("edge forces")
            return d, zreal(v)
        return resultant_call(it, node, node_xyz, deviation_edges, f, True)
    return h


def resultant_call(it, node, node_xyz, edges, force_of, arr):
    node, X = force(it.ctx, node), force(it.ctx, node_xyz)
    coll = it.iterate(edges)
    if isinstance(coll, list) or coll.width != 1 or not isinstance(coll, SColl) or not core.is_int(node) or not isinstance(X, (DictObj, FDict)):
        return NotImplemented
    r = resultant(it, coll, node, X.c if isinstance(X, FDict) else it.get(X), force_of, arr)
    if r is None:
        return NotImplemented
    xs = [mk("real", x) for x in r]
    return FList(xs, True) if arr else ListObj(it.ctx, xs)


def movement_sum(sp, t):
    """Sum of the displacements of the nodes in iteration t."""
    n = z3.FreshInt("n")
    return aggr.aggregate("sum", [n], sp.s.NODE(n), norm(vsub(sp.pos(simp(t + 1), n), sp.pos(t, n))))


def movement_norm(sp, t):
    """Root of the sum of the squared displacements of the nodes in iteration t."""
    n = z3.FreshInt("n")
    return mk_sqrt(aggr.aggregate("sum", [n], sp.s.NODE(n), sq(vsub(sp.pos(simp(t + 1), n), sp.pos(t, n)))))


def diagram(it, s, kmax=None):
    """An arbitrary valid diagram with the specification of its form-finding."""
    sp = Spec(it, s, kmax)
    t = topology(it, s, k_optional=False)
    st = it.get(t)["$store"]
    it.the_store = (st.oid, net.maps(it, t))
    return sp, t


FIELDS = {"node_xyz": "X", "trail_forces": "F", "reaction_forces": "A", "trail_directions": "D"}


def equilibrium_units(V, s, which, partial=False):
    """equilibrium_state (pure or numpy) goes through the specified states and returns the last one."""
    from compas_cem.equilibrium import force as P
    from compas_cem.equilibrium import force_numpy as Q
    mod, name = (P, "equilibrium_state") if which == "pure" else (Q, "equilibrium_state_numpy")
    fn = getattr(mod, name)
    hc = helper_contracts(V, s, which)
    move = movement_sum if which == "pure" else movement_norm
    for case, text in (("first", "a step of the first iteration"), ("later", "a step of a later iteration"), ("rest", "loops and exit")):
        def unit_(it, case=case):
            ctx = it.ctx
            tmax, kmax = z3.Int("tmax"), z3.Int("kmax") if partial else None
            eta = z3.Real("eta")
            ctx.assume(tmax >= 1)
            if partial:
                ctx.assume(kmax >= 0)
            sp, t = diagram(it, s, kmax)
            h = Hooks(sp, tmax, eta, move, case)
            ctx.hooks[:] = [h]
            ctx.assumptions.add(VALID)
            installed(it, hc, sp)
            cut(it, h, module_functions(mod, ("static_equilibrium", "static_equilibrium_numpy", name, "form_update")))
            heap0 = dict(ctx.heap)
            kw = {"tmax": Sym("int", tmax), "eta": Sym("real", eta), "verbose": Sym("bool", z3.Bool("verbose"))}
            if partial:
                kw["kmax"] = Sym("int", kmax)
            kind, r = outcome(it, fn, (t,), kw)
            ctx.prove("the iterations were carried out", z3.BoolVal(h.left is not None))
            if h.left is None:
                return
            m = move(sp, h.t)
            if kind == "raise":
                ctx.prove("only a ValueError is raised", z3.BoolVal(r is ValueError))
                ctx.prove("it is raised only if the last allowed iteration moved the nodes by more than eta", z3.And(h.t == tmax - 1, h.t >= 1, m > eta))
                return
            ctx.prove("a state is returned only if the last iteration, unless it is the only one, moved the nodes by no more than eta", z3.Or(h.t == 0, z3.Not(m > eta)))
            frozen = it.get(r) if isinstance(r, DictObj) else None
            for f, role in FIELDS.items():
                v = d_lookup(ctx, frozen, f)[1] if frozen is not None else None
                ctx.prove("the returned %s are those of the last iteration" % f, z3.BoolVal(isinstance(v, DictObj) and v.oid == h.roles[role][0]))
            h.prove_state(it, "returned", h.t, None, None)
            unchanged(it, heap0, "the topology is unchanged")
        V.background("%s%s: %s" % (name, " up to a sequence" if partial else "", text), unit_, expect_paths=1 if case == "rest" else 0)


VALID = ("diagram: nodes numbered by trails (every node on one trail, trail edges join consecutive nodes, supports are the trail ends, sequences count along the trails), one edge per pair of nodes, "
         "as C06 and C07 establish for built trails; tmax >= 1")


def unchanged(it, heap0, what):
    """Nothing that existed before the call has changed."""
    now = type("O", (), {"heap": it.ctx.heap})()
    bad = [k for k in find_changes(heap0, [now]) if k[0][0] != "f"]
    it.ctx.prove(what, z3.BoolVal(not bad))


def module_functions(mod, skip):
    import types
    return [f for n, f in vars(mod).items() if isinstance(f, types.FunctionType) and f.__module__ == mod.__name__ and n not in skip]


def helper_contracts(V, s, which):
    """Discharge the contracts of the helpers; returns those callers may rely on."""
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.equilibrium import force as P
    from compas_cem.equilibrium import force_numpy as Q
    out = {}
    n, u, v = z3.Ints("n u v")
    fn = TopologyDiagram.__dict__.get("trails_sequences")
    if fn is not None:
        def seqs(it):
            sp = Spec(it, s)
            t = topology(it, s, k_optional=False)
            it.the_store = (it.get(t)["$store"].oid, net.maps(it, t))
            r = method(it, t, "trails_sequences")
            want = sequences_contract(sp)(it, t)
            key, x = z3.Ints("key x")
            d1, v1 = d_lookup(it.ctx, it.get(r), Sym("int", key))
            it.ctx.prove("one entry per trail", d1 == s.TR(key))
            it.ctx.assume(s.TR(key))
            d2, v2 = d_lookup(it.ctx, it.get(want), Sym("int", key))
            v1, v2 = force(it.ctx, v1), force(it.ctx, v2)
            a, b = d_lookup(it.ctx, v1.c if isinstance(v1, FDict) else it.get(v1), Sym("int", x))
            c, d = d_lookup(it.ctx, v2.c, Sym("int", x))
            it.ctx.prove("one entry per sequence of the trail", a == c)
            it.ctx.prove("the node of the trail in that sequence", z3.Implies(c, toz(b) == toz(d)))
            it.ctx.prove("the diagram is unchanged", z3.BoolVal(net.maps(it, t) is it.the_store[1]))
        if V.lemma_unit("trails_sequences", seqs):
            out[fn] = sequences_contract
    for name, direct in (("_connected_direct_deviation_edges", True), ("_connected_indirect_deviation_edges", False)):
        fn = TopologyDiagram.__dict__.get(name)
        if fn is None:
            continue

        def conn(it, name=name, direct=direct):
            well_formed(it, s)
            one_orientation(it, s)
            numbered(it, s)
            t = topology(it, s, k_optional=False)
            it.the_store = (it.get(t)["$store"].oid, net.maps(it, t))
            it.ctx.assume(s.NODE(n))
            r = method(it, t, name, Sym("int", n))
            want = connected_contract(s, direct)(it, t, Sym("int", n))
            m1, once = edge_listing(it, r, u, v)
            m2, _ = edge_listing(it, want, u, v)
            it.ctx.prove("lists exactly the deviation edges of that kind at the node", m1 == m2)
            it.ctx.prove("each listed once", once)
            it.ctx.prove("the diagram is unchanged", z3.BoolVal(net.maps(it, t) is it.the_store[1]))
        if V.lemma_unit(name, conn):
            out[fn] = connected_contract(s, direct)
    fn = getattr(P if which == "pure" else Q, "deviation_edges_resultant_vector", None)
    if fn is not None:
        def res(it):
            well_formed(it, s)
            one_orientation(it, s)
            numbered(it, s)
            t = topology(it, s, k_optional=False)
            it.the_store = (it.get(t)["$store"].oid, net.maps(it, t))
            node = Sym("int", n)
            it.ctx.assume(s.NODE(n))
            KIND = z3.Function("of_kind", I, z3.BoolSort())
            P3 = [z3.Function("some_pos" + a, I, R) for a in "xyz"]
            X = DictObj(it.ctx, SMap(1, lambda m: s.NODE(m), lambda m: FList([Sym("real", f(m)) for f in P3], which != "pure")))

            def elem(m):
                mm = Sym("int", m)
                return Alts([(s.EDGE(n, m), (node, mm)), (z3.Not(s.EDGE(n, m)), (mm, node))])
            edges = ListObj(it.ctx, (), SColl(1, lambda m: z3.And(z3.Or(s.EDGE(n, m), s.EDGE(m, n)), KIND(m)), elem, None, "list", True))
            heap0 = dict(it.ctx.heap)
            if which == "pure":
                r = it.call(fn, (t, node, X, edges))
                want = pure_resultant(s)(it, t, node, X, edges)
            else:
                forces = DictObj(it.ctx, SMap(2, lambda a, b: s.EDGE(a, b), lambda a, b: Sym("real", s.FRC(a, b))))
                heap0 = dict(it.ctx.heap)
                r = it.call(fn, (node, X, edges, forces))
                want = numpy_resultant(s)(it, node, X, edges, forces)
            it.ctx.prove("force times unit direction, summed over the edges", veq(it, r, want))
            out_ = type("O", (), {"heap": it.ctx.heap})()
            it.ctx.prove("no argument is changed", z3.BoolVal(not [k for k in find_changes(heap0, [out_]) if k[0][0] != "f"]))
        if V.lemma_unit("deviation_edges_resultant_vector (%s)" % which, res):
            out[fn] = pure_resultant(s) if which == "pure" else numpy_resultant(s)
    return out


# ------------------------------------------- static_equilibrium, the form it returns

def state_contract(sp, topology_, which, tmax, eta, kmax, seen):
    """equilibrium_state as its callers may rely on it (discharged by equilibrium_units)."""
    names = ["topology", "kmax", "tmax", "eta", "verbose", "callback"]
    if which != "pure":
        names.remove("kmax")
    dflt = {"kmax": None, "tmax": 100, "eta": core.Fraction("1e-06"), "verbose": False, "callback": None}
    move = movement_sum if which == "pure" else movement_norm

    def h(it, *a, **k):
        ctx = it.ctx
        args = dict(dflt)
        if len(a) > len(names) or set(k) - set(names):
            return NotImplemented
        args.update(zip(names, a))
        args.update(k)
        t = force(ctx, args.get("topology"))
        if not isinstance(t, Inst) or t.oid != topology_.oid or net.maps(it, t) is not it.the_store[1]:
            return NotImplemented
        seen.append(args)
        T = z3.Int("T")
        arr = which != "pure"
        m = move(sp, T)
        if ctx.choose(2) == 0:
            ctx.assume(z3.And(T == tmax - 1, T >= 1, m > eta))
            raise PyRaise(ValueError, ())
        ctx.assume(z3.And(T >= 0, T < tmax, z3.Implies(T < tmax - 1, z3.And(T >= 1, m < eta)), z3.Implies(T >= 1, z3.Not(m > eta))))
        out = []
        for f, role in FIELDS.items():
            d = DictObj(ctx, None)
            ctx.heap[d.oid] = sp.state(role, T, None, None, arr)
            out.append((f, d))
        return DictObj(ctx, None, out)
    return h


def reachable(it, v, seen=None):
    """Heap objects reachable from a value."""
    seen = set() if seen is None else seen
    v = v.a if isinstance(v, Choice) else v
    if isinstance(v, (list, tuple)):
        for x in v:
            reachable(it, x, seen)
    elif isinstance(v, FList):
        reachable(it, list(v.items), seen)
    elif isinstance(v, core.Ref):
        if v.oid in seen:
            return seen
        seen.add(v.oid)
        c = it.ctx.heap.get(v.oid)
        if isinstance(c, dict):
            reachable(it, [x for k, x in c.items()], seen)
        elif isinstance(c, DictC):
            reachable(it, [x for k, x in c.writes], seen)
        elif isinstance(c, tuple):
            reachable(it, [x for x in c], seen)
    return seen


def run_static(it, s, which, partial=False):
    """Call static_equilibrium on an arbitrary valid diagram; (spec, topology, outcome, T)."""
    from compas_cem.equilibrium import force as P
    from compas_cem.equilibrium import force_numpy as Q
    mod, name, inner = (P, "static_equilibrium", "equilibrium_state") if which == "pure" else (Q, "static_equilibrium_numpy", "equilibrium_state_numpy")
    ctx = it.ctx
    tmax, eta = z3.Int("tmax"), z3.Real("eta")
    kmax = z3.Int("kmax") if partial else None
    ctx.assume(tmax >= 1)
    if partial:
        ctx.assume(kmax >= 0)
    sp, t = diagram(it, s, kmax)
    ctx.assumptions.add(VALID)
    args = []
    ctx.contracts[getattr(mod, inner)] = state_contract(sp, t, which, tmax, eta, kmax, args)
    kw = {"tmax": Sym("int", tmax), "eta": Sym("real", eta), "verbose": Sym("bool", z3.Bool("verbose"))}
    if partial:
        kw["kmax"] = Sym("int", kmax)
    it.before = dict(ctx.heap)
    kind, r = outcome(it, getattr(mod, name), (t,), kw)
    if len(args) != 1:
        raise Unsupported("%s does not use %s" % (name, inner))
    a = args[0]
    given = z3.And(toz(a["tmax"]) == tmax if core.is_int(a["tmax"]) else z3.BoolVal(False),
                   zreal(a["eta"]) == eta if core.is_scalar(a["eta"]) else z3.BoolVal(False))
    if partial:
        given = z3.And(given, toz(a["kmax"]) == kmax if core.is_int(a["kmax"]) else z3.BoolVal(False))
    elif a["kmax"] is not None:
        given = z3.BoolVal(False)
    ctx.prove("the limits asked for are those form-finding uses", given)
    return sp, t, kind, r, z3.Int("T")


def attr(it, net_, prefix, key, name):
    return net.effective(it, net_, prefix, key, name)


def static_unit(V, s, which, partial=False):
    """The returned form: positions, forces, lengths, reactions, and everything copied."""
    def u_(it):
        ctx = it.ctx
        sp, t, kind, form, T = run_static(it, s, which, partial)
        unchanged(it, it.before, "the topology is unchanged")
        if kind == "raise":
            ctx.prove("only the error of form-finding is raised", z3.BoolVal(form is ValueError))
            return
        from compas_cem.diagrams import FormDiagram
        ctx.prove("a form diagram is returned", z3.BoolVal(isinstance(form, Inst) and form.cls is FormDiagram))
        shared = reachable(it, form) & reachable(it, t)
        ctx.prove("the form shares no storage with the topology", z3.BoolVal(not shared))
        form_facts(it, sp, s, t, form, T)
    name = "static_equilibrium%s%s: the returned form" % ("" if which == "pure" else "_numpy", " up to a sequence" if partial else "")
    V.background(name, u_)


def form_facts(it, sp, s, t, form, T):
    ctx = it.ctx
    n, u, v = z3.Ints("any_n any_u any_v")
    mt, mf = net.maps(it, t), net.maps(it, form)
    nk, ek = Sym("int", n), (Sym("int", u), Sym("int", v))
    ctx.prove("the form has the nodes of the topology", d_lookup(ctx, mf["node"], nk)[0] == s.NODE(n))
    ctx.prove("the form has the edges of the topology", d_lookup(ctx, mf["edge"], ek)[0] == s.EDGE(u, v))
    ctx.assume(z3.And(s.NODE(n), s.EDGE(u, v), s.NODE(u), s.NODE(v)))
    pos = [attr(it, form, "n:", nk, a) for a in "xyz"]
    ctx.prove("node positions are those of the last iteration", z3.And(*[numeq(x, Sym("real", y)) for x, y in zip(pos, sp.pos(T + 1, n))]))
    rea = [attr(it, form, "n:", nk, "r" + a) for a in "xyz"]
    want = vif(z3.And(sp.stop(n), s.K(n) <= sp.KL), sp.rho(T, n), sp.R0(n))
    ctx.prove("reactions are the trail forces left over at the ends", z3.And(*[numeq(x, Sym("real", y)) for x, y in zip(rea, want)]))
    for a in ("qx", "qy", "qz", "type", "_k"):
        ctx.prove("loads, supports and sequences are those of the topology", same_attr(it, attr(it, form, "n:", nk, a), attr(it, t, "n:", nk, a)))
    frc = attr(it, form, "e:", ek, "force")
    up = sp.upstream(u, v)
    wf = z3.If(z3.And(s.trail(u, v), s.K(up) < sp.KL), sp.force(T, up), s.FRC(u, v))
    ctx.prove("trail forces are those of the last iteration, other forces are kept", numeq(frc, Sym("real", wf)))
    d = norm(vsub(sp.pos(T + 1, u), sp.pos(T + 1, v)))
    ln = attr(it, form, "e:", ek, "length")
    ctx.prove("lengths are the distances between the nodes, signed like the forces", numeq(ln, Sym("real", z3.If(wf < 0, -d, d))))
    for a in ("type", "plane"):
        ctx.prove("edge kinds and planes are those of the topology", same_attr(it, attr(it, form, "e:", ek, a), attr(it, t, "e:", ek, a)))
    known = {"node", "edge", "n:x", "n:y", "n:z", "n:rx", "n:ry", "n:rz", "e:force", "e:length"}
    for k in set(mf) | set(mt):
        if k not in known and k[2:] not in ("qx", "qy", "qz", "type", "_k", "plane"):
            ctx.prove("other attributes are kept", z3.BoolVal(mf.get(k) is mt.get(k)))


def same_attr(it, a, b):
    e = eq(a, b)
    return z3.BoolVal(e) if isinstance(e, bool) else (e.z if isinstance(e, Sym) else e)


# ------------------------------------------------------- lemmas about one trail edge

def laid_out(D, r, L):
    """An edge laid out by D = L unit(r) carries r: signed force times its unit vector is r."""
    ln, u, w = norm(r), unit(r), unit(D)
    f = z3.If(L >= 0, ln, -ln)
    pre = z3.And(L != 0, *[d == mk_mul(L, a) for d, a in zip(D, u)])
    nz = z3.Or(*[x != 0 for x in r])
    return z3.Implies(pre, z3.And(*([mk_mul(f, a) == x for a, x in zip(w, r)] + [z3.Implies(nz, norm(D) == z3.If(L >= 0, L, -L)), z3.Implies(nz, ln > 0)])))


def on_plane(p, x, u, o, m, L):
    """A point at the signed distance m.(o - p)/(m.u) along u lies on the plane."""
    c = dotp(m, u)
    return z3.Implies(z3.And(c != 0, L == mk_div(dotp(m, vsub(o, p)), c), *[a == b + mk_mul(L, d) for a, b, d in zip(x, p, u)]),
                      dotp(m, vsub(x, o)) == 0)


def reals(name):
    return [z3.Real(name + a) for a in "xyz"]


def edge_lemmas(V):
    def laid(it):
        ctx = it.ctx
        r, D, L = reals("r"), reals("D"), z3.Real("L")
        ln, u = norm(r), unit(r)
        goal = laid_out(D, r, L)
        ctx.assume(goal.arg(0))
        if ctx.decide(z3.And(*[x == 0 for x in r])):
            ctx.prove("no force: nothing is carried", z3.simplify(goal.arg(1)))
            return

        def step(name, g):
            ctx.prove(name, g)
            ctx.assume(g)
        step("the force has a length", ln > 0)
        for a, x in zip(u, r):
            step("direction times length is the force", mk_mul(a, ln) == x)
        s2 = sq(u)
        for a, x in zip(u, r):
            step("squares of the components", mk_mul(mk_mul(a, a), mk_mul(ln, ln)) == mk_mul(x, x))
        step("length squared", mk_mul(ln, ln) == sq(r))
        step("the direction is a unit vector, scaled", mk_mul(s2, mk_mul(ln, ln)) == mk_mul(ln, ln))
        step("the direction is a unit vector", s2 == 1)
        for d, a in zip(D, u):
            step("squares of the laid-out vector", mk_mul(d, d) == mk_mul(mk_mul(L, L), mk_mul(a, a)))
        step("squared length of the laid-out vector", sq(D) == mk_mul(L, L))
        n, al = norm(D), z3.If(L >= 0, L, -L)
        step("length of the laid-out vector", n == al)
        w = unit(D)
        for a, d in zip(w, D):
            step("unit vector times length", mk_mul(a, n) == d)
        for a, b in zip(w, u):
            step("the laid-out vector points along the force or against it", a == z3.If(L >= 0, b, -b))
        ctx.prove("signed force times unit vector is the force", z3.simplify(goal.arg(1)))
    V.unit("lemma: a trail edge carries the force it is laid out along", laid)

    def plane(it):
        ctx = it.ctx
        p, x, u, o, m, L = reals("p"), reals("x"), reals("u"), reals("o"), reals("m"), z3.Real("L")
        goal = on_plane(p, x, u, o, m, L)
        ctx.assume(goal.arg(0))
        c = dotp(m, u)
        g = mk_mul(L, c) == dotp(m, vsub(o, p))
        ctx.prove("distance times cosine", g)
        ctx.assume(g)
        ctx.prove("the end lies on the plane", z3.simplify(goal.arg(1)))
    V.unit("lemma: the signed distance to a plane leads onto the plane", plane)


def final(sp, it, T, n, x, p):
    """The definitions of the specification at a node, the next and the previous one of its trail."""
    s, W = sp.s, sp.W
    k, j = s.K(n), sp.ORD(W.TRK(n))
    tau, i = W.TRK(n), W.POS(n)
    more, less = i + 1 < s.TLEN(tau), i > 0
    here = {"n": n, "X": reals("final_n"), "R": reals("arriving_")}
    prev = {"n": p, "X": reals("final_p"), "R": None}
    nx, pn = sp.SEQ(tau, s.K(n) + 1), sp.SEQ(tau, s.K(n) - 1)
    facts = [a == b for a, b in zip(here["X"], sp.pos(T + 1, n))] + [a == b for a, b in zip(here["R"], sp.rin(T, n))]
    facts += [a == b for a, b in zip(prev["X"], sp.pos(T + 1, p))]
    facts += [z3.Implies(more, z3.And(x == nx, s.NODE(x), W.POS(x) == i + 1, W.TRK(x) == tau, s.K(x) == k + 1, sp.joined(n, x), sp.prev(x) == n)),
              z3.Implies(less, z3.And(p == pn, s.NODE(p), W.POS(p) == i - 1, W.TRK(p) == tau, s.K(p) == k - 1, sp.joined(p, n), sp.prev(n) == p))]
    facts += [z3.Implies(k <= sp.KL, z3.And(*sp.rho_def(T, n, k, j, here)))]
    facts += [z3.Implies(z3.And(more, k < sp.KL), z3.And(sp.len_def(T, n, x, here), *sp.pos_def(T, n, x, here)))]
    facts += [z3.Implies(z3.And(less, k <= sp.KL), z3.And(sp.len_def(T, p, n, prev), *sp.pos_def(T, p, n, prev)))]
    it.ctx.assume(z3.And(*facts))
    return here, prev, more, less


def of_edge(it, form, s, a, b, name):
    """Attribute of the edge between two nodes of the form, whatever its direction."""
    A, B_ = Sym("int", a), Sym("int", b)
    return z3.If(s.EDGE(a, b), zreal(attr(it, form, "e:", (A, B_), name)), zreal(attr(it, form, "e:", (B_, A), name)))


def at(it, form, n):
    return [zreal(attr(it, form, "n:", Sym("int", n), a)) for a in "xyz"]


def balance_unit(V, s, which):
    """Every node of the returned form is in equilibrium."""
    def u_(it):
        ctx = it.ctx
        sp, t, kind, form, T = run_static(it, s, which)
        if kind == "raise":
            ctx.prove("only the error of form-finding is raised", z3.BoolVal(form is ValueError))
            return
        W = sp.W
        n, x, p, m, u, v = z3.Ints("n x p m u v")
        ctx.assume(z3.And(s.NODE(n), T >= 1))
        ctx.assumptions.add("balance: the topology prescribes no reactions before form-finding, no trail edge has length zero, more than one iteration is allowed")
        ctx.axioms.append(z3.ForAll([u], z3.Implies(s.NODE(u), z3.And(*[f == 0 for f in s.reac(u)])), patterns=[s.NODE(u)]))
        ctx.axioms.append(z3.ForAll([u, v], z3.Implies(z3.And(s.EDGE(u, v), s.trail(u, v)), s.LEN(u, v) != 0), patterns=[s.EDGE(u, v)]))
        here, prev, more, less = final(sp, it, T, n, x, p)
        PN, PP = here["X"], prev["X"]
        PX = reals("final_x")
        ctx.assume(z3.And(*[a == b for a, b in zip(PX, sp.pos(T + 1, x))]))
        # the form's own positions
        for name, node, pos, cond in (("node", n, PN, z3.BoolVal(True)), ("next node", x, PX, more), ("previous node", p, PP, less)):
            g = z3.Implies(cond, z3.And(*[a == b for a, b in zip(at(it, form, node), pos)]))
            ctx.prove("position of the %s" % name, g)
        # trail edges
        fo, fi = of_edge(it, form, s, n, x, "force"), of_edge(it, form, s, p, n, "force")
        out, inn = unit(vsub(PX, PN)), unit(vsub(PP, PN))
        inn_ = unit(vsub(PN, PP))
        Ln, Lp = sp.LEF(T, n), sp.LEF(T, p)
        ctx.assume(laid_out(vsub(PX, PN), sp.rho(T, n), Ln))
        ctx.assume(laid_out(vsub(PN, PP), sp.rho(T, p), Lp))
        g = z3.Implies(more, z3.And(Ln != 0, fo == sp.force(T, n)))
        ctx.prove("trail edge leaving the node: force of the form", g)
        ctx.assume(g)
        g = z3.Implies(less, z3.And(Lp != 0, fi == sp.force(T, p)))
        ctx.prove("trail edge arriving at the node: force of the form", g)
        ctx.assume(g)
        pull_out, pull_in = vscale(fo, out), vscale(fi, inn)
        g = z3.Implies(more, z3.And(*[a == b for a, b in zip(pull_out, sp.rho(T, n))]))
        ctx.prove("the trail edge leaving the node pulls with the trail force", g)
        ctx.assume(g)
        g = z3.Implies(less, z3.And(*[a == -b for a, b in zip(inn, inn_)]))
        ctx.prove("the direction of the trail edge arriving, seen from the node", g)
        ctx.assume(g)
        g = z3.Implies(less, z3.And(*[a == -b for a, b in zip(pull_in, sp.rho(T, p))]))
        ctx.prove("the trail edge arriving at the node pulls against the trail force", g)
        ctx.assume(g)
        # all edges at the node
        edge = z3.Or(s.EDGE(n, m), s.EDGE(m, n))
        d, i_ = kind_guard(s, n, m, True), kind_guard(s, n, m, False)
        tr = z3.Or(z3.And(more, m == x), z3.And(less, m == p))
        ctx.prove("every edge at the node is one of the two trail edges or a deviation edge", z3.Implies(s.NODE(m), edge == z3.Or(tr, d, i_)))
        ctx.prove("these are different edges", z3.And(z3.Not(z3.And(d, i_)), z3.Not(z3.And(tr, z3.Or(d, i_))), z3.Implies(z3.And(more, less), x != p)))
        # deviation edges: same sums, over positions that are the same
        k, j = s.K(n), sp.ORD(W.TRK(n))
        Y = [z3.Function("final_" + a, I, R) for a in "xyz"]

        def drawn(q):
            return [f(q) for f in Y]
        for a, b in zip(at(it, form, m), sp.pos(T + 1, m)):
            ctx.prove("nodes are drawn where the last iteration put them", z3.Implies(s.NODE(m), a == b))
        for e in ((n, m), (m, n)):
            ctx.prove("deviation edges keep their force", z3.Implies(z3.And(s.EDGE(*e), s.deviation(*e)), zreal(attr(it, form, "e:", tuple(Sym("int", q) for q in e), "force")) == s.FRC(*e)))

        def congruent(direct, pre, what):
            """Sums over the same edges of the same function of equal positions."""
            g = z3.And(s.NODE(m), kind_guard(s, n, m, direct), pre)
            if ctx.prove(what, z3.Implies(g, z3.And(*[a == b for a, b in zip(sp.mixed(T, m, k, j), sp.pos(T + 1, m))]))):
                S = sp.deviation_sum(T, n, k, j, direct, here)
                return S
            return None
        PD = sp.deviation_sum(T, n, k, j, True, here, drawn)
        PI = sp.deviation_sum(T, n, k, j, False, here, drawn)
        SD = sp.deviation_sum(T, n, k, j, True, here)
        SI = sp.deviation_sum(T, n, k, j, False, here)
        if congruent(True, z3.BoolVal(True), "the other ends of deviation edges within the sequence are seen where they are drawn"):
            ctx.assume(z3.And(*[a == b for a, b in zip(PD, SD)]))
        rea = [zreal(attr(it, form, "n:", Sym("int", n), "r" + a)) for a in "xyz"]
        g = z3.And(*[a == b for a, b in zip(rea, vif(s.support(n), sp.rho(T, n), [rv(0)] * 3))])
        ctx.prove("only supports carry a reaction", g)
        ctx.assume(g)
        tot = [q_ + z3.If(more, a, 0) + z3.If(less, b, 0) + e + f + r for q_, a, b, e, f, r in zip(s.load(n), pull_out, pull_in, PD, PI, rea)]
        for a, e, f in zip(tot, PI, SI):
            ctx.prove("the node balances but for the deviation edges between sequences", a == e - f)
        # the deviation edges between sequences
        mx = sp.mixed(T, m, k, j)
        ctx.assume(s.NODE(m))
        dm = norm(vsub(sp.pos(T + 1, m), sp.pos(T, m)))
        for a, b, c in zip(mx, sp.pos(T + 1, m), sp.pos(T, m)):
            ctx.prove("the other end of such an edge was seen where it is drawn or where it was one iteration before", z3.Or(a == b, a == c))
        if which == "pure":
            mv = movement_sum(sp, T)
            ctx.assume(dm <= mv)           # a sum of non-negative terms is no smaller than one of them
        else:
            mv = movement_norm(sp, T)
            ctx.assume(z3.And(dm >= 0, dm <= mv))
        ctx.assumptions.add("a finite sum splits over disjoint cases; a finite sum of non-negative terms is at least each of them")
        ctx.prove("and these two places are no further apart than eta", dm <= z3.Real("eta"))
        still = z3.And(*[a == b for a, b in zip(sp.pos(T + 1, m), sp.pos(T, m))])
        if congruent(False, still, "if no node moved, the other ends of all deviation edges are seen where they are drawn"):
            ctx.assume(z3.And(*[a == b for a, b in zip(PI, SI)]))
        for a in tot:
            ctx.prove("if no node moved, the node balances exactly", a == 0)
    V.background("static_equilibrium%s: every node is in equilibrium" % ("" if which == "pure" else "_numpy"), u_)


def geometry_unit(V, s, which):
    """Origins stay, trail edges are laid out as prescribed, signs and lengths agree."""
    def u_(it):
        ctx = it.ctx
        sp, t, kind, form, T = run_static(it, s, which)
        if kind == "raise":
            ctx.prove("only the error of form-finding is raised", z3.BoolVal(form is ValueError))
            return
        W = sp.W
        n, x, p, u, v = z3.Ints("n x p u v")
        ctx.assume(s.NODE(n))
        ctx.axioms.append(z3.ForAll([u, v], z3.Implies(z3.And(s.EDGE(u, v), s.trail(u, v)), s.LEN(u, v) != 0), patterns=[s.EDGE(u, v)]))
        ctx.assumptions.add("geometry: no trail edge has length zero")
        pn = at(it, form, n)
        ctx.prove("origins stay where the topology placed them", z3.Implies(W.POS(n) == 0, z3.And(*[a == b for a, b in zip(pn, s.xyz(n))])))
        here, prev, more, less = final(sp, it, T, n, x, p)
        ctx.assume(more)
        ctx.assume(z3.Or(z3.And(s.EDGE(n, x), z3.Not(s.EDGE(x, n))), z3.And(s.EDGE(x, n), z3.Not(s.EDGE(n, x)))))
        e = (n, x) if ctx.decide(s.EDGE(n, x)) else (x, n)
        key = tuple(Sym("int", a) for a in e)
        PN, PX, L, r = here["X"], reals("final_x"), z3.Real("L"), sp.rho(T, n)
        ctx.assume(z3.And(*[a == b for a, b in zip(PX, sp.pos(T + 1, x))]))
        ctx.assume(L == sp.LEF(T, n))
        for node, pos in ((n, PN), (x, PX)):
            ctx.prove("drawn positions", z3.And(*[a == b for a, b in zip(at(it, form, node), pos)]))
        D, w = vsub(PX, PN), unit(r)
        ctx.prove("the next node lies along the trail force at the signed length", z3.And(*[d == mk_mul(L, a) for d, a in zip(D, w)]))
        o, m = [f(*e) for f in s.PLO], [f(*e) for f in s.PLN]
        c, pl = dotp(m, w), mk_div(dotp(m, vsub(o, PN)), dotp(m, w))
        meets = z3.And(s.HASPL(*e), z3.Or(c >= TOL, -c >= TOL), pl != 0)
        ctx.prove("the signed length is the prescribed one unless the force line meets a prescribed plane", z3.Implies(z3.Not(meets), L == s.LEN(*e)))
        ctx.prove("then it is the signed distance to the plane", z3.Implies(meets, L == pl))
        ctx.assume(on_plane(PN, PX, w, o, m, L))
        ctx.prove("and the next node lies on the plane", z3.Implies(meets, dotp(m, vsub(PX, o)) == 0))
        ctx.assume(laid_out(D, r, L))
        f = zreal(attr(it, form, "e:", key, "force"))
        nz = z3.Or(*[a != 0 for a in r])
        ctx.prove("the signed length is not zero", L != 0)
        g = f == sp.force(T, n)
        ctx.prove("the trail force of the form", g)
        ctx.assume(g)
        ctx.prove("the sign of the trail force is the sign of the signed length", z3.Implies(nz, (f > 0) == (L > 0)))
        d = norm(D)
        ctx.prove("the distance drawn is the length used", z3.Implies(nz, d == z3.If(L >= 0, L, -L)))
        ln = zreal(attr(it, form, "e:", key, "length"))
        raw = zreal(attr(it, form, "e:", key, "length"))
        uu, vv = (PN, PX) if e == (n, x) else (PX, PN)
        d2 = norm(vsub(sp.pos(T + 1, e[0]), sp.pos(T + 1, e[1])))
        g = z3.Or(ln == d2, ln == -d2)
        ctx.prove("the stored length is the distance", g)
        ctx.prove("the stored length is signed like the force", z3.And(z3.Implies(f < 0, ln == -d2), z3.Implies(f >= 0, ln == d2)))
    V.background("static_equilibrium%s: trail geometry" % ("" if which == "pure" else "_numpy"), u_)


def agreement_unit(V, s):
    """Both solvers return the same form after the same number of iterations."""
    def u_(it):
        ctx = it.ctx
        from compas_cem.equilibrium import force as P
        from compas_cem.equilibrium import force_numpy as Q
        tmax, eta, T = z3.Int("tmax"), z3.Real("eta"), z3.Int("T")
        ctx.assume(z3.And(tmax >= 1, T >= 0))
        sp, t = diagram(it, s)
        ctx.assumptions.add(VALID)
        forms = []
        for which, mod, name, inner in (("pure", P, "static_equilibrium", "equilibrium_state"), ("numpy", Q, "static_equilibrium_numpy", "equilibrium_state_numpy")):
            def h(it, *a, which=which, **k):
                out = []
                for f, role in FIELDS.items():
                    d = DictObj(ctx, None)
                    ctx.heap[d.oid] = sp.state(role, T, None, None, which != "pure")
                    out.append((f, d))
                return DictObj(ctx, None, out)
            ctx.contracts[getattr(mod, inner)] = h
            forms.append(it.call(getattr(mod, name), (t,), {"tmax": Sym("int", tmax), "eta": Sym("real", eta)}))
        a, b = forms
        n, u, v = z3.Ints("n u v")
        ctx.assume(z3.And(s.NODE(n), s.EDGE(u, v), s.NODE(u), s.NODE(v)))
        for k in "xyz":
            ctx.prove("same positions", numeq(attr(it, a, "n:", Sym("int", n), k), attr(it, b, "n:", Sym("int", n), k)))
            ctx.prove("same reactions", numeq(attr(it, a, "n:", Sym("int", n), "r" + k), attr(it, b, "n:", Sym("int", n), "r" + k)))
        e = (Sym("int", u), Sym("int", v))
        ctx.prove("same forces", numeq(attr(it, a, "e:", e, "force"), attr(it, b, "e:", e, "force")))
        ctx.prove("same lengths", numeq(attr(it, a, "e:", e, "length"), attr(it, b, "e:", e, "length")))
    V.background("both solvers: the same form after the same iterations", u_)


def refusal_units(V, s):
    """Diagrams without trails and negative last sequences are refused."""
    from compas_cem.equilibrium import force as P
    from compas_cem.equilibrium import force_numpy as Q
    for mod, name in ((P, "static_equilibrium"), (Q, "static_equilibrium_numpy")):
        def none(it, mod=mod, name=name):
            ctx = it.ctx
            well_formed(it, s)
            t = topology(it, s, k_optional=True, trails_=False)
            heap0 = dict(ctx.heap)
            kind, r = outcome(it, getattr(mod, name), (t,), {"tmax": integer("tmax"), "eta": real("eta")})
            ctx.prove("refused with an assertion error", z3.BoolVal(kind == "raise" and r is AssertionError))
            unchanged(it, heap0, "the topology is unchanged")
        V.background("%s: no trails" % name, none)


def negative_unit(V, s):
    from compas_cem.equilibrium import force as P

    def neg(it):
        ctx = it.ctx
        sp, t = diagram(it, s)
        kmax = z3.Int("kmax")
        ctx.assume(kmax < 0)
        heap0 = dict(ctx.heap)
        kind, r = outcome(it, P.static_equilibrium, (t,), {"kmax": Sym("int", kmax)})
        ctx.prove("refused with an assertion error", z3.BoolVal(kind == "raise" and r is AssertionError))
        unchanged(it, heap0, "the topology is unchanged")
    V.background("static_equilibrium: a negative last sequence", neg)


def beyond_unit(V, s):
    """A request at or beyond the last sequence is no restriction."""
    def u_(it):
        kmax = z3.Int("kmax")
        sp = Spec(it, s, kmax)
        full = Spec(it, s)
        n = z3.Int("n")
        it.ctx.assume(z3.And(s.NODE(n), kmax >= sp.LAST))
        it.ctx.prove("the same sequences are visited", sp.KL == full.KL)
        it.ctx.prove("the same nodes are placed", sp.placed(n) == full.placed(n))
        it.ctx.prove("the same nodes end trails", sp.stop(n) == full.stop(n))
    V.unit("lemma: a request at or beyond the last sequence", u_)

    def v_(it):
        ctx = it.ctx
        kmax = z3.Int("kmax")
        sp = Spec(it, s, kmax)
        n, T = z3.Ints("n T")
        ctx.assume(z3.And(s.NODE(n), kmax >= 0, T >= 0, s.K(n) > kmax))
        ctx.prove("nodes beyond the requested sequence keep the positions of the topology", z3.And(*[a == b for a, b in zip(sp.pos(T + 1, n), s.xyz(n))]))
    V.unit("lemma: nodes beyond the requested sequence", v_)
