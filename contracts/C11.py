"""C11: penalties are weighted squared deviations from the target."""
from .common import *  # noqa: F401,F403

I, R = z3.IntSort(), z3.RealSort()
X = [z3.Function("X" + a, I, R) for a in "xyz"]
RE = [z3.Function("REACT" + a, I, R) for a in "xyz"]
TF = z3.Function("TFORCE", I, I, R)
SEG = [z3.Function("seg" + a, *([R] * 9 + [R])) for a in "xyz"]


def state(it, arr):
    """An arbitrary equilibrium state (dictionaries of positions, forces, reactions)."""
    ctx = it.ctx

    def vecmap(fs, name):
        dom = z3.Function("in_" + name, I, z3.BoolSort())
        return DictObj(ctx, SMap(1, lambda n: dom(n), lambda n: FList([Sym("real", f(n)) for f in fs], arr)))
    domf = z3.Function("in_trail_forces", I, I, z3.BoolSort())
    return DictObj(ctx, None, [("node_xyz", vecmap(X, "node_xyz")), ("reaction_forces", vecmap(RE, "reaction_forces")),
                               ("trail_forces", DictObj(ctx, SMap(2, lambda u, v: domf(u, v), lambda u, v: Sym("real", TF(u, v))))),
                               ("trail_directions", DictObj(ctx))])


def pos(n):
    return [f(n) for f in X]


def sq(ts):
    return z3.Sum([mk_mul(t, t) for t in ts])


def dot(a, b):
    return z3.Sum([mk_mul(x, y) for x, y in zip(a, b)])


def sub(a, b):
    return [simp(x - y) for x, y in zip(a, b)]


def tvec(name):
    return [z3.Real(name + a) for a in "xyz"]


def lst(it, ts):
    return ListObj(it.ctx, [Sym("real", t) for t in ts])


def weight(it):
    """The weight given, or none, which stands for one."""
    w = z3.Real("w")
    if it.ctx.decide(z3.Bool("a weight is given")):
        return (Sym("real", w),)
    it.ctx.assume(w == 1)
    return ()


def verify(V):
    import compas_cem.optimization as O
    w = z3.Real("w")

    def in_map(it, name, *ks):
        return z3.Function("in_" + name, *([I] * len(ks) + [z3.BoolSort()]))(*ks)

    def basics(it, p, target_met):
        """Never negative, and zero exactly when the target is met."""
        it.ctx.prove("never negative for a non-negative weight", z3.Implies(w >= 0, zreal(p) >= 0))
        it.ctx.prove("zero exactly when the target is met", z3.Implies(w > 0, (zreal(p) == 0) == target_met))

    for arr in (False, True):
        tag = " (arrays)" if arr else " (lists)"

        def point(it, arr=arr):
            n = z3.Int("n")
            it.ctx.assume(in_map(it, "node_xyz", n))
            t = tvec("t")
            c = it.call(O.PointConstraint, (Sym("int", n), lst(it, t), *weight(it)))
            p = it.call(it.getattr(c, "penalty"), (state(it, arr),))
            it.ctx.prove("penalty is the weighted squared distance to the point", zreal(p) == mk_mul(w, sq(sub(pos(n), t))))
            basics(it, p, z3.And(*[a == b for a, b in zip(pos(n), t)]))
        V.unit("PointConstraint.penalty" + tag, point)

        def reaction(it, arr=arr):
            n = z3.Int("n")
            it.ctx.assume(in_map(it, "reaction_forces", n))
            t = tvec("t")
            c = it.call(O.ReactionForceConstraint, (Sym("int", n), lst(it, t), *weight(it)))
            p = it.call(it.getattr(c, "penalty"), (state(it, arr),))
            ref = [f(n) for f in RE]
            it.ctx.prove("penalty is the weighted squared deviation of the reaction", zreal(p) == mk_mul(w, sq(sub(ref, t))))
            basics(it, p, z3.And(*[a == b for a, b in zip(ref, t)]))
        V.unit("ReactionForceConstraint.penalty" + tag, reaction)

        def line(it, arr=arr):
            n = z3.Int("n")
            it.ctx.assume(in_map(it, "node_xyz", n))
            a, b = tvec("a"), tvec("b")
            ab = sub(b, a)
            it.ctx.assume(z3.Or(*[x != 0 for x in ab]))
            c = it.call(O.LineConstraint, (Sym("int", n), (lst(it, a), lst(it, b)), *weight(it)))
            p = it.call(it.getattr(c, "penalty"), (state(it, arr),))
            s = mk_div(dot(sub(pos(n), a), ab), sq(ab))
            foot = [simp(x + mk_mul(d, s)) for x, d in zip(a, ab)]
            it.ctx.prove("penalty is the weighted squared distance to the infinite line", zreal(p) == mk_mul(w, sq(sub(pos(n), foot))))
            it.ctx.prove("never negative for a non-negative weight", z3.Implies(w >= 0, zreal(p) >= 0))
        V.unit("LineConstraint.penalty" + tag, line)

        def plane(it, arr=arr):
            n = z3.Int("n")
            it.ctx.assume(in_map(it, "node_xyz", n))
            o, m = tvec("o"), tvec("m")
            it.ctx.assume(z3.Or(*[x != 0 for x in m]))
            c = it.call(O.PlaneConstraint, (Sym("int", n), (lst(it, o), lst(it, m)), *weight(it)))
            p = it.call(it.getattr(c, "penalty"), (state(it, arr),))
            ln = mk_sqrt(sq(m))
            u = [mk_div(x, ln) for x in m]
            k = mk_div(dot(u, pos(n)) - dot(u, o), sq(u))
            foot = [simp(x - mk_mul(k, y)) for x, y in zip(pos(n), u)]
            it.ctx.prove("penalty is the weighted squared distance to the plane", zreal(p) == mk_mul(w, sq(sub(pos(n), foot))))
            it.ctx.prove("never negative for a non-negative weight", z3.Implies(w >= 0, zreal(p) >= 0))
        V.unit("PlaneConstraint.penalty" + tag, plane)

        def direction(it, arr=arr):
            a, b = z3.Int("a"), z3.Int("b")
            it.ctx.assume(in_map(it, "node_xyz", a))
            it.ctx.assume(in_map(it, "node_xyz", b))
            t = tvec("t")
            d = sub(pos(b), pos(a))
            it.ctx.assume(z3.Or(*[x != 0 for x in t]))
            it.ctx.assume(z3.Or(*[x != 0 for x in d]))
            c = it.call(O.EdgeDirectionConstraint, ((Sym("int", a), Sym("int", b)), lst(it, t), *weight(it)))
            p = it.call(it.getattr(c, "penalty"), (state(it, arr),))
            inv = mk_div(rv(1), mk_sqrt(sq(d)))
            u = [mk_mul(x, inv) for x in d]
            lt = mk_sqrt(sq(t))
            tt = [mk_div(x, lt) for x in t]
            same = mk_mul(w, sq(sub(u, tt)))
            flip = mk_mul(w, sq([simp(x + y) for x, y in zip(u, tt)]))
            al = dot(tt, u)
            it.ctx.prove("penalty measures the deviation from the target direction in its nearer sense",
                         zreal(p) == z3.If(al < 0, flip, same))
            it.ctx.prove("never negative for a non-negative weight", z3.Implies(w >= 0, zreal(p) >= 0))
        V.unit("EdgeDirectionConstraint.penalty" + tag, direction)

        def length(it, arr=arr):
            a, b = z3.Int("a"), z3.Int("b")
            it.ctx.assume(in_map(it, "node_xyz", a))
            it.ctx.assume(in_map(it, "node_xyz", b))
            t = z3.Real("t")
            c = it.call(O.DeviationEdgeLengthConstraint, ((Sym("int", a), Sym("int", b)), Sym("real", t), *weight(it)))
            p = it.call(it.getattr(c, "penalty"), (state(it, arr),))
            dl = simp(mk_sqrt(sq(sub(pos(a), pos(b)))) - t)
            it.ctx.prove("penalty is the weighted squared deviation of the length", zreal(p) == mk_mul(w, mk_mul(dl, dl)))
            basics(it, p, dl == 0)
        V.unit("DeviationEdgeLengthConstraint.penalty" + tag, length)

        def force_(it, arr=arr):
            a, b = z3.Int("a"), z3.Int("b")
            it.ctx.assume(in_map(it, "trail_forces", a, b))
            t = z3.Real("t")
            c = it.call(O.TrailEdgeForceConstraint, ((Sym("int", a), Sym("int", b)), Sym("real", t), *weight(it)))
            p = it.call(it.getattr(c, "penalty"), (state(it, arr),))
            dl = simp(TF(a, b) - t)
            it.ctx.prove("penalty is the weighted squared deviation of the force", zreal(p) == mk_mul(w, mk_mul(dl, dl)))
            basics(it, p, dl == 0)
        V.unit("TrailEdgeForceConstraint.penalty" + tag, force_)

        def polyline(it, arr=arr):
            polyline_unit(it, arr, w, O)
        V.unit("PolylineConstraint.penalty" + tag, polyline)

    def total(it):
        total_unit(it)
    V.unit("Optimizer._calculate_penalty", total)
    history(V)


def polyline_unit(it, arr, w, O):
    from compas.geometry import closest_point_on_segment
    from compas_cem.optimization.constraints import polyline as pm
    ctx = it.ctx
    n, N = z3.Int("n"), z3.Int("N")
    ctx.assume(z3.Function("in_node_xyz", I, z3.BoolSort())(n))
    ctx.assume(N >= 2)
    PT = [z3.Function("pt" + a, I, R) for a in "xyz"]
    pts = SSeq(N, lambda i: FList([Sym("real", f(i)) for f in PT]))
    ctx.assumptions.add("compas.geometry.closest_point_on_segment returns the nearest point of the segment")
    ctx.assumptions.add("closest_points_in_cloud_numpy([p], cloud, distances=False) returns the index of a nearest point of the cloud")

    def seg(it, point, segment):
        a, b = it.unpack(segment, [None, None])
        args = [zreal(x) for v in (point, a, b) for x in items(it, v)]
        return ListObj(it.ctx, [Sym("real", f(*args)) for f in SEG])

    def nearest(it, points, cloud, threshold=None, distances=True, num_nbrs=1):
        ps, c = it.iterate(points), it.iterate(cloud)
        if it.truth(distances) or len(ps) != 1 or num_nbrs != 1 or not isinstance(c, SSeq):
            raise Unsupported("nearest points")
        p = [zreal(x) for x in items(it, ps[0])]
        i = z3.Int("nearest")
        it.ctx.assume(z3.And(i >= 0, i < c.n))
        j = z3.FreshInt("fa")

        def d(k):
            q = [zreal(x) for x in items(it, lib.flat(c.item(k)))]
            return sq([simp(x - y) for x, y in zip(p, q)])
        it.ctx.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < c.n), d(i) <= d(j))))
        return ListObj(it.ctx, [Sym("int", i)])
    ctx.contracts[closest_point_on_segment] = seg
    ctx.contracts[pm.closest_points_in_cloud_numpy] = nearest
    c = it.call(O.PolylineConstraint, (Sym("int", n), ListObj(ctx, (), pts), *weight(it)))
    p = it.call(it.getattr(c, "penalty"), (state(it, arr),))

    def dist(j):
        args = pos(n) + [f(j) for f in PT] + [f(j + 1) for f in PT]
        foot = [f(*args) for f in SEG]
        return sq(sub(pos(n), foot))
    i, j = z3.Int("nearest"), z3.Int("any")
    ctx.prove("penalty is the weighted squared distance to a segment", zreal(p) == mk_mul(w, dist(i)))
    ctx.assume(z3.And(j >= 0, j < N - 1))
    ctx.prove("no segment of the polyline is nearer", dist(i) <= dist(j))
    ctx.prove("the segment belongs to the polyline", z3.And(i >= 0, i < N - 1))


class AnyConstraint:
    """An arbitrary constraint: its penalty is an unknown function of the constraint."""
    PEN = z3.Function("pen", I, R)

    def __init__(self, z, st):
        self.z, self.st = z, st

    def subst(self, pairs):
        return AnyConstraint(z3.substitute(self.z, *pairs), self.st)

    def pv_getattr(self, it, name):
        if name == "penalty":
            def pen(it, data):
                if data is not self.st:
                    raise Unsupported("another state")
                return Sym("real", self.PEN(self.z))
            return Native(pen)
        raise Unsupported("attribute %s of a constraint" % name)


def total_unit(it):
    from compas_cem.optimization import Optimizer
    ctx = it.ctx
    st = DictObj(ctx)
    dom = z3.Function("is_constraint", I, z3.BoolSort())
    cons = DictObj(ctx, SMap(1, lambda k: dom(k), lambda k: AnyConstraint(k, st)))
    opt = Inst(ctx, Optimizer, {"constraints": cons})
    p = it.call(it.getattr(opt, "_calculate_penalty"), (st,))
    q = z3.Int("q#0_0")
    ctx.prove("the total is the sum over all constraints", zreal(p) == aggr.sum_term([q], dom(q), AnyConstraint.PEN(q)))


def history(V):
    """The constraints held are those added and not removed."""
    from .opt import ODict, integer
    from compas_cem.optimization import Optimizer
    i, j, k, n, ck = z3.Ints("i j ckey n_constraints counter")
    DK, IDX = z3.Function("constraint_key", I, I), z3.Function("constraint_index", I, I)

    def setup(it):
        ctx = it.ctx
        o = it.call(Optimizer, ())
        a = dict(it.get(o))
        if "constraints" not in a or "_ckey" not in a:
            raise Unsupported("the optimizer stores its constraints differently")
        q = z3.Int("q_con")
        ctx.axioms += [n >= 0, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(DK(q) <= ck, IDX(DK(q)) == q)), patterns=[DK(q)])]
        a["constraints"] = ODict(ctx, n, lambda p: DK(p), lambda p: AnyConstraint(p, None), lambda x: IDX(x))
        a["_ckey"] = Sym("int", ck)
        it.put(o, a)
        return o

    def held(it, o):
        d = it.get(o)["constraints"]
        if not isinstance(d, ODict):
            raise Unsupported("the optimizer stores its constraints differently")
        n2, key, value, index = it.get(d)
        it.ctx.assume(z3.And(j >= 0, j < n2))
        it.ctx.prove("keys stay below the counter and distinct", z3.And(key(j) <= toz(it.get(o)["_ckey"]), index(key(j)) == j))
        it.ctx.prove("their number is reported", toz(it.call(it.getattr(o, "number_of_constraints"), ())) == n2)
        return n2, lambda p: force(it.ctx, value(p))

    def is_(c, p):
        return c.z == p if isinstance(c, AnyConstraint) else z3.BoolVal(False)

    def add(it):
        o = setup(it)
        new = Inst(it.ctx, object, {})
        it.call(it.getattr(o, "add_constraint"), (new,))
        n2, at = held(it, o)
        it.ctx.prove("one more constraint", n2 == n + 1)
        it.ctx.prove("the new constraint is held", z3.BoolVal(at(n) == new))
        it.ctx.assume(z3.And(i >= 0, i < n))
        it.ctx.prove("the earlier constraints stay", is_(at(i), i))
    V.unit("add_constraint", add)

    def remove(it):
        o = setup(it)
        there = z3.And(IDX(k) >= 0, IDX(k) < n, DK(IDX(k)) == k)
        kind, r = outcome(it, it.getattr(o, "remove_constraint"), (Sym("int", k),))
        if kind == "raise":
            it.ctx.prove("refused with a KeyError only when absent", z3.And(z3.Not(there), z3.BoolVal(r is KeyError)))
            return
        it.ctx.prove("removes a present constraint", there)
        n2, at = held(it, o)
        it.ctx.prove("one constraint less", n2 == n - 1)
        it.ctx.assume(z3.And(i >= 0, i < n - 1))
        it.ctx.prove("the others stay", is_(at(i), simp(z3.If(i < IDX(k), i, i + 1))))
    V.unit("remove_constraint", remove)

    def fresh(it):
        o = it.call(Optimizer, ())
        it.ctx.prove("a new optimizer has no constraint", toz(it.call(it.getattr(o, "number_of_constraints"), ())) == 0)
        p = it.call(it.getattr(o, "_calculate_penalty"), (DictObj(it.ctx),))
        it.ctx.prove("without constraints the penalty is zero", zreal(p) == 0)
    V.unit("Optimizer without constraints", fresh)
