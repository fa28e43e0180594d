"""C15: importing a quad mesh.

The mesh is an argument of another library: it is described by an assumed contract (an
arbitrary set of vertices with positions, and an arbitrary set of strips, each an arbitrary
sequence of at least two vertices, such that no mesh edge lies in two places of the strips).
from_dualquadmesh is verified in place against it, for any number of vertices and strips,
strips of any length, any set of supports, lengths, forces and states.
"""
from .C09 import *  # noqa: F401,F403
from .C09 import View, GK, same_value
import time
from pyvc.core import mk_mul

VERT = z3.Function("mesh_vertex", I, B)
VX = [z3.Function("vertex_" + a, I, R) for a in "xyz"]
STRIP = z3.Function("mesh_strip", I, B)
PL = z3.Function("strip_length", I, I)
PV = z3.Function("strip_vertex", I, I, I)
SUP = z3.Function("given_support", I, B)
OWN, AT = z3.Function("strip_of_edge", I, I, I), z3.Function("place_of_edge", I, I, I)


class Mesh:
    """What the importer may ask of a mesh (contract below)."""

    def collect_polyedges(self):
        raise NotImplementedError

    def polyedges(self, data=False):
        raise NotImplementedError

    def vertices(self, data=False):
        raise NotImplementedError

    def vertex_coordinates(self, key, axes="xyz"):
        raise NotImplementedError


def strip_seq(k):
    return SSeq(PL(k), lambda i: Sym("int", PV(k, i)), None, "list")


def mesh_contract(it):
    """The mesh as the importer sees it."""
    ctx = it.ctx
    done = []
    ctx.assumptions.update([
        "mesh: collect_polyedges, polyedges(data=True), vertices and vertex_coordinates of the given mesh list its strips (sequences of at least two vertices), vertices and positions; every mesh edge lies in one place of one strip",
        "mesh: vertices are integers and differ by more than the tolerance of the diagram; the given supports are vertices",
        "mesh: a strip between two supports that does not run along the supports has at least four vertices",
        "a given trail length is not zero"])

    def collect(it, self):
        done.append(1)

    def polyedges(it, self, data=False):
        if not done:
            raise Unsupported("strips listed before they are collected")
        if not it.truth(data):
            return SColl(1, lambda k: STRIP(k), lambda k: Sym("int", k), ("strips",))
        return SColl(1, lambda k: STRIP(k), lambda k: (Sym("int", k), strip_seq(k)), ("strips",))

    def vertices(it, self, data=False):
        if it.truth(data):
            raise Unsupported("vertices with data")
        return SColl(1, lambda k: VERT(k), lambda k: Sym("int", k), ("vertices",))

    def coordinates(it, self, key, axes="xyz"):
        k = toz(force(ctx, key))
        if not ctx.decide(VERT(k)):
            raise PyRaise(KeyError, ())
        if axes != "xyz":
            raise Unsupported("axes")
        return ListObj(ctx, [Sym("real", f(k)) for f in VX])
    for n, h in (("collect_polyedges", collect), ("polyedges", polyedges), ("vertices", vertices), ("vertex_coordinates", coordinates)):
        ctx.contracts[Mesh.__dict__[n]] = h
    s, i, j, u, v = z3.Ints("ms mi mj mu mv")
    ax = ctx.axioms
    ax.append(z3.ForAll([s], z3.Implies(STRIP(s), PL(s) >= 2), patterns=[STRIP(s)]))
    ax.append(z3.ForAll([s, i], z3.Implies(z3.And(STRIP(s), 0 <= i, i < PL(s)), VERT(PV(s, i))), patterns=[PV(s, i)]))
    a, b = PV(s, i), PV(s, j)
    # consecutive vertices are the ends of a mesh edge, which lies in one place of one strip
    ax.append(z3.ForAll([s, i, j], z3.Implies(z3.And(STRIP(s), 0 <= i, j == i + 1, j < PL(s)), z3.And(
        a != b, OWN(a, b) == s, OWN(b, a) == s, AT(a, b) == i, AT(b, a) == i)), patterns=[z3.MultiPattern(a, b)]))
    # strips between two supports have at least four vertices, unless they run along the supports
    ax.append(z3.ForAll([s], z3.Implies(z3.And(STRIP(s), PL(s) == 3, SUP(PV(s, 0)), SUP(PV(s, 2)), z3.Not(PV(s, 0) == PV(s, 2))), SUP(PV(s, 1))), patterns=[STRIP(s)]))
    ax.append(z3.ForAll([u], z3.Implies(SUP(u), VERT(u)), patterns=[SUP(u)]))
    # vertices differ by more than the tolerance
    tol, back = z3.Int("mt"), z3.Function("vertex_at", I, I, I)
    g = GK(tol, *[f(u) for f in VX])
    ax.append(z3.ForAll([tol, u], z3.Implies(VERT(u), back(tol, g) == u), patterns=[g]))
    return Inst(ctx, Mesh, {})


def distance(it, a, b):
    from compas.geometry import distance_point_point
    x, y = [FList([Sym("real", f(k)) for f in VX]) for k in (a, b)]
    return zreal(it.call(distance_point_point, (x, y)))


def located(it, goal, cands):
    """The goal with the list entries it refers to replaced by the places proved equal to them,
    and the conditions in it by what they are on this path."""
    ctx = it.ctx
    facts = ctx.axioms + ctx.pc
    tried = set()
    if ctx.failures:
        return goal             # the unit failed already
    end = time.time() + 20
    for _ in range(8):
        if time.time() > end:
            break
        found, conds = [], []
        for x in subterms(goal):
            if x.get_id() in tried or not z3.is_app(x):
                continue
            if x.decl().name().startswith(("enum!", "inv!")) and x.sort() == I:
                found.append(x)
            if x.decl().kind() == z3.Z3_OP_ITE and not any(y.decl().kind() == z3.Z3_OP_ITE for y in subterms(x.arg(0))):
                conds.append(x.arg(0))
        pairs = []
        for x in found:
            tried.add(x.get_id())
            for c in cands:
                if aggr._entails(ctx, facts, x == c, 3000):
                    pairs.append((x, c))
                    break
        if not pairs:
            for c in {c.get_id(): c for c in conds if c.get_id() not in tried}.values():
                tried.add(c.get_id())
                if aggr._entails(ctx, facts, c, 3000):
                    pairs.append((c, z3.BoolVal(True)))
                elif aggr._entails(ctx, facts, z3.Not(c), 3000):
                    pairs.append((c, z3.BoolVal(False)))
        if not pairs:
            break
        goal = simp(z3.substitute(goal, *pairs))
    return goal


def subterms(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            if z3.is_app(x):
                yield x
                todo += x.children()


def instances(it, pairs):
    """Instances of the facts about all list entries (loop rules) at some entries."""
    ctx = it.ctx
    out = []
    ones = [idx(*p) for p in pairs for _, _, _, idx in getattr(ctx, "enumerations", []) if idx.arity() == 2]
    for f in ctx.pc:
        if z3.is_quantifier(f) and f.is_forall():
            for ts in ([p for p in pairs] if f.num_vars() == 2 else [(x,) for x in ones] if f.num_vars() == 1 else []):
                out.append(simp(z3.substitute_vars(f.body(), *reversed(ts))))
    return out


def verify(V):
    from compas_cem.diagrams import TopologyDiagram
    s, i, n, u, v = z3.Ints("s i n u v")

    def unit(name, given, default):
        def imp(it):
            ctx = it.ctx
            m = mesh_contract(it)
            sup = SColl(1, lambda k: SUP(k), lambda k: Sym("int", k), ("given supports",))
            kw = {}
            ts, df, ds = z3.RealVal(-1), z3.RealVal(1), z3.RealVal(-1)
            L = None
            if not default:
                ts, df, ds = z3.Reals("trail_state deviation_force deviation_state")
                kw = {"trail_state": Sym("real", ts), "deviation_force": Sym("real", df), "deviation_state": Sym("real", ds)}
            if given:
                L = z3.Real("trail_length")
                ctx.assume(L != 0)
                kw["trail_length"] = Sym("real", L)
            kind, t = outcome(it, it.getattr(TopologyDiagram, "from_dualquadmesh"), (m, sup), kw)
            if kind != "ok":
                ctx.prove("no %s is raised" % t.__name__, z3.BoolVal(False))
                return
            ctx.prove("a topology diagram is returned", z3.BoolVal(isinstance(t, Inst) and t.cls is TopologyDiagram))
            w = View(it, t)
            ctx.prove("the nodes are the vertices", w.node(n) == VERT(n))
            for k, f in zip("xyz", VX):
                ctx.prove("a node is where its vertex is (%s)" % k, z3.Implies(VERT(n), zreal(w.nattr(n, k)) == f(n)))
            ctx.prove("exactly the given supports are supports", z3.Implies(VERT(n), same_value(w.nattr(n, "type"), "support") == SUP(n)))
            ctx.prove("an edge appears in one direction", z3.Not(z3.And(w.edge(u, v), w.edge(v, u))))
            so, io = OWN(u, v), AT(u, v)
            a, b = PV(so, io), PV(so, simp(io + 1))
            ctx.prove("every edge is an edge of a strip", z3.Implies(w.edge(u, v), z3.And(
                STRIP(so), 0 <= io, io + 1 < PL(so), z3.Or(z3.And(a == u, b == v), z3.And(a == v, b == u)))))
            # the edge at place i of strip s
            ctx.assume(z3.And(STRIP(s), 0 <= i, i + 1 < PL(s)))
            p, q = PV(s, i), PV(s, simp(i + 1))
            first, last = PV(s, 0), PV(s, simp(PL(s) - 1))
            closed = first == last
            k = z3.Int("middle")
            ctx.assume(z3.And(2 * k <= PL(s), PL(s) < 2 * k + 2))
            both = [z3.Not(closed), SUP(first), SUP(last)]
            split = both + [z3.Not(SUP(PV(s, 1)))]
            cases = [("trail", "strip ending at one support (first vertex)", [z3.Not(closed), SUP(first), z3.Not(SUP(last))]),
                     ("trail", "strip ending at one support (last vertex)", [z3.Not(closed), z3.Not(SUP(first)), SUP(last)]),
                     ("trail", "strip between supports, first half", split + [i < k - 1]),
                     ("trail", "strip between supports, second half", split + [i > k - 1]),
                     ("deviation", "strip between supports, middle edge", split + [i == k - 1]),
                     ("deviation", "strip between no supports", [z3.Not(closed), z3.Not(SUP(first)), z3.Not(SUP(last))]),
                     ("deviation", "closed strip", [closed]),
                     (None, "strip along the supports", both + [SUP(PV(s, 1))])]
            # where an edge of a strip may be listed
            ctx.pc += instances(it, [(s, i), (s, simp(i - 1)), (s, z3.IntVal(0)), (s, simp(i - k))])
            pc0 = list(ctx.pc)
            for what, name, cond in cases:
                ctx.pc = pc0 + cond
                if what is None:
                    ctx.prove("%s: left out" % name, z3.Not(z3.Or(w.edge(p, q), w.edge(q, p))))
                    continue
                ctx.prove("%s: a %s edge" % (name, what), z3.Or(*[z3.And(w.edge(a, b), same_value(w.eattr(a, b, "type"), what)) for a, b in ((p, q), (q, p))]))
                for a, b in ((p, q), (q, p)):
                    ctx.pc = pc0 + cond + [w.edge(a, b)]
                    if what == "trail":
                        size = L if given else distance(it, a, b)
                        ctx.prove("%s: length" % name, located(it, zreal(w.eattr(a, b, "length")) == mk_mul(size, ts), [p, q, s, i, simp(i - 1)]))
                    else:
                        ctx.prove("%s: force" % name, zreal(w.eattr(a, b, "force")) == mk_mul(df, ds))
            ctx.pc = pc0
        V.background(name, imp)
    unit("from_dualquadmesh(length given)", True, False)
    unit("from_dualquadmesh(mesh lengths)", False, False)
    unit("from_dualquadmesh(defaults)", False, True)
