"""Composition: the diagrams that form-finding is proved for are the ones that trail building gives.

The precondition VALID of the form-finding contracts (the axioms of equil.Spec and
topo.Trails) is proved from the postcondition of build_trails (C06): with ghost definitions
for the trail of a node, its position and first sequence, every axiom is an obligation.
Shifting a trail (postcondition of shift_trail, C08) is proved to preserve it.  What is left
is that finite sets can be enumerated and have a largest element.
"""
from .equil import *  # noqa: F401,F403
from .equil import Spec
from .trails import Paths


def symbols(e):
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo += x.children()
    return out


def composition_unit(V):
    def compose(it):
        ctx = it.ctx
        s = Sig()
        n0 = len(ctx.axioms)
        sp = Spec(it, s)
        valid = ctx.axioms[n0:]
        del ctx.axioms[n0:]
        W = sp.W
        # what holds of the diagram that was built
        well_formed(it, s)
        one_orientation(it, s)
        p = Paths(s)
        ctx.axioms += p.axioms()
        n, k, i, u, v = z3.Ints("b_n b_k b_i b_u b_v")
        ctx.axioms += [
            z3.ForAll([n], z3.Implies(p.issup(n), p.of_support(n)), patterns=[s.NTYPE(n)]),
            z3.ForAll([n], z3.Implies(s.NODE(n), p.REACH(n)), patterns=[s.NODE(n)]),
            z3.ForAll([u, v], z3.Implies(s.EDGE(u, v), z3.Or(s.trail(u, v), s.deviation(u, v))), patterns=[s.EDGE(u, v)])]
        some = z3.Int("some_node")
        ctx.assume(s.NODE(some))
        # ghost definitions
        a, b = z3.Var(0, I), z3.Var(1, I)
        FIRST = z3.Function("shifted_to", I, I)          # first sequence of each trail
        ctx.axioms.append(z3.ForAll([k], FIRST(k) >= 0, patterns=[FIRST(k)]))

        def trk(x):
            return p.P(p.SUP(x), p.L(p.SUP(x)) - 1)

        def pos(x):
            return p.L(p.SUP(x)) - 1 - p.POS(x)

        def define(first):
            return [(s.TR, p.isorigin(a)), (s.TLEN, p.L(p.SUP(a))), (s.AT, p.P(p.SUP(a), p.L(p.SUP(a)) - 1 - b)),
                    (s.HASK, z3.BoolVal(True)), (s.K, first(trk(a)) + pos(a)),
                    (W.TRK, trk(a)), (W.POS, pos(a)), (W.K0, first(a)),
                    (sp.SEQ, p.P(p.SUP(a), p.L(p.SUP(a)) - 1 - (b - first(a))))]
        key, start = z3.Ints("shifted_trail new_first")
        states = [("built", lambda x: z3.IntVal(0)), ("in any state of shifting", FIRST),
                  ("shifted once more", lambda x: z3.If(x == key, start, FIRST(x)))]
        ctx.assume(start >= 0)
        finite = {sp.ORD.name(), sp.TRAT.name(), sp.LAST.decl().name(), sp.WIT.decl().name(), sp.NT.decl().name()}
        ctx.assumptions.add("the finite set of trails can be enumerated and there is a largest sequence number")
        for text, first in states:
            for j, ax in enumerate(valid):
                if symbols(ax) & finite:
                    continue
                goal = z3.substitute_funs(ax, *define(first))
                xs = []
                if z3.is_quantifier(goal):
                    xs = [z3.Int("x%d" % q) for q in range(goal.num_vars())]
                    goal = z3.substitute_vars(goal.body(), *reversed(xs))
                pc0 = list(ctx.pc)
                for x in xs:
                    S = p.SUP(x)
                    for q in xs:
                        for y in (p.L(S) - 1 - q, p.L(S) - 1, p.L(S) - 1 - (q - first(x))):
                            ctx.pc.append(p.on_path(S, simp(y)))
                    ctx.pc += [p.of_node(x), p.of_support(S), z3.Implies(s.NODE(x), p.REACH(x))]
                if len(xs) == 2:
                    ctx.pc.append(p.near(*xs))
                ctx.prove("a diagram %s: condition %d of form-finding holds" % (text, j), goal)
                ctx.pc = pc0
        ctx.prove("there is a sequence after the first", pos(p.SUP(some)) >= 1)
    V.unit("composition: built and shifted diagrams satisfy the precondition of form-finding", compose)
