"""Sums, counts, maxima and existence over symbolic collections.

An aggregate over a collection is a function symbol applied to the generic
parameters it depends on; facts about it are instantiated on demand when an
obligation mentions it.
"""
import z3

from .core import I, R, B, simp, apps, rv, has_bound, light_axioms, renorm, Unsupported, mk, zreal, toz, kind_of

P = [z3.Int("agg_p%d" % i) for i in range(6)]
A = [z3.Int("agg_a%d" % i) for i in range(8)]


class Agg:
    def __init__(self, kind, width, guard, val, fun, nargs, extra=None):
        self.kind, self.width, self.guard, self.val, self.fun, self.nargs = kind, width, guard, val, fun, nargs
        self.extra = extra

    def inst(self, app):
        args = [app.arg(i) for i in range(self.nargs)]
        pairs = list(zip(A[:self.nargs], args))
        g = z3.substitute(self.guard, *pairs) if pairs else self.guard
        v = None
        if self.val is not None:
            v = z3.substitute(self.val, *pairs) if pairs else self.val
        return g, v


REG = {}
BYFUN = {}


def generic_consts(exprs):
    out, seen, todo = [], set(), list(exprs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith("q#"):
            out.append(e)
        todo.extend(e.children())
    return sorted(out, key=lambda x: x.decl().name())


def aggregate(kind, ps, guard, val=None):
    """The term for the aggregate of val over all ps with guard."""
    ps = list(ps)
    pairs = [(p, P[i]) for i, p in enumerate(ps)]
    guard = simp(renorm(z3.substitute(guard, *pairs)))
    if val is not None:
        val = simp(renorm(z3.substitute(val, *pairs)))
        if kind == "sum" and val.sort() == R and z3.is_rational_value(val) and val.as_fraction() == 0:
            return rv(0)
        if kind == "sum" and z3.is_int_value(val) and val.as_long() == 0:
            return z3.IntVal(0)
        if kind == "sum":
            c = _counted(P[:len(ps)], guard, val)
            if c is not None:
                return c
    args = generic_consts([guard] + ([val] if val is not None else []))
    ap = [(a, A[i]) for i, a in enumerate(args)]
    if ap:
        guard = z3.substitute(guard, *ap)
        val = z3.substitute(val, *ap) if val is not None else None
    key = (kind, len(ps), guard.sexpr(), val.sexpr() if val is not None else "")
    rec = REG.get(key)
    if rec is None:
        sort = {"sum": R if val is None else val.sort(), "exists": B, "count": I}.get(kind)
        if sort is None:
            sort = val.sort()
        name = "%s@%d" % (kind, len(REG))
        fun = z3.Function(name, *([I] * len(args) + [sort])) if args else z3.Function(name, sort)
        rec = Agg(kind, len(ps), guard, val, fun, len(args))
        REG[key] = rec
        BYFUN[fun.get_id()] = rec
        rec.key = key
    return rec.fun(*args)


def _counted(ps, guard, val):
    """The sum of a constant is that constant times the number of terms."""
    if z3.is_int_value(val):
        n = aggregate("count", ps, guard)
        return n if val.as_long() == 1 else val * n
    if z3.is_rational_value(val):
        n = z3.ToReal(aggregate("count", ps, guard))
        return n if val.as_fraction() == 1 else val * n
    if z3.is_app(val) and val.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = val.children()
        num = lambda x: z3.is_int_value(x) or z3.is_rational_value(x)
        if num(a) and num(b):
            return aggregate("sum", ps, simp(z3.And(guard, c)), a) + aggregate("sum", ps, simp(z3.And(guard, z3.Not(c))), b)
    return None


def exists_atom(it, coll):
    ps = [z3.FreshInt("w") for _ in range(coll.width)]
    g = simp(coll.guard(*ps))
    if z3.is_false(g):
        return g
    return aggregate("exists", ps, g)


def count_term(it, coll):
    ps = [z3.FreshInt("w") for _ in range(coll.width)]
    g = simp(coll.guard(*ps))
    t = aggregate("count", ps, g)
    if not (z3.is_int_value(t) or z3.is_false(g)):
        link = z3.And(t >= 0, (t > 0) == aggregate("exists", ps, g))
        if not any(c.eq(link) for c in it.ctx.pc):
            it.ctx.pc.append(link)
    return t


def sum_term(ps, guard, val):
    return aggregate("sum", ps, guard, val)


WITNESS = {}


def _sk(rec, kind):
    """Skolem functions for a witness of the aggregate."""
    out = []
    for i in range(rec.width):
        name = "%s_%s%d" % (rec.fun.name(), kind, i)
        f = z3.Function(name, *([I] * rec.nargs + [I])) if rec.nargs else z3.Function(name, I)
        WITNESS[f.get_id()] = (f, rec)
        out.append(f)
    return out


def witness(app):
    rec = BYFUN[app.decl().get_id()]
    args = [app.arg(i) for i in range(rec.nargs)]
    return [f(*args) for f in _sk(rec, "w")]


_cache = {}


def _entails(ctx, facts, goal, ms=1500):
    goal = simp(goal)
    if z3.is_true(goal):
        return True
    if z3.is_false(goal):
        return False
    key = (goal.get_id(), tuple(f.get_id() for f in facts))
    if key in _cache:
        return _cache[key][0]
    s = z3.Solver()
    s.set("timeout", ms)
    s.set("auto_config", False)
    s.set("smt.mbqi", False)
    base = facts + [z3.Not(goal)]
    s.add(*base)
    s.add(*light_axioms(base))
    r = s.check() == z3.unsat
    _cache[key] = (r, goal, facts)
    return r


_AGGS = {}


def find_aggs(exprs):
    out, seen = [], set()
    for e in exprs:
        r = _AGGS.get(e.get_id())
        if r is None:
            if len(_AGGS) > 40000:
                _AGGS.clear()
            r = _AGGS[e.get_id()] = (e, _find_aggs(e))
        for a in r[1]:
            if a.get_id() not in seen:
                seen.add(a.get_id())
                out.append(a)
    return out


def _find_aggs(e):
    out, seen, todo = [], set(), [e]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.get_id() in BYFUN and not has_bound(e):
                out.append(e)
            elif d.kind() == z3.Z3_OP_UNINTERPRETED and d.get_id() in WITNESS and not has_bound(e):
                rec = WITNESS[d.get_id()][1]          # a largest or smallest element: the facts of its aggregate
                if rec.kind in ("max", "min"):
                    out.append(rec.fun(*[e.arg(i) for i in range(rec.nargs)]))
            todo.extend(e.children())
    return out


def membership(body, bs):
    """Predicates applied to exactly the bound variables: triggers for a statement about all elements."""
    out, seen, todo = [], set(), [body]
    ids = {b.get_id() for b in bs}
    while todo:
        e = todo.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == B and e.num_args() and {c.get_id() for c in e.children()} == ids:
                out.append(e)
            todo.extend(e.children())
    return out[:3]


def lemma_hook(ctx, base):
    facts = ctx.axioms + ctx.pc
    out = []
    done = set()
    extra = []
    for rnd in range(2):
        found = find_aggs(base + out)
        todo = [a for a in found if a.get_id() not in done]
        if not todo:
            break
        for a in todo:
            done.add(a.get_id())
            rec = BYFUN[a.decl().get_id()]
            g, v = rec.inst(a)
            if rec.kind == "exists":
                w = [f(*[a.arg(i) for i in range(rec.nargs)]) for f in _sk(rec, "w")]
                gw = z3.substitute(g, *list(zip(P, w)))
                out.append(z3.Implies(a, gw))
                bs = [z3.Int("fa%d_%d" % (rec.width, i)) for i in range(rec.width)]
                body = simp(z3.Not(z3.substitute(g, *list(zip(P, bs)))))
                out.append(z3.Implies(z3.Not(a), z3.ForAll(bs, body)))
                pats = membership(body, bs)
                if pats:
                    out.append(z3.Implies(z3.Not(a), z3.ForAll(bs, body, patterns=pats)))
            elif rec.kind == "count":
                out.append(a >= 0)
                ps = P[:rec.width]
                ex = aggregate("exists", ps, g)
                out.append((a > 0) == ex)
            elif rec.kind in ("max", "min"):
                w = [f(*[a.arg(i) for i in range(rec.nargs)]) for f in _sk(rec, "w")]
                ex = aggregate("exists", P[:rec.width], g)
                gw = z3.substitute(g, *list(zip(P, w)))
                vw = z3.substitute(v, *list(zip(P, w)))
                out.append(z3.Implies(ex, z3.And(gw, a == vw)))
                bs = [z3.Int("fa%d_%d" % (rec.width, i)) for i in range(rec.width)]
                gb = z3.substitute(g, *list(zip(P, bs)))
                vb = z3.substitute(v, *list(zip(P, bs)))
                body = z3.Implies(gb, vb <= a if rec.kind == "max" else vb >= a)
                pats = membership(body, bs)
                out.append(z3.ForAll(bs, body, patterns=pats) if pats else z3.ForAll(bs, body))
            elif rec.kind == "sum":
                ex = None
        # pairwise facts
        found = find_aggs(base + out)
        for i, a in enumerate(found):
            ra = BYFUN[a.decl().get_id()]
            ga, va = ra.inst(a)
            for b in found[i + 1:]:
                rb = BYFUN[b.decl().get_id()]
                if ra.width != rb.width:
                    continue
                key = (a.get_id(), b.get_id())
                if key in done:
                    continue
                done.add(key)
                gb, vb = rb.inst(b)
                kinds = {ra.kind, rb.kind}
                if kinds == {"sum", "exists"} or (ra.kind == rb.kind):
                    if kinds == {"sum"} and va.sort() != vb.sort():
                        continue
                    same = _entails(ctx, facts, ga == gb)
                    if not same:
                        continue
                    if kinds == {"sum", "exists"}:
                        sm, ex = (a, b) if ra.kind == "sum" else (b, a)
                        out.append(z3.Implies(z3.Not(ex), sm == 0))
                    elif ra.kind in ("exists", "count"):
                        out.append(a == b)
                    elif ra.kind == rb.kind:
                        if _entails(ctx, facts, z3.Implies(ga, va == vb)):
                            out.append(a == b)
        for a in found:
            ra = BYFUN[a.decl().get_id()]
            if ra.kind == "sum" and ("z", a.get_id()) not in done:
                done.add(("z", a.get_id()))
                g, v = ra.inst(a)
                if _entails(ctx, facts, z3.Not(g)):
                    out.append(a == 0)
    return out
