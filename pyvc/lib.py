"""Models of built-in functions, math, numpy, functools and text."""
import math
import functools
import itertools
import builtins
import time as _time
from fractions import Fraction

import ast
import collections.abc

import z3

from .core import (Unsupported, PathCut, PyRaise, Sym, Ref, FList, Choice, Opaque, Poison, I, R, B,
                   toz, zreal, subst, merge, is_scalar, is_real, is_int, kind_of, mk, literal, as_val,
                   mk_mul, mk_div, mk_sqrt, rv, simp)
from .values import (NAN, Frame, Obj, Inst, ListObj, DictC, DELETED, SMap, DictObj, FDict, SetObj, ArrObj, SSeq, SColl,
                     Alts, View, BoundMethod, Partial, FuncObj, Native, SuperProxy, GKey, JKey, Text, text, format_text, key_kind, force, key_terms, eq,
                     d_lookup, d_keys)
from . import aggr


def vec_items(it, v):
    v = force(it.ctx, v)
    if isinstance(v, ListObj):
        v = it.freeze(v)
    if isinstance(v, FList):
        return list(v.items)
    if isinstance(v, tuple):
        return list(v)
    return None


# ------------------------------------------------------------------ builtins

def b_len(it, v):
    v = force(it.ctx, v)
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, FList):
        return len(v.items)
    if isinstance(v, ArrObj):
        return mk("int", it.get(v)[1])
    x = it.iterate(v)
    if isinstance(x, list):
        return len(x)
    if isinstance(x, SSeq):
        return mk("int", x.n)
    return mk("int", aggr.count_term(it, x))


def b_list(it, v=None):
    if v is None:
        return ListObj(it.ctx)
    x = it.iterate(v)
    if isinstance(x, list):
        return ListObj(it.ctx, x)
    return ListObj(it.ctx, (), settled(x))


def settled(x):
    """A listing made now: later changes of the diagram do not matter to it."""
    if isinstance(x, SColl) and getattr(x, "live", None) is not None:
        y = SColl(x.width, x._guard, x._elem, x.tag, x.kind, x.distinct)
        y.origin = x
        return y
    return x


def b_tuple(it, v=None):
    if v is None:
        return ()
    x = it.iterate(v)
    if isinstance(x, list):
        return tuple(x)
    if isinstance(x, SSeq) and x.kind != "tuple":
        return SSeq(x.n, x.item, x.tag, "tuple")
    return x


def to_set(it, x):
    if isinstance(x, list):
        return DictC(None, [(it.freeze(k) if not isinstance(k, tuple) else k, True) for k in x])
    ps = [z3.Int("hold%d" % i) for i in range(x.width)]
    raw = x.item(ps[0]) if isinstance(x, SSeq) else x.raw(ps)
    kt = key_terms(raw) if not isinstance(raw, (Alts, Choice)) else None
    if isinstance(raw, Alts):
        kts = [key_terms(v) for c, v in raw.alts]
        if all(k is not None and len(k) == len(ps) and all(a.eq(b) for a, b in zip(k, ps)) for k in kts):
            kt = kts[0]
            raw = raw.alts[0][1]
    if kt is None:
        raise Unsupported("set of a symbolic collection")
    if len(kt) == len(ps) and all(a.eq(b) for a, b in zip(kt, ps)):
        return DictC(SMap(len(kt), lambda *ks: x.guard(*ks), lambda *ks: True, getattr(x, "tag", None), key_kind(raw)))

    def dom(*ks):
        qs = [z3.FreshInt("fa") for _ in ps]
        raw2 = x.item(qs[0]) if isinstance(x, SSeq) else x.raw(qs)
        return z3.Exists(qs, z3.And(x.guard(*qs), *[a == b for a, b in zip(key_terms(raw2), ks)]))
    return DictC(SMap(len(kt), dom, lambda *ks: True, None, key_kind(raw)))


def b_set(it, v=None):
    s = SetObj(it.ctx)
    if v is not None:
        it.put(s, to_set(it, it.iterate(v)))
    return s


def b_dict(it, v=None, **kw):
    d = DictObj(it.ctx)
    if v is not None:
        v = force(it.ctx, v)
        if isinstance(v, DictObj):
            it.put(d, it.get(v))
        elif isinstance(v, FDict):
            it.put(d, v.c)
        else:
            x = it.iterate(v)
            if not isinstance(x, list):
                raise Unsupported("dict of a symbolic collection")
            it.put(d, DictC(None, [tuple(it.iterate(p)) for p in x]))
    for k, x in kw.items():
        it.put(d, it.get(d).put(k, x))
    return d


def b_range(it, *args):
    if all(isinstance(a, int) for a in args):
        return tuple(range(*args))
    if len(args) == 1:
        lo, hi = 0, args[0]
    elif len(args) == 2:
        lo, hi = args
    else:
        raise Unsupported("range with a step")
    lo, hi = force(it.ctx, lo), force(it.ctx, hi)
    if not is_int(lo) or not is_int(hi):
        raise PyRaise(TypeError, ("range",))
    a, b = toz(lo), toz(hi)
    n = simp(z3.If(b > a, b - a, z3.IntVal(0))) if not it.ctx.entailed(b >= a) else simp(b - a)
    return SSeq(n, lambda i: mk("int", a + i), ("range", a, b), "range")


def b_enumerate(it, v, start=0):
    x = it.iterate(v)
    if isinstance(x, list):
        return tuple((i + start, y) for i, y in enumerate(x))
    if isinstance(x, SSeq):
        s = toz(start)
        return SSeq(x.n, lambda i: (mk("int", s + i), x.item(i)), ("enumerate", x.tag), "list")
    raise Unsupported("enumerate of an unordered collection")


def b_zip(it, *vs):
    xs = [it.iterate(v) for v in vs]
    if all(isinstance(x, list) for x in xs):
        return tuple(zip(*xs))
    if all(isinstance(x, SSeq) for x in xs):
        n = xs[0].n
        for x in xs[1:]:
            if not it.ctx.entailed(x.n == n):
                raise Unsupported("zip of different lengths")
        return SSeq(n, lambda i: tuple(x.item(i) for x in xs), None, "list")
    if all(isinstance(x, SColl) for x in xs) and len({x.width for x in xs}) == 1:
        ps = [z3.Int("hold%d" % i) for i in range(xs[0].width)]
        g = xs[0].guard(*ps)
        for x in xs[1:]:
            if not (getattr(x, "origin", None) is getattr(xs[0], "origin", None) or origin(x) is origin(xs[0])):
                raise Unsupported("zip of unrelated collections")
            if not aggr._entails(it.ctx, it.ctx.axioms + it.ctx.pc, x.guard(*ps) == g):
                raise Unsupported("zip of different collections")

        def elem(*qs):
            alts = [((), z3.BoolVal(True))]
            out = [(z3.BoolVal(True), ())]
            for x in xs:
                raw = x.raw(qs)
                opts = raw.alts if isinstance(raw, Alts) else [(z3.BoolVal(True), raw)]
                out = [(simp(z3.And(c, c2)), t + (v,)) for c, t in out for c2, v in opts]
            out = [(c, t) for c, t in out if not z3.is_false(c)]
            if len(out) == 1:
                return out[0][1]
            return Alts(out)
        r = SColl(xs[0].width, xs[0].guard, elem, None, "list", False)
        r.origin = origin(xs[0])
        return r
    raise Unsupported("zip")


def origin(x):
    while getattr(x, "origin", None) is not None:
        x = x.origin
    return x


def b_sum(it, v, start=0):
    x = it.iterate(v)
    if isinstance(x, list):
        r = start
        for y in x:
            r = it.binop(ast.Add(), r, y)
        return r
    ps, g, val = generic_value(it, x)
    if kind_of(val) == "int":
        return mk("int", toz(start) + aggr.aggregate("sum", ps, g, toz(val)))
    return mk("real", zreal(start) + aggr.sum_term(ps, g, zreal(val)))


def generic_value(it, x):
    """Parameters, guard and merged value of the elements of a collection."""
    ctx = it.ctx
    level = len(ctx.gparams)
    ps = [z3.Int("q#%d_%d" % (level + i, i)) for i in range(x.width)]
    g = simp(x.guard(*ps))
    raw = x.item(ps[0]) if isinstance(x, SSeq) else x.raw(ps)
    return ps, g, flat(raw)


def flat(raw):
    if isinstance(raw, Alts):
        v = flat(raw.alts[-1][1])
        for c, w in reversed(raw.alts[:-1]):
            v = merge(c, flat(w), v)
        return v
    if isinstance(raw, Choice):
        return raw
    return raw


MISSING = object()


def b_max(it, *vs, key=None, default=MISSING):
    return extremum(it, vs, key, "max", default)


def b_min(it, *vs, key=None, default=MISSING):
    return extremum(it, vs, key, "min", default)


def extremum(it, vs, key, what, default=MISSING):
    ctx = it.ctx
    if len(vs) == 1:
        x = it.iterate(vs[0])
    else:
        x = list(vs)
    if isinstance(x, list):
        if not x:
            if default is not MISSING:
                return default
            raise PyRaise(ValueError, ("empty",))
        best = force(ctx, x[0])
        bk = it.call(key, (best,)) if key is not None else best
        for y in x[1:]:
            y = force(ctx, y)
            yk = it.call(key, (y,)) if key is not None else y
            c = it.compare(ast.Gt() if what == "max" else ast.Lt(), yk, bk)
            if key is None and is_scalar(best) and is_scalar(y) and not isinstance(c, bool):
                best = bk = merge(toz(c), y, best)
            elif it.truth(c):
                best, bk = y, yk
        return best
    if not ctx.decide(aggr.exists_atom(it, x) if isinstance(x, SColl) else x.n > 0):
        if default is not MISSING:
            return default
        raise PyRaise(ValueError, ("empty",))
    ps, g, val = generic_value(it, x)
    if key is not None:
        # an element with the largest key; which one among equals is left open
        ps2, g2, kv = generic_value(it, it.iterate(b_map(it, key, ListObj(ctx, (), x))))
        if len(ps2) != len(ps) or not all(p.eq(q) for p, q in zip(ps, ps2)) or not z3.is_true(simp(g == g2)) or not is_scalar(kv):
            raise Unsupported("max with a key")
        app = aggr.aggregate(what, ps, g, toz(kv))
        if app.decl().get_id() not in aggr.BYFUN:
            raise Unsupported("max with a key")
        w = aggr.witness(app)
        return subst(val, list(zip(ps, w)))
    if isinstance(val, Choice) or val is None or not is_scalar(val):
        # optional values: all must be numbers
        val = total_number(it, ps, g, val)
    return mk(kind_of(val), aggr.aggregate(what, ps, g, toz(val)))


def total_number(it, ps, g, val):
    """A merged value all of whose alternatives that can occur are numbers."""
    ctx = it.ctx

    def go(v, cond):
        if isinstance(v, Choice):
            a = go(v.a, cond + [v.c])
            b = go(v.b, cond + [z3.Not(v.c)])
            if a is None:
                return b
            if b is None:
                return a
            return merge(v.c, a, b)
        if is_scalar(v):
            return v
        ex = aggr.aggregate("exists", ps, simp(z3.And(g, *cond)))
        if ctx.decide(ex):
            raise PyRaise(TypeError, ("comparison with None",))
        bs = [z3.FreshInt("fa") for _ in ps]
        ctx.pc.append(z3.ForAll(bs, z3.Not(z3.substitute(z3.And(g, *cond), *list(zip(ps, bs))))))
        return None
    v = go(val, [])
    if v is None:
        raise PathCut()
    return v


def b_any(it, v):
    x = it.iterate(v)
    if isinstance(x, list):
        for y in x:
            if it.truth(y):
                return True
        return False
    return mk("bool", exists_true(it, x, True))


def b_all(it, v):
    x = it.iterate(v)
    if isinstance(x, list):
        for y in x:
            if not it.truth(y):
                return False
        return True
    return mk("bool", z3.Not(exists_true(it, x, False)))


def exists_true(it, x, want):
    ps, g, val = generic_value(it, x)
    if isinstance(val, bool):
        val = mk("bool", z3.BoolVal(val))
    c = it.truth_term(val)
    if c is None:
        raise Unsupported("any/all of such values")
    c = c if want else z3.Not(c)
    return aggr.aggregate("exists", ps, simp(z3.And(g, c)))


PYTYPES = {int: lambda v: is_int(v) or isinstance(v, bool) or (isinstance(v, Sym) and v.kind == "bool"),
           float: lambda v: is_real(v) or isinstance(v, float),
           bool: lambda v: isinstance(v, bool) or (isinstance(v, Sym) and v.kind == "bool"),
           str: lambda v: isinstance(v, (str, GKey, JKey)) or (isinstance(v, Opaque) and v.what == "text"),
           list: lambda v: isinstance(v, ListObj) or (isinstance(v, FList) and not v.arr) or (isinstance(v, SSeq) and v.kind == "list"),
           tuple: lambda v: isinstance(v, tuple) or (isinstance(v, SSeq) and v.kind == "tuple"),
           dict: lambda v: isinstance(v, (DictObj, FDict)),
           set: lambda v: isinstance(v, SetObj)}


ABCS = {collections.abc.Iterable}


def b_isinstance(it, v, t):
    v = force(it.ctx, v)
    if isinstance(t, tuple):
        return any(b_isinstance(it, v, x) for x in t)
    if t in PYTYPES:
        if isinstance(v, Sym) and v.kind == "val":
            if t is str:
                return it.ctx.decide(v.z != literal(None))
            return False
        return PYTYPES[t](v)
    if t in ABCS:
        return any(PYTYPES[x](v) for x in (list, tuple, dict, set, str)) or isinstance(v, FList) or (
            isinstance(v, Inst) and it.class_lookup(v.cls, "__iter__")[0] is not None)
    if isinstance(v, Inst):
        return isinstance(t, type) and issubclass(v.cls, t)
    if isinstance(t, type):
        return False
    raise Unsupported("isinstance")


def b_abs(it, v):
    v = force(it.ctx, v)
    if isinstance(v, FList) and v.arr:
        return FList([b_abs(it, x) for x in v.items], True)
    if v is None:
        raise PyRaise(TypeError, ())
    if isinstance(v, (int, Fraction, float)):
        return abs(v)
    return mk(kind_of(v), z3.If(v.z >= 0, v.z, -v.z))


def m_fabs(it, v):
    v = b_abs(it, v)
    return Fraction(v) if isinstance(v, int) else (mk("real", zreal(v)) if isinstance(v, Sym) else v)


def m_copysign(it, a, b):
    a, b = force(it.ctx, a), force(it.ctx, b)
    if a is None or b is None or isinstance(a, (str, tuple, FList, ListObj)) or isinstance(b, (str, tuple, FList, ListObj)):
        raise PyRaise(TypeError, ())
    m = zreal(b_abs(it, a))
    y = zreal(b)
    it.ctx.assumptions.add("copysign treats a zero sign argument as positive (no negative zeros)")
    # decide the sign when it is already known
    return mk("real", z3.If(y >= 0, m, -m))


def m_sqrt(it, v):
    v = force(it.ctx, v)
    z = zreal(v)
    if not nonneg(z) and it.ctx.decide(z < 0):
        raise PyRaise(ValueError, ("math domain error",))
    return mk("real", mk_sqrt(z))


def nonneg(z):
    """Syntactically a sum of squares."""
    from .core import MUL, _coef
    parts = z.children() if z3.is_add(z) else [z]
    for p in parts:
        c, r = _coef(simp(p))
        if c < 0:
            return False
        if r is None:
            continue
        if z3.is_app(r) and r.decl() == MUL and r.arg(0).eq(r.arg(1)):
            continue
        rec = aggr.BYFUN.get(r.decl().get_id()) if z3.is_app(r) else None
        if rec is not None and rec.kind == "sum" and nonneg(rec.val):
            continue
        return False
    return True


def b_round(it, v, n=None):
    return Opaque("rounded")


def b_float(it, v=0):
    v = force(it.ctx, v)
    if isinstance(v, str):
        try:
            return it.lift(float(v))
        except ValueError:
            raise PyRaise(ValueError, ())
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, (Fraction, float)):
        return v
    if isinstance(v, Sym) and v.kind in ("int", "real"):
        return mk("real", zreal(v))
    if v is None:
        raise PyRaise(TypeError, ())
    raise Unsupported("float(%r)" % (v,))


def b_int(it, v=0):
    v = force(it.ctx, v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyRaise(ValueError, ())
    if isinstance(v, (int, Fraction)):
        return int(v)
    if isinstance(v, Sym) and v.kind == "int":
        return v
    if isinstance(v, IntText):
        return v.v
    if isinstance(v, JKey):
        return Sym("int", v.z)
    if isinstance(v, Sym) and v.kind == "real":
        z = simp(v.z)
        # truncation towards zero
        if z3.is_mul(z) and z.num_args() == 2 and z3.is_rational_value(z.arg(0)) and z.arg(0).numerator_as_long() == 1 \
                and z.arg(1).decl().kind() == z3.Z3_OP_TO_REAL:
            n, d = z.arg(1).arg(0), z.arg(0).denominator_as_long()
            return mk("int", n / d if it.ctx.entailed(n >= 0) else z3.If(n >= 0, n / d, -(-n / d)))
        f = z3.ToInt(z)
        return mk("int", z3.If(z >= 0, f, -z3.ToInt(-z)))
    raise Unsupported("int(%r)" % (v,))


class IntText:
    """The decimal text of an integer (a JSON object key)."""

    def __init__(self, v):
        self.v = v


class ReprText:
    """The text produced by repr of a value made of numbers and tuples."""

    def __init__(self, v):
        self.v = v

    def subst(self, pairs):
        return ReprText(subst(self.v, pairs))


def b_repr(it, v):
    v = force(it.ctx, v)
    if plain(v):
        return ReprText(v)
    return Opaque("text")


def plain(v):
    if isinstance(v, tuple):
        return all(plain(x) for x in v)
    return v is None or isinstance(v, (int, Fraction, str, bool)) or (isinstance(v, Sym) and v.kind in ("int", "real"))


def m_literal_eval(it, v):
    v = force(it.ctx, v)
    if isinstance(v, ReprText):
        it.ctx.assumptions.add("ast.literal_eval(repr(x)) == x for numbers, text and tuples of them")
        return v.v
    if isinstance(v, JKey):
        return Sym("int", v.z)
    raise Unsupported("literal_eval")


def b_str(it, v=""):
    v = force(it.ctx, v)
    if isinstance(v, str):
        return v
    if isinstance(v, Sym) and v.kind == "val":
        return v
    if isinstance(v, (JKey, GKey)):
        return v
    return text([(v, "")])


def b_format(it, v, spec=""):
    v = force(it.ctx, v)
    return text([(v, spec)]) if isinstance(spec, str) else Opaque("text")


def b_super(it, cls=None, obj=None):
    c = obj.cls if isinstance(obj, Inst) else obj
    return SuperProxy(cls, obj, c)


def b_type(it, v):
    v = force(it.ctx, v)
    if isinstance(v, Inst):
        return v.cls
    return Opaque("type")


def b_sorted(it, v, key=None, reverse=False):
    x = it.iterate(v)
    if isinstance(x, list) and len(x) <= 1:
        return ListObj(it.ctx, x)
    rev = it.truth(reverse)
    if isinstance(x, list):
        ks = [force(it.ctx, it.call(key, (y,)) if key is not None else y) for y in x]
        if all(isinstance(k, (int, str)) for k in ks):
            return ListObj(it.ctx, [x[i] for i in sorted(range(len(x)), key=lambda i: ks[i], reverse=rev)])
        if len(x) <= 4 and all(is_scalar(k) for k in ks):
            out = []        # stable insertion, one path per order
            for y, k in zip(x, ks):
                i = len(out)
                while i > 0 and it.truth(it.compare(ast.Lt() if not rev else ast.Gt(), k, out[i - 1][1])):
                    i -= 1
                out.insert(i, (y, k))
            return ListObj(it.ctx, [y for y, k in out])
    elif key is None and isinstance(x, SColl):
        # the same elements in an order of its own: order is not modelled for unordered collections
        y = SColl(x.width, x._guard, x._elem, x.tag, x.kind, x.distinct)
        y.origin = ("sorted", object())
        return ListObj(it.ctx, (), y)
    raise Unsupported("sorted")


def b_reversed(it, v):
    x = it.iterate(v)
    if isinstance(x, list):
        return tuple(reversed(x))
    if isinstance(x, SSeq):
        return SSeq(x.n, lambda i: x.item(simp(x.n - 1 - i)), None, "list")
    raise Unsupported("reversed")


def b_map(it, f, *vs):
    xs = [it.iterate(v) for v in vs]
    if all(isinstance(x, list) for x in xs):
        return ListObj(it.ctx, [it.call(f, t) for t in zip(*xs)])
    if len(xs) == 1:
        out = ListObj(it.ctx)
        fr = Frame(it.ctx, None, {})
        it.sym_loop(xs[0], lambda v: it.list_append(out, it.call(f, (v,))), fr, [])
        return out
    raise Unsupported("map")


def b_filter(it, f, v):
    x = it.iterate(v)
    out = ListObj(it.ctx)

    def body(y):
        if it.truth(it.call(f, (y,)) if f is not None else y):
            it.list_append(out, y)
    if isinstance(x, list):
        for y in x:
            body(y)
    else:
        it.sym_loop(x, body, Frame(it.ctx, None, {}), [])
    return out


def b_setattr(it, o, n, v):
    it.setattr(o, n, v)


def b_getattr(it, o, n, *d):
    try:
        return it.getattr(o, n)
    except PyRaise as e:
        if d and e.etype is AttributeError:
            return d[0]
        raise


def b_hasattr(it, o, n):
    try:
        it.getattr(o, n)
        return True
    except PyRaise as e:
        if e.etype is AttributeError:
            return False
        raise


def b_next(it, v, *d):
    x = it.iterate(v)
    if isinstance(x, list):
        if x:
            return x[0]
        if d:
            return d[0]
        raise PyRaise(StopIteration, ())
    raise Unsupported("next")


def b_iter(it, v):
    return v


def b_callable(it, v):
    return isinstance(v, (FuncObj, BoundMethod, Partial, Native)) or callable(v)


def b_bool(it, v=False):
    return it.truth(v)


def m_partial(it, f, *a, **k):
    return Partial(f, a, k)


def m_pairwise(it, v):
    x = it.iterate(v)
    if isinstance(x, list):
        return tuple(zip(x, x[1:]))
    if isinstance(x, SSeq):
        n = x.n
        nn = simp(n - 1) if it.ctx.entailed(n >= 1) else simp(z3.If(n >= 1, n - 1, z3.IntVal(0)))
        return SSeq(nn, lambda i: (x.item(i), x.item(simp(i + 1))), None, "list")
    raise Unsupported("pairwise")


def m_chain(it, *vs):
    out = []
    for v in vs:
        x = it.iterate(v)
        if not isinstance(x, list):
            raise Unsupported("chain")
        out += x
    return tuple(out)


def m_time(it):
    return it.ctx.freal("time")


# --------------------------------------------------------------------- numpy

def n_array(it, v, dtype=None):
    v = force(it.ctx, v)
    if isinstance(v, ListObj):
        base, items = it.get(v)
        if base is None:
            items = [force(it.ctx, x) for x in items]
            if all(is_scalar(x) for x in items):
                return FList([x if not is_int(x) else mk("real", zreal(x)) for x in items], True)
            if all(isinstance(x, FList) for x in items):
                return FList(items, True)
            raise Unsupported("array of %r" % (items,))
        return one_dim(it, base) or ArrColl(base)
    if isinstance(v, FList):
        return FList([x if not is_int(x) else mk("real", zreal(x)) for x in v.items], True)
    if isinstance(v, tuple) and all(is_scalar(x) for x in v):
        return FList([mk("real", zreal(x)) for x in v], True)
    if is_scalar(v):
        return mk("real", zreal(v))
    if v is None:
        return None
    if isinstance(v, Inst):
        x = it.iterate(v)
        if isinstance(x, list) and all(is_scalar(y) for y in x):
            return FList([mk("real", zreal(y)) for y in x], True)
    if isinstance(v, (SSeq, SColl)):
        return one_dim(it, v) or ArrColl(v)
    if isinstance(v, ArrObj):
        return ArrObj(it.ctx, *it.get(v))
    raise Unsupported("np.array")


def one_dim(it, coll):
    """The array of a sequence of numbers."""
    if not isinstance(coll, SSeq):
        return None
    x = flat(coll.item(z3.Int("probe")))
    if not is_scalar(x) or it.ctx.gparams:
        return None
    return array_of(it, coll.n, lambda j: zreal(flat(coll.item(j))))


def array_of(it, n, f):
    """A new one dimensional array with n entries f(j)."""
    ctx = it.ctx
    if ctx.gparams:
        raise Unsupported("an array made inside a loop over a symbolic collection")
    t = ctx.fresh("array", z3.ArraySort(I, z3.RealSort()))
    j = z3.FreshInt("fa")
    v = f(j)
    ctx.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(t, j) == v), patterns=[z3.Select(t, j)]))
    return ArrObj(ctx, t, n)


def arr_elementwise(it, op, a, b):
    def part(v):
        if isinstance(v, ArrObj):
            t, n = it.get(v)
            return n, lambda j: Sym("real", z3.Select(t, j))
        if is_scalar(v):
            return None, lambda j: v
        raise Unsupported("operation on an array and %r" % (v,))
    (na, fa), (nb, fb) = part(a), part(b)
    if na is not None and nb is not None and not it.ctx.entailed(na == nb):
        raise Unsupported("arrays of different lengths")
    n = na if na is not None else nb

    def entry(j):
        r = it.scalarop(op, fa(j), fb(j))
        return zreal(r)
    return array_of(it, n, entry)


class ArrColl:
    """A two dimensional array with one row per element of a collection."""

    def __init__(self, coll):
        self.coll = coll


def n_zeros(it, n, dtype=None):
    n = force(it.ctx, n)
    if isinstance(n, int):
        return FList([Fraction(0)] * n, True)
    z = toz(n)
    return ArrObj(it.ctx, z3.K(I, rv(0)), z)


def n_norm(it, v, *a, **k):
    v = force(it.ctx, v)
    if v is NAN:
        return NAN
    if isinstance(v, ArrObj):
        return it.ctx.freal("norm")
    if isinstance(v, ArrColl) and not a and not k:
        return n_sqrt(it, n_sum(it, n_square(it, v)))
    xs = vec_items(it, v)
    if xs is None or a or k:
        raise Unsupported("norm")
    s = None
    for x in xs:
        q = mk_mul(zreal(x), zreal(x))
        s = q if s is None else s + q
    return mk("real", mk_sqrt(simp(s)))


def n_dot(it, a, b):
    if a is NAN or b is NAN:
        it.ctx.assumptions.add("numpy solver: no plane is given where the residual force is zero")
        raise PathCut()
    xs, ys = vec_items(it, a), vec_items(it, b)
    if xs is None or ys is None or len(xs) != len(ys):
        raise Unsupported("dot")
    s = Fraction(0)
    for x, y in zip(xs, ys):
        s = it.binop(ast.Add(), s, it.binop(ast.Mult(), x, y))
    return s


def n_cross(it, a, b):
    x, y = vec_items(it, a), vec_items(it, b)
    M, S = ast.Mult(), ast.Sub()

    def f(i, j):
        return it.binop(S, it.binop(M, x[i], y[j]), it.binop(M, x[j], y[i]))
    return FList([f(1, 2), f(2, 0), f(0, 1)], True)


def n_abs(it, v):
    return b_abs(it, v)


def n_isnan(it, v):
    return force(it.ctx, v) is NAN


def n_copysign(it, a, b):
    return m_copysign(it, a, b)


def n_sqrt(it, v):
    v = force(it.ctx, v)
    if isinstance(v, FList):
        return FList([m_sqrt(it, x) for x in v.items], True)
    z = zreal(v)
    if not nonneg(z) and it.ctx.decide(z < 0):
        raise Unsupported("nan from sqrt")
    return mk("real", mk_sqrt(z))


def n_square(it, v):
    v = force(it.ctx, v)
    if isinstance(v, FList):
        return FList([n_square(it, x) for x in v.items], True)
    if isinstance(v, ArrColl):
        c = v.coll
        return ArrColl(SColl(c.width, c.guard, lambda *qs: n_square(it, flat(c.raw(qs))), None, "list", False))
    return it.binop(ast.Mult(), v, v)


def n_sum(it, v, axis=None, **k):
    v = force(it.ctx, v)
    if isinstance(v, FList) and axis is None:
        r = Fraction(0)
        for x in v.items:
            r = it.binop(ast.Add(), r, n_sum(it, x) if isinstance(x, FList) else x)
        return r
    if isinstance(v, ArrColl) and axis is None:
        ps, g, val = generic_value(it, v.coll)
        xs = vec_items(it, val)
        tot = rv(0)
        d = simp(z3.Sum([zreal(x) for x in xs]))
        return mk("real", aggr.sum_term(ps, g, d))
    if is_scalar(v):
        return v
    raise Unsupported("np.sum")


def n_copy(it, v):
    v = force(it.ctx, v)
    if isinstance(v, ArrObj):
        t, n = it.get(v)
        return ArrObj(it.ctx, t, n)
    if isinstance(v, FList):
        return v
    raise Unsupported("np.copy")


def n_asarray(it, v, dtype=None):
    v = force(it.ctx, v)
    if isinstance(v, (ArrObj,)) or (isinstance(v, FList) and v.arr):
        return v
    return n_array(it, v)


def n_where(it, *a):
    raise Unsupported("np.where")


# --------------------------------------------------------- container methods

def container_method(it, o, name):
    ctx = it.ctx
    if isinstance(o, ListObj):
        def append(it, v):
            it.list_append(o, v)

        def extend(it, v):
            x = it.iterate(v)
            base, items = it.get(o)
            it.put(o, list_cat(base, items, x))

        def reverse(it):
            base, items = it.get(o)
            if base is None:
                it.put(o, (None, tuple(reversed(items))))
            elif isinstance(base, SSeq):
                if items:
                    base = seq_cat(base, items)
                it.put(o, (SSeq(base.n, lambda i: base.item(simp(base.n - 1 - i)), None, "list"), ()))
            else:
                raise Unsupported("reverse of an unordered list")

        def pop(it, i=None):
            base, items = it.get(o)
            if items and (i is None or i == -1):
                it.put(o, (base, items[:-1]))
                return items[-1]
            if base is None and isinstance(i, int) and items and -len(items) <= i < len(items):
                l = list(items)
                v = l.pop(i)
                it.put(o, (None, tuple(l)))
                return v
            if base is None and not items:
                raise PyRaise(IndexError, ())
            return pop_any(it, o)

        def insert(it, i, v):
            base, items = it.get(o)
            if base is None and isinstance(i, int):
                l = list(items)
                l.insert(i, v)
                it.put(o, (None, tuple(l)))
                return
            if isinstance(base, SSeq) and i == 0:
                b2 = seq_cat(base, items) if items else base
                it.put(o, (SSeq(simp(b2.n + 1), lambda j: merge(j == 0, v, b2.item(simp(j - 1))), None, "list"), ()))
                return
            raise Unsupported("insert")

        def copy(it):
            base, items = it.get(o)
            return ListObj(ctx, items, base)

        def index(it, v):
            base, items = it.get(o)
            if base is None:
                for i, x in enumerate(items):
                    if ctx.decide(eq(x, v)):
                        return i
                raise PyRaise(ValueError, ())
            raise Unsupported("index")

        def remove(it, v):
            base, items = it.get(o)
            if base is None:
                for i, x in enumerate(items):
                    if ctx.decide(eq(x, v)):
                        it.put(o, (None, items[:i] + items[i + 1:]))
                        return
                raise PyRaise(ValueError, ())
            raise Unsupported("remove")

        def sort(it, key=None, reverse=False):
            base, items = it.get(o)
            if base is None and len(items) <= 1:
                return
            if base is None and all(isinstance(x, int) for x in items) and key is None:
                it.put(o, (None, tuple(sorted(items, reverse=bool(reverse)))))
                return
            raise Unsupported("sort")

        def clear(it):
            it.put(o, (None, ()))
        f = locals().get(name)
        return Native(f, name) if f is not None and name in ("append", "extend", "reverse", "pop", "insert", "copy", "index", "remove", "sort", "clear") else None
    if isinstance(o, (DictObj, FDict)):
        def cont():
            return it.get(o) if isinstance(o, DictObj) else o.c

        def get(it, k, d=None):
            dom, val = d_lookup(ctx, cont(), force(ctx, k))
            if ctx.decide(dom):
                return force(ctx, val)
            return d

        def items(it):
            return View("items", o)

        def keys(it):
            return View("keys", o)

        def values(it):
            return View("values", o)

        def update(it, other=None, **kw):
            c = it.get(o)
            if other is not None:
                other = force(ctx, other)
                if isinstance(other, (DictObj, FDict)):
                    oc = it.get(other) if isinstance(other, DictObj) else other.c
                    if oc.base is not None:
                        if c.base is None and not c.writes:
                            c = oc
                        else:
                            from .loops import layered
                            b = oc.base
                            c = layered(ctx, b.width, b.tup, lambda *ks, oc=oc, b=b: d_lookup(ctx, oc, b.key(ks))[0],
                                        lambda *ks, oc=oc, b=b: d_lookup(ctx, oc, b.key(ks))[1], c)
                    else:
                        for k, v in oc.writes:
                            c = c.put(k, v)
                else:
                    x = it.iterate(other)
                    if not isinstance(x, list):
                        raise Unsupported("update")
                    for p in x:
                        k, v = it.iterate(p)
                        c = c.put(k, v)
            for k, v in kw.items():
                c = c.put(k, v)
            it.put(o, c)

        def pop(it, k, *d):
            dom, val = d_lookup(ctx, it.get(o), k)
            if ctx.decide(dom):
                it.put(o, it.get(o).put(k, DELETED))
                return force(ctx, val)
            if d:
                return d[0]
            raise PyRaise(KeyError, (k,))

        def setdefault(it, k, d=None):
            dom, val = d_lookup(ctx, it.get(o), k)
            if ctx.decide(dom):
                return force(ctx, val)
            it.setitem(o, k, d)
            return d

        def copy(it):
            n = DictObj(ctx)
            it.put(n, cont())
            return n

        def clear(it):
            it.put(o, DictC())
        f = locals().get(name)
        names = ("get", "items", "keys", "values", "copy") if isinstance(o, FDict) else ("get", "items", "keys", "values", "update", "pop", "setdefault", "copy", "clear")
        return Native(f, name) if name in names else None
    if isinstance(o, SetObj):
        def add(it, v):
            v = force(ctx, v)
            if key_terms(v) is None and not isinstance(v, (str, tuple)):
                raise Unsupported("set element")
            it.put(o, it.get(o).put(v, True))

        def discard(it, v):
            it.put(o, it.get(o).put(v, DELETED))

        def remove(it, v):
            dom, _ = d_lookup(ctx, it.get(o), v)
            if not ctx.decide(dom):
                raise PyRaise(KeyError, ())
            it.put(o, it.get(o).put(v, DELETED))

        def update(it, *vs):
            for v in vs:
                v = force(ctx, v)
                x = it.iterate(v)
                c = it.get(o)
                if isinstance(x, list):
                    for y in x:
                        c = c.put(y, True)
                    it.put(o, c)
                else:
                    add = to_set(it, x)
                    it.put(o, set_union(ctx, c, add))

        def difference(it, v):
            w = v if isinstance(v, SetObj) else b_set(it, v)
            return it.setop(ast.Sub(), o, w)

        def union(it, v):
            n = SetObj(ctx)
            it.put(n, it.get(o))
            it.call(container_method(it, n, "update"), (v,))
            return n

        def copy(it):
            n = SetObj(ctx)
            it.put(n, it.get(o))
            return n
        f = locals().get(name)
        return Native(f, name) if name in ("add", "discard", "remove", "update", "difference", "union", "copy") else None
    if isinstance(o, (str, Opaque)):
        def format(it, *a, **k):
            if isinstance(o, str) and all(isinstance(x, str) for x in a) and all(isinstance(x, str) for x in k.values()):
                return o.format(*a, **k)
            if not isinstance(o, str):
                return Opaque("text")
            return format_text(o, [force(ctx, x) for x in a], {n: force(ctx, x) for n, x in k.items()})

        def opaque(it, *a, **k):
            if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a) and not k:
                return it.lift(getattr(o, name)(*a))
            return Opaque("text")
        if name == "format":
            return Native(format)
        if name == "join" and isinstance(o, str):
            def join(it, xs):
                c = it.iterate(xs)
                if not isinstance(c, list):
                    return Opaque("text")
                ps = []
                for i, x in enumerate(c):
                    ps += ([o] if i else []) + [(force(ctx, x), "")]
                return text(ps)
            return Native(join)
        if hasattr(str, name):
            return Native(opaque)
    if isinstance(o, (tuple, FList)) and name in ("index", "count"):
        def index(it, v):
            for i, x in enumerate(o if isinstance(o, tuple) else o.items):
                if ctx.decide(eq(x, v)):
                    return i
            raise PyRaise(ValueError, ())
        return Native(index) if name == "index" else None
    if isinstance(o, FList) and o.arr:
        if name == "size":
            return len(o.items)
        if name == "shape":
            return (len(o.items),)
        if name in ("copy", "astype"):
            return Native(lambda it, *a: o)
        if name == "tolist":
            return Native(lambda it: ListObj(ctx, o.items))
        if name == "dot":
            return Native(lambda it, b: n_dot(it, o, b))
    if isinstance(o, ArrObj):
        t, n = it.get(o)
        if name == "size":
            return mk("int", n)
        if name == "shape":
            return (mk("int", n),)
        if name == "copy":
            return Native(lambda it: ArrObj(ctx, *it.get(o)))
    if isinstance(o, FList) and not o.arr and name in ("append", "extend", "insert", "reverse", "pop", "remove", "sort", "clear"):
        def mutate(it, *a, **k):
            raise Unsupported("mutation of a list that is shared as a value")
        return Native(mutate)
    if isinstance(o, (Sym, Fraction)) and name == "item":
        return Native(lambda it: o)
    if isinstance(o, (Native, FuncObj, BoundMethod, Partial)) and name in ("__name__",):
        return Opaque("text")
    return None


def pop_any(it, o):
    """Remove some element of an unordered symbolic list."""
    for h in it.ctx.hooks:
        f = getattr(h, "pop_any", None)
        if f is not None:
            return f(it, o)
    raise Unsupported("pop from a symbolic list")


def set_union(ctx, a, b):
    bb = b.base
    if a.base is None and not a.writes:
        return b
    if bb is None:
        return DictC(a.base, a.writes + b.writes)

    def dom(*ks):
        k = bb.key(ks)
        return z3.Or(d_lookup(ctx, a, k)[0], d_lookup(ctx, b, k)[0])
    m = SMap(bb.width, dom, lambda *ks: True, None, bb.tup)
    m.layer = ((lambda *ks: d_lookup(ctx, b, bb.key(ks))[0]), (lambda *ks: True), a)
    return DictC(m)


def seq_cat(base, items):
    n = base.n
    items = tuple(items)

    def item(i):
        v = items[-1]
        for j in range(len(items) - 2, -1, -1):
            v = merge(i == n + j, items[j], v)
        if base._item is None:
            return v
        return merge(i < n, base.item(i), v)
    return SSeq(simp(n + len(items)), item, None, "list")


def seq_join(a, b):
    """One sequence after the other."""
    n = a.n
    return SSeq(simp(n + b.n), lambda i: merge(i < n, a.item(i), b.item(simp(i - n))), None, "list")


class Grown:
    """A list of unknown content followed by a sequence."""
    tag = None
    width = 1

    def __init__(self, start, seq):
        self.start, self.seq = start, seq

    def __getattr__(self, name):
        raise Unsupported("list read inside the loop that extends it")


def list_cat(base, items, x):
    """The content of a list extended by a list or collection."""
    from .loops import UnknownList
    if isinstance(x, list):
        return base, items + tuple(x)
    if base is None and not items:
        return x, ()
    if isinstance(x, SSeq):
        own = tuple(items)
        if base is None:
            return seq_join(SSeq(z3.IntVal(len(own)), seq_cat(SSeq(z3.IntVal(0), None), own).item), x), ()
        if isinstance(base, SSeq):
            return seq_join(seq_cat(base, own) if own else base, x), ()
        if isinstance(base, UnknownList):
            return Grown(base, list_cat(None, own, x)[0]), ()
        if isinstance(base, Grown):
            return Grown(base.start, list_cat(base.seq, own, x)[0]), ()
    raise Unsupported("extend by a symbolic collection")


def arr_scalar_coll(it, op, a, b):
    """An operation on a two dimensional array and a number."""
    left = isinstance(a, ArrColl)
    c = a.coll if left else b.coll

    def elem(*qs):
        x = flat(c.raw(qs))
        return it.arrop(op, x, b) if left else it.arrop(op, a, x)
    return ArrColl(SColl(c.width, c.guard, elem, None, "list", False))


def arr_binop_coll(it, op, a, b):
    """Row wise operation on two dimensional arrays over the same collection."""
    ca, cb = a.coll, b.coll
    if ca.width != cb.width:
        raise Unsupported("array rows")
    ps = [z3.Int("hold%d" % i) for i in range(ca.width)]
    if not aggr._entails(it.ctx, it.ctx.axioms + it.ctx.pc, ca.guard(*ps) == cb.guard(*ps)):
        raise Unsupported("array rows differ")

    def elem(*qs):
        x, y = flat(ca.raw(qs)), flat(cb.raw(qs))
        return it.arrop(op, x, y)
    return ArrColl(SColl(ca.width, ca.guard, elem, None, "list", False))


def install(it):
    m = it.models
    simple = {len: b_len, list: b_list, tuple: b_tuple, set: b_set, dict: b_dict, range: b_range, enumerate: b_enumerate,
              zip: b_zip, sum: b_sum, max: b_max, min: b_min, any: b_any, all: b_all, isinstance: b_isinstance, abs: b_abs,
              round: b_round, float: b_float, int: b_int, repr: b_repr, str: b_str, format: b_format, super: b_super, type: b_type,
              sorted: b_sorted, reversed: b_reversed, map: b_map, filter: b_filter, setattr: b_setattr, getattr: b_getattr,
              hasattr: b_hasattr, next: b_next, iter: b_iter, callable: b_callable, bool: b_bool, frozenset: b_set,
              print: lambda it, *a, **k: None,
              math.fabs: m_fabs, math.copysign: m_copysign, math.sqrt: m_sqrt, functools.partial: m_partial,
              itertools.chain: m_chain, _time.time: m_time}
    m.update(simple)
    import operator
    m[operator.itemgetter] = lambda it, k: Native(lambda it, v: it.getitem(v, k))
    import ast as _ast
    m[_ast.literal_eval] = m_literal_eval
    import copy as _copy
    m[_copy.deepcopy] = deep_copy
    m[_copy.copy] = shallow_copy
    if hasattr(itertools, "pairwise"):
        m[itertools.pairwise] = m_pairwise
    try:
        from compas.utilities import pairwise
        m[pairwise] = m_pairwise
    except ImportError:
        pass
    import numpy
    mods = [numpy]
    try:
        import autograd.numpy as anp
        mods.append(anp)
    except ImportError:
        pass
    table = {"array": n_array, "asarray": n_asarray, "zeros": n_zeros, "dot": n_dot, "abs": n_abs, "absolute": n_abs, "fabs": n_abs,
             "isnan": n_isnan, "copysign": n_copysign, "sqrt": n_sqrt, "square": n_square, "sum": n_sum, "copy": n_copy, "cross": n_cross,
             "zeros_like": lambda it, v: n_zeros(it, b_len(it, v)), "sign": None}
    for mod in mods:
        for n, f in table.items():
            if f is not None and hasattr(mod, n):
                try:
                    m[getattr(mod, n)] = f
                except TypeError:
                    pass
        m[mod.linalg.norm] = n_norm
        import numpy as _np
    m[numpy.float64] = b_float


def deep_copy(it, v, memo=None):
    from . import net
    v = force(it.ctx, v)
    if isinstance(v, net.NetData):
        return net.data_deepcopy(it, v)
    if isinstance(v, ListObj):
        base, items = it.get(v)
        return ListObj(it.ctx, [deep_copy(it, x) for x in items], base)
    if isinstance(v, DictObj):
        c = it.get(v)
        n = DictObj(it.ctx)
        it.put(n, DictC(c.base, [(k, x if x is DELETED else deep_copy(it, x)) for k, x in c.writes]))
        return n
    if isinstance(v, SetObj):
        n = SetObj(it.ctx)
        it.put(n, it.get(v))
        return n
    if isinstance(v, tuple):
        return tuple(deep_copy(it, x) for x in v)
    if isinstance(v, ArrObj):
        return ArrObj(it.ctx, *it.get(v))
    if isinstance(v, Inst):
        n = Inst(it.ctx, v.cls)
        it.put(n, {k: (x if k.startswith("$") else deep_copy(it, x)) for k, x in it.get(v).items()})
        return n
    return v


def shallow_copy(it, v):
    v = force(it.ctx, v)
    if isinstance(v, ListObj):
        base, items = it.get(v)
        return ListObj(it.ctx, items, base)
    if isinstance(v, DictObj):
        n = DictObj(it.ctx)
        it.put(n, it.get(v))
        return n
    if isinstance(v, tuple):
        return v
    raise Unsupported("copy.copy")
