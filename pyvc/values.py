"""Containers and collections of the interpreter."""
import re
import string

import z3

from .core import (Unsupported, PyRaise, Sym, Ref, FList, Choice, Opaque, Poison, I, B, R,
                   toz, zreal, subst, merge, is_scalar, as_val, kind_of, mk, literal, rv, simp)
from fractions import Fraction


class Frame(Ref):
    __slots__ = ("parent", "globs", "defcls", "selfv", "fname", "nonlocals")

    def __init__(self, ctx, parent, globs, defcls=None, fname=""):
        ctx.counter += 1
        self.oid = ("f", ctx.counter)
        self.parent, self.globs, self.defcls, self.fname = parent, globs, defcls, fname
        self.selfv = None
        self.nonlocals = ()
        ctx.heap[self.oid] = {}


class Obj(Ref):
    __slots__ = ()

    def __init__(self, ctx, content):
        ctx.counter += 1
        self.oid = (type(self).__name__, ctx.counter)
        ctx.heap[self.oid] = content


class Inst(Obj):
    """An instance of a real Python class; content: dict of attributes."""
    __slots__ = ("cls",)

    def __init__(self, ctx, cls, attrs=None):
        super().__init__(ctx, dict(attrs or {}))
        self.cls = cls

    def __repr__(self):
        return "<%s>" % self.cls.__name__


class ListObj(Obj):
    """content: (base collection or None, tuple of items)."""
    __slots__ = ()

    def __init__(self, ctx, items=(), base=None):
        super().__init__(ctx, (base, tuple(items)))


class DictC:
    """Persistent dictionary content: a symbolic base plus a list of writes."""
    __slots__ = ("base", "writes")

    def __init__(self, base=None, writes=()):
        self.base, self.writes = base, tuple(writes)

    def put(self, k, v):
        return DictC(self.base, self.writes + ((k, v),))

    def subst(self, pairs):
        return DictC(self.base.subst(pairs) if self.base else None,
                     [(subst(k, pairs), subst(v, pairs)) for k, v in self.writes])


class _Deleted:
    def __repr__(self):
        return "DELETED"


DELETED = _Deleted()


def key_kind(k):
    """True for a tuple, the class of a key made of text, False for a number."""
    if isinstance(k, tuple):
        return True
    return type(k) if isinstance(k, (GKey, JKey)) else False


def make_key(kind, ks):
    if kind is True:
        return tuple(Sym("int", k) for k in ks)
    if kind:
        return kind(ks[0])
    return Sym("int", ks[0])


class SMap:
    """A symbolic dictionary: domain and value as functions of the key terms.

    width: number of integer terms a key consists of.
    """

    def __init__(self, width, dom, val, tag=None, tup=None):
        self.width, self.dom, self.val, self.tag = width, dom, val, tag
        self.tup = width > 1 if tup is None else tup
        self.layer = None      # (hit, new value or DELETED, older content) of an update at a set of keys

    def key(self, ks):
        return make_key(self.tup, ks)

    def subst(self, pairs):
        # substitute in the closure's result; keys given are protected
        def prot(f, kind):
            def g(*ks):
                hold = [z3.FreshInt("hold") for _ in ks]
                r = f(*hold)
                if kind == "z":
                    r = z3.substitute(r, *pairs)
                    return z3.substitute(r, *[(h, k) for h, k in zip(hold, ks)])
                r = subst(r, pairs)
                return subst(r, [(h, k) for h, k in zip(hold, ks)])
            return g
        r = SMap(self.width, prot(self.dom, "z"), prot(self.val, "v"), self.tag, self.tup)
        if self.layer is not None:
            hit, new, old = self.layer
            r.layer = (prot(hit, "z"), new if new is DELETED else prot(new, "v"), old.subst(pairs))
        return r


class DictObj(Obj):
    """content: DictC."""
    __slots__ = ()

    def __init__(self, ctx, base=None, writes=()):
        super().__init__(ctx, DictC(base, writes))


class FDict:
    """An immutable dictionary value."""

    def __init__(self, content):
        self.c = content

    def subst(self, pairs):
        return FDict(self.c.subst(pairs))


class SetObj(Obj):
    """content: DictC whose values are True."""
    __slots__ = ()

    def __init__(self, ctx, base=None, writes=()):
        super().__init__(ctx, DictC(base, writes))


class ArrObj(Obj):
    """A one dimensional numpy array of symbolic size; content: (term, size)."""
    __slots__ = ()

    def __init__(self, ctx, term, size):
        super().__init__(ctx, (term, size))


class SSeq:
    """A sequence of symbolic length."""

    def __init__(self, n, item, tag=None, kind="list"):
        self.n, self._item, self.tag, self.kind = n, item, tag, kind
        self.width = 1

    def item(self, i):
        return self._item(i)

    def guard(self, i):
        return z3.And(i >= 0, i < self.n)

    def elem(self, ctx, ps):
        return force(ctx, self._item(ps[0]))

    def alts(self):
        return None

    def subst(self, pairs):
        n = z3.substitute(self.n, *pairs)

        def item(i):
            h = z3.FreshInt("hold")
            return subst(subst(self._item(h), pairs), [(h, i)])
        return SSeq(n, item, self.tag, self.kind)


class SColl:
    """An unordered symbolic collection, one element per admissible parameter tuple."""

    def __init__(self, width, guard, elem, tag=None, kind="list", distinct=True):
        self.width, self._guard, self._elem, self.tag, self.kind = width, guard, elem, tag, kind
        self.distinct = distinct   # different parameters give different elements

    def guard(self, *ps):
        return self._guard(*ps)

    def elem(self, ctx, ps):
        """The element; may fork the path, the guard is assumed by the caller."""
        v = self._elem(*ps)
        if isinstance(v, Alts):
            return v.pick(ctx)
        return force(ctx, v)

    def raw(self, ps):
        return self._elem(*ps)

    def subst(self, pairs):
        def prot(f):
            def g(*ks):
                hold = [z3.FreshInt("hold") for _ in ks]
                r = f(*hold)
                back = [(h, k) for h, k in zip(hold, ks)]
                if isinstance(r, z3.ExprRef):
                    return z3.substitute(z3.substitute(r, *pairs), *back)
                return subst(subst(r, pairs), back)
            return g
        return SColl(self.width, prot(self._guard), prot(self._elem), self.tag, self.kind, self.distinct)


class Alts:
    """Guarded alternatives of an element."""

    def __init__(self, alts):
        self.alts = alts       # list of (cond, value)

    def pick(self, ctx):
        for c, v in self.alts[:-1]:
            if ctx.decide(c):
                return force(ctx, v)
        ctx.assume(self.alts[-1][0])
        return force(ctx, self.alts[-1][1])

    def subst(self, pairs):
        return Alts([(z3.substitute(c, *pairs), subst(v, pairs)) for c, v in self.alts])


class View:
    """A view of a dictionary: keys, values or items."""

    def __init__(self, what, d):
        self.what, self.d = what, d


class BoundMethod:
    def __init__(self, selfv, fn, defcls=None):
        self.selfv, self.fn, self.defcls = selfv, fn, defcls


class Partial:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class FuncObj:
    """A function defined by interpreted code."""

    def __init__(self, node, frame, globs, defaults, kwdefaults, defcls=None, name=""):
        self.node, self.frame, self.globs = node, frame, globs
        self.defaults, self.kwdefaults, self.defcls, self.name = defaults, kwdefaults, defcls, name


class Native:
    """A native model function: fn(interp, *args, **kwargs)."""

    def __init__(self, fn, name=""):
        self.fn, self.name = fn, name


class SuperProxy:
    def __init__(self, start, selfv, cls):
        self.start, self.selfv, self.cls = start, selfv, cls


def force(ctx, v):
    while isinstance(v, Choice):
        v = v.a if ctx.decide(v.c) else v.b
    if isinstance(v, Alts):
        v = v.pick(ctx)
    if isinstance(v, Poison):
        raise Unsupported("value not determined: " + v.why)
    return v


def key_terms(k):
    """The integer terms of a dictionary key, or None."""
    if isinstance(k, Sym) and k.kind == "int":
        return [k.z]
    if isinstance(k, int) and not isinstance(k, bool):
        return [z3.IntVal(k)]
    if isinstance(k, tuple):
        out = []
        for x in k:
            t = key_terms(x)
            if t is None or isinstance(x, tuple):
                return None
            out += t
        return out
    if isinstance(k, (GKey, JKey)):
        return [k.z]
    return None


class GKey:
    """A geometric key (the text made from rounded coordinates)."""

    def __init__(self, z):
        self.z = z

    def subst(self, pairs):
        return GKey(z3.substitute(self.z, *pairs))


class JKey:
    """The text of an integer, as JSON makes of an integer dictionary key."""

    def __init__(self, z):
        self.z = z

    def subst(self, pairs):
        return JKey(z3.substitute(self.z, *pairs))


class Text(Opaque):
    """Text made of literal parts and formatted values: pieces are strings and (value, format) pairs."""

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if out and isinstance(out[-1], str):
                    out[-1] += p
                elif p:
                    out.append(p)
            elif isinstance(p[0], Text) and p[1] in ("", "s"):
                for q in p[0].pieces:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    else:
                        out.append(q)
            elif p[1] in ("", "s") and (p[0] is None or isinstance(p[0], (str, int))):
                q = str(p[0])
                if out and isinstance(out[-1], str):
                    out[-1] += q
                elif q:
                    out.append(q)
            else:
                out.append((p[0], "" if p[1] == "s" else p[1]))
        self.what = "text"
        self.pieces = tuple(out)

    def subst(self, pairs):
        return Text([p if isinstance(p, str) else (subst(p[0], pairs), p[1]) for p in self.pieces])

    def __repr__(self):
        return "Text%r" % (self.pieces,)


def formattable(v):
    """A value whose text is determined by the value."""
    return v is None or isinstance(v, (str, int, Fraction, GKey, JKey, Text)) or (isinstance(v, Sym) and v.kind in ("int", "real", "val"))


def text(pieces):
    """Text, or an unknown text if one of the values has no known text."""
    if any(not isinstance(p, str) and (not formattable(p[0]) or (isinstance(p[0], Text) and p[1] not in ("", "s"))) for p in pieces):
        return Opaque("text")
    t = Text(pieces)
    return "".join(t.pieces) if all(isinstance(p, str) for p in t.pieces) else t


def format_text(tmpl, args, kw):
    """str.format of a known template."""
    count = [0]

    def pieces(t, depth):
        out = []
        for lit, field, spec, conv in string.Formatter().parse(t):
            if lit:
                out.append(lit)
            if field is None:
                continue
            if field == "":
                field = str(count[0])
                count[0] += 1
            v = args[int(field)] if field.isdigit() and int(field) < len(args) else kw[field] if field in kw else Opaque("text")
            sub = pieces(spec, depth + 1) if spec else []
            if conv not in (None, "s") or any(not isinstance(x, str) and not isinstance(x[0], (str, int)) for x in sub):
                v, sub = Opaque("text"), []
            out.append((v, "".join(x if isinstance(x, str) else str(x[0]) for x in sub)))
        return out
    return text(pieces(tmpl, 0))


def percent(tmpl, args):
    """The % operator on a known template."""
    out, rest = [], list(args)
    for lit, spec, kind in re.findall(r"([^%]+)|%([-+ 0-9.]*)(.)", tmpl):
        if lit:
            out.append(lit)
        elif kind == "%":
            out.append("%")
        elif not rest or kind not in "sdf" or (spec and kind != "f"):
            return Opaque("text")
        else:
            out.append((rest.pop(0), "" if kind in "sd" else spec + "f"))
    return text(out) if not rest else Opaque("text")


def same_text(a, b):
    """The two texts agree piece by piece (None: not known to be comparable)."""
    pa, pb = [(x,) if isinstance(x, str) else x.pieces if isinstance(x, Text) else None for x in (a, b)]
    if pa is None or pb is None:
        return None
    if len(pa) != len(pb):
        return z3.BoolVal(False)
    out = []
    for x, y in zip(pa, pb):
        if isinstance(x, str) or isinstance(y, str):
            out.append(z3.BoolVal(isinstance(x, str) and isinstance(y, str) and x == y))
        else:
            out.append(z3.And(z3.BoolVal(x[1] == y[1]), eq(x[0], y[0])))
    return z3.And(*out)


def eq(a, b):
    """Equality of two values as an SMT formula."""
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    if a is b:
        return T
    if isinstance(a, Choice):
        return z3.If(a.c, eq(a.a, b), eq(a.b, b))
    if isinstance(b, Choice):
        return z3.If(b.c, eq(a, b.a), eq(a, b.b))
    if is_scalar(a) and is_scalar(b):
        ka, kb = kind_of(a), kind_of(b)
        if ka == "val" or kb == "val":
            if ka == kb:
                return simp(a.z == b.z)
            return F
        if ka == kb and ka in ("int", "bool"):
            return simp(toz(a) == toz(b))
        return simp(zreal(a) == zreal(b))
    va, vb = as_val(a), as_val(b)
    if va is not None and vb is not None:
        return simp(va == vb)
    if isinstance(a, (GKey, JKey)) and type(a) is type(b):
        return simp(a.z == b.z)
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            return z3.BoolVal(a == b)
        return F
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return F
        return z3.And(*[eq(x, y) for x, y in zip(a, b)]) if a else T
    if isinstance(a, FList) and isinstance(b, FList) and not a.arr and not b.arr:
        if len(a.items) != len(b.items):
            return F
        return z3.And(*[eq(x, y) for x, y in zip(a.items, b.items)]) if a.items else T
    if isinstance(a, Ref) or isinstance(b, Ref):
        if isinstance(a, Ref) and isinstance(b, Ref):
            if isinstance(a, ListObj) and isinstance(b, ListObj):
                raise Unsupported("list equality")
            return z3.BoolVal(a == b)
        return F
    if isinstance(a, (Opaque, SSeq, SColl)) or isinstance(b, (Opaque, SSeq, SColl)):
        raise Unsupported("equality of %r and %r" % (a, b))
    try:
        return z3.BoolVal(bool(a == b))
    except Exception:
        raise Unsupported("equality")


# ------------------------------------------------------------- dict contents

def d_lookup(ctx, c, key, fork=True):
    """(present: SMT formula, value or None) of a key; merges over the writes."""
    ks = key_terms(key)
    dom, val = z3.BoolVal(False), None
    if c.base is not None:
        if ks is not None and len(ks) == c.base.width and key_kind(key) == c.base.tup:
            dom, val = c.base.dom(*ks), c.base.val(*ks)
    writes = list(c.writes)
    # skip writes shadowed by a certain match
    start = 0
    for i in range(len(writes) - 1, -1, -1):
        if z3.is_true(eq(writes[i][0], key)):
            start = i
            v = writes[i][1]
            dom, val = (z3.BoolVal(False), None) if v is DELETED else (z3.BoolVal(True), v)
            start = i + 1
            break
    for k, v in writes[start:]:
        e = eq(k, key)
        if z3.is_false(e):
            continue
        if v is DELETED:
            dom = z3.And(dom, z3.Not(e))
        else:
            val = v if val is None else merge(e, v, val)
            dom = z3.Or(dom, e)
    return simp(dom), val


def d_keys(ctx, c):
    """The keys of a dictionary content: concrete list or collection."""
    if c.base is None:
        out = []
        for k, v in c.writes:
            hit = None
            for i, x in enumerate(out):
                e = eq(x, k)
                if z3.is_true(e) or (not z3.is_false(e) and ctx.decide(e)):
                    hit = i
                    break
            if v is DELETED:
                if hit is not None:
                    out.pop(hit)
            elif hit is None:
                out.append(k)
        return out
    base = c.base

    def guard(*ps):
        return d_lookup(ctx, c, base.key(ps))[0]
    for k, v in c.writes:
        ks = key_terms(k)
        if ks is None or len(ks) != base.width:
            raise Unsupported("mixed dictionary keys")
    tag = base.tag if not c.writes else None
    return SColl(base.width, guard, lambda *ps: base.key(ps), tag=tag)


def d_size_known(c):
    return c.base is None


class NaN:
    """What an array division of zeros by zero gives."""

    def __repr__(self):
        return "nan"


NAN = NaN()
