"""Terms, values, path exploration and obligations."""
import time
import zlib
from fractions import Fraction

import z3  # noqa: E402


class Unsupported(Exception):
    """The code left the fragment the verifier can handle."""


class PathCut(Exception):
    """The current path is infeasible or excluded by a stated assumption."""


class PyRaise(Exception):
    """A Python exception raised by the interpreted code."""

    def __init__(self, etype, args=()):
        super().__init__(etype, args)
        self.etype = etype
        self.eargs = args


# ----------------------------------------------------------------- functions

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()

MUL = z3.Function("mul", R, R, R)
DIV = z3.Function("div", R, R, R)
SQRT = z3.Function("sqrt", R, R)


def simp(t):
    return z3.simplify(t, sort_sums=True)


def is_num(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def frac(t):
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


def rv(x):
    x = Fraction(x)
    return z3.Q(x.numerator, x.denominator)


def _coef(t):
    """Split a real term into (coefficient, rest)."""
    if is_num(t):
        return frac(t), None
    if z3.is_mul(t) and t.num_args() == 2 and is_num(t.arg(0)):
        return frac(t.arg(0)), t.arg(1)
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        c, r = _coef(t.arg(0))
        return -c, r
    return Fraction(1), t


def scale(c, t):
    if t is None:
        return rv(c)
    if c == 0:
        return rv(0)
    if c == 1:
        return t
    if z3.is_add(t):
        return z3.Sum([scale(c * _coef(a)[0], _coef(a)[1]) for a in t.children()])
    c2, t2 = _coef(t)
    c = c * c2
    if t2 is None or c == 1 or c == 0:
        return scale(c, t2)
    return rv(c) * t2


def _real(t):
    if t.sort() == I:
        if z3.is_int_value(t):
            return rv(t.as_long())
        return z3.ToReal(t)
    return t


def mk_mul(a, b):
    a, b = simp(_real(a)), simp(_real(b))
    ca, ra = _coef(a)
    cb, rb = _coef(b)
    if ra is None:
        return scale(ca * cb, rb)
    if rb is None:
        return scale(ca * cb, ra)
    # normalise the sign of sums so that (a-b)*(a-b) and (b-a)*(b-a) agree
    na, ra = _signnorm(ra)
    nb, rb = _signnorm(rb)
    if okey(ra) > okey(rb):
        ra, rb = rb, ra
    return scale(ca * cb * na * nb, MUL(ra, rb))


_OKEY = {}


def okey(t):
    """A sort key of a term that depends neither on when it was built nor, mostly, on its indices."""
    i = t.get_id()
    r = _OKEY.get(i)
    if r is None:
        if len(_OKEY) > 100000:
            _OKEY.clear()
        r = _OKEY[i] = ((_shape(t), t.hash()), t)
    return r[0]


_SHAPE = {}


def _shape(t):
    if t.sort().kind() == z3.Z3_INT_SORT:
        return 1
    i = t.get_id()
    r = _SHAPE.get(i)
    if r is None:
        if z3.is_quantifier(t) or z3.is_var(t):
            h = 2
        elif t.num_args() == 0:
            h = zlib.crc32(str(t).encode())
        else:
            h = zlib.crc32((t.decl().name() + repr([_shape(c) for c in t.children()])).encode())
        if len(_SHAPE) > 100000:
            _SHAPE.clear()
        r = _SHAPE[i] = (h, t)
    return r[0]


def _signnorm(t):
    if z3.is_add(t):
        lead, low = None, None
        for x in t.children():
            c, r = _coef(x)
            if r is not None and (low is None or okey(r) < low):
                lead, low = c, okey(r)
        if lead is not None and lead < 0:
            return -1, simp(scale(Fraction(-1), t))
    return 1, t


def mk_div(a, b):
    a, b = simp(_real(a)), simp(_real(b))
    cb, rb = _coef(b)
    ca, ra = _coef(a)
    if rb is None:
        return scale(ca / cb, ra)
    if ra is None:
        if ca == 0:
            return rv(0)
        return scale(ca / cb, DIV(rv(1), rb))
    na, ra = _signnorm(ra)
    return scale(ca / cb * na, DIV(ra, rb))


_RENORM = {}


def renorm(e):
    """Rebuild the abstract products and quotients in normal form (after a substitution)."""
    if z3.is_quantifier(e) or z3.is_var(e) or e.num_args() == 0:
        return e
    i = e.get_id()
    r = _RENORM.get(i)
    if r is not None:
        return r[1]
    ch = [renorm(c) for c in e.children()]
    d = e.decl()
    if d == MUL:
        out = mk_mul(ch[0], ch[1])
    elif d == DIV:
        out = mk_div(ch[0], ch[1])
    elif d == SQRT:
        out = mk_sqrt(ch[0])
    elif all(a.eq(b) for a, b in zip(ch, e.children())):
        out = e
    elif z3.is_and(e):
        out = z3.And(*ch)
    elif z3.is_or(e):
        out = z3.Or(*ch)
    elif z3.is_add(e):
        out = z3.Sum(ch)
    elif z3.is_mul(e):
        out = ch[0]
        for c in ch[1:]:
            out = out * c
    elif z3.is_distinct(e):
        out = z3.Distinct(*ch)
    else:
        out = d(*ch)
    if len(_RENORM) > 100000:
        _RENORM.clear()
    _RENORM[i] = (e, out)
    return out


def mk_sqrt(a):
    a = simp(_real(a))
    if is_num(a):
        f = frac(a)
        import math
        if f >= 0:
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return rv(Fraction(p, q))
    return SQRT(a)


def apps(exprs, decls):
    """All applications of the given function symbols in the expressions."""
    seen, out, todo = set(), [], list(exprs)
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_app(e):
            if e.decl() in decls:
                out.append(e)
            todo.extend(e.children())
    return out


def has_var(e, consts):
    ids = {c.get_id() for c in consts}
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def has_bound(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_var(x):
            return True
        todo.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
    return False


def has_quantifier(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


def to_nra(e, cache=None):
    """Replace the abstract product and quotient by the real ones."""
    cache = {} if cache is None else cache

    def go(x):
        i = x.get_id()
        if i in cache:
            return cache[i][1]
        if z3.is_quantifier(x) or z3.is_var(x) or x.num_args() == 0:
            r = x
        else:
            ch = [go(c) for c in x.children()]
            d = x.decl()
            if d == MUL:
                r = ch[0] * ch[1]
            elif d == DIV:
                r = ch[0] / ch[1]
            else:
                r = d(*ch) if not z3.is_and(x) and not z3.is_or(x) and not z3.is_add(x) and not z3.is_mul(x) and not z3.is_distinct(x) else rebuild(x, ch)
        cache[i] = (x, r)
        return r

    def rebuild(x, ch):
        if z3.is_and(x):
            return z3.And(*ch)
        if z3.is_or(x):
            return z3.Or(*ch)
        if z3.is_add(x):
            return z3.Sum(ch)
        if z3.is_mul(x):
            r = ch[0]
            for c in ch[1:]:
                r = r * c
            return r
        return z3.Distinct(*ch)

    return go(e)


_NL, _AX = {}, {}


def nl_apps(e):
    """The abstract products, quotients and roots in one formula (cached)."""
    r = _NL.get(e.get_id())
    if r is None:
        if len(_NL) > 40000:
            _NL.clear()
        r = _NL[e.get_id()] = (e, [a for a in apps([e], {SQRT, MUL, DIV}) if not has_bound(a)])
    return r[1]


def light_axioms(exprs):
    """Sound facts about the abstract functions, without products."""
    out, seen = [], set()
    for e in exprs:
        for a in nl_apps(e):
            i = a.get_id()
            if i in seen:
                continue
            seen.add(i)
            r = _AX.get(i)
            if r is None:
                if len(_AX) > 40000:
                    _AX.clear()
                r = _AX[i] = (a, term_axioms(a))
            out += r[1]
    return out


def term_axioms(a):
    p = a.arg(0)
    if a.decl() == SQRT:
        return [a >= 0, z3.Implies(p > 0, a > 0), z3.Implies(p == 0, a == 0)]
    q = a.arg(1)
    if a.decl() == DIV:
        return [z3.Implies(p == 0, a == 0),   # 0/0 is never evaluated by the code; the specifications read it as 0
                z3.Implies(z3.And(q > 0, p > 0), a > 0), z3.Implies(z3.And(q > 0, p < 0), a < 0),
                z3.Implies(z3.And(q < 0, p > 0), a < 0), z3.Implies(z3.And(q < 0, p < 0), a > 0)]
    if p.eq(q):
        return [a >= 0, (a == 0) == (p == 0)]
    return [z3.Implies(z3.Or(p == 0, q == 0), a == 0), a == MUL(q, p),
            z3.Implies(z3.And(p > 0, q > 0), a > 0), z3.Implies(z3.And(p < 0, q > 0), a < 0),
            z3.Implies(z3.And(p > 0, q < 0), a < 0), z3.Implies(z3.And(p < 0, q < 0), a > 0)]


_LIGHT = {}


def light_of(e):
    """The light axioms of one formula (cached)."""
    i = e.get_id()
    r = _LIGHT.get(i)
    if r is None:
        r = (e, light_axioms([e]))
        if len(_LIGHT) > 20000:
            _LIGHT.clear()
        _LIGHT[i] = r
    return r[1]


def nra_axioms(exprs):
    out = []
    for a in apps(exprs, {SQRT}):
        if not has_bound(a):
            x = a.arg(0)
            out.append(z3.Implies(x >= 0, z3.And(a >= 0, MUL(a, a) == x)))
    return out


# -------------------------------------------------------------------- values

class Sym:
    """A symbolic scalar; kind is real, int, bool or val (an attribute value)."""
    __slots__ = ("kind", "z")

    def __init__(self, kind, z):
        self.kind = kind
        self.z = z

    def __repr__(self):
        return "Sym<%s %s>" % (self.kind, str(self.z)[:80])

    def __bool__(self):
        raise Unsupported("symbolic truth value used by the engine")

    __hash__ = object.__hash__


class Opaque:
    """A value nothing is known about (formatted text, ...)."""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "Opaque<%s>" % self.what


class Poison:
    """A value that must not be read (loop temporaries after a symbolic loop)."""

    def __init__(self, why):
        self.why = why


class Ref:
    """A heap object."""
    __slots__ = ("oid",)

    def __hash__(self):
        return hash(self.oid)

    def __eq__(self, other):
        return isinstance(other, Ref) and self.oid == other.oid


class FList:
    """An immutable view of a list (value semantics)."""
    __slots__ = ("items", "arr")

    def __init__(self, items, arr=False):
        self.items = tuple(items)
        self.arr = arr      # True: a numpy array

    def __repr__(self):
        return ("NArr" if self.arr else "FList") + repr(self.items)


class Choice:
    """One of two unmergeable values; resolved by forking when used."""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


LITERALS = {None: 0}


def literal(v):
    """The code of a literal attribute value (None or a string)."""
    if v not in LITERALS:
        LITERALS[v] = len(LITERALS)
    return z3.IntVal(LITERALS[v])


def sreal(name):
    return Sym("real", z3.Real(name))


def sint(name):
    return Sym("int", z3.Int(name))


def toz(v):
    """The SMT term of a scalar value."""
    if isinstance(v, Sym):
        return v.z
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return rv(v)
    if isinstance(v, float) and v == v and v not in (float("inf"), float("-inf")):
        return rv(Fraction(repr(v)))
    raise Unsupported("not a scalar: %r" % (v,))


def zreal(v):
    t = toz(v)
    if t.sort() == B:
        return z3.If(t, rv(1), rv(0))
    return _real(t)


def is_scalar(v):
    return isinstance(v, (Sym, bool, int, Fraction))


def is_real(v):
    return isinstance(v, Fraction) or (isinstance(v, Sym) and v.kind == "real")


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, Sym) and v.kind == "int")


def mk(kind, z):
    z = simp(z)
    if kind == "real" and is_num(z):
        return frac(z)
    if kind == "int" and z3.is_int_value(z):
        return z.as_long()
    if kind == "bool":
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
    return Sym(kind, z)


def subst(v, pairs):
    """Substitute constants in the SMT terms of a value."""
    if not pairs:
        return v
    if isinstance(v, Sym):
        return mk(v.kind, z3.substitute(v.z, *pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, FList):
        return FList([subst(x, pairs) for x in v.items], v.arr)
    if isinstance(v, Choice):
        return Choice(z3.substitute(v.c, *pairs), subst(v.a, pairs), subst(v.b, pairs))
    if hasattr(v, "subst"):
        return v.subst(pairs)
    return v


def vterms(v):
    """The SMT terms a value is made of (None if it has other parts)."""
    if isinstance(v, Sym):
        return [v.z]
    if isinstance(v, (tuple,)):
        out = []
        for x in v:
            t = vterms(x)
            if t is None:
                return None
            out += t
        return out
    if isinstance(v, FList):
        return vterms(v.items)
    if isinstance(v, (bool, int, Fraction)):
        return [toz(v)]
    if isinstance(v, (str, type(None))):
        return []
    return None


def merge(c, a, b):
    """The value that is a if c else b."""
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if is_scalar(a) and is_scalar(b):
        ka = kind_of(a)
        kb = kind_of(b)
        if ka == kb:
            if toz(a).eq(toz(b)):
                return a
            return mk(ka, z3.If(c, toz(a), toz(b)))
        if {ka, kb} == {"int", "real"}:
            return mk("real", z3.If(c, zreal(a), zreal(b)))
    if isinstance(a, FList) and isinstance(b, FList) and len(a.items) == len(b.items) and a.arr == b.arr:
        return FList([merge(c, x, y) for x, y in zip(a.items, b.items)], a.arr)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    va, vb = as_val(a), as_val(b)
    if va is not None and vb is not None:
        if isinstance(a, (str, type(None))) and a == b and type(a) is type(b):
            return a
        return Sym("val", z3.simplify(z3.If(c, va, vb)))
    return Choice(c, a, b)


def as_val(v):
    if isinstance(v, Sym) and v.kind == "val":
        return v.z
    if v is None or isinstance(v, str):
        return literal(v)
    return None


def kind_of(v):
    if isinstance(v, Sym):
        return v.kind
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, Fraction):
        return "real"
    return None


# ------------------------------------------------------------------- context

class Obligation:
    def __init__(self, name, status, solver, secs, detail=None, model=None):
        self.name, self.status, self.solver, self.secs = name, status, solver, secs
        self.detail = detail
        self.model = model


class Ctx:
    """The state of one symbolic execution."""

    def __init__(self, feas_ms=3000, prove_ms=20000):
        self.failures, self.max_failures = 0, 4
        self.heap = {}
        self.pc = []
        self.axioms = []           # quantified or ground background facts
        self.trace = []
        self.tpos = 0
        self.ndet = 0
        self.counter = 0
        self.depth = 0
        self.gparams = []          # parameters of the generic loop elements in scope
        self.feas_ms = feas_ms
        self.prove_ms = prove_ms
        self.obligations = []
        self.aggregates = {}       # canonical key -> record (sums, counts, existence)
        self.calls = {}            # functions interpreted -> number of calls
        self.assumptions = set()
        self.notes = []
        self.solver_time = 0.0
        self.z3_time = {}
        self.contracts = {}        # function -> handler
        self.hooks = []            # loop hooks
        self.lemma_hooks = []
        self.deadline = None
        self.paths = 0
        self.reached = set()
        self._simp = {}
        self._inc = None
        self._proved = {}

    # -- names
    def fresh(self, base, sort):
        """A fresh constant (a fresh function of the generic elements in scope)."""
        self.counter += 1
        name = "%s!%d" % (base, self.counter)
        if self.gparams:
            f = z3.Function(name, *([p.sort() for p in self.gparams] + [sort]))
            return f(*self.gparams)
        return z3.Const(name, sort)

    def fresh_fun(self, base, *sorts):
        self.counter += 1
        name = "%s!%d" % (base, self.counter)
        if self.gparams:
            gp = list(self.gparams)
            f = z3.Function(name, *([p.sort() for p in gp] + list(sorts)))
            return lambda *a: f(*(gp + list(a)))
        return z3.Function(name, *sorts)

    def freal(self, base="r"):
        return Sym("real", self.fresh(base, R))

    def fint(self, base="i"):
        return Sym("int", self.fresh(base, I))

    def fvec(self, base="v", arr=False):
        return FList([Sym("real", self.fresh(base + a, R)) for a in "xyz"], arr)

    # -- assumptions
    def assume(self, c):
        c = z3.simplify(c) if not z3.is_quantifier(c) else c
        if z3.is_false(c):
            raise PathCut()
        if not z3.is_true(c):
            self.pc.append(c)

    def check_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("time budget of the verifier exhausted")

    def _solver(self, ms):
        s = z3.Solver()
        s.set("timeout", ms)
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
        return s

    def feasible(self, c):
        self.check_time()
        t0 = time.time()
        s = self._synced()
        s.push()
        s.add(c)
        s.add(*light_of(c))
        r = s.check()
        s.pop()
        self.solver_time += time.time() - t0
        return r != z3.unsat

    def _synced(self):
        """An incremental solver holding the axioms and the path condition."""
        want = self.axioms + self.pc
        inc = self._inc
        if inc is None:
            inc = self._inc = [self._solver(self.feas_ms), []]
        s, have = inc
        i = 0
        while i < len(have) and i < len(want) and have[i] is want[i]:
            i += 1
        if i < len(have):
            s.pop(len(have) - i)
            del have[i:]
        for x in want[i:]:
            s.push()
            s.add(x)
            s.add(*light_of(x))
            have.append(x)
        return s

    def entailed(self, c):
        """A quick check whether the path condition implies c."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return not self.feasible(z3.Not(c))

    # -- decisions
    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.tpos < len(self.trace):
            b = self.trace[self.tpos][0]
            self.tpos += 1
        else:
            tf = self.feasible(c)
            ff = self.feasible(z3.Not(c)) if tf else True
            if tf and ff:
                self.trace.append([True, [False]])
                b = True
            elif tf:
                self.trace.append([True, []])
                b = True
            else:
                self.trace.append([False, []])
                b = False
            self.tpos += 1
        self.pc.append(c if b else z3.simplify(z3.Not(c)))
        return b

    def choose(self, n, what=""):
        if n <= 1:
            return 0
        if self.tpos < len(self.trace):
            b = self.trace[self.tpos][0]
        else:
            self.trace.append([0, list(range(1, n))])
            b = 0
        self.tpos += 1
        return b

    # -- exploration
    def explore(self, thunk, keep=False, limit=4000):
        """Run the thunk along every feasible path from the current state.

        Returns the list of outcomes (kind, value, heap, pc suffix).
        """
        heap0, pc0, trace0, tpos0, cnt0 = dict(self.heap), list(self.pc), self.trace, self.tpos, self.counter
        outs, trace, maxcnt = [], [], cnt0
        self.depth += 1
        try:
            while True:
                self.heap, self.pc, self.counter = dict(heap0), list(pc0), cnt0
                self.trace, self.tpos = trace, 0
                self.check_time()
                try:
                    kind, value = "ok", thunk()
                except PathCut:
                    kind, value = "cut", None
                except PyRaise as e:
                    kind, value = "raise", e
                except _Signal as e:
                    kind, value = e.kind, e.value
                trace = self.trace
                maxcnt = max(maxcnt, self.counter)
                if kind != "cut":
                    outs.append(Outcome(kind, value, self.heap, self.pc[len(pc0):]))
                    self.paths += 1
                if len(outs) > limit:
                    raise Unsupported("too many paths")
                while trace and not trace[-1][1]:
                    trace.pop()
                if not trace:
                    break
                trace[-1][0] = trace[-1][1].pop(0)
        finally:
            self.depth -= 1
            self.heap, self.pc, self.trace, self.tpos = heap0, pc0, trace0, tpos0
            self.counter = maxcnt
        return outs

    # -- obligations
    def prove(self, name, goal, ms=None, split=True):
        """Discharge an obligation under the current path condition."""
        goal = goal.z if isinstance(goal, Sym) else goal
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if split == "lazy":
            t0 = time.time()
            status, how, model = self._prove(goal, (ms or self.prove_ms))
            if status == "proved":
                self.obligations.append(Obligation(name, status, how, time.time() - t0))
                return True
            split = True
        if split and z3.is_and(goal):
            ok = True
            for i, g in enumerate(goal.children()):
                ok = self.prove(name, g, ms, split) and ok
            return ok
        t0 = time.time()
        status, how, model = self._prove(goal, ms or self.prove_ms)
        ob = Obligation(name, status, how, time.time() - t0, None if status == "proved" else str(z3.simplify(goal))[:600], model)
        ob.pc = None if status == "proved" else [str(p)[:200] for p in self.pc[-14:]]
        self.obligations.append(ob)
        if status != "proved":
            self.failures += 1
            if self.failures >= self.max_failures and self.depth == 1:
                raise EnoughFailures()
        return status == "proved"

    def _prove(self, goal, ms):
        """Paths share prefixes: an obligation met again on another path is not discharged twice."""
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return "proved", "simplifier", None
        self.check_time()
        if self.failures:
            ms = min(ms, 4000)
        facts = self.axioms + self.pc
        key = (goal.get_id(),) + tuple(f.get_id() for f in facts)
        hit = self._proved.get(key)
        if hit is None:
            hit = self._proved[key] = (self._prove_new(goal, ms), goal, facts)
        return hit[0]

    def _prove_new(self, goal, ms):
        base = self.axioms + self.pc + [z3.Not(goal)]
        lem = self.lemmas(base)
        base = base + lem
        light = base + light_axioms(base)
        s = self._solver(ms)
        s.add(*light)
        t0 = time.time()
        r = s.check()
        self._t("z3", t0)
        if r == z3.unsat:
            return "proved", "z3", None
        first, model, why = r, None, s.reason_unknown() if r == z3.unknown else ""
        if first == z3.sat:
            model = s.model()
        nl = apps(light, {MUL, DIV, SQRT})
        # a model is a counterexample only if every symbol in it is fully axiomatised
        quant = any(has_quantifier(x) for x in light)
        sat = "unproved" if quant or lem else "refuted"
        if nl:
            nra = light + nra_axioms(light)
            cache = {}
            nra = [to_nra(x, cache) for x in nra]
            s = z3.Solver()
            ms = min(ms, 8000)
            s.set("timeout", ms)
            s.add(*nra)
            t0 = time.time()
            r = s.check()
            self._t("z3", t0)
            if r == z3.unsat:
                return "proved", "z3-nra", None
            if r == z3.sat:
                return sat, "z3-nra", s.model()
            t0 = time.time()
            c = cvc5_check(nra, ms)
            self._t("cvc5", t0)
            if c == "unsat":
                return "proved", "cvc5", None
            return "unknown", "z3+cvc5", model
        if first == z3.sat:
            return sat, "z3", model
        if "incomplete" in why:
            return "saturated", "z3", None
        t0 = time.time()
        c = cvc5_check(light, ms)
        self._t("cvc5", t0)
        if c == "unsat":
            return "proved", "cvc5", None
        return "unknown", "z3+cvc5", None

    def _t(self, who, t0):
        d = time.time() - t0
        self.z3_time[who] = self.z3_time.get(who, 0.0) + d
        self.solver_time += d

    def lemmas(self, base):
        out = []
        for h in self.lemma_hooks:
            out += h(self, base)
        return out


class Outcome:
    __slots__ = ("kind", "value", "heap", "pc")

    def __init__(self, kind, value, heap, pc):
        self.kind, self.value, self.heap, self.pc = kind, value, heap, pc

    def cond(self):
        return z3.And(*self.pc) if self.pc else z3.BoolVal(True)


class EnoughFailures(Exception):
    """A unit has enough undischarged obligations: the rest is not attempted."""


class _Signal(Exception):
    kind = "signal"

    def __init__(self, value=None):
        super().__init__()
        self.value = value


class ReturnSig(_Signal):
    kind = "return"


class BreakSig(_Signal):
    kind = "break"


class ContinueSig(_Signal):
    kind = "continue"


def cvc5_check(assertions, ms):
    """Check satisfiability with the cvc5 command line."""
    import subprocess
    import tempfile
    import os
    s = z3.Solver()
    s.add(*assertions)
    text = "(set-logic ALL)\n" + s.to_smt2()
    fd, path = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text)
        p = subprocess.run(["cvc5", "--tlimit=%d" % ms, path], capture_output=True, text=True, timeout=ms / 1000.0 + 5)
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(path)
