"""Symbolic optimizers: any number of parameters and constraints, in the order they were added."""
from .topo import *  # noqa: F401,F403
from pyvc.values import Obj, Alts, Native


class ODict(Obj):
    """An insertion-ordered dictionary with integer keys; content: (n, key(i), value(i), index(key))."""
    __slots__ = ()

    def __init__(self, ctx, n, key, value, index):
        super().__init__(ctx, (n, key, value, index))

    # index(k) is the position of key k: key(index(k)) == k when k is present
    def _has(self, it, k):
        n, key, value, index = it.get(self)
        j = index(k)
        return simp(z3.And(j >= 0, j < n, key(j) == k))

    def pv_getattr(self, it, name):
        if name in ("values", "items", "keys"):
            return Native(lambda it: ODView(it, self, name))
        if name == "get":
            def get(it, k, d=None):
                return self.pv_getitem(it, k) if it.ctx.decide(self._has(it, toz(k))) else d
            return Native(get)
        if name == "pop":
            def pop(it, k, *d):
                if not it.ctx.decide(self._has(it, toz(k))):
                    if d:
                        return d[0]
                    raise PyRaise(KeyError, (k,))
                v = self.pv_getitem(it, k)
                self.pv_delitem(it, k)
                return v
            return Native(pop)
        raise Unsupported("ordered dictionary method " + name)

    def pv_iterate(self, it):
        return ODView(it, self, "keys").pv_iterate(it)

    def pv_contains(self, it, k):
        k = force(it.ctx, k)
        return self._has(it, toz(k)) if core.is_int(k) else z3.BoolVal(False)

    def pv_getitem(self, it, k):
        if not core.is_int(k) or not it.ctx.decide(self._has(it, toz(k))):
            raise PyRaise(KeyError, (k,))
        n, key, value, index = it.get(self)
        return force(it.ctx, value(index(toz(k))))

    def pv_delitem(self, it, k):
        if not core.is_int(k) or not it.ctx.decide(self._has(it, toz(k))):
            raise PyRaise(KeyError, (k,))
        n, key, value, index = it.get(self)
        kz = toz(k)
        j = index(kz)

        def sh(i):
            return simp(z3.If(i < j, i, i + 1))
        it.put(self, (simp(n - 1), lambda i: key(sh(i)), lambda i: value(sh(i)),
                      lambda x: simp(z3.If(x == kz, z3.IntVal(-1), z3.If(index(x) < j, index(x), index(x) - 1)))))

    def pv_setitem(self, it, k, v):
        n, key, value, index = it.get(self)
        if not core.is_int(k):
            raise Unsupported("key of an ordered dictionary")
        kz = toz(k)
        if it.ctx.decide(self._has(it, kz)):
            j = index(kz)
            it.put(self, (n, key, lambda i: Alts([(i == j, v), (i != j, value(i))]), index))
            return
        it.put(self, (simp(n + 1), lambda i: simp(z3.If(i == n, kz, key(i))),
                      lambda i: Alts([(i == n, v), (i != n, value(i))]),
                      lambda x: simp(z3.If(x == kz, n, index(x)))))


class ODView:
    def __init__(self, it, d, what):
        self.d, self.what = d, what

    def pv_iterate(self, it):
        n, key, value, index = it.get(self.d)
        if self.what == "keys":
            return SSeq(n, lambda i: Sym("int", key(i)))
        if self.what == "values":
            return SSeq(n, value)

        def item(i):
            v = value(i)
            if isinstance(v, Alts):
                return Alts([(c, (Sym("int", key(i)), w)) for c, w in v.alts])
            return (Sym("int", key(i)), v)
        return SSeq(n, item)

    def pv_contains(self, it, x):
        if self.what == "keys":
            return self.d.pv_contains(it, x)
        raise Unsupported("membership in a view")


class Params:
    """n parameters of the eight kinds."""
    NODE_ATTR = {"OriginNodeXParameter": "x", "OriginNodeYParameter": "y", "OriginNodeZParameter": "z",
                 "NodeLoadXParameter": "qx", "NodeLoadYParameter": "qy", "NodeLoadZParameter": "qz"}
    EDGE_ATTR = {"TrailEdgeParameter": "length", "DeviationEdgeParameter": "force"}

    def __init__(self, it, s, tag="p", distinct=True):
        import compas_cem.optimization as O
        ctx = it.ctx
        F = z3.Function
        self.s, self.it = s, it
        self.names = list(self.NODE_ATTR) + list(self.EDGE_ATTR)
        self.classes = [getattr(O, c) for c in self.names]
        self.n = z3.Int(tag + "_n")
        self.DK, self.IDX = F(tag + "_dictkey", I, I), F(tag + "_index", I, I)
        self.CLS = F(tag + "_class", I, I)
        self.PK, self.PU, self.PV = F(tag + "_node", I, I), F(tag + "_u", I, I), F(tag + "_v", I, I)
        self.HASLO, self.HASUP = F(tag + "_has_low", I, B), F(tag + "_has_up", I, B)
        self.LO, self.UP = F(tag + "_low", I, R), F(tag + "_up", I, R)
        self.PKEY = z3.Int(tag + "_pkey")
        self.INVN = F(tag + "_inv_node", I, I, I)
        self.INVE = F(tag + "_inv_edge", I, I, I, I)
        i = z3.Int("par_i")
        inr = z3.And(i >= 0, i < self.n)
        c = self.CLS(i)
        nn = len(self.NODE_ATTR)
        facts = [c >= 0, c < 8, z3.Implies(c < nn, s.NODE(self.PK(i))), z3.Implies(c >= nn, s.EDGE(self.PU(i), self.PV(i))),
                 self.DK(i) <= self.PKEY, self.DK(i) >= 0, self.IDX(self.DK(i)) == i]
        if distinct:
            facts += [z3.Implies(c < nn, self.INVN(c, self.PK(i)) == i), z3.Implies(c >= nn, self.INVE(c, self.PU(i), self.PV(i)) == i)]
        ctx.assumptions.add("parameters: each refers to a node or edge of the diagram" + (
            " and no two to the same attribute of the same element" if distinct else ""))
        ctx.axioms += [self.n >= 0, self.PKEY >= -1,
                       z3.ForAll([i], z3.Implies(inr, z3.And(*facts)), patterns=[self.CLS(i)]),
                       z3.ForAll([i], z3.Implies(inr, z3.And(*facts)), patterns=[self.DK(i)])]

    def inst(self, c, i):
        """The parameter of class c at position i, made by the real constructor."""
        it = self.it
        nn = len(self.NODE_ATTR)
        key = Sym("int", self.PK(i)) if c < nn else (Sym("int", self.PU(i)), Sym("int", self.PV(i)))
        lo = Choice(self.HASLO(i), Sym("real", self.LO(i)), None)
        up = Choice(self.HASUP(i), Sym("real", self.UP(i)), None)
        o = it.call(self.classes[c], (key, lo, up))
        a = dict(it.get(o))
        a["$frozen"] = True
        it.put(o, a)
        return o

    def value(self, i):
        return LazyAlts(self, i)

    def odict(self):
        return ODict(self.it.ctx, self.n, lambda i: self.DK(i), self.value, lambda k: self.IDX(k))

    def start(self, i, maps=None):
        """The current value in the diagram of the attribute of parameter i."""
        s = self.s
        fs = [s.N[a](self.PK(i)) for a in self.NODE_ATTR.values()] + [s.LEN(self.PU(i), self.PV(i)), s.FRC(self.PU(i), self.PV(i))]
        r = fs[-1]
        for c in range(len(fs) - 2, -1, -1):
            r = z3.If(self.CLS(i) == c, fs[c], r)
        return r


class LazyAlts(Alts):
    """The eight kinds; the object is made when the kind is known."""

    def __init__(self, ps, i):
        self.ps, self.i = ps, i

    @property
    def alts(self):
        return [(self.ps.CLS(self.i) == c, LazyInst(self.ps, c, self.i)) for c in range(8)]

    def pick(self, ctx):
        for c in range(7):
            if ctx.decide(self.ps.CLS(self.i) == c):
                return self.ps.inst(c, self.i)
        ctx.assume(self.ps.CLS(self.i) == 7)
        return self.ps.inst(7, self.i)

    def subst(self, pairs):
        return LazyAlts(self.ps, z3.substitute(self.i, *pairs))


class LazyInst(Alts):
    def __init__(self, ps, c, i):
        self.ps, self.c, self.i = ps, c, i

    @property
    def alts(self):
        return [(z3.BoolVal(True), self)]

    def pick(self, ctx):
        return self.ps.inst(self.c, self.i)

    def subst(self, pairs):
        return LazyInst(self.ps, self.c, z3.substitute(self.i, *pairs))


def optimizer(it, P, constraints=None):
    """An optimizer made by the real constructor that holds the parameters P."""
    from compas_cem.optimization import Optimizer
    o = it.call(Optimizer, ())
    a = dict(it.get(o))
    if "parameters" not in a or "_pkey" not in a:
        raise Unsupported("the optimizer stores its parameters differently")
    a["parameters"] = P.odict()
    a["_pkey"] = Sym("int", P.PKEY)
    if constraints is not None:
        a["constraints"] = constraints
    it.put(o, a)
    return o
