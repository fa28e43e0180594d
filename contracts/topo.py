"""Symbolic diagrams: arbitrary nodes, edges, attributes and trails."""
from .common import *  # noqa: F401,F403
from pyvc.net import Store
from pyvc.core import literal

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Sig:
    """The function symbols describing one arbitrary diagram."""

    def __init__(self, p=""):
        F = z3.Function
        self.p = p
        self.NODE = F(p + "NODE", I, B)
        self.N = {}
        for a in ("x", "y", "z", "qx", "qy", "qz", "rx", "ry", "rz"):
            self.N[a] = F(p + "n_" + a, I, R)
        self.HASK, self.K = F(p + "HASK", I, B), F(p + "K", I, I)
        self.NTYPE = F(p + "NTYPE", I, I)
        self.EDGE = F(p + "EDGE", I, I, B)
        self.ETYPE = F(p + "ETYPE", I, I, I)
        self.LEN, self.FRC = F(p + "LEN", I, I, R), F(p + "FRC", I, I, R)
        self.HASPL = F(p + "HASPL", I, I, B)
        self.PLO = [F(p + "plane_o" + a, I, I, R) for a in "xyz"]
        self.PLN = [F(p + "plane_n" + a, I, I, R) for a in "xyz"]
        self.MAXN = z3.Int(p + "max_node")
        # trails: key -> sequence of nodes
        self.TR, self.TLEN, self.AT = F(p + "TRAIL", I, B), F(p + "trail_len", I, I), F(p + "trail_at", I, I, I)
        self.AUX, self.AUXU, self.AUXV = F(p + "AUX", I, B), F(p + "aux_u", I, I), F(p + "aux_v", I, I)
        self.AUXLEN = z3.Real(p + "aux_length")
        self.AUXVEC = [z3.Real(p + "aux_vec" + a) for a in "xyz"]
        self.GK, self.GKV = F(p + "GKEY", I, B), F(p + "gkey_val", I, I)

    def xyz(self, n):
        return [self.N[a](n) for a in "xyz"]

    def load(self, n):
        return [self.N["q" + a](n) for a in "xyz"]

    def reac(self, n):
        return [self.N["r" + a](n) for a in "xyz"]

    def trail(self, u, v):
        return self.ETYPE(u, v) == literal("trail")

    def deviation(self, u, v):
        return self.ETYPE(u, v) == literal("deviation")

    def support(self, n):
        return self.NTYPE(n) == literal("support")

    def origin(self, n):
        return self.NTYPE(n) == literal("_origin")


T = z3.BoolVal(True)


def topology(it, s, cls=None, k_optional=True, planes=True, trails_=True):
    """An arbitrary diagram over the symbols of s."""
    from compas_cem.diagrams import TopologyDiagram
    ctx = it.ctx

    def nm(f):
        return DictC(SMap(1, lambda n: T, f))

    def em(f):
        return DictC(SMap(2, lambda u, v: T, f))

    def real_(f):
        return lambda *k: Sym("real", f(*k))
    m = {"node": DictC(SMap(1, lambda n: s.NODE(n), lambda n: True, tag=s.p + "node")),
         "edge": DictC(SMap(2, lambda u, v: s.EDGE(u, v), lambda u, v: True, tag=s.p + "edge"))}
    for a, f in s.N.items():
        m["n:" + a] = nm(real_(f))
    if k_optional:
        m["n:_k"] = nm(lambda n: Choice(s.HASK(n), Sym("int", s.K(n)), None))
    else:
        m["n:_k"] = nm(lambda n: Sym("int", s.K(n)))
    m["n:type"] = nm(lambda n: Sym("val", s.NTYPE(n)))
    m["e:type"] = em(lambda u, v: Sym("val", s.ETYPE(u, v)))
    m["e:length"], m["e:force"] = em(real_(s.LEN)), em(real_(s.FRC))
    if planes:
        def plane(u, v):
            return (FList([Sym("real", f(u, v)) for f in s.PLO]), FList([Sym("real", f(u, v)) for f in s.PLN]))
        m["e:plane"] = em(lambda u, v: Choice(s.HASPL(u, v), plane(u, v), None))
    store = Store(ctx, m)
    zero = core.frac(core.rv(0))
    dna = [(a, zero) for a in s.N] + [("_k", None), ("type", None)]
    dea = [("type", None), ("length", zero), ("force", zero)]
    gk = DictObj(ctx, SMap(1, lambda g: s.GK(g), lambda g: Sym("int", s.GKV(g)), tup=GKey))
    gk_content = it.get(gk)
    it.put(gk, gk_content)
    trails = DictObj(ctx, SMap(1, lambda k: s.TR(k), lambda k: trail_seq(s, k), tag=s.p + "trails"))
    if not trails_:
        trails = DictObj(ctx)
    aux = DictObj(ctx, SMap(1, lambda k: s.AUX(k), lambda k: (Sym("int", s.AUXU(k)), Sym("int", s.AUXV(k))), tag=s.p + "aux"))
    auxvec = ListObj(ctx, [Sym("real", x) for x in s.AUXVEC])
    attributes = DictObj(ctx, None, [("name", "TopologyDiagram"), ("gkey_node", gk), ("tol", "3f"), ("_trails", trails),
                                     ("_auxiliary_trails", aux), ("_aux_length", Sym("real", s.AUXLEN)), ("_aux_vector", auxvec)])
    attrs = {"_max_node": Sym("int", s.MAXN), "attributes": attributes,
             "default_node_attributes": DictObj(ctx, None, dna), "default_edge_attributes": DictObj(ctx, None, dea),
             "$store": store}
    for n in ("node", "edge", "adjacency"):
        attrs[n] = Opaque("network storage")
    for n in ("_guid", "_name", "_jsondefinitions", "_JSONSCHEMA", "_jsonvalidator"):
        attrs[n] = None
    return Inst(ctx, cls or TopologyDiagram, attrs)


def trail_seq(s, k):
    return SSeq(s.TLEN(k), lambda i: Sym("int", s.AT(k, i)), tag=("trail", k), kind="tuple")


def well_formed(it, s):
    """Edges join nodes of the diagram; keys do not exceed the largest one."""
    it.ctx.assumptions.add("diagram: node keys are non-negative integers up to the largest key handed out, edges join two different nodes of the diagram")
    u, v, n = z3.Ints("wf_u wf_v wf_n")
    it.ctx.axioms += [
        z3.ForAll([u, v], z3.Implies(s.EDGE(u, v), z3.And(s.NODE(u), s.NODE(v), u != v)), patterns=[s.EDGE(u, v)]),
        z3.ForAll([n], z3.Implies(s.NODE(n), z3.And(n >= 0, n <= s.MAXN)), patterns=[s.NODE(n)])]


def one_orientation(it, s):
    it.ctx.assumptions.add("diagram: no edge is stored in both directions")
    u, v = z3.Ints("wf_u wf_v")
    it.ctx.axioms.append(z3.ForAll([u, v], z3.Implies(s.EDGE(u, v), z3.Not(s.EDGE(v, u))), patterns=[s.EDGE(u, v)]))


def numbered(it, s):
    """Every node has a sequence number."""
    it.ctx.assumptions.add("diagram: trails have been built, so that every node has a sequence number (postcondition of build_trails, C06)")
    n = z3.Int("wf_n")
    it.ctx.axioms.append(z3.ForAll([n], z3.Implies(s.NODE(n), z3.And(s.HASK(n), s.K(n) >= 0)), patterns=[s.NODE(n)]))


def with_attributes(it, a, net):
    """The key of a (key, attributes) element, whose attributes are those of that very key."""
    from pyvc.net import AttrView
    from pyvc.values import key_terms
    a = force(it.ctx, a)
    if not isinstance(a, tuple) or len(a) != 2 or not isinstance(a[1], AttrView):
        raise Unsupported("an element without attributes")
    k, w = key_terms(a[0]), key_terms(a[1].key)
    it.ctx.prove("the attributes listed with a key are its own", z3.And(z3.BoolVal(a[1].net is net and len(k) == len(w)), *[p == q for p, q in zip(k, w)]))
    return a[0]


class Listing:
    """A returned collection seen as a set of keys, each listed once."""

    def __init__(self, it, v, width=1, data=None):
        from pyvc.values import key_terms, Alts
        ctx = it.ctx
        self.it, self.width = it, width
        x = it.iterate(v)
        self.concrete = isinstance(x, list)
        bare = (lambda a: a) if data is None else (lambda a: with_attributes(it, a, data))
        if self.concrete:
            self.items = [key_terms(bare(k)) for k in x]
            return
        if x.width != width:
            raise Unsupported("listing of another width")
        ps = [z3.FreshInt("li") for _ in range(width)]
        raw = x.raw(ps) if isinstance(x, SColl) else None
        alts = [v for c, v in raw.alts] if isinstance(raw, Alts) else [raw]
        for a in alts:
            a = bare(a)
            kt = key_terms(a)
            if kt is None or len(kt) != width or not all(p.eq(q) for p, q in zip(kt, ps)) or (isinstance(a, tuple) != (width > 1)):
                raise Unsupported("listing of mapped elements")
        self.coll = x

    def has(self, *ks):
        if self.concrete:
            return z3.Or(*[z3.And(*[a == b for a, b in zip(i, ks)]) for i in self.items]) if self.items else z3.BoolVal(False)
        return self.coll.guard(*ks)


def count_of(width, pred):
    ps = [z3.FreshInt("cnt") for _ in range(width)]
    from pyvc import aggr
    return aggr.aggregate("count", ps, simp(pred(*ps)))


def check_listing(it, what, v, width, pred, data=None):
    """The collection holds exactly the keys with pred, each once (with their attributes if data)."""
    ls = Listing(it, v, width, data)
    ks = [z3.Int("key%d" % i) for i in range(width)]
    it.ctx.prove("%s: exactly the elements whose attributes say so, each once" % what, ls.has(*ks) == pred(*ks))
    return ls


def method(it, o, name, *args, **kw):
    return it.call(it.getattr(o, name), args, kw)


def as_bool(it, v):
    v = force(it.ctx, v)
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, Sym) and v.kind == "bool":
        return v.z
    return z3.BoolVal(it.truth(v))


class Trails:
    """Well-formed trails: they partition the nodes and are numbered consecutively."""

    def __init__(self, it, s, minlen=2, consecutive=True):
        p = s.p
        F = z3.Function
        self.TRK, self.POS, self.K0 = F(p + "trail_of", I, I), F(p + "pos_in_trail", I, I), F(p + "first_seq", I, I)
        k, i, n = z3.Ints("tw_k tw_i tw_n")
        at = s.AT(k, i)
        inside = z3.And(s.TR(k), i >= 0, i < s.TLEN(k))
        facts = [s.NODE(at), self.TRK(at) == k, self.POS(at) == i]
        if consecutive:
            facts += [s.HASK(at), s.K(at) == self.K0(k) + i]
        t = self.TRK(n)
        ax = [z3.ForAll([k, i], z3.Implies(inside, z3.And(*facts)), patterns=[at]),
              z3.ForAll([n], z3.Implies(s.NODE(n), z3.And(s.TR(t), self.POS(n) >= 0, self.POS(n) < s.TLEN(t), s.AT(t, self.POS(n)) == n)), patterns=[s.NODE(n)]),
              z3.ForAll([k], z3.Implies(s.TR(k), z3.And(s.TLEN(k) >= minlen, self.K0(k) >= 0, s.AT(k, 0) == k)), patterns=[s.TR(k)])]
        it.ctx.axioms += ax


def edge_listing(it, v, a, b):
    """Membership of the edge (a, b) in a returned collection of edges, and a formula for 'listed once'."""
    from pyvc.values import key_terms, Alts
    x = it.iterate(v)
    if isinstance(x, list):
        ks = [key_terms(k) for k in x]
        mem = z3.Or(*[z3.And(k[0] == a, k[1] == b) for k in ks]) if ks else z3.BoolVal(False)
        return mem, z3.Distinct(*[z3.IntVal(i) for i in range(len(ks))]) if len(ks) > 1 else z3.BoolVal(True)
    if x.width == 2:
        return Listing(it, v, 2).has(a, b), z3.BoolVal(True)

    def alts(m):
        raw = x.raw([m]) if isinstance(x, SColl) else x.item(m)
        al = raw.alts if isinstance(raw, Alts) else [(z3.BoolVal(True), raw)]
        return [(c, key_terms(v)) for c, v in al]
    m, m2 = z3.FreshInt("m"), z3.FreshInt("m")
    for c, kt in alts(m):
        if kt is None or len(kt) != 2 or not any(t.eq(m) for t in kt):
            raise Unsupported("edge listing of another form")
    mem = []
    for w in (a, b):
        mem.append(z3.And(x.guard(w), z3.Or(*[z3.And(c, kt[0] == a, kt[1] == b) for c, kt in alts(w)])))
    once = []
    for c, k1 in alts(m):
        for c2, k2 in alts(m2):
            once.append(z3.Implies(z3.And(x.guard(m), x.guard(m2), c, c2, k1[0] == k2[0], k1[1] == k2[1]), m == m2))
    return z3.Or(*mem), z3.And(*once)
