"""C13: solving leaves topology, form and report consistent with the optimum.

The diagram is represented by its content, a value of the sort State.  The functions the solver
loop is built from are used through their contracts:
  _update_parameters (C10)     content becomes UPD(content, x), which forgets earlier updates
  optimization_parameters, optimization_bounds (C10)   functions of the content; PAR(UPD(s, x)) = x
  equilibrium_state_numpy, static_equilibrium (C05)    functions of the content, which they leave alone
  grad_finite_differences (C12)  evaluates the penalty, writes the gradient array, leaves x alone
nlopt is trusted: optimize() evaluates the objective any number of times at points within the
bounds it was given and returns one of these points, with the value obtained there.
"""
from .opt import *  # noqa: F401,F403
from . import C10
from pyvc.values import Obj

AS = z3.ArraySort(z3.IntSort(), z3.RealSort())
ST, EQS = z3.DeclareSort("DiagramContent"), z3.DeclareSort("EquilibriumState")
UPD = z3.Function("updated", ST, AS, ST)
PAR = z3.Function("parameters_of", ST, AS)
LOW, UPB = z3.Function("low_of", ST, AS), z3.Function("up_of", ST, AS)
EQ = z3.Function("equilibrium_of", ST, z3.IntSort(), z3.RealSort(), EQS)
FORM = z3.Function("form_of", ST, z3.IntSort(), z3.RealSort(), EQS)
PARTIAL = z3.Function("form_up_to", ST, z3.IntSort(), z3.IntSort(), z3.RealSort(), EQS)
PEN = z3.Function("penalty_of", z3.IntSort(), EQS, z3.RealSort())
QUO = z3.Function("difference_quotients", AS, z3.RealSort(), AS)
DER = z3.Function("derivative", AS, AS)

NLOPT = "nlopt: optimize() evaluates the objective any number of times, each time at a point within the bounds set, and returns a point it evaluated together with the value found there, or raises RoundoffLimited or RuntimeError"
AUTOGRAD = "autograd.grad(f)(x) evaluates f at a traced version of x and returns its derivative"
DISTINCT = "the parameters of an optimizer refer to different attributes"
COPY = "TopologyDiagram.copy() returns an independent diagram with the same content (C14)"
PURE = "static_equilibrium and equilibrium_state_numpy depend on the content of the diagram and leave it unchanged (C05), and agree (C03)"


class Diagram(Obj):
    """A topology diagram known by its content only."""
    __slots__ = ()

    def pv_getattr(self, it, name):
        if name == "copy":
            def copy(it, *a, **k):
                it.ctx.assumptions.add(COPY)
                return Diagram(it.ctx, it.get(self))
            return Native(copy)
        raise Unsupported("attribute %s of the diagram outside the functions under contract" % name)


class Token:
    """An equilibrium state or a form diagram, as a function of the content it came from."""

    def __init__(self, z, kind):
        self.z, self.kind = z, kind

    def pv_getattr(self, it, name):
        raise Unsupported("attribute %s of a result" % name)


class Constr:
    def __init__(self, z):
        self.z = z

    def subst(self, pairs):
        return Constr(z3.substitute(self.z, *pairs))

    def pv_getattr(self, it, name):
        if name == "penalty":
            def pen(it, data):
                data = force(it.ctx, data)
                if not isinstance(data, Token) or data.kind != "state":
                    raise Unsupported("a constraint evaluated on something else")
                return Sym("real", PEN(self.z, data.z))
            return Native(pen)
        raise Unsupported("attribute %s of a constraint" % name)


class Param:
    """A parameter, used by functions under contract only."""

    def __init__(self, z):
        self.z = z

    def subst(self, pairs):
        return Param(z3.substitute(self.z, *pairs))

    def pv_getattr(self, it, name):
        raise Unsupported("attribute %s of a parameter outside the functions under contract" % name)


def zint(v):
    z = toz(v)
    return z if z.sort() == z3.IntSort() else z3.ToInt(z)


def dia(it, t):
    t = force(it.ctx, t)
    if not isinstance(t, Diagram):
        raise Unsupported("not the diagram")
    return t


class World:
    """The contracts of the functions solve() is built from."""

    def __init__(self, it, np_, nc, gradient=False):
        import nlopt
        import autograd
        from compas_cem.optimization import optimizer as om
        from compas_cem.optimization import nlopt as nm
        from compas_cem.optimization import grad as gm
        from compas_cem.optimization.optimizer import Optimizer
        ctx = it.ctx
        self.it, self.n, self.nc, self.gradient = it, np_, nc, gradient
        self.step, self.method, self.asked = real("step"), None, {}
        s0, x, y = z3.Const("s", ST), z3.Const("x", AS), z3.Const("y", AS)
        ctx.axioms += [z3.ForAll([s0, x, y], UPD(UPD(s0, x), y) == UPD(s0, y), patterns=[UPD(UPD(s0, x), y)]),
                       z3.ForAll([s0, x], PAR(UPD(s0, x)) == x, patterns=[UPD(s0, x)])]
        ctx.assumptions.update([NLOPT, AUTOGRAD, DISTINCT, PURE])
        self.S0 = z3.Const("content", ST)
        self.topology = Diagram(ctx, self.S0)
        self.tmax, self.eta = integer("tmax"), real("eta")
        o = it.call(Optimizer, ())
        a = dict(it.get(o))
        if "parameters" not in a or "constraints" not in a:
            raise Unsupported("the optimizer stores its parameters or constraints differently")
        a["parameters"] = ODict(ctx, np_, lambda i: i, lambda i: Param(i), lambda k: k)
        a["constraints"] = ODict(ctx, nc, lambda i: i, lambda i: Constr(i), lambda k: k)
        it.put(o, a)
        self.opt = o
        C = ctx.contracts

        def update(it, me, topology, parameters):
            t = dia(it, topology)
            it.put(t, UPD(it.get(t), self.arr(it, parameters)))
        C[Optimizer._update_parameters] = update
        C[Optimizer.optimization_parameters] = lambda it, me, topology: ArrObj(it.ctx, PAR(it.get(dia(it, topology))), np_)
        C[Optimizer.optimization_bounds] = lambda it, me, topology: (
            ArrObj(it.ctx, LOW(it.get(dia(it, topology))), np_), ArrObj(it.ctx, UPB(it.get(dia(it, topology))), np_))
        from compas_cem.equilibrium.force_numpy import equilibrium_state_numpy, static_equilibrium_numpy
        from compas_cem.equilibrium import static_equilibrium

        def eq_state(it, topology, tmax=100, eta=1e-6, verbose=False, callback=None):
            return Token(EQ(it.get(dia(it, topology)), zint(tmax), zreal(eta)), "state")

        def form(it, topology, kmax=None, tmax=100, eta=1e-6, verbose=False, callback=None):
            kmax = force(it.ctx, kmax)
            if kmax is not None:
                if not (core.is_int(kmax) or core.is_real(kmax)):
                    raise Unsupported("a partial form")
                return Token(PARTIAL(it.get(dia(it, topology)), zint(kmax), zint(tmax), zreal(eta)), "form")
            return Token(FORM(it.get(dia(it, topology)), zint(tmax), zreal(eta)), "form")

        def form_np(it, topology, tmax=100, eta=1e-6, verbose=False, callback=None):
            return Token(FORM(it.get(dia(it, topology)), zint(tmax), zreal(eta)), "form")
        C[equilibrium_state_numpy] = eq_state
        C[static_equilibrium] = form
        C[static_equilibrium_numpy] = form_np

        def differentiated(it, fun, x):
            t = it.get(force(it.ctx, x))[0]
            v = it.call(fun, (x,))
            if gradient:
                it.ctx.prove("the function differentiated is the penalty of the diagram with these variables",
                             zreal(v) == self.total(UPD(self.S0, t)))

        def fd(it, x, grad, x_func, step_size, **kw):
            t = it.get(force(it.ctx, x))[0]
            differentiated(it, x_func, x)
            differentiated(it, x_func, ArrObj(it.ctx, it.ctx.fresh("probe", AS), it.get(x)[1]))
            grad = force(it.ctx, grad)
            it.put(grad, (QUO(t, zreal(step_size)), it.get(grad)[1]))
            return grad
        C[gm.grad_finite_differences] = fd

        def agrad(it, fun, *a, **k):
            def g(it, x):
                # the values left behind are traced ones, not the numbers of x
                t, n = it.get(force(it.ctx, x))
                differentiated(it, fun, ArrObj(it.ctx, it.ctx.fresh("traced", AS), n))
                return ArrObj(it.ctx, DER(t), n)
            return Native(g)
        C[autograd.grad] = agrad
        C[om.agrad] = agrad
        C[nlopt.opt] = lambda it, alg, dims: Solver(self, alg, dims)
        C[nm.opt] = C[nlopt.opt]
        self.solver = None
        self.found = None

    def arr(self, it, x):
        x = force(it.ctx, x)
        if not isinstance(x, ArrObj):
            raise Unsupported("variables that are not an array")
        t, n = it.get(x)
        it.ctx.prove("a vector with one entry per parameter is written", n == self.n)
        return t

    def grad_at(self, x):
        """The gradient asked for, at x."""
        return QUO(x, toz(self.step)) if self.method == "FD" else DER(x)

    def total(self, content):
        q = z3.Int("q#0_0")
        return aggr.sum_term([q], z3.And(q >= 0, q < self.nc), PEN(q, EQ(content, toz(self.tmax), toz(self.eta))))


class Solver(Obj):
    """nlopt.opt under its assumed contract."""
    __slots__ = ("w",)

    def __init__(self, w, alg, dims):
        super().__init__(w.it.ctx, {"dims": dims, "lo": None, "up": None, "f": None, "value": None, "result": None, "max": False, "alg": alg, "limits": {}})
        self.w = w

    def evaluate(self, it, name, within):
        """One evaluation at an arbitrary point within the bounds."""
        ctx, w = it.ctx, self.w
        c = it.get(self)
        x = ctx.fresh(name, AS)
        m = ctx.fresh("grad_size", z3.IntSort())
        ctx.assume(z3.Or(m == 0, m == w.n))
        for i in within:
            ctx.assume(z3.Implies(z3.And(i >= 0, i < w.n), z3.And(c["lo"](i) <= z3.Select(x, i), z3.Select(x, i) <= c["up"](i))))
        xa, ga = ArrObj(ctx, x, w.n), ArrObj(ctx, ctx.fresh("g", AS), m)
        before = dict(ctx.heap)
        v = it.call(c["f"], (xa, ga))
        ctx.prove("an evaluation leaves exactly its own variables in the diagram", it.get(w.topology) == UPD(w.S0, x))
        ctx.prove("an evaluation does not change its point", it.get(xa)[0] == x)
        if w.gradient:
            j = z3.Int("j")
            ctx.prove("the gradient handed to the solver is the one asked for, at the point",
                      z3.Implies(z3.And(j >= 0, j < m), z3.Select(it.get(ga)[0], j) == z3.Select(w.grad_at(x), j)))
        changed = [k for k in before if ctx.heap.get(k) is not before[k] and k not in (w.topology.oid, ga.oid, xa.oid) and k[0] != "Diagram"]
        if changed:
            raise Unsupported("an evaluation keeps state: %s" % changed[0][0])
        return x, v

    def pv_getattr(self, it, name):
        w = self.w

        def setter(field):
            def f(it, v):
                v = force(it.ctx, v)
                if field in ("lo", "up"):
                    if isinstance(v, ArrObj):
                        t = it.get(v)[0]
                        v = lambda i: z3.Select(t, i)
                    else:
                        q = it.iterate(v)
                        if not isinstance(q, SSeq):
                            raise Unsupported("bounds of this form")
                        it.ctx.prove("one bound per parameter", q.n == w.n)
                        v = lambda i: zreal(force(it.ctx, q.item(i)))
                it.put(self, dict(it.get(self), **{field: v}))
            return Native(f)
        table = {"set_lower_bounds": "lo", "set_upper_bounds": "up", "set_min_objective": "f"}
        if name in table:
            return setter(table[name])
        if name == "set_max_objective":
            def mx(it, f):
                it.put(self, dict(it.get(self), f=f, max=True))
            return Native(mx)
        if name in ("set_maxeval", "set_ftol_abs", "set_stopval"):
            def limit(it, v):
                c = it.get(self)
                it.put(self, dict(c, limits=dict(c["limits"], **{name: force(it.ctx, v)})))
            return Native(limit)
        if name.startswith("set_"):
            return Native(lambda it, *a, **k: None)
        if name == "optimize":
            return Native(self.optimize)
        if name == "last_optimum_value":
            return Native(lambda it: it.get(self)["value"])
        if name == "last_optimize_result":
            return Native(lambda it: it.get(self)["result"])
        if name == "get_numevals":
            return Native(lambda it: Sym("int", z3.Int("evaluations")))
        raise Unsupported("nlopt.opt." + name)

    def optimize(self, it, x):
        import nlopt
        ctx, w = it.ctx, self.w
        c = it.get(self)
        if c["lo"] is None or c["up"] is None or c["f"] is None:
            ctx.prove("the solver has an objective and bounds", z3.BoolVal(False))
            raise PathCut()
        i = z3.Int("i")
        inr = z3.And(i >= 0, i < w.n)
        ctx.prove("the dimension is the number of parameters", toz(c["dims"]) == w.n)
        ctx.prove("the penalty is minimised", z3.BoolVal(not c["max"]))
        ctx.prove("the lower bounds are those of the starting values", z3.Implies(inr, c["lo"](i) == z3.Select(LOW(w.S0), i)))
        ctx.prove("the upper bounds are those of the starting values", z3.Implies(inr, c["up"](i) == z3.Select(UPB(w.S0), i)))
        ctx.prove("the search starts at the values in the diagram", z3.Implies(inr, z3.Select(it.get(x)[0], i) == z3.Select(PAR(w.S0), i)))
        if w.asked:
            ctx.prove("the algorithm is the one asked for", z3.BoolVal(c["alg"] == w.asked["algorithm"]))
            for k, v in (("set_maxeval", w.asked["iters"]), ("set_ftol_abs", w.asked["kappa"]), ("set_stopval", w.asked["eps"])):
                v, got = force(ctx, v), c["limits"].get(k)
                ctx.prove("%s: the limit asked for, and none if there is none" % k,
                          z3.BoolVal(got is v) if v is None or got is None else zreal(got) == zreal(v))
        # any number of earlier evaluations: one at an arbitrary point stands for them, because
        # each leaves the starting content with its own variables, whatever was there before
        self.evaluate(it, "x_earlier", [])
        k = ctx.choose(3, "how nlopt ends")
        xs, v = self.evaluate(it, "x_best", [i])
        if k == 0:
            self.evaluate(it, "x_later", [])
            w.found = ("normal", xs)
            r = Sym("int", z3.Int("result"))
            ctx.assume(z3.And(toz(r) >= 1, toz(r) <= 6))
            it.put(self, dict(it.get(self), value=v, result=r))
            return ArrObj(ctx, xs, w.n)
        it.put(self, dict(it.get(self), value=ctx.freal("best"), result=-4 if k == 1 else -1))
        w.found = ("roundoff" if k == 1 else "failed", xs)
        raise PyRaise(nlopt.RoundoffLimited if k == 1 else RuntimeError, ("nlopt failure",))


STATUS = {1: "NLOPT_SUCCESS", 2: "NLOPT_EPSVAL_REACHED", 3: "NLOPT_FTOL_REACHED", 4: "NLOPT_XTOL_REACHED", 5: "NLOPT_ITERSMAX_REACHED", 6: "NLOPT_MAXTIME_REACHED"}
ALGORITHMS = {"SLSQP": "LD_SLSQP", "MMA": "LD_MMA", "LBFGS": "LD_LBFGS", "TNEWTON": "LD_TNEWTON", "VAR": "LD_VAR2", "AUGLAG": "LD_AUGLAG"}


def solve_unit(V, algorithm, grad, gradient=False):
    import nlopt

    def go(it):
        ctx = it.ctx
        n, nc = z3.Int("n_parameters"), z3.Int("n_constraints")
        ctx.assume(z3.And(n >= 0, nc >= 0))
        w = World(it, n, nc, gradient)
        w.method = grad
        verbose = Sym("bool", z3.Bool("verbose"))
        kw = {"topology": w.topology, "algorithm": algorithm, "grad": grad, "iters": integer("iters"), "eps": Choice(z3.Bool("has_eps"), real("eps"), None),
              "kappa": Choice(z3.Bool("has_kappa"), real("kappa"), None), "step_size": w.step, "tmax": w.tmax, "eta": w.eta, "verbose": verbose}
        if not gradient:
            w.asked = dict({k: kw[k] for k in ("iters", "eps", "kappa")}, algorithm=getattr(nlopt, ALGORITHMS[algorithm]))
        kind, r = outcome(it, it.getattr(w.opt, "solve"), (), kw)
        a = it.get(w.opt)
        end = it.get(w.topology)
        if gradient:
            if kind != "raise" and w.found and w.found[0] == "normal":
                g, j = force(ctx, a.get("gradient")), z3.Int("j")
                if not isinstance(g, ArrObj):
                    raise Unsupported("the gradient is reported differently")
                ctx.prove("the reported gradient is the one at the optimum",
                          z3.Implies(z3.And(j >= 0, j < n), z3.Select(it.get(g)[0], j) == z3.Select(w.grad_at(w.found[1]), j)))
            return
        if kind == "raise":
            ctx.prove("refused with a ValueError, and only without parameters or without constraints",
                      z3.And(z3.BoolVal(r is ValueError), z3.Or(n == 0, nc == 0)))
            ctx.prove("a refused problem leaves the diagram alone", end == w.S0)
            return
        ctx.prove("a problem without parameters or without constraints is refused", z3.And(n > 0, nc > 0))
        if w.found is None:
            ctx.prove("the solver is asked for an optimum", z3.BoolVal(False))
            return
        how, xs = w.found
        r = force(ctx, r)
        if not isinstance(r, Token):
            ctx.prove("a form diagram is returned", z3.BoolVal(False))
            return
        ctx.prove("the returned form is the equilibrium of the diagram as it is left",
                  z3.And(z3.BoolVal(r.kind == "form"), r.z == FORM(end, toz(w.tmax), toz(w.eta))))
        ctx.prove("attributes that are no parameters are those of the start", end == UPD(w.S0, PAR(end)))
        if how == "failed":
            return
        xo = force(ctx, a.get("x_opt"))
        if not isinstance(xo, ArrObj):
            ctx.prove("the optimal variables are reported", z3.BoolVal(False))
            return
        xt = it.get(xo)[0]
        ctx.prove("the diagram holds exactly the reported variables", end == UPD(w.S0, xt))
        if how == "normal":
            i = z3.Int("i")
            ctx.prove("the reported variables are the optimum found", xt == xs)
            ctx.prove("they respect the bounds", z3.Implies(z3.And(i >= 0, i < n), z3.And(
                z3.Select(LOW(w.S0), i) <= z3.Select(xt, i), z3.Select(xt, i) <= z3.Select(UPB(w.S0), i))))
            ctx.prove("the reported penalty is the penalty of the form", zreal(a.get("penalty")) == w.total(end))
            ctx.prove("the reported number of evaluations is that of the solver", zreal(a.get("evals")) == zreal(Sym("int", z3.Int("evaluations"))))
            ctx.prove("the reported status tells how the solver ended",
                      z3.And(*[z3.Implies(z3.Int("result") == k, eq(a.get("status"), v)) for k, v in STATUS.items()]))
    V.background("Optimizer.solve (%s, %s)%s" % (algorithm, grad, ": the gradient" if gradient else ""), go)


def verify(V):
    C10.alignment(V)
    from compas_cem.optimization.nlopt import nlopt_algorithms
    for alg in ("SLSQP", "MMA", "LBFGS", "TNEWTON", "VAR", "AUGLAG"):
        for g in ("AD", "FD"):
            solve_unit(V, alg, g)
    V.unit("solve_proxy", proxy_unit)


def proxy_unit(it):
    """The proxy solves the problem it is given and reports what the optimizer reports."""
    from compas_cem.optimization import Optimizer, solve_proxy
    ctx = it.ctx
    n, nc, i = z3.Int("n_parameters"), z3.Int("n_constraints"), z3.Int("i")
    ctx.assume(z3.And(n >= 0, nc >= 0))
    got = {"c": ListObj(ctx, ()), "p": ListObj(ctx, ())}
    calls = []
    C = ctx.contracts
    ctx.assumptions.add("add_constraint and add_parameter (C10, C11) keep what they are given in order")
    C[Optimizer.add_constraint] = lambda it, me, c: it.list_append(got["c"], c)
    C[Optimizer.add_parameter] = lambda it, me, p: it.list_append(got["p"], p)
    s0, s1 = z3.Const("content", ST), z3.Const("content_solved", ST)
    t = Diagram(ctx, s0)
    args = {"topology": t, "algorithm": "SLSQP", "iters": integer("iters"), "eps": real("eps"), "kappa": real("kappa"), "tmax": integer("tmax"), "eta": real("eta")}
    out = {k: real("result_" + k) for k in ("time_opt", "penalty", "evals", "gradient_norm", "status")}
    form = Token(z3.Const("form_solved", EQS), "form")
    names = ("topology", "algorithm", "grad", "iters", "eps", "kappa", "step_size", "tmax", "eta", "verbose")

    def solve(it, me, *a, **k):
        b = dict(zip(names, a))
        b.update(k)
        calls.append(b)
        seqs = []
        for what, size, cls in (("c", nc, Constr), ("p", n, Param)):
            q = it.iterate(got[what])
            if isinstance(q, list):
                it.ctx.prove("everything given is added once", size == len(q))
                continue
            if not isinstance(q, SSeq):
                raise Unsupported("an unordered collection is added")
            it.ctx.prove("everything given is added once", q.n == size)
            v = force(it.ctx, q.item(i))
            it.ctx.prove("it is added in order", z3.Implies(z3.And(i >= 0, i < size), v.z == i) if isinstance(v, cls) else z3.BoolVal(False))
        it.put(dia(it, b["topology"]), s1)
        for key, v in out.items():
            it.setattr(me, key, v)
        return form
    C[Optimizer.solve] = solve
    kw = dict(args, constraints=ListObj(ctx, (), SSeq(nc, lambda p: Constr(p))), parameters=ListObj(ctx, (), SSeq(n, lambda p: Param(p))))
    r = it.iterate(it.call(solve_proxy, (), kw))
    ctx.prove("one problem is solved", z3.BoolVal(len(calls) == 1))
    if len(calls) != 1 or not isinstance(r, list) or len(r) != 7:
        ctx.prove("seven results", z3.BoolVal(isinstance(r, list) and len(r) == 7))
        return
    for k, v in args.items():
        ctx.prove("%s is handed on" % k, z3.BoolVal(k in calls[0]) if k in ("topology",) or k not in calls[0] else eq(calls[0][k], v))
    ctx.prove("the diagram that was solved and the form are returned", z3.BoolVal(force(ctx, r[0]) is t and force(ctx, r[1]) is form))
    for j, k in enumerate(("penalty", "gradient_norm", "evals", "time_opt", "status")):
        ctx.prove("%s is returned" % k, eq(r[2 + j], out[k]))
