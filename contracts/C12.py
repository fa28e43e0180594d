"""C12: gradients and objective."""
from .common import *  # noqa: F401,F403

AS = z3.ArraySort(z3.IntSort(), z3.RealSort())
F = z3.Function("penalty", AS, z3.RealSort())
G = z3.Function("derivative", AS, AS)


def scalar_func(it, x):
    t, n = it.get(force(it.ctx, x))
    return Sym("real", F(t))


def array_func(it, x):
    t, n = it.get(force(it.ctx, x))
    return ArrObj(it.ctx, G(t), n)


def verify(V):
    from compas_cem.optimization import grad as gmod
    from compas_cem.optimization import objective_func as omod

    def fd(it):
        n = z3.Int("n")
        it.ctx.assume(n >= 0)
        x, g = sym_array(it, "x", n), sym_array(it, "g", n)
        h = real("h")
        it.ctx.assumptions.add("the step of the difference quotient is not zero")
        it.ctx.assume(h.z != 0)
        x0 = it.get(x)
        r = it.call(gmod.grad_finite_differences, (x, g), {"x_func": Native(scalar_func), "step_size": h})
        it.ctx.prove("the array given by the solver is returned", z3.BoolVal(r == g))
        j = z3.Int("j")
        it.ctx.assume(z3.And(j >= 0, j < n))
        t, m = it.get(g)
        want = mk_div(F(z3.Store(x0[0], j, z3.Select(x0[0], j) + h.z)) - F(x0[0]), h.z)
        it.ctx.prove("entry j is the forward difference quotient in variable j", z3.Select(t, j) == want)
        k = z3.Int("k")
        it.ctx.assume(z3.And(k >= 0, k < n))
        it.ctx.prove("the point is unchanged", z3.Select(it.get(x)[0], k) == z3.Select(x0[0], k))

    def ad(it):
        n = z3.Int("n")
        it.ctx.assume(n >= 0)
        x, g = sym_array(it, "x", n), sym_array(it, "g", n)
        x0 = it.get(x)
        r = it.call(gmod.grad_autograd, (x, g), {"grad_func": Native(array_func)})
        it.ctx.prove("the array given by the solver is returned", z3.BoolVal(r == g))
        j = z3.Int("j")
        it.ctx.assume(z3.And(j >= 0, j < n))
        it.ctx.prove("the gradient is the derivative at the point", z3.Select(it.get(g)[0], j) == z3.Select(G(x0[0]), j))
        it.ctx.prove("the point is unchanged", z3.Select(it.get(x)[0], j) == z3.Select(x0[0], j))

    def obj(it):
        n, m = z3.Int("n"), z3.Int("m")
        it.ctx.assume(z3.And(n >= 0, z3.Or(m == 0, m == n)))
        x, g = sym_array(it, "x", n), sym_array(it, "g", m)
        x0, g0 = it.get(x), it.get(g)

        def grad_func(it, xx, gg, **k):
            t, _ = it.get(xx)
            tg, ng = it.get(gg)
            it.put(gg, (G(t), ng))
            return gg
        r = it.call(omod.objective_function_numpy, (x, g), {"x_func": Native(scalar_func), "grad_func": Native(grad_func)})
        j = z3.Int("j")
        it.ctx.prove("the objective is the penalty at the point", zreal(r) == F(x0[0]))
        it.ctx.assume(z3.And(j >= 0, j < n))
        want = z3.If(m > 0, z3.Select(G(x0[0]), j), z3.Select(g0[0], j))
        it.ctx.prove("the gradient is written exactly when requested", z3.Select(it.get(g)[0], j) == want)
        it.ctx.prove("the point is unchanged", z3.Select(it.get(x)[0], j) == z3.Select(x0[0], j))

    V.unit("grad_finite_differences", fd)
    V.unit("grad_autograd", ad)
    V.unit("objective_function_numpy", obj)
    optimizer_wiring(V)
    from .C13 import solve_unit
    for g in ("AD", "FD"):
        solve_unit(V, "SLSQP", g, True)


def optimizer_wiring(V):
    """The optimizer hands the same penalty function to objective and gradient."""
    from compas_cem.optimization.optimizer import Optimizer

    OF = z3.Function("optimize_form", AS, z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())

    def form_contract(tag):
        def h(it, self, parameters, topology, tmax, eta):
            t, n = it.get(force(it.ctx, parameters))
            return Sym("real", OF(t, z3.IntVal(tag[topology.oid]), zreal(tmax), zreal(eta)))
        return h

    def wiring(it):
        ctx = it.ctx
        opt = Inst(ctx, Optimizer, {})
        topo, other = Inst(ctx, object), Inst(ctx, object)
        ctx.contracts[Optimizer._optimize_form] = form_contract({topo.oid: 1, other.oid: 2})
        n = z3.Int("n")
        ctx.assume(n >= 0)
        x, g = sym_array(it, "x", n), sym_array(it, "g", n)
        x0 = it.get(x)
        tmax, eta, h = integer("tmax"), real("eta"), real("h")
        ctx.assume(h.z != 0)
        from compas_cem.optimization import grad_finite_differences
        gf = it.call(it.getattr(opt, "gradient_func"), (grad_finite_differences, topo, tmax, eta, h))
        of = it.call(it.getattr(opt, "objective_func"), (topo, gf, tmax, eta))

        def pen(t):
            return OF(t, z3.IntVal(1), zreal(tmax), zreal(eta))
        r = it.call(of, (x, g))
        ctx.prove("the objective is the penalty of the given diagram", zreal(r) == pen(x0[0]))
        j = z3.Int("j")
        ctx.assume(z3.And(j >= 0, j < n))
        want = mk_div(pen(z3.Store(x0[0], j, z3.Select(x0[0], j) + h.z)) - pen(x0[0]), h.z)
        ctx.prove("the gradient is that of the same penalty", z3.Select(it.get(g)[0], j) == want)

    V.unit("Optimizer.objective_func and gradient_func", wiring)
