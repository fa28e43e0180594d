"""Oracles C10-C14, C18 (optimization, serialization, drawing)."""
import json, math, random
from . import gen as G
from .oracle import Skip, num, snap, close, V, quiet, Ref, solvers, converge_ref
from .oracle2 import paths
from .ref import add, sub, mul, dot, norm, unit

NODEP = {"qx": "NodeLoadXParameter", "qy": "NodeLoadYParameter", "qz": "NodeLoadZParameter",
         "x": "OriginNodeXParameter", "y": "OriginNodeYParameter", "z": "OriginNodeZParameter"}
EDGEP = {"length": "TrailEdgeParameter", "force": "DeviationEdgeParameter"}


def rand_param(r, spec, origins):
    tr = [e for e in spec["edges"] if e[0] == "trail"]
    dv = [e for e in spec["edges"] if e[0] == "dev"]
    kinds = ["load", "origin", "trail"] + (["dev"] if dv else [])
    k = r.choice(kinds)
    if k == "load":
        a, key = r.choice(["qx", "qy", "qz"]), r.choice(spec["nodes"])[0]
    elif k == "origin":
        a, key = r.choice("xyz"), r.choice(origins)
    else:
        e = r.choice(tr if k == "trail" else dv)
        a, key = ("length" if k == "trail" else "force"), [e[1], e[2]]
    b = [r.choice([None, round(r.uniform(-2, 2), 3), round(r.uniform(.1, 2), 3), 0.0]) for _ in range(2)]
    return [a, key, b[0], b[1]]


def mk_param(p):
    import compas_cem.optimization as o
    key = tuple(p[1]) if isinstance(p[1], list) else p[1]
    return getattr(o, (NODEP.get(p[0]) or EDGEP[p[0]]))(key, p[2], p[3])


# ---------------------------------------------------------------- C10
def gen_C10(r):
    spec = dict(G.topo_spec(r), shifts=[])
    tr, _ = paths(spec)
    ops, n, live = [], 0, []
    for _ in range(r.randint(1, 9)):
        if live and r.random() < .3:
            k = r.choice(live)
            live.remove(k)
            ops.append(["rm", k])
        elif r.random() < .06:
            ops.append(["rmbad", n + 7])
        else:
            ops.append(["add", rand_param(r, spec, sorted(tr))])
            live.append(n)
            n += 1
    return {"spec": spec, "ops": ops, "seed": r.randint(0, 10**6)}


def check_C10(case):
    from compas_cem.optimization import Optimizer
    r = random.Random(case["seed"])
    t = G.build(case["spec"])
    o = Optimizer()
    model, n = {}, 0
    for op in case["ops"]:
        if op[0] == "add":
            o.add_parameter(mk_param(op[1]))
            model[n] = op[1]
            n += 1
        elif op[0] == "rm":
            o.remove_parameter(op[1])
            del model[op[1]]
        else:
            try:
                o.remove_parameter(op[1])
            except KeyError:
                pass
            else:
                return "removing an unknown parameter was accepted"
        if o.number_of_parameters() != len(model):
            return "number_of_parameters {} instead of {}".format(o.number_of_parameters(), len(model))
        cur = []
        for a, k, lo, up in model.values():
            cur.append(num(t.edge_attribute(tuple(k), a)) if isinstance(k, list) else num(t.node_attribute(k, a)))
        before = snap(t)
        x = o.optimization_parameters(t)
        lo, up = o.optimization_bounds(t)
        wl = [c - abs(p[2]) if p[2] is not None else -math.inf for c, p in zip(cur, model.values())]
        wu = [c + abs(p[3]) if p[3] is not None else math.inf for c, p in zip(cur, model.values())]
        for name, got, want in (("variables", x, cur), ("lower bounds", lo, wl), ("upper bounds", up, wu)):
            if list(map(float, got)) != want:
                return "{} {} instead of {} after {}".format(name, list(got), want, op)
        if snap(t) != before:
            return "reading the variables changed the diagram"
    vec = [round(r.uniform(-3, 3), 4) for _ in model]
    import numpy as np
    arr = np.array(vec)
    o._update_parameters(t, arr)
    if list(arr) != vec:
        return "the vector itself was changed"
    want = G.build(case["spec"])
    for (a, k, lo, up), v in zip(model.values(), vec):
        if isinstance(k, list):
            want.edge_attribute(tuple(k), a, v)
        else:
            want.node_attribute(k, a, v)
    if snap(t) != snap(want):
        return "writing {} to {} gives other attributes".format(vec, list(model.values()))
    dup = len(set((p[0], json.dumps(p[1])) for p in model.values())) != len(model)
    if not dup and list(o.optimization_parameters(t)) != vec:
        return "the vector does not read back"
    return None


# ---------------------------------------------------------------- C11
def gen_C11(r):
    kind = r.choice(["point", "line", "plane", "polyline", "direction", "reaction", "force", "length"])
    big = r.choice([1, 1, 10])
    c = {"kind": kind, "p": G.rv(r, -3 * big, 3 * big), "q": G.rv(r, -3, 3), "w": r.choice([1.0, 0.0, 2.5, .1]), "a": G.rv(r), "b": G.rv(r),
         "poly": [G.rv(r, -3, 3) for _ in range(r.randint(2, 6))], "f": round(r.uniform(-3, 3), 3), "g": round(r.uniform(-3, 3), 3),
         "np": r.random() < .5, "hit": r.random() < .15, "more": r.randint(0, 3), "seed": r.randint(0, 10**6)}
    if r.random() < .1:
        c["a"] = [1.0, 0.0, 0.0]
    if r.random() < .2:
        c["poly"][-1] = list(c["poly"][0])
    return c


def seg_dist2(p, a, b):
    ab = sub(b, a)
    t = dot(sub(p, a), ab) / dot(ab, ab) if dot(ab, ab) else 0.0
    t = min(1.0, max(0.0, t))
    return dot(sub(p, add(a, mul(ab, t))), sub(p, add(a, mul(ab, t))))


def mk_constraint(c):
    import compas_cem.optimization as o
    from compas.geometry import Point, Vector, Line, Plane, Polyline
    k, w = c["kind"], () if c["w"] == 1.0 else (c["w"],)
    if k == "point":
        return o.PointConstraint(5, Point(*c["a"]), *w)
    if k == "line":
        return o.LineConstraint(5, Line(c["a"], c["b"]), *w)
    if k == "plane":
        return o.PlaneConstraint(5, Plane(c["a"], c["b"]), *w)
    if k == "polyline":
        return o.PolylineConstraint(5, Polyline(c["poly"]), *w)
    if k == "direction":
        return o.EdgeDirectionConstraint((5, 6), Vector(*c["a"]), *w)
    if k == "reaction":
        return o.ReactionForceConstraint(5, Vector(*c["a"]), *w)
    if k == "force":
        return o.TrailEdgeForceConstraint((5, 6), c["f"], *w)
    return o.DeviationEdgeLengthConstraint((5, 6), c["f"], *w)


def state(c):
    import numpy as np
    A = np.array if c["np"] else list
    x = {5: A(c["p"]), 6: A(c["q"]), 7: A([9., 9., 9.])}
    return {"node_xyz": x, "trail_forces": {(5, 6): (np.array(c["g"]) if c["np"] else c["g"]), (6, 7): 77.0},
            "reaction_forces": {5: A(c["q"]), 6: A([1., 2., 3.])}, "trail_directions": {}}


def want_penalty(c):
    k, w, p, q, a, b = c["kind"], c["w"], c["p"], c["q"], c["a"], c["b"]
    d2 = lambda x, y: dot(sub(x, y), sub(x, y))
    if k == "point":
        return w * d2(p, a)
    if k == "line":
        u = unit(sub(b, a))
        ap = sub(p, a)
        return w * max(0.0, dot(ap, ap) - dot(ap, u) ** 2)
    if k == "plane":
        return w * dot(unit(b), sub(p, a)) ** 2
    if k == "polyline":
        return w * min(seg_dist2(p, s, e) for s, e in zip(c["poly"], c["poly"][1:]))
    if k == "direction":
        d, u = unit(sub(q, p)), unit(a)
        return w * min(d2(d, u), d2(d, mul(u, -1)))
    if k == "reaction":
        return w * d2(q, a)
    if k == "force":
        return w * (c["g"] - c["f"]) ** 2
    return w * (norm(sub(p, q)) - c["f"]) ** 2


def check_C11(case):
    from compas_cem.optimization import Optimizer
    r = random.Random(case["seed"])
    c = dict(case)
    if c["kind"] in ("line",) and norm(sub(c["a"], c["b"])) < .1 or c["kind"] == "plane" and norm(c["b"]) < .1 or \
       c["kind"] == "direction" and (norm(c["a"]) < .1 or norm(sub(c["p"], c["q"])) < .1):
        raise Skip("degenerate target")
    if c["kind"] == "polyline" and any(norm(sub(a, b)) < .1 for a, b in zip(c["poly"], c["poly"][1:])):
        raise Skip("degenerate target")
    if c["hit"]:
        k = c["kind"]
        if k == "point": c["p"] = list(c["a"])
        if k == "line": c["p"] = add(c["a"], mul(sub(c["b"], c["a"]), 2.5))
        if k == "reaction": c["q"] = list(c["a"])
        if k == "force": c["g"] = c["f"]
        if k == "direction": c["q"] = add(c["p"], mul(c["a"], -2.0 if c["w"] > 1 else 2.0))
        if k == "polyline": c["p"] = mul(add(c["poly"][0], c["poly"][1]), .5)
        if k == "length": c["f"] = norm(sub(c["p"], c["q"]))
    con = mk_constraint(c)
    st = state(c)
    ref = repr(sorted(st.items()))
    got = num(con.penalty(st))
    want = want_penalty(c)
    sc = max(1.0, norm(c["p"]) ** 2, norm(c["q"]) ** 2, abs(want))
    if abs(got - want) > 1e-8 * sc:
        return "{} penalty {} instead of {}".format(c["kind"], got, want)
    if got < 0:
        return "negative penalty {}".format(got)
    if c["hit"] and c["kind"] != "plane" and got > 1e-12 * sc:
        return "penalty {} although the target is met".format(got)
    if con.weight != c["w"] or con.key() not in (5, (5, 6)):
        return "weight or key"
    if repr(sorted(st.items())) != ref:
        return "computing the penalty changed the state"
    o = Optimizer()
    o.add_constraint(con)
    live = {k: want for k in o.constraints}
    for i in range(c["more"]):
        d = gen_C11(random.Random(r.randint(0, 10**6)))
        d = dict(d, kind=r.choice(["point", "reaction", "force", "length"]), p=c["p"], q=c["q"], g=c["g"], np=c["np"], hit=False)
        o.add_constraint(mk_constraint(d))
        new = [k for k in o.constraints if k not in live]
        if len(new) != 1 or len(o.constraints) != len(live) + 1:
            return "adding a constraint replaced an earlier one"
        live[new[0]] = want_penalty(d)
        while live and r.random() < .3:
            k = r.choice(sorted(live))
            o.remove_constraint(k)
            del live[k]
            if o.number_of_constraints() != len(live):
                return "number of constraints"
    total = sum(live.values())
    got = num(o._calculate_penalty(st))
    if abs(got - total) > 1e-7 * max(1.0, sc, abs(total)):
        return "total penalty {} instead of {}".format(got, total)
    return None


# ---------------------------------------------------------------- C12
def gen_C12(r):
    n = r.randint(1, 6)
    return {"n": n, "x": G.rv(r, -2, 2, n), "A": [G.rv(r, -1, 1, n) for _ in range(n)], "b": G.rv(r, -1, 1, n), "h": r.choice([1e-6, 1e-3, .5, 1e-2]),
            "ro": r.random() < .5, "real": r.random() < .25, "spec": G.topo_spec(r, max_trails=3, planes=False), "seed": r.randint(0, 10**6)}


def check_C12(case):
    import numpy as np
    import autograd.numpy as anp
    from autograd import grad as agrad
    from functools import partial
    from compas_cem.optimization import grad_autograd, grad_finite_differences, objective_function_numpy
    A, b, h = np.array(case["A"]), np.array(case["b"]), case["h"]
    seen = []

    def f(x):
        seen.append([num(v) for v in x] if not hasattr(x, "_value") else None)
        return anp.dot(x, anp.dot(A, x)) + anp.dot(b, x) + anp.sum(x ** 3)
    x = np.array(case["x"])
    x0 = x.copy()
    if case["ro"]:
        x.flags.writeable = False
    g = np.full(case["n"], 7.0)
    out = grad_finite_differences(x, g, x_func=f, step_size=h)
    if not np.array_equal(x, x0):
        return "the point was changed by finite differences"
    fx = num(f(x0))
    for i in range(case["n"]):
        xi = x0.copy()
        xi[i] += h
        want = (num(f(xi)) - fx) / h
        if abs(g[i] - want) > 1e-9 * max(1.0, abs(want)) / min(1.0, h):
            return "finite difference entry {} is {} instead of {}".format(i, g[i], want)
    if out is not None and not np.array_equal(np.asarray(out), g):
        return "returned gradient differs from the written one"
    g2 = np.full(case["n"], 7.0)
    out = grad_autograd(x, g2, grad_func=agrad(f))
    exact = (A + A.T) @ x0 + b + 3 * x0 ** 2
    if not np.allclose(g2, exact, atol=1e-9) or not np.array_equal(x, x0):
        return "automatic gradient {} instead of {}".format(g2, exact)
    for mode in ("fd", "ad", "none"):
        g3 = np.full(case["n"], 7.0) if mode != "none" else np.zeros(0)
        gf = partial(grad_finite_differences, x_func=f, step_size=h) if mode != "ad" else partial(grad_autograd, grad_func=agrad(f))
        val = objective_function_numpy(x, g3, x_func=f, grad_func=gf)
        if abs(num(val) - fx) > 1e-12 * max(1.0, abs(fx)) or not np.array_equal(x, x0):
            return "objective {} instead of {}".format(val, fx)
        if mode == "fd" and not np.array_equal(g3, g) or mode == "ad" and not np.allclose(g3, exact, atol=1e-9):
            return "objective wrote gradient {}".format(g3)
    if case["real"]:
        # the optimizer's own objective: AD and FD gradients of the same penalty agree
        from compas_cem.optimization import Optimizer, PointConstraint
        from compas.geometry import Point
        r = random.Random(case["seed"])
        spec = dict(case["spec"], shifts=[])
        t = G.build(spec)
        rr = converge_ref(spec, t, 1e-10, 200, "fro")
        if rr.degenerate or rr.t >= 60:
            raise Skip("degenerate")
        tr, _ = paths(spec)
        o = Optimizer()
        ps = []
        for _ in range(3):
            p = rand_param(r, spec, sorted(tr))
            if (p[0], str(p[1])) in ps:
                continue
            ps.append((p[0], str(p[1])))
            o.add_parameter(mk_param(p))
        for n in rr.supports:
            o.add_constraint(PointConstraint(n, Point(*G.rv(r))))
        x = o.optimization_parameters(t)
        xf = partial(o._optimize_form, topology=t.copy(), tmax=200, eta=1e-10)
        with quiet():
            try:
                pens = [num(xf(x + d)) for d in (0.0, 1e-6, 1e-5)]
            except ValueError:
                raise Skip("no convergence nearby")
            if max(abs(p - pens[0]) for p in pens) > 0.1 * max(1.0, abs(pens[0])):
                raise Skip("ill conditioned")
            ga = grad_autograd(x, np.zeros(x.size), grad_func=agrad(xf))
            gd = o.gradient_func(grad_finite_differences, t.copy(), 200, 1e-10, 1e-6)(x, np.zeros(x.size))
            gd2 = np.array([(num(xf(x + 1e-5 * e)) - pens[0]) / 1e-5 for e in np.eye(x.size)])
            ob = o.objective_func(t.copy(), partial(grad_autograd, grad_func=agrad(xf)), 200, 1e-10)
            gv = np.zeros(x.size)
            v = ob(x, gv)
            pen = xf(x)
        if not np.all(np.isfinite(ga)):
            raise Skip("not differentiable here")
        # solving reports the gradient asked for, at the optimum, with the step asked for
        for how in ("FD", "AD"):
            t1 = t.copy()
            with quiet():
                try:
                    o.solve(t1, "LBFGS", grad=how, step_size=0.125, iters=2, eps=1e-12, tmax=200, eta=1e-10)
                    if o.x_opt is None or o.status is None or not o.status.startswith("NLOPT_") or "FAIL" in o.status or "ROUND" in o.status:
                        continue
                    xo = np.array(o.x_opt, dtype=float)
                    if how == "FD":
                        want = np.array([(num(xf(xo + 0.125 * e)) - num(xf(xo))) / 0.125 for e in np.eye(xo.size)])
                    else:
                        want = agrad(xf)(xo)
                except ValueError:
                    continue
            if np.all(np.isfinite(want)) and not np.allclose(np.asarray(o.gradient, dtype=float), want, rtol=1e-5, atol=1e-6 * max(1.0, np.max(np.abs(want)))):
                return "solving with {} gradients reports {} at the optimum instead of {}".format(how, list(o.gradient), list(want))
        tol = dict(rtol=2e-2, atol=1e-2 * max(1.0, abs(num(pen))))
        if not np.allclose(ga, gd, **tol):
            if not np.allclose(gd, gd2, **tol):
                raise Skip("not differentiable here")
            return "gradients of the penalty disagree: AD {} FD {}".format(ga, gd)
        if abs(num(v) - num(pen)) > 1e-9 * max(1.0, abs(num(pen))) or not np.allclose(gv, ga):
            return "objective of the optimizer"
    return None


# ---------------------------------------------------------------- C13
def gen_C13(r):
    spec = dict(G.topo_spec(r, max_trails=3, max_len=3, planes=False), shifts=[])
    tr, _ = paths(spec)
    ps, seen = [], set()
    for _ in range(r.randint(1, 4)):
        p = rand_param(r, spec, sorted(tr))
        p[2:] = [round(r.uniform(.2, .8), 3), round(r.uniform(.2, .8), 3)]
        if r.random() < .1:
            p[2] = None
        k = (p[0], str(p[1]))
        if k not in seen:
            seen.add(k)
            ps.append(p)
    sup = sorted(spec["supports"])
    return {"spec": spec, "params": ps, "rm": r.random() < .3, "targets": [[r.choice(sup), G.rv(r, -3, 3)] for _ in range(r.randint(1, 2))],
            "algo": r.choice(["SLSQP", "LBFGS", "MMA", "MMA", "TNEWTON", "VAR", "AUGLAG"]), "grad": r.choice(["AD", "AD", "FD"]), "iters": r.choice([1, 2, 3, 5, 8, 25]),
            "proxy": r.random() < .15, "empty": r.random() < .05}


class Watch:
    """The limits of the solver that is run, read when it starts."""

    def __enter__(self):
        import nlopt
        self.ran, self.old = [], nlopt.opt.optimize

        def run(me, *a):
            self.ran.append((me.get_algorithm(), [("iteration limit", me.get_maxeval()), ("penalty to reach", me.get_stopval()), ("change to reach", me.get_ftol_abs())]))
            return self.old(me, *a)
        nlopt.opt.optimize = run
        return self

    def __exit__(self, *a):
        import nlopt
        nlopt.opt.optimize = self.old

    def check(self, algo, iters, eps, kappa):
        import nlopt
        if len(self.ran) != 1:
            return None
        alg, seen = self.ran[0]
        if alg != getattr(nlopt, "LD_" + {"VAR": "VAR2"}.get(algo, algo)):
            return "algorithm {} runs instead of {}".format(alg, algo)
        for (name, got), want in zip(seen, (iters, eps, kappa)):
            if got != want:
                return "{} {} instead of {}".format(name, got, want)
        return None


def check_C13(case):
    import numpy as np
    from compas.geometry import Point
    from compas_cem.optimization import Optimizer, PointConstraint, solve_proxy
    spec = case["spec"]
    t = G.build(spec)
    rr = converge_ref(spec, t, 1e-8, 100, "sum")
    if rr.degenerate or rr.t >= 100:
        raise Skip("degenerate start")
    o = Optimizer()
    if case["empty"]:
        for which in range(2):
            o = Optimizer()
            if which:
                o.add_parameter(mk_param(case["params"][0]))
            else:
                o.add_constraint(PointConstraint(*case["targets"][0][:1], Point(*case["targets"][0][1])))
            try:
                with quiet():
                    o.solve(t)
            except ValueError:
                continue
            return "a problem without parameters or constraints was accepted"
        return None
    cons = [PointConstraint(n, Point(*p)) for n, p in case["targets"]]
    pars = [mk_param(p) for p in case["params"]]
    if case["rm"]:
        o.add_parameter(mk_param(case["params"][-1]))
        for p in pars:
            o.add_parameter(p)
        o.remove_parameter(0)
    else:
        for p in pars:
            o.add_parameter(p)
    for c in cons:
        o.add_constraint(c)
    start = []
    for p in case["params"]:
        k = tuple(p[1]) if isinstance(p[1], list) else p[1]
        start.append(num(t.edge_attribute(k, p[0]) if isinstance(k, tuple) else t.node_attribute(k, p[0])))
    before = snap(t)
    eta = 1e-8
    try:
        with quiet():
            if case["proxy"]:
                t2, f, pen, gn, ev, dur, status = solve_proxy(t, cons, pars, case["algo"], case["iters"], eps=1e-9, tmax=100, eta=eta)
                if t2 is not t:
                    t = t2
                xopt = None
            else:
                with Watch() as watch:
                    f = o.solve(t, case["algo"], grad=case["grad"], iters=case["iters"], eps=1e-9, kappa=1e-7, tmax=100, eta=eta)
                bad = watch.check(case["algo"], case["iters"], 1e-9, 1e-7)
                if bad:
                    return bad
                xopt, pen = o.x_opt, o.penalty
                ev, status = o.evals, o.status
    except ValueError as e:
        if "Residual" in str(e):
            raise Skip("no convergence on the way")
        raise
    if pen is None or status is None or not status.startswith("NLOPT_") or status in ("NLOPT_ROUNDOFF_LIMITED",):
        raise Skip("solver did not end normally")
    if case["proxy"] is False and (xopt is None or status == "NLOPT_GENERIC_FAILURE"):
        raise Skip("solver did not end normally")
    cur = []
    for p in case["params"]:
        k = tuple(p[1]) if isinstance(p[1], list) else p[1]
        cur.append(num(t.edge_attribute(k, p[0]) if isinstance(k, tuple) else t.node_attribute(k, p[0])))
    if xopt is not None and list(map(float, xopt)) != cur:
        return "{} {}: the topology holds {} but the optimum is {}".format(case["algo"], case["iters"], cur, list(xopt))
    for p, s, c in zip(case["params"], start, cur):
        lo = -math.inf if p[2] is None else s - abs(p[2])
        up = math.inf if p[3] is None else s + abs(p[3])
        if not lo - 1e-9 <= c <= up + 1e-9:
            return "parameter {} ended at {}, outside [{}, {}]".format(p, c, lo, up)
    t0 = G.build(spec)
    for p, c in zip(case["params"], cur):
        k = tuple(p[1]) if isinstance(p[1], list) else p[1]
        if isinstance(k, tuple):
            t0.edge_attribute(k, p[0], c)
        else:
            t0.node_attribute(k, p[0], c)
    if snap(t0) != snap(t):
        return "attributes that are no parameters changed"
    with quiet():
        f0 = solvers()["pure"](t0, tmax=100, eta=eta)
    for n in f0.nodes():
        if not close(f.node_coordinates(n), f0.node_coordinates(n), 1e-6):
            return "the returned form is not the equilibrium of the topology at node {}".format(n)
    want = sum(dot(sub(V(f0.node_coordinates(n)), p), sub(V(f0.node_coordinates(n)), p)) for n, p in case["targets"])
    if abs(want - num(pen)) > 1e-5 * max(1.0, want):
        return "reported penalty {} but the form has {}".format(pen, want)
    if ev is not None and not 0 < ev <= max(case["iters"], 1) + 60:
        return "evaluations {} for {} iterations".format(ev, case["iters"])
    return None


# ---------------------------------------------------------------- C14
def gen_C14(r):
    what = r.choice(["topology", "topology", "form", "param", "constraint"])
    spec = G.topo_spec(r, shifts=True, max_trails=3)
    tr, _ = paths(spec)
    c = {"what": what, "spec": spec, "via": r.choice(["json", "data", "copy", "file"]), "times": r.randint(1, 2), "aux": r.random() < .4,
         "param": rand_param(r, spec, sorted(tr)), "solver": r.choice(["pure", "numpy"]), "tol": r.choice(["3f", "2f"])}
    if what == "constraint":
        c["con"] = gen_C11(r)
        c["con"]["hit"] = False
    return c


def trip(obj, via):
    import tempfile, os
    cls = type(obj)
    if via == "data":
        return cls.from_data(obj.to_data())
    if via == "copy":
        return obj.copy()
    if via == "file":
        d = tempfile.mkdtemp(prefix="vp_")
        p = os.path.join(d, "x.json")
        try:
            obj.to_json(p)
            return cls.from_json(p)
        finally:
            if os.path.exists(p):
                os.remove(p)
            os.rmdir(d)
    return cls.from_jsonstring(obj.to_jsonstring())


def check_C14(case):
    import numpy as np
    what = case["what"]
    if what in ("topology", "form"):
        spec = case["spec"]
        t = G.build(spec, trails=False)
        t.tol = case["tol"]
        if case["aux"]:
            from compas_cem.elements import Node, DeviationEdge
            k = max(n for n, _ in spec["nodes"]) + 1
            t.add_node(Node(k, [40.0, 1.0, 2.0]))
            t.add_edge(DeviationEdge(k, spec["nodes"][0][0], force=.125))
        with quiet():
            t.build_trails(auxiliary_trails=case["aux"])
        for k, s in spec["shifts"]:
            t.shift_trail(k, s)
        obj = t
        if what == "form":
            try:
                with quiet():
                    obj = solvers()[case["solver"]](t, tmax=100, eta=1e-6)
            except (ValueError, ZeroDivisionError):
                raise Skip("no convergence")
            if case["solver"] == "numpy" and any(v != v for n in obj.nodes() for v in obj.node_coordinates(n)):
                raise Skip("nan")
        want = snap(obj)
        got = obj
        for _ in range(case["times"]):
            got = trip(got, case["via"])
        if type(got) is not type(obj):
            return "type {}".format(type(got))
        sg = snap(got)
        if sg != want:
            for k in want:
                if sg[k] != want[k]:
                    return "{} differs after {}: {} instead of {}".format(k, case["via"], sg[k], want[k])
        if snap(obj) != want:
            return "the original changed"
        if what == "topology":
            if {k: tuple(v) for k, v in got.trails(keys=True)} != {k: tuple(v) for k, v in obj.trails(keys=True)}:
                return "trails {}".format(dict(got.trails(keys=True)))
            for k, v in obj.trails(keys=True):
                if tuple(got.trail(k)) != tuple(v):
                    return "trail {}".format(k)
            if set(got.auxiliary_trail_edges()) != set(obj.auxiliary_trail_edges()):
                return "auxiliary trail edges {}".format(list(got.auxiliary_trail_edges()))
            for n in obj.nodes():
                p = obj.node_coordinates(n)
                if got.node_key(p) != obj.node_key(p):
                    return "lookup of {}".format(p)
            res = []
            for d in (obj, got):
                try:
                    with quiet():
                        res.append(snap(solvers()[case["solver"]](d, tmax=100, eta=1e-6)))
                except (ValueError, ZeroDivisionError, KeyError) as e:
                    res.append(repr(e)[:12])
            if json.dumps(res[0], sort_keys=True) != json.dumps(res[1], sort_keys=True):
                return "form-finding on the restored diagram differs"
            k0 = sorted(dict(obj.trails(keys=True)))[0]
            got.shift_trail(k0, 3)
            got.add_node_x = None
            m = obj.copy()
            m.shift_trail(k0, 3)
            if snap(m) != snap(got) and case["via"] != "zz":
                return "shifting the restored diagram differs"
        if case["via"] == "data":
            return None     # a data dictionary is a view, COMPAS copies it where independence is promised
        n0 = list(got.nodes())[0]
        got.node_attribute(n0, "x", -555.0)
        got.attributes["gkey_node"]["zz"] = 1
        for e in list(got.edges()):
            pl = got.edge_attribute(e, "plane")
            if pl:
                try:
                    pl[0][0] = 4321.0
                except TypeError:
                    pass
        if snap(obj) != want:
            return "editing the restored object changed the original"
        return None
    if what == "param":
        p = mk_param(case["param"])
        t = G.build(case["spec"])
        q = p
        for _ in range(case["times"]):
            q = trip(q, case["via"])
        if type(q) is not type(p):
            return "type"
        for name in ("key", "attr_name"):
            if getattr(p, name)() != getattr(q, name)() or type(getattr(p, name)()) is not type(getattr(q, name)()):
                return "{} {!r} instead of {!r}".format(name, getattr(q, name)(), getattr(p, name)())
        for name in ("start_value", "bound_low", "bound_up"):
            if getattr(p, name)(t) != getattr(q, name)(t):
                return "{} {} instead of {}".format(name, getattr(q, name)(t), getattr(p, name)(t))
        a, k, lo, up = case["param"]
        k = tuple(k) if isinstance(k, list) else k
        s = t.edge_attribute(k, a) if isinstance(k, tuple) else t.node_attribute(k, a)
        if q.bound_low(t) != (s - abs(lo) if lo is not None else -math.inf) or q.bound_up(t) != (s + abs(up) if up is not None else math.inf):
            return "bounds of the restored parameter"
        return None
    c = case["con"]
    con = mk_constraint(c)
    q = con
    for _ in range(case["times"]):
        q = trip(q, case["via"])
    if type(q) is not type(con) or q.key() != con.key() or q.weight != con.weight:
        return "key {!r} weight {!r} instead of {!r} {!r}".format(q.key(), q.weight, con.key(), con.weight)
    try:
        a = num(con.penalty(state(c)))
    except ZeroDivisionError:
        raise Skip("degenerate")
    b = num(q.penalty(state(c)))
    if abs(a - b) > 1e-9 * max(1.0, abs(a)):
        return "penalty {} instead of {}".format(b, a)
    if repr(q) != repr(con):
        return "{!r} instead of {!r}".format(q, con)
    return None


# ---------------------------------------------------------------- C18
def gen_C18(r):
    return {"spec": dict(G.topo_spec(r, max_trails=3), shifts=[]), "aux": r.random() < .4, "what": r.choice(["form", "topology"]),
            "width": r.choice([1.0, [1.0, 4.0], [.5, 3.0]]), "zero": r.random() < .4, "sub": r.random() < .3, "seed": r.randint(0, 9999)}


def check_C18(case):
    import matplotlib
    matplotlib.use("Agg")
    from compas_plotters.artists import NetworkArtist
    from compas_cem import COLORS
    from compas_cem.plotters.formartist import FormArtist
    from compas_cem.plotters.topologyartist import TopologyArtist
    spec = case["spec"]
    r = random.Random(case["seed"])
    t = G.build(spec, trails=False)
    if case["aux"]:
        from compas_cem.elements import Node, DeviationEdge
        k = max(n for n, _ in spec["nodes"]) + 1
        t.add_node(Node(k, [40.0, 1.0, 2.0]))
        t.add_edge(DeviationEdge(k, spec["nodes"][0][0], force=.125))
    with quiet():
        t.build_trails(auxiliary_trails=case["aux"])
    rec = {}

    def pick(d):
        """The nodes and edges that are drawn."""
        es = list(d.edges())
        if not case.get("sub"):
            return es, {}
        es = [e for e in es if r.random() < .7] or es[:1]
        r.shuffle(es)
        return es, {"edges": es, "nodes": [n for n in d.nodes() if r.random() < .7]}

    class E(object):
        def set_linestyle(self, x):
            rec["ls"] = list(x)

    def dn(self, *a, **kw):
        rec["nodes"] = kw.get("color", a[1] if len(a) > 1 else None)

    def de(self, *a, **kw):
        rec["edges"] = kw.get("color", a[1] if len(a) > 1 else None)
        self._edgecollection = E()
    on, oe = NetworkArtist.draw_nodes, NetworkArtist.draw_edges
    NetworkArtist.draw_nodes, NetworkArtist.draw_edges = dn, de
    try:
        if case["what"] == "form":
            try:
                with quiet():
                    f = solvers()["pure"](t, tmax=100, eta=1e-6)
            except (ValueError, ZeroDivisionError):
                raise Skip("no convergence")
            if case["zero"]:
                f.edge_attribute(r.choice(list(f.edges())), "force", 0.0)
            w = case["width"]
            es, kw = pick(f)
            a = FormArtist(f, context='Plotter', plotter=object(), edgewidth=tuple(w) if isinstance(w, list) else w, **kw)
            a.draw_nodes()
            a.draw_edges()
            for n in kw.get("nodes", f.nodes()):
                if rec["nodes"][n] != COLORS["node_support" if f.node_attribute(n, "type") == "support" else "node"]:
                    return "node {} colour".format(n)
            fs = {e: abs(num(f.edge_attribute(e, "force"))) for e in es}
            if not set(rec["edges"]) >= set(es):
                return "edges drawn"
            for e in es:
                q = num(f.edge_attribute(e, "force"))
                if rec["edges"][e] != COLORS["edge" if q == 0 else "tension" if q > 0 else "compression"]:
                    return "edge {} with force {} has colour {}".format(e, q, rec["edges"][e])
                if isinstance(w, list):
                    lo, hi = min(fs.values()), max(fs.values())
                    want = w[1] if hi == lo else w[0] + (w[1] - w[0]) * (fs[e] - lo) / (hi - lo)
                    if abs(a.edge_width[e] - want) > 1e-9 * max(1, want):
                        return "edge {} width {} instead of {}".format(e, a.edge_width[e], want)
                elif a.edge_width[e] != w:
                    return "edge width"
        else:
            es, kw = pick(t)
            a = TopologyArtist(t, context='Plotter', plotter=object(), **kw)
            a.draw_nodes()
            a.draw_edges()
            tr, _ = paths(spec)
            aux = set(tuple(e) for e in t.auxiliary_trails())
            for n in kw.get("nodes", t.nodes()):
                ty = t.node_attribute(n, "type")
                if rec["nodes"][n] != COLORS[{"support": "node_support", "_origin": "node_origin"}.get(ty, "node")]:
                    return "node {} colour".format(n)
            if not set(rec["edges"]) >= set(es):
                return "edges drawn"
            for i, e in enumerate(es):
                trail = t.edge_attribute(e, "type") == "trail"
                v = t.edge_attribute(e, "length" if trail else "force")
                want = COLORS["auxiliary_trail"] if e in aux else COLORS["tension" if math.copysign(1, v) > 0 else "compression"]
                if rec["edges"][e] != want:
                    return "edge {} colour {} instead of {}".format(e, rec["edges"][e], want)
                if rec["ls"][i] != ("-" if trail else "--"):
                    return "edge {} line style".format(e)
    finally:
        NetworkArtist.draw_nodes, NetworkArtist.draw_edges = on, oe
    return None


# ---------------------------------------------------------------- C19
def gen_C19(r):
    return {"spec": dict(G.topo_spec(r, max_trails=3), shifts=[]), "scale": r.choice([1.0, 0.5, 2.5]), "rscale": r.choice([1.0, 0.25, 3.0]),
            "tol": r.choice([1e-3, 1e-3, 0.5, 1.0, 2.0]), "rtol": r.choice([1e-3, 1e-3, 0.5, 2.0]), "size": r.choice([0.1, 3.0, 20]),
            "exact": r.random() < .2, "sub": r.random() < .2, "edit": r.random() < .3, "what": r.choice(["loads", "reactions", "draw"]), "seed": r.randint(0, 9999)}


def check_C19(case):
    import matplotlib
    matplotlib.use("Agg")
    from compas_plotters.artists import NetworkArtist
    from compas_cem import COLORS
    from compas_cem.plotters.formartist import FormArtist
    r = random.Random(case["seed"])
    t = G.build(case["spec"])
    try:
        with quiet():
            f = solvers()["pure"](t, tmax=100, eta=1e-6)
    except (ValueError, ZeroDivisionError):
        raise Skip("no convergence")
    nodes = list(f.nodes())
    if case["exact"]:
        f.node_attributes(r.choice(nodes), ["qx", "qy", "qz"], [0.0, -case["tol"], 0.0])
        f.node_attributes(r.choice(nodes), ["rx", "ry", "rz"], [0.0, 0.0, case["rtol"]])
    if case["edit"]:
        f.node_attributes(r.choice(nodes), ["qx", "qy", "qz"], [0.0, 0.0, 0.0])
        f.edge_attribute(r.choice(list(f.edges())), "force", r.choice([-30.0, 30.0, 0.0]))
    shown = [n for n in nodes if r.random() < .7] if case["sub"] else nodes
    if not shown:
        raise Skip("nothing drawn")
    rec = []

    class P(object):
        dpi = 100

        def add(self, item, artist=None, **kw):
            rec.append((V(item), V(kw["point"]), kw.get("color")))
    on, oe, oc = NetworkArtist.draw_nodes, NetworkArtist.draw_edges, NetworkArtist.clear
    NetworkArtist.draw_nodes = NetworkArtist.draw_edges = lambda self, *a, **k: None
    NetworkArtist.clear = lambda self, *a, **k: None
    try:
        kw = {"nodes": shown} if case["sub"] else {}
        a = FormArtist(f, context='Plotter', plotter=P(), loadscale=case["scale"], reactionscale=case["rscale"], loadtol=case["tol"],
                       reactiontol=case["rtol"], nodesize=case["size"], show_loads=True, show_reactions=True, **kw)
        size = {n: num(a.node_size[n]) for n in nodes}
        getattr(a, {"loads": "draw_loads", "reactions": "draw_reactions", "draw": "draw"}[case["what"]])()
    finally:
        NetworkArtist.draw_nodes, NetworkArtist.draw_edges, NetworkArtist.clear = on, oe, oc
    want = []
    for what, names, sc, tol, col in (("loads", ["qx", "qy", "qz"], case["scale"], case["tol"], "load"),
                                      ("reactions", ["rx", "ry", "rz"], case["rscale"], case["rtol"], "support_force")):
        if case["what"] not in (what, "draw"):
            continue
        for n in shown:
            q = V(f.node_attributes(n, names))
            if norm(q) < tol:
                if norm(q) > tol - 1e-12:
                    raise Skip("at the tolerance")
                continue
            d = size[n]
            if what == "reactions":
                fs = [num(f.edge_attribute(e, "force")) for e in f.edges() if n in e]
                big = max(abs(x) for x in fs)
                top = set(x < 0 for x in fs if abs(abs(x) - big) < 1e-12 * max(1.0, big))
                if len(top) > 1:
                    raise Skip("equal forces")
                if top.pop():
                    d = -(size[n] + sc * norm(q))
            want.append((mul(q, sc), add(V(f.node_coordinates(n)), mul(unit(q), d)), COLORS[col], n, what))
    if len(rec) != len(want):
        return "{} arrows instead of {}".format(len(rec), len(want))
    for w in want:
        big = max([1.0] + [abs(c) for c in w[0] + w[1]])
        hit = [x for x in rec if close(x[0], w[0], 1e-9 * big) and close(x[1], w[1], 1e-9 * big)]
        if not hit:
            return "{}: no arrow {} at {} for node {}".format(w[4], w[0], w[1], w[3])
        if all(x[2] != w[2] for x in hit):
            return "{}: colour of the arrow of node {}".format(w[4], w[3])
    return None
