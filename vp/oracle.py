"""Executable oracles of the properties, run against the real code in /repo.

gen(pid, rng) makes a JSON case, check(pid, case) runs the real code and returns None or a message.
They replay counterexamples, cross-check the contracts on every run and are the labelled bounded
stand-in for functions the verifier cannot reach.
"""
import contextlib, copy, io, json, math
from . import gen as G
from .ref import Ref, add, sub, mul, dot, norm, unit

quiet = lambda: contextlib.redirect_stdout(io.StringIO())


class Skip(Exception):
    pass


def solvers():
    from compas_cem.equilibrium import static_equilibrium, static_equilibrium_numpy
    return {"pure": static_equilibrium, "numpy": static_equilibrium_numpy}


class Bad(Exception):
    """Something reported by the code under test is not a number."""


def num(x):
    try:
        v = float(x)
    except (TypeError, ValueError):
        raise Bad("not a number: %s" % repr(x)[:80])
    if v != v:
        raise Bad("a value is NaN")
    return v


def V(x):
    return [num(c) for c in x]


def snap(d):
    """Comparable deep snapshot of a diagram."""
    def conv(o):
        if isinstance(o, dict):
            return {repr(k): conv(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [conv(v) for v in o]
        if hasattr(o, "to_data"):
            return conv(o.to_data())
        if hasattr(o, "tolist"):
            return o.tolist()
        return o
    return {"node": {repr(n): conv(dict(d.node[n])) for n in d.node},
            "order": [repr(n) for n in d.node],
            "edge": {repr(u): {repr(v): conv(dict(d.edge[u][v])) for v in d.edge[u]} for u in d.edge},
            "adj": {repr(u): sorted(repr(v) for v in d.adjacency[u]) for u in d.adjacency},
            "attr": conv(d.attributes), "dn": conv(dict(d.default_node_attributes)),
            "de": conv(dict(d.default_edge_attributes))}


def close(a, b, tol):
    return all(abs(num(x) - num(y)) <= tol for x, y in zip(a, b))


def run_ref(spec, top, sweeps, kmax=None):
    r = Ref(spec, top)
    for _ in range(sweeps):
        r.sweep(kmax)
    return r


def converge_ref(spec, top, eta, tmax, measure, kmax=None):
    r = Ref(spec, top)
    for t in range(tmax):
        r.sweep(kmax)
        m = r.move_sum if measure == "sum" else r.move_fro
        if t > 0 and m < eta:
            break
    return r


# ---------------------------------------------------------------- C01
def gen_C01(r):
    spec = G.topo_spec(r, shifts=True, calm=r.random() < .8, wide=True)
    return {"spec": spec, "solver": r.choice(["pure", "numpy"]), "eta": r.choice([1e-10, 1e-8, 1e-6, 1e-3, 5e-2]) * spec["gs"], "tmax": 400}


def form_for(case, need=True):
    t = G.build(case["spec"])
    eta, tmax = case.get("eta", 1e-8), case.get("tmax", 400)
    r = converge_ref(case["spec"], t, eta, tmax, "sum" if case["solver"] == "pure" else "fro")
    if r.degenerate:
        raise Skip("degenerate")
    try:
        with quiet():
            f = solvers()[case["solver"]](t, tmax=tmax, eta=eta)
    except ValueError:
        if (r.move_sum if case["solver"] == "pure" else r.move_fro) > eta * .99:
            raise Skip("no convergence")
        raise
    return t, f, r


def check_C01(case):
    t, f, r = form_for(case)
    ind = any(not d for n in r.inc for _, _, d in r.inc[n])
    X = {n: V(f.node_coordinates(n)) for n in f.nodes()}
    F = {e: num(f.edge_attribute(e, "force")) for e in f.edges()}
    scale = max([r.fs] + [abs(x) for x in F.values()] + [norm(V(f.node_load(n))) for n in f.nodes()])
    for n in f.nodes():
        # the load and the deviation forces are those of the problem statement, not what the form says they are
        s = list(r.load[n])
        tol = 1e-7 * scale * (1 + len(F))
        reac = V(f.node_attributes(n, ["rx", "ry", "rz"]))
        if n in r.supports:
            s = add(s, reac)
        elif norm(reac) > 0:
            return "node {} is no support but has reaction {}".format(n, reac)
        for (u, v), q in F.items():
            if n not in (u, v):
                continue
            o = v if u == n else u
            d = sub(X[o], X[n])
            if (u, v) in r.dev:
                q = r.dev[(u, v)]
                if r.seq[o] > r.seq[n]:
                    tol += abs(q) * 2.05 * case["eta"] / max(norm(d), 1e-9 * r.gs)
            s = add(s, mul(unit(d), q))
        if norm(s) > tol:
            return "node {} is not balanced: residual {} (tolerance {:.3g})".format(n, s, tol)
    if set(X) != set(r.X):
        return "nodes of the form differ"
    return None


# ---------------------------------------------------------------- C02
def gen_C02(r):
    spec = G.topo_spec(r, shifts=True, plane_p=.5, wide=True)
    return {"spec": spec, "solver": r.choice(["pure", "numpy"]), "eta": r.choice([1e-9, 1e-6, 1e-2]) * spec["gs"], "tmax": 300}


def check_C02(case):
    t, f, r = form_for(case)
    X = {n: V(f.node_coordinates(n)) for n in f.nodes()}
    sc, fsc = r.gbig(), r.fbig()
    tol = 1e-7 * sc
    for key, tr in r.trails:
        if not close(X[tr[0]], r.xyz0[tr[0]], 0.0):
            return "origin node {} moved to {}".format(tr[0], X[tr[0]])
        for a, b in zip(tr, tr[1:]):
            e = r.edge(a, b)
            L, force = r.trail_len[e], num(f.edge_attribute(e, "force"))
            stored = num(f.edge_attribute(e, "length"))
            d = sub(X[b], X[a])
            if force == 0.0:
                continue
            sg = math.copysign(1.0, force)
            used = sg * norm(d)
            if abs(stored - used) > tol:
                return "edge {} stores length {} but spans {}".format(e, stored, used)
            pl = r.plane[e]
            want = L
            if pl is not None:
                o, nn = pl
                c = dot(nn, unit(mul(d, sg)))
                if abs(c) >= 1e-4:
                    want = None
                    if abs(dot(nn, sub(X[b], o))) > 1e-6 * sc * max(1.0, norm(nn)):
                        if abs(norm(d) - abs(L)) > tol or abs(dot(nn, sub(o, X[a]))) > 1e-6 * r.gs:
                            return "edge {}: end {} is not on its plane".format(e, b)
                elif abs(c) > 1e-8:
                    continue
            if want is not None and abs(used - want) > tol:
                return "edge {} has signed length {}, prescribed {}".format(e, used, want)
    for e, q in r.dev.items():
        fq, ln = num(f.edge_attribute(e, "force")), num(f.edge_attribute(e, "length"))
        if fq != q:
            return "deviation edge {} has force {}, prescribed {}".format(e, fq, q)
        if abs(ln - math.copysign(norm(sub(X[e[0]], X[e[1]])), q)) > tol:
            return "deviation edge {} stores length {}".format(e, ln)
    # positions against the reference sweep
    for n in X:
        if not close(X[n], r.X[n], 1e-6 * sc + 3 * case["eta"]):
            return "node {} at {}, expected {}".format(n, X[n], r.X[n])
    for e, q in r.F.items():
        if abs(num(f.edge_attribute(e, "force")) - q) > 1e-6 * fsc + 30 * case["eta"] / r.gs * fsc:
            return "trail force of {}: {}, expected {}".format(e, f.edge_attribute(e, "force"), q)
    return None


# ---------------------------------------------------------------- C03
def gen_C03(r):
    spec = G.topo_spec(r, shifts=True, wide=True)
    return {"spec": spec, "mode": r.choice(["one", "two", "conv"]), "eta": r.choice([1e-9, 1e-6, 1e-4]) * spec["gs"]}


def check_C03(case):
    t = G.build(case["spec"])
    kw = {"one": dict(tmax=1, eta=1e9), "two": dict(tmax=2, eta=1e9), "conv": dict(tmax=300, eta=case["eta"])}[case["mode"]]
    n = {"one": 1, "two": 2, "conv": 300}[case["mode"]]
    r = converge_ref(case["spec"], t, kw["eta"], n, "sum")
    r2 = converge_ref(case["spec"], t, kw["eta"], n, "fro")
    if r.degenerate or r2.degenerate:
        raise Skip("degenerate")
    out = {}
    for s, fn in solvers().items():
        try:
            with quiet():
                out[s] = fn(t, **kw)
        except ValueError:
            raise Skip("no convergence")
    a, b = out["pure"], out["numpy"]
    same = r.t == r2.t
    rel = 1e-8 if same else 1e-6 + 100 * case["eta"] / r.gs
    gtol, ftol = rel * r.gbig(), rel * r.fbig()
    if set(a.nodes()) != set(b.nodes()) or set(a.edges()) != set(b.edges()):
        return "the two forms have different nodes or edges"
    for k in a.nodes():
        for names in (["x", "y", "z"], ["rx", "ry", "rz"], ["qx", "qy", "qz"]):
            x, y = V(a.node_attributes(k, names)), V(b.node_attributes(k, names))
            if not close(x, y, gtol if names[0] == "x" else ftol):
                return "node {} {}: pure {} numpy {}".format(k, names, x, y)
    for e in a.edges():
        for name in ("force", "length"):
            x, y = num(a.edge_attribute(e, name)), num(b.edge_attribute(e, name))
            if abs(x - y) > (gtol if name == "length" else ftol):
                return "edge {} {}: pure {} numpy {}".format(e, name, x, y)
    return None


# ---------------------------------------------------------------- C04
def gen_C04(r):
    spec = G.topo_spec(r, shifts=True, calm=r.random() < .5, planes=r.random() < .3, wide=True)
    return {"spec": spec, "solver": r.choice(["pure", "numpy"]), "tmax": r.choice([1, 2, 3, 4, 6, 10, 30]),
            "eta": r.choice([1e-8, 1e-6, 1e-3, 1e-1, .5, 2.0, 1e9]) * spec["gs"], "verbose": r.random() < .3, "empty": r.random() < .05,
            "mode": r.choice([None] * 6 + ["default", "exact"])}


def check_C04(case):
    s = solvers()[case["solver"]]
    if case.get("empty"):
        from compas_cem.diagrams import TopologyDiagram
        for t in (TopologyDiagram(), G.build(case["spec"], trails=False)):
            try:
                with quiet():
                    s(t)
            except (AssertionError, ValueError):
                continue
            except Exception as e:
                return "diagram without trails: {!r} instead of a refusal".format(e)
            return "diagram without trails was accepted"
        return None
    t = G.build(case["spec"])
    meas = "sum" if case["solver"] == "pure" else "fro"
    eta, tmax = case["eta"], case["tmax"]
    mode = case.get("mode")
    limits = dict(tmax=tmax, eta=eta)
    if mode == "default":
        tmax, eta, limits = 100, 1e-6, {}
    elif mode == "exact":
        # nothing moves after the first iteration: a movement of exactly eta = 0
        if t.number_of_indirect_deviation_edges():
            raise Skip("indirect edges")
        limits["eta"] = 0.0
        count = [0]

        def tick():
            count[0] += 1
        r = Ref(case["spec"], t)
        r.sweep()
        if r.degenerate:
            raise Skip("degenerate")
        try:
            with quiet():
                s(t, verbose=case["verbose"], callback=tick, **limits)
        except ValueError as e:
            return "raised {!r} although nothing moves".format(e)
        if count[0] != r.calls * tmax:
            return "eta 0: ran {} trail steps, expected {} iterations of {}".format(count[0], tmax, r.calls)
        return None
    r = Ref(case["spec"], t)
    moves = []
    for i in range(tmax):
        r.sweep()
        moves.append(r.move_sum if meas == "sum" else r.move_fro)
        if abs(moves[-1] - eta) < 1e-3 * eta + 1e-9 * r.gs:
            raise Skip("too close to eta")
        if i > 0 and moves[-1] < eta:
            break
    if r.degenerate:
        raise Skip("degenerate")
    count = [0]

    def cb():
        count[0] += 1
    raised = None
    try:
        with quiet():
            f = s(t, verbose=case["verbose"], callback=cb, **limits)
    except ValueError as e:
        raised = e
    want_raise = len(moves) > 1 and moves[-1] > eta
    if want_raise and raised is None:
        return "returned a form although the last of {} iterations moved the nodes by {} > eta {}".format(len(moves), moves[-1], eta)
    if raised is not None and not want_raise:
        return "raised {!r} although the movements are {} with eta {}".format(raised, moves[-3:], eta)
    if count[0] != r.calls * len(moves):
        return "ran {} trail steps, expected {} iterations of {}".format(count[0], len(moves), r.calls)
    if raised is None:
        for n in f.nodes():
            if not close(V(f.node_coordinates(n)), r.X[n], 1e-6 * r.gbig()):
                return "node {} is not at its position after {} iterations".format(n, len(moves))
        if case["verbose"]:
            with quiet():
                g = s(t, **limits)
            if snap(f) != snap(g):
                return "verbose changes the result"
    return None


# ---------------------------------------------------------------- C05
def gen_C05(r):
    return {"spec": G.topo_spec(r, shifts=True, wide=True), "kmax": [r.choice([None, None, 0, 1, 2]) for _ in range(3)], "order": [r.choice(["pure", "numpy"]) for _ in range(3)], "seed": r.randint(0, 9999)}


def check_C05(case):
    t = G.build(case["spec"])
    before = snap(t)
    forms = {}
    for s, kmax in zip(case["order"], case["kmax"]):
        kw = {} if s == "numpy" or kmax is None else {"kmax": kmax}
        run = s
        s = s + str(kw)
        try:
            with quiet():
                f = solvers()[run](t, tmax=60, eta=1e-6, **kw)
        except (ValueError, ZeroDivisionError):
            if snap(t) != before:
                return "a failing computation changed the topology"
            continue
        if snap(t) != before:
            return "form-finding changed the topology diagram"
        sf = snap(f)
        if s in forms and json.dumps(forms[s], sort_keys=True) != json.dumps(sf, sort_keys=True):
            return "repeating the computation gives another form"
        forms[s] = sf
        r = Ref(case["spec"], t)
        if list(map(repr, f.nodes())) != before["order"] or set(f.edges()) != set(t.edges()):
            return "the form has other nodes or edges"
        for n in t.nodes():
            if f.node_attribute(n, "type") != t.node_attribute(n, "type") or f.node_attribute(n, "_k") != t.node_attribute(n, "_k"):
                return "node {}: kind or sequence differs".format(n)
            if V(f.node_load(n)) != V(r.load[n]):
                return "node {}: load {} instead of {}".format(n, f.node_load(n), r.load[n])
            if f.is_node_support(n) != (n in r.supports):
                return "node {}: support flag".format(n)
        for e in t.edges():
            if f.edge_attribute(e, "type") != t.edge_attribute(e, "type"):
                return "edge {}: kind differs".format(e)
        # editing the form does not reach the topology
        for n in list(f.nodes())[:2]:
            f.node_attributes(n, ["x", "qx", "type"], [99.0, 77.0, "support"])
        for e in list(f.edges())[:2]:
            f.edge_attribute(e, "force", 55.0)
            p = f.edge_attribute(e, "plane")
            if p:
                p[0][0] = 1234.5
        f.attributes["gkey_node"]["zzz"] = 5
        f.delete_node(list(f.nodes())[0])
        if snap(t) != before:
            return "editing the form changed the topology diagram"
    return None
