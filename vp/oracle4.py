"""Oracles C20, C21 (Grasshopper components and artists, run outside Grasshopper with stand-ins)."""
import os, random, shutil, tempfile
from . import gen as G
from . import ghstub as gh
from .oracle import Skip, num, snap, close, V, quiet, solvers
from .oracle2 import paths
from .ref import add, sub, mul, norm, unit

PARAMS = ["ParameterNodeOriginX", "ParameterNodeOriginY", "ParameterNodeOriginZ", "ParameterNodeLoadX", "ParameterNodeLoadY", "ParameterNodeLoadZ",
          "ParameterTrailEdge", "ParameterDeviationEdge"]
CLS = {"ParameterNodeOrigin": "OriginNode%sParameter", "ParameterNodeLoad": "NodeLoad%sParameter"}
CONS = {"ConstraintNodePoint": ("PointConstraint", "point", 1), "ConstraintNodeLine": ("LineConstraint", "line", 2), "ConstraintNodePlane": ("PlaneConstraint", "plane", 3),
        "ConstraintNodePolyline": ("PolylineConstraint", "polyline", 4), "ConstraintReactionForce": ("ReactionForceConstraint", "vector", 5),
        "ConstraintEdgeDirection": ("EdgeDirectionConstraint", "vector", 5), "ConstraintTrailEdgeForce": ("TrailEdgeForceConstraint", "force", 0),
        "ConstraintDeviationEdgeLength": ("DeviationEdgeLengthConstraint", "length", 0)}
REST = ["EdgeTrail", "EdgeDeviation", "NodeLoad", "NodeSupport", "FormFinding", "ConstrainedFormFinding", "TrailsShift", "OriginNodesMove", "DisassembleTopology",
        "DisassembleForm", "ResultsEdges", "ResultsSupportNodes", "SearchNodeKey", "SearchEdgeKey", "JSON"]


def gen_C20(r):
    comp = r.choice(PARAMS + list(CONS) + REST * 2 + ["TopologyDiagram"] * 8)
    spec = dict(G.topo_spec(r, max_trails=3), shifts=[])
    return {"comp": comp, "spec": spec, "seed": r.randint(0, 99999), "drop": r.random() < .25}


def plain(o):
    """Content of a library object, to compare with."""
    if isinstance(o, dict):
        return {k: plain(v) for k, v in o.items()}
    if hasattr(o, "__dict__") and type(o).__module__.startswith("compas_cem"):
        return [type(o).__name__, {k: plain(v) for k, v in vars(o).items() if k not in ("_guid", "_name", "_jsondefinitions", "_JSONSCHEMA", "_jsonvalidator")}]
    if hasattr(o, "to_data"):
        return [type(o).__name__, plain(o.to_data())]
    if hasattr(o, "tolist"):
        return plain(o.tolist())
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    return o


def run(comp, **inputs):
    ins, outs = gh.ports(comp)
    if set(ins) != set(inputs):
        if len(ins) != len(inputs):
            raise Skip("other inputs")
        ins = list(inputs)
    with quiet():
        r = gh.component(comp)().RunScript(*[inputs[k] for k in ins])
    if len(outs) == 1:
        return r
    return {k: None for k in outs} if r is None else dict(zip(outs, list(r)))


def check_C20(case):
    comp, r = case["comp"], random.Random(case["seed"])
    if comp in PARAMS:
        return parameter(case, comp, r)
    if comp in CONS:
        return constraint(case, comp, r)
    return globals()["do_" + comp](case, r)


def parameter(case, comp, r):
    import compas_cem.optimization as O
    if comp.endswith("Edge"):
        cls, name, key = getattr(O, comp[len("Parameter"):] + "Parameter"), "edge_key", (r.choice([0, 2, 5]), r.choice([0, 1, 7]))
    else:
        cls, name, key = getattr(O, CLS[comp[:-1]] % comp[-1]), "node_key", r.choice([0, 0, 1, 4])
    if case["drop"]:
        key = None
    lo, up = (r.choice([None, 0.0, 0.5, -1.25, 3]) for _ in range(2))
    got = run(comp, **{name: key, "bound_low": lo, "bound_up": up})
    want = None if key is None else cls(key, lo, up)
    if plain(got) != plain(want):
        return "%s(%s, %s, %s) is %s instead of %s" % (comp, key, lo, up, plain(got), plain(want))


def target(r, kind):
    from compas.geometry import Point, Vector, Line, Plane, Polyline
    v = lambda: G.rv(r)
    return [lambda: r.choice([0.0, 1.5, -2.0]), lambda: Point(*v()), lambda: Line(v(), v()), lambda: Plane(v(), [0.0, 0.6, 0.8]),
            lambda: Polyline([v(), v(), v()]), lambda: Vector(*v())][kind]()


def constraint(case, comp, r):
    import compas_cem.optimization as O
    cname, tname, kind = CONS[comp]
    if tname in ("point", "line", "plane", "polyline") or comp == "ConstraintReactionForce":
        name, key = "node_key", r.choice([0, 0, 3])
    else:
        name, key = "edge_key", (r.choice([0, 2]), r.choice([1, 5]))
    t = target(r, kind)
    w = r.choice([None, 0.5, 2.0, 10.0])
    g = gh.Geometry(t) if kind else t
    if case["drop"]:
        if r.random() < .5:
            key = None
        else:
            g = None
    got = run(comp, **{name: key, tname: g, "weight": w})
    want = None if key is None or g is None else getattr(O, cname)(key, t, 1.0 if w is None else w)
    if plain(got) != plain(want):
        return "%s: %s instead of %s" % (comp, plain(got), plain(want))


def lines(spec):
    from compas.geometry import Line
    at = {k: list(x) for k, x in spec["nodes"]}
    return at, lambda e: Line(at[e[1]], at[e[2]])


def do_EdgeTrail(case, r):
    from compas_cem.elements import TrailEdge
    t, pl, n = target(r, 2), target(r, 3), r.choice([0.0, 1.0, -2.5])
    line, plane, length = gh.Geometry(t), r.choice([None, gh.Geometry(pl)]), n
    if case["drop"]:
        line, length = r.choice([(None, n), (line, None)])
    got = run("EdgeTrail", line=line, length=length, plane=plane)
    want = None if line is None or length is None else TrailEdge(t[0], t[1], length=n, plane=None if plane is None else pl)
    if plain(got) != plain(want):
        return "trail edge: %s instead of %s" % (plain(got), plain(want))


def do_EdgeDeviation(case, r):
    from compas_cem.elements import DeviationEdge
    t, n = target(r, 2), r.choice([0.0, 1.0, -2.5])
    line, force = gh.Geometry(t), n
    if case["drop"]:
        line, force = r.choice([(None, n), (line, None)])
    got = run("EdgeDeviation", line=line, force=force)
    want = None if line is None or force is None else DeviationEdge(t[0], t[1], force=n)
    if plain(got) != plain(want):
        return "deviation edge: %s instead of %s" % (plain(got), plain(want))


def do_NodeLoad(case, r):
    from compas_cem.loads import NodeLoad
    p, q = target(r, 1), target(r, 5)
    a, b = gh.Geometry(p), gh.Geometry(q)
    if case["drop"]:
        a, b = r.choice([(None, b), (a, None)])
    got = run("NodeLoad", point=a, vector=b)
    want = None if a is None or b is None else NodeLoad.from_point_and_vector(p, q)
    if plain(got) != plain(want):
        return "load: %s instead of %s" % (plain(got), plain(want))


def do_NodeSupport(case, r):
    from compas_cem.supports import NodeSupport
    p = target(r, 1)
    a = None if case["drop"] else gh.Geometry(p)
    got = run("NodeSupport", point=a)
    want = None if a is None else NodeSupport.from_point(p)
    if plain(got) != plain(want):
        return "support: %s instead of %s" % (plain(got), plain(want))


def do_TopologyDiagram(case, r):
    from compas.geometry import Point, Vector
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.elements import TrailEdge, DeviationEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    spec = case["spec"]
    at, line = lines(spec)

    def parts(kind):
        if kind == "trail":
            xs = [TrailEdge.from_line(line(e), length=e[3]) for e in spec["edges"] if e[0] == "trail"]
        elif kind == "dev":
            xs = [DeviationEdge.from_line(line(e), force=e[3]) for e in spec["edges"] if e[0] != "trail"]
        elif kind == "load":
            xs = [NodeLoad.from_point_and_vector(Point(*at[k]), Vector(*v)) for k, v in spec["loads"]]
            if xs and r.random() < .5:
                # a second load on the same node takes its place
                k, v = r.choice(spec["loads"])
                xs.append(NodeLoad.from_point_and_vector(Point(*at[k]), Vector(*r.choice([[0.0, 0.0, 0.0], [0.5, -1.0, 2.0]]))))
        else:
            xs = [NodeSupport.from_point(Point(*at[k])) for k in spec["supports"]]
        return xs
    lists = {k: parts(k) for k in ("trail", "dev", "load", "support")}
    for k, xs in lists.items():
        for _ in range(r.choice([0, 0, 1, 2])):
            if xs:
                xs.insert(r.randint(1, len(xs)), None)
    aux = r.choice([None, False, False, True])
    if case["drop"]:
        k = r.choice(["dev", "load", "support", "trail"])
        lists[k] = r.choice([None, []])
    want = TopologyDiagram()
    err = None
    try:
        with quiet():
            for k in ("trail", "dev"):
                for e in lists[k] or []:
                    if e is not None:
                        want.add_edge(e)
            for e in lists["load"] or []:
                if e is not None:
                    want.add_load(e)
            for e in lists["support"] or []:
                if e is not None:
                    want.add_support(e)
            if (lists["trail"] and lists["support"]) or (lists["dev"] and aux):
                want.build_trails(bool(aux))
    except Exception as e:
        err = type(e)
    ins = dict(trail_edges=lists["trail"], deviation_edges=lists["dev"], loads=lists["load"], supports=lists["support"], add_auxiliary_trails=aux)
    if err is not None:
        try:
            run("TopologyDiagram", **ins)
        except err:
            return None
        return "a topology that the library refuses with %s is accepted" % err.__name__
    got = run("TopologyDiagram", **ins)
    if snap(got) != snap(want):
        a, b = snap(got), snap(want)
        return "assembled diagram differs in %s" % [k for k in a if a[k] != b[k]]


def formed(case):
    t = G.build(case["spec"])
    try:
        with quiet():
            return t, solvers()["pure"](t, tmax=100, eta=1e-6)
    except (ValueError, ZeroDivisionError):
        raise Skip("no convergence")


def do_FormFinding(case, r):
    from compas_cem.equilibrium import static_equilibrium
    t = G.build(case["spec"])
    tmax, eta, kmax = r.choice([None, 1, 3, 200]), r.choice([None, 1e-3, 10.0]), r.choice([None, None, 1, 2])
    a = {}
    for k, v in (("tmax", tmax), ("eta", eta), ("kmax", kmax)):
        if v is not None:
            a[k] = v

    def go(f):
        try:
            with quiet():
                return plain_form(f())
        except Exception as e:
            return type(e).__name__
    want = go(lambda: static_equilibrium(G.build(case["spec"]), kmax=kmax, tmax=tmax or 100, eta=eta or 1e-6))
    got = go(lambda: run("FormFinding", topology=None if case["drop"] else t, kmax=kmax, tmax=tmax, eta=eta))
    if got != (None if case["drop"] else want):
        return "form finding with %s gives another form" % a


def plain_form(f):
    return None if f is None else snap(f)


def do_ConstrainedFormFinding(case, r):
    import compas_cem.optimization as O
    spec = case["spec"]
    t = G.build(spec)
    tr, _ = paths(spec)
    n = r.choice(spec["nodes"])[0]
    cons = [None, O.PointConstraint(n, G.rv(r))][r.randint(0, 1):] + [None] * r.randint(0, 1)
    pars = [None] * r.randint(0, 1) + [O.OriginNodeZParameter(list(tr.values())[0][0] if isinstance(tr, dict) else tr[0][0], 1.0, 1.0)] + [None] * r.randint(0, 1)
    opts = {"algorithm": r.choice([None, "MMA", "LBFGS"]), "iters_max": r.choice([None, 5]), "eps": r.choice([None, 1e-3]), "kappa": r.choice([None, 1e-5]),
            "tmax": r.choice([None, 7]), "eta": r.choice([None, 1e-4])}
    ins = {"solve": True, "topology": t, "constraints": cons, "parameters": pars}
    if case["drop"]:
        k = r.choice(sorted(ins))
        ins[k] = {"solve": False}.get(k, None)
    seen, stops = [], []
    out = ["topology!", "form!", 1.5, 2.5, 3, 4.5, "ok"]

    class P(object):
        def __init__(self, *a, **k):
            seen.append("made")

        def solve_proxy(self, topology=None, constraints=None, parameters=None, algorithm=None, iters=None, eps=None, kappa=None, tmax=None, eta=None):
            seen.append(dict(topology=topology, constraints=constraints, parameters=parameters, algorithm=algorithm, iters=iters, eps=eps, kappa=kappa, tmax=tmax, eta=eta))
            return out

        def stop_server(self):
            seen.append("stopped")
    running = r.random() < .5
    before = snap(t)
    cls = gh.component("ConstrainedFormFinding")
    globs = cls.RunScript.__globals__
    if "Proxy" not in globs:
        raise Skip("no proxy")
    old = globs["Proxy"]
    gh.sticky.clear()
    if running:
        gh.sticky["proxy_cem"] = P()
        del seen[:]
    globs["Proxy"] = P
    try:
        got = run("ConstrainedFormFinding", **dict(ins, **opts))
    finally:
        globs["Proxy"] = old
        gh.sticky.clear()
    if snap(t) != before:
        return "the given diagram is changed"
    calls = [x for x in seen if isinstance(x, dict)]
    if case["drop"]:
        return "solved although something is missing" if calls or any(v is not None for v in got.values()) else None
    if len(calls) != 1:
        return "%d problems solved" % len(calls)
    c = calls[0]
    if c["topology"] is t or snap(c["topology"]) != before:
        return "the diagram solved is not a copy of the given one"
    if list(c["constraints"]) != [x for x in cons if x is not None] or list(c["parameters"]) != [x for x in pars if x is not None]:
        return "constraints or parameters are not those given"
    for k, n_, d in (("algorithm", "algorithm", "SLSQP"), ("iters_max", "iters", 100), ("eps", "eps", 1e-6), ("kappa", "kappa", 1e-8), ("tmax", "tmax", 100), ("eta", "eta", 1e-6)):
        if c[n_] != (d if opts[k] is None else opts[k]):
            return "%s is %s" % (n_, c[n_])
    if [got[k] for k in ("topology", "form", "objective", "grad_norm", "iters", "time", "status")] != out:
        return "outputs %s" % got
    if seen.count("made") != (0 if running else 1) or seen.count("stopped") != (0 if running else 1):
        return "proxy: %s" % [x for x in seen if not isinstance(x, dict)]
    if "stopped" in seen and seen.index("stopped") < [i for i, x in enumerate(seen) if isinstance(x, dict)][0]:
        return "proxy stopped too early"


def do_TrailsShift(case, r):
    t, o = G.build(case["spec"]), G.build(case["spec"])
    keys = list(t.origin_nodes())
    if r.random() < .5:
        r.shuffle(keys)
        keys = keys[:r.randint(1, len(keys))]
    seqs = [r.choice([0, 1, 2]) for _ in range(r.randint(1, len(keys) + 1))]
    ins = {"topology": t, "origin_node_keys": keys, "sequences": seqs}
    if case["drop"]:
        k = r.choice(sorted(ins))
        ins[k] = r.choice([None, []]) if k != "topology" else None
    before = snap(t)
    full = (seqs + [seqs[-1]] * len(keys))[:len(keys)]
    try:
        for k, s in zip(keys, full):
            o.shift_trail(k, s)
    except Exception:
        raise Skip("shift refused")
    got = run("TrailsShift", **ins)
    if snap(t) != before:
        return "the given diagram is changed"
    if case["drop"]:
        return None if got is None else "something is returned"
    if got is t or diagram_of(got) != diagram_of(o):
        return "the shifted diagram differs"


def diagram_of(d):
    if d is None:
        return None
    s = snap(d)
    return {k: s[k] for k in ("node", "edge", "adj")}


def do_OriginNodesMove(case, r):
    from compas.geometry import Point
    t, o = G.build(case["spec"]), G.build(case["spec"])
    keys = list(t.origin_nodes())
    if r.random() < .5:
        r.shuffle(keys)
        keys = keys[:r.randint(1, len(keys))]
    pts = [Point(*G.rv(r)) for _ in range(r.randint(1, len(keys) + 1))]
    ins = {"topology": t, "origin_node_keys": keys, "points": [gh.Geometry(p) for p in pts]}
    if case["drop"]:
        k = r.choice(sorted(ins))
        ins[k] = r.choice([None, []]) if k != "topology" else None
    before = snap(t)
    for k, p in zip(keys, (pts + [pts[-1]] * len(keys))[:len(keys)]):
        o.node_attributes(k, "xyz", list(p))
    got = run("OriginNodesMove", **ins)
    if snap(t) != before:
        return "the given diagram is changed"
    if case["drop"]:
        return None if got is None else "something is returned"
    if got is t or diagram_of(got) != diagram_of(o):
        return "the moved diagram differs"


TOPO = {"node_keys": "nodes", "origin_node_keys": "origin_nodes", "support_node_keys": "support_nodes", "edge_keys": "edges", "trail_edge_keys": "trail_edges",
        "deviation_edge_keys": "deviation_edges", "sequence_keys": "sequences", "trail_keys": "trails", "auxiliary_trail_keys": "auxiliary_trails"}


def do_DisassembleTopology(case, r):
    t = G.build(case["spec"])
    got = run("DisassembleTopology", topology=None if case["drop"] else t)
    for k, m in TOPO.items():
        want = None if case["drop"] else list(getattr(t, m)())
        if plain(got[k]) != plain(want):
            return "%s: %s instead of %s" % (k, got[k], want)


def do_DisassembleForm(case, r):
    t, f = formed(case)
    got = run("DisassembleForm", form=None if case["drop"] else f)
    for k in ("node_keys", "support_node_keys", "edge_keys"):
        want = None if case["drop"] else list(getattr(f, TOPO[k])())
        if plain(got[k]) != plain(want):
            return "%s: %s instead of %s" % (k, got[k], want)


def pick(r, xs):
    xs = list(xs)
    how = r.random()
    if how < .3:
        return r.choice([None, []])
    r.shuffle(xs)
    xs = xs[:r.randint(1, len(xs))]
    return xs + xs[:1] if how > .8 else xs


def do_ResultsEdges(case, r):
    t, f = formed(case)
    keys = pick(r, f.edges())
    got = run("ResultsEdges", form=None if case["drop"] else f, edge_keys=keys)
    if case["drop"]:
        return None if got["lengths"] is None and got["forces"] is None else "something is returned"
    ks = keys or list(f.edges())
    if [num(x) for x in got["lengths"]] != [num(f.edge_attribute(k, "length")) for k in ks]:
        return "lengths"
    if [num(x) for x in got["forces"]] != [num(f.edge_attribute(k, "force")) for k in ks]:
        return "forces"


def do_ResultsSupportNodes(case, r):
    t, f = formed(case)
    keys = pick(r, f.support_nodes())
    got = run("ResultsSupportNodes", form=None if case["drop"] else f, support_node_keys=keys)
    if case["drop"]:
        return None if got is None else "something is returned"
    ks = keys or list(f.support_nodes())
    want = [f.node_attributes(k, ["rx", "ry", "rz"]) for k in ks]
    if [[num(c) for c in p] for p in got] != [[num(c) for c in p] for p in want]:
        return "reactions %s instead of %s" % (got, want)


def do_SearchNodeKey(case, r):
    from compas.geometry import Point
    t = G.build(case["spec"])
    at = dict((k, x) for k, x in case["spec"]["nodes"])
    k = r.choice(sorted(at))
    p = [c + r.choice([0.0, 1e-5]) for c in at[k]]
    want = t.node_key(p)
    if want is None:
        raise Skip("no node there")
    d, g = t, gh.Geometry(Point(*p))
    if case["drop"]:
        d, g = r.choice([(None, g), (d, None)])
        want = None
    got = run("SearchNodeKey", diagram=d, point=g)
    if got != want:
        return "node %s instead of %s" % (got, want)


def do_SearchEdgeKey(case, r):
    at, line = lines(case["spec"])
    t = G.build(case["spec"])
    e = r.choice(case["spec"]["edges"])
    want = [(t.node_key(at[e[1]]), t.node_key(at[e[2]]))]
    d, g = t, gh.Geometry(line(e))
    if case["drop"]:
        d, g = r.choice([(None, g), (d, None)])
        want = None
    got = run("SearchEdgeKey", diagram=d, line=g)
    if plain(got) != plain(want):
        return "edge %s instead of %s" % (got, want)


def do_JSON(case, r):
    from compas_cem.diagrams import TopologyDiagram, FormDiagram
    form = r.random() < .5
    d = formed(case)[1] if form else G.build(case["spec"])
    tmp = tempfile.mkdtemp()
    try:
        p = os.path.join(tmp, "d.json")
        if case["drop"]:
            got = run("JSONExportDiagram", diagram=d, filepath=None)
            return None if got is None and run("JSONImportForm", filepath=None) is None and run("JSONImportTopology", filepath=None) is None else "something is returned"
        got = run("JSONExportDiagram", diagram=d, filepath=p)
        if plain(got) != plain(d.data):
            return "data"
        back = run("JSONImportForm" if form else "JSONImportTopology", filepath=p)
        if type(back) is not (FormDiagram if form else TopologyDiagram):
            return "%s is read" % type(back).__name__
        want = type(d).from_json(p)
        if snap(back) != snap(want):
            return "the diagram read differs"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- C21
def gen_C21(r):
    return {"spec": dict(G.topo_spec(r, max_trails=3), shifts=[]), "form": r.random() < .5, "scale": r.choice([1.0, 0.5, 2.5]), "gap": r.choice([0.0, 0.0, 0.3]),
            "tol": r.choice([1e-3, 0.5, 1.0, 2.0]), "sub": r.choice([None, None, "some", "some", "kind", "few"]), "via": r.random() < .3,
            "exact": r.random() < .2, "edit": r.random() < .3, "bare": r.random() < .15, "seed": r.randint(0, 9999)}


def points(xs):
    return None if xs is None else [V(p["pos"]) for p in xs]


def segments(xs):
    return None if xs is None else [(V(p["start"]), V(p["end"])) for p in xs]


def check_C21(case):
    r = random.Random(case["seed"])
    A = gh.artists()
    if case["form"]:
        t, d = formed(case)
    else:
        d = G.build(case["spec"])
    nodes, edges = list(d.nodes()), list(d.edges())
    if case["exact"]:
        d.node_attributes(r.choice(nodes), ["qx", "qy", "qz"], [0.0, -case["tol"], 0.0])
    if case["edit"]:
        d.node_attributes(r.choice(nodes), ["qx", "qy", "qz"], [0.0, 0.0, 0.0])
        d.edge_attribute(r.choice(edges), "force", r.choice([-30.0, 30.0, 0.0]))
    if case["bare"]:
        for n in nodes:
            if d.node_attribute(n, "type") == "support":
                d.node_attribute(n, "type", None)
    kind = lambda n: d.node_attribute(n, "type")
    nk = ek = None
    if case["sub"] in ("some", "few"):
        nk = r.sample(nodes, r.randint(1, len(nodes) if case["sub"] == "some" else 1))
        ek = r.sample(edges, r.randint(1, len(edges) if case["sub"] == "some" else 1))
    elif case["sub"] == "kind":
        nk = [n for n in nodes if kind(n) is None] or None
        ek = [e for e in edges if d.edge_attribute(e, "type") == r.choice(["trail", "deviation"])] or None
    at = {n: V(d.node_coordinates(n)) for n in nodes}
    N, E = nk or nodes, ek or edges
    want = {"nodes": [at[n] for n in N], "support_nodes": [at[n] for n in N if kind(n) == "support"], "edges": [(at[u], at[v]) for u, v in E]}
    sc, gap, tol = case["scale"], case["gap"], case["tol"]
    if case["via"]:
        gap = 0.0

    def arrows(names, shift):
        out = []
        for n in N:
            q = V(d.node_attributes(n, names))
            if abs(norm(q) - tol) < 1e-12 and norm(q) != tol:
                raise Skip("at the tolerance")
            if norm(q) < tol:
                continue
            k = gap
            if shift:
                fs = [num(d.edge_attribute(e, "force")) for e in edges if n in e]
                big = max(abs(x) for x in fs)
                top = set(x < 0 for x in fs if abs(abs(x) - big) < 1e-12 * max(1.0, big))
                if len(top) > 1:
                    raise Skip("equal forces")
                if top.pop():
                    k = -(gap + sc * norm(q))
            s = add(at[n], mul(unit(q), k))
            out.append((s, add(s, mul(q, sc))))
        return out
    want["loads"] = arrows(["qx", "qy", "qz"], False)
    if case["form"]:
        want["reactions"] = arrows(["rx", "ry", "rz"], True)
    else:
        want["origin_nodes"] = [at[n] for n in N if kind(n) == "_origin"]
        for k in ("trail", "deviation"):
            want[k + "_edges"] = [(at[u], at[v]) for u, v in E if d.edge_attribute((u, v), "type") == k]
        want["trails"] = [[at[n] for n in p] for p in d.trails()]
    if case["via"]:
        comp = "ArtistForm" if case["form"] else "ArtistTopology"
        got = run(comp, **{"form" if case["form"] else "topology": d, "node_keys": nk, "edge_keys": ek, "force_min": tol, "force_scale": sc})
    else:
        with quiet():
            a = (A.FormArtist if case["form"] else A.TopologyArtist)(d)
            got = {"nodes": a.draw_nodes(nk), "support_nodes": a.draw_nodes_support(nk), "edges": a.draw_edges(ek), "loads": a.draw_loads(nk, scale=sc, gap=gap, min_load=tol)}
            if case["form"]:
                got["reactions"] = a.draw_reactions(nk, scale=sc, gap=gap, min_force=tol)
            else:
                got["origin_nodes"] = a.draw_nodes_origin(nk)
                got["trail_edges"], got["deviation_edges"], got["trails"] = a.draw_edges_trail(ek), a.draw_edges_deviation(ek), a.draw_trails()
    for k, w in want.items():
        x = got[k]
        x = [] if x is None else points(x) if k.endswith("nodes") else [[V(p) for p in y["points"]] for y in x] if k == "trails" else segments(x)
        if len(x) != len(w):
            return "%s: %d drawn instead of %d" % (k, len(x), len(w))
        flat = (lambda y: y) if k.endswith("nodes") else (lambda y: [c for p in y for c in p])
        x, w = [flat(y) for y in x], [flat(y) for y in w]
        for p in w:
            big = max([1.0] + [abs(c) for c in p])
            hit = [y for y in x if len(y) == len(p) and close(y, p, 1e-9 * big)]
            if not hit:
                return "%s: nothing drawn at %s" % (k, p)
    return None


# ---------------------------------------------------------------- C22
def gen_C22(r):
    form = r.random() < .5
    sw = ["show_nodes", "show_edges", "show_loads", "show_nodetext", "show_edgetext"] + (["show_reactions"] if form else [])
    return {"spec": dict(G.topo_spec(r, max_trails=3), shifts=[]), "form": form, "kw": {k: r.random() < .5 for k in sw if r.random() < .8},
            "later": {k: r.random() < .5 for k in sw if r.random() < .2}, "twice": r.random() < .2, "sub": r.random() < .25,
            "size": r.choice([0.1, 3.0, 20]), "seed": r.randint(0, 9999), "color": r.choice(["type", "state"]), "ncolor": r.choice(["type", "sequence"]),
            "untrailed": r.random() < .15, "edit": r.random() < .3, "zero": r.random() < .1,
            "edgetext": r.choice([None, "force", "length", "forcelength"] + ([] if form else ["state", "forcelengthstate", "type"])),
            "nodetext": r.choice([None, "xyz", "keyxyz"] + ([] if form else ["type", "sequence", "keysequence"]))}


def check_C22(case):
    import math
    import matplotlib
    matplotlib.use("Agg")
    from compas.utilities import geometric_key
    from compas_plotters.artists import NetworkArtist
    from compas_cem import COLORS
    from compas_cem.plotters.formartist import FormArtist
    from compas_cem.plotters.topologyartist import TopologyArtist
    r = random.Random(case["seed"])
    t = G.build(case["spec"])
    d = t
    if case["form"]:
        try:
            with quiet():
                d = solvers()["pure"](t, tmax=100, eta=1e-6)
        except (ValueError, ZeroDivisionError):
            raise Skip("no convergence")
    elif case["untrailed"]:
        d = G.build(case["spec"], trails=False) if "trails" in G.build.__code__.co_varnames else t
    nodes, edges = list(d.nodes()), list(d.edges())
    if case["edit"]:
        n = r.choice(nodes)
        d.node_attributes(n, ["qx", "qy", "qz"], r.choice([[0.0, 0.0, 0.0], [0.0, 0.0, 0.5], [1e-7, 0.0, 0.0], [0.0, 2e-6, 0.0]]))
        d.edge_attribute(r.choice(edges), "force" if case["form"] else r.choice(["force", "length"]), r.choice([-0.126, 3.5, -12.0]))
    shown = [n for n in nodes if r.random() < .7] if case["sub"] else nodes
    if not shown:
        raise Skip("nothing drawn")
    log, lines, colors = [], [], {}

    class P(object):
        dpi = 100

        def add(self, item, artist=None, **kw):
            if "point" in kw:
                lines.append(("arrow", kw.get("color")))
            else:
                lines.append((V(item.start), V(item.end)))

    class E(object):
        def set_linestyle(self, *a):
            pass

        def remove(self):
            pass

    def dn(self, *a, **kw):
        log.append("show_nodes")
        colors["n"] = kw.get("color", a[1] if len(a) > 1 else None)

    def de(self, *a, **kw):
        log.append("show_edges")
        colors["e"] = kw.get("color", a[1] if len(a) > 1 else None)
        self._edgecollection = E()
    names = ["draw_nodes", "draw_edges", "draw_nodelabels", "draw_edgelabels", "clear"]
    old = {k: getattr(NetworkArtist, k) for k in names}
    NetworkArtist.draw_nodes, NetworkArtist.draw_edges = dn, de
    NetworkArtist.draw_nodelabels = lambda self, *a, **k: log.append("show_nodetext")
    NetworkArtist.draw_edgelabels = lambda self, *a, **k: log.append("show_edgetext")
    had = "clear" in NetworkArtist.__dict__
    NetworkArtist.clear = lambda self, *a, **k: log.append("clear")
    try:
        kw = dict(case["kw"], nodesize=case["size"])
        if case["sub"]:
            kw["nodes"] = shown
        if not case["form"]:
            trails = d.number_of_trails() > 0
            kw["edgecolor"] = case["color"]
            kw["nodecolor"] = case["ncolor"] if trails else "type"
            if not trails and case["nodetext"] and "sequence" in case["nodetext"]:
                raise Skip("no sequences")
        a = (FormArtist if case["form"] else TopologyArtist)(d, context="Plotter", plotter=P(), edgetext=case["edgetext"], nodetext=case["nodetext"], **kw)
        for k, b in case["later"].items():
            setattr(a, k, b)
        on = dict({"show_nodes": True, "show_edges": True, "show_loads": True, "show_nodetext": False, "show_edgetext": False},
                  **({"show_reactions": True} if case["form"] else {}))
        on.update(case["kw"])
        on.update(case["later"])
        for _ in range(2 if case["twice"] else 1):
            del log[:], lines[:]
            colors.clear()
            a.draw()
        size = {n: num(a.node_size[n]) for n in nodes}
        etext, ntext = a.edge_text, a.node_text
    finally:
        for k in names[:4]:
            setattr(NetworkArtist, k, old[k])
        if had:
            NetworkArtist.clear = old["clear"]
        else:
            del NetworkArtist.clear
    if log[:1] != ["clear"] or log.count("clear") != 1:
        return "the drawing is not cleared first: {}".format(log)
    for k in ("show_nodes", "show_edges", "show_nodetext", "show_edgetext"):
        if log.count(k) != (1 if on[k] else 0):
            return "{}={} but drawn {} times".format(k, on[k], log.count(k))

    def size_of(n, names):
        return norm(V([num(x) for x in d.node_attributes(n, names)]))
    if case["form"]:
        for k, names_, col in (("show_loads", ["qx", "qy", "qz"], "load"), ("show_reactions", ["rx", "ry", "rz"], "support_force")):
            got = sum(1 for x in lines if x == ("arrow", COLORS[col]))
            want = sum(1 for n in shown if size_of(n, names_) >= (a.load_tol if col == "load" else a.reaction_tol)) if on[k] else 0
            if got != want:
                return "{}={} but {} arrows instead of {}".format(k, on[k], got, want)
    else:
        want = []
        for n in shown if on["show_loads"] else []:
            q = size_of(n, ["qx", "qy", "qz"])
            if abs(q - 1e-6) < 1e-12:
                raise Skip("at the tolerance")
            if q > 1e-6:
                c, h = V(d.node_coordinates(n)), size[n] * math.sqrt(.5)
                want += [((c[0] - h, c[1] - h, c[2]), (c[0] + h, c[1] + h, c[2])), ((c[0] - h, c[1] + h, c[2]), (c[0] + h, c[1] - h, c[2]))]
        if len(lines) != len(want):
            return "{} lines for the loads instead of {}".format(len(lines), len(want))
        for p, q in want:
            big = 1e-6 * max([1.0] + [abs(x) for x in p + q])
            if not any((close(x[0], p, big) and close(x[1], q, big)) or (close(x[0], q, big) and close(x[1], p, big)) for x in lines):
                return "no line from {} to {}".format(p, q)
        if on["show_edges"] and case["color"] == "type":
            aux = set(tuple(e) for e in d.auxiliary_trails())
            for e in edges:
                if e in aux:
                    k = "auxiliary_trail"
                elif d.edge_attribute(e, "type") == "trail":
                    k = "edge_trail"
                elif not trails or d.node_attribute(e[0], "_k") == d.node_attribute(e[1], "_k"):
                    k = "edge_deviation"
                else:
                    k = "edge_deviation_indirect"
                if colors["e"].get(e) != COLORS[k]:
                    return "edge {} by type has colour {} instead of {}".format(e, colors["e"].get(e), k)
        if on["show_nodes"] and kw["nodecolor"] == "sequence":
            last = max(d.node_attribute(n, "_k") for n in nodes)
            for n in shown:
                if tuple(colors["n"][n]) != tuple(a.node_sequencecolors(float(d.node_attribute(n, "_k")), maxval=last)):
                    return "node {} by sequence".format(n)

    def two(x):
        return "{:.2f}".format(x)
    if case["edgetext"]:
        for e in edges:
            f, q = num(d.edge_attribute(e, "force") or 0.0), num(d.edge_attribute(e, "length") or 0.0)
            if case["form"]:
                q = norm(sub(V(d.node_coordinates(e[1])), V(d.node_coordinates(e[0]))))
            else:
                x = q if d.edge_attribute(e, "type") == "trail" else f
                f, q = abs(f), abs(q)
                if "state" in case["edgetext"] and x == 0:
                    continue
                st = two(math.copysign(1.0, x))
            w = {"force": two(f), "length": two(q), "forcelength": "f: {}\nl: {}".format(two(f), two(q)), "type": d.edge_attribute(e, "type")}
            if not case["form"]:
                w.update(state=st, forcelengthstate="f: {}\nl: {}\ns: {}".format(two(f), two(q), st))
            if (etext or {}).get(e) != w[case["edgetext"]]:
                if case["form"] and abs(q * 200 - round(q * 200)) < 1e-6:
                    continue
                return "text {} of edge {}: {!r} instead of {!r}".format(case["edgetext"], e, (etext or {}).get(e), w[case["edgetext"]])
    if case["nodetext"]:
        for n in nodes:
            g = geometric_key(d.node_coordinates(n), "2f")
            k = d.node_attribute(n, "_k")
            w = {"xyz": g, "keyxyz": "{}\n{}".format(n, g), "type": str(d.node_attribute(n, "type")), "sequence": str(k), "keysequence": "{}\n{}".format(n, k)}
            if (ntext or {}).get(n) != w[case["nodetext"]]:
                return "text {} of node {}: {!r} instead of {!r}".format(case["nodetext"], n, (ntext or {}).get(n), w[case["nodetext"]])
    return None


# ---------------------------------------------------------------- C23
def gen_C23(r):
    form = r.random() < .6
    return {"spec": dict(G.topo_spec(r, max_trails=3), shifts=[]), "form": form, "via": r.random() < .3, "sub": r.random() < .3,
            "kw": {k: r.random() < .6 for k in ("show_nodes", "show_edges", "show_loads", "show_residuals", "show_nodetext", "show_edgetext") if r.random() < .8},
            "scale": r.choice([None, 0.5, 2.5]), "rscale": r.choice([None, 0.25, 3.0]), "tol": r.choice([None, 0.5, 1.0]), "rtol": r.choice([None, 0.5, 2.0]),
            "width": r.choice([None, 0.3, [0.1, 0.7]]), "edit": r.random() < .3, "untrailed": r.random() < .15, "aux": r.random() < .25, "seed": r.randint(0, 9999),
            "edgetext": r.choice([None, "key", "force", "length", "forcelength", "state", "forcelengthstate", "type"]),
            "nodetext": r.choice([None, "key", "xyz", "keyxyz", "type"]), "set": [[r.choice(["show_nodes", "show_edges"]), r.random() < .5] for _ in range(r.choice([0, 2, 4]))]}


def check_C23(case):
    import math
    from compas.colors import Color
    from compas.utilities import geometric_key
    from compas_cem import COLORS
    from . import viewstub
    vw = viewstub.load()
    r = random.Random(case["seed"])
    form = case["form"]
    d = G.build(case["spec"], trails=False)
    if case["aux"] and not form:
        from compas_cem.elements import Node, DeviationEdge
        k = max(n for n, _ in case["spec"]["nodes"]) + 1
        d.add_node(Node(k, [40.0, 1.0, 2.0]))
        d.add_edge(DeviationEdge(k, case["spec"]["nodes"][0][0], force=.125))
    if form or not case["untrailed"]:
        with quiet():
            d.build_trails(auxiliary_trails=case["aux"] and not form)
    if form:
        try:
            with quiet():
                d = solvers()["pure"](d, tmax=100, eta=1e-6)
        except (ValueError, ZeroDivisionError):
            raise Skip("no convergence")
    nodes, edges = list(d.nodes()), list(d.edges())
    if case["edit"]:
        d.node_attributes(r.choice(nodes), ["qx", "qy", "qz"], r.choice([[0.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, -0.5, 0.0]]))
        d.edge_attribute(r.choice(edges), "force", r.choice([-30.0, 30.0, 0.0]))
        if form:
            d.node_attributes(r.choice(nodes), ["rx", "ry", "rz"], r.choice([[0.0, 0.0, 0.5], [0.0, 0.0, 0.0], [2.0, 0.0, 1.0]]))
    kw = dict(case["kw"], nodetext=case["nodetext"], edgetext=case["edgetext"])
    shown, es = nodes, edges
    if case["sub"]:
        shown = [n for n in nodes if r.random() < .7] or nodes[:1]
        es = [e for e in edges if r.random() < .7] or edges[:1]
        kw.update(nodes=list(shown), edges=list(es))
    for k, x in (("loadscale", "scale"), ("residualscale", "rscale"), ("loadtol", "tol"), ("residualtol", "rtol")):
        if case[x] is not None:
            kw[k] = case[x]
    w = case["width"]
    if w is not None:
        kw["edgewidth"] = tuple(w) if isinstance(w, list) else w
    rec = []
    if case["via"]:
        v = vw.Viewer()
        v.add(d, **kw)
        if len(v.added) != 1 or v.added[0][0] is not d or v.added[0][1].pop("viewer", None) is not v or v.added[0][1] != kw:
            return "Viewer.add does not hand on the diagram, the viewer and the options"
    v = viewstub.App()
    o = (vw.FormDiagramObject if form else vw.TopologyDiagramObject)(d, viewer=v, **kw)
    on = dict({"show_nodes": False, "show_edges": True, "show_loads": True, "show_residuals": True, "show_nodetext": False, "show_edgetext": False}, **case["kw"])

    def rgb(name):
        return tuple(Color.from_rgb255(*COLORS[name]).rgb)
    texts, arrows, cyls = [], {}, []
    for item, k in v.added:
        if isinstance(item, tuple):
            texts.append(item)
            continue
        for x in item:
            if isinstance(x, tuple):
                arrows.setdefault(tuple(k.get("facecolor")), []).append(x)
            else:
                cyls.append((V(x.plane.point), V(x.plane.normal), num(x.radius), num(x.height), tuple(k.get("facecolor")), tuple(k.get("linecolor"))))
    # colours
    for n in shown:
        ty = d.node_attribute(n, "type")
        want = rgb("node_support" if ty == "support" else "node_origin" if ty == "_origin" and not form else "node_black")
        if tuple(o.pointcolors[n]) != want:
            return "colour of node {}".format(n)
    pos, col, el = o._points_data()
    if not len(pos) == len(col) == len(el) == len(shown):
        return "points"
    for i, n in enumerate(shown):
        if not close(V(pos[i]), V(d.node_coordinates(n)), 1e-12) or tuple(col[i]) != tuple(o.pointcolors[n]) or list(el[i]) != [i]:
            return "point of node {}".format(n)
    trails = (not form) and d.number_of_trails() > 0
    aux = set() if form else set(tuple(e) for e in d.auxiliary_trails())
    fs = {e: abs(num(d.edge_attribute(e, "force") or 0.0)) for e in es}
    lo, hi = min(fs.values()), max(fs.values())
    left = list(cyls)
    for e in es:
        if form:
            name = "tension" if num(d.edge_attribute(e, "force")) >= 0 else "compression"
        elif e in aux:
            name = "auxiliary_trail"
        elif d.edge_attribute(e, "type") == "trail":
            name = "edge_trail"
        else:
            name = "edge_deviation" if not trails or d.node_attribute(e[0], "_k") == d.node_attribute(e[1], "_k") else "edge_deviation_indirect"
        if tuple(o.linecolors[e]) != rgb(name):
            return "colour of edge {}".format(e)
        a, b = V(d.node_coordinates(e[0])), V(d.node_coordinates(e[1]))
        if not on["show_edges"] or norm(sub(b, a)) < 1e-9:
            continue
        wd = 0.015 if w is None else w if not isinstance(w, list) else w[1] if hi == lo else w[0] + (w[1] - w[0]) * (fs[e] - lo) / (hi - lo)
        big = max([1.0] + [abs(x) for x in a + b])
        hit = [c for c in left if close(c[0], mul(add(a, b), .5), 1e-9 * big) and abs(2 * c[2] - wd) < 1e-9 * max(1.0, wd)
               and abs(c[3] - norm(sub(b, a))) < 1e-9 * big and close(unit(c[1]), unit(sub(b, a)), 1e-6) and c[4] == c[5] == rgb(name)]
        if not hit:
            return "edge {} is not drawn as it should".format(e)
        left.remove(hit[0])
    if (cyls and not on["show_edges"]) or (on["show_edges"] and len(cyls) != len(es)):
        return "{} edges drawn".format(len(cyls))
    # arrows
    for k, names, sc, tol, cname in (("show_loads", ["qx", "qy", "qz"], case["scale"] or 1.0, case["tol"] or 1e-3, "load"),
                                     ("show_residuals", ["rx", "ry", "rz"], case["rscale"] or 1.0, case["rtol"] or 1e-3, "support_force")):
        if not form and k == "show_residuals":
            continue
        got = list(arrows.get(rgb(cname), []))
        want = []
        for n in shown if on[k] else []:
            q = V([num(x) for x in d.node_attributes(n, names)])
            if abs(norm(q) - tol) < 1e-12:
                raise Skip("at the tolerance")
            if norm(q) < tol:
                continue
            p = V(d.node_coordinates(n))
            if k == "show_residuals":
                xs = [num(d.edge_attribute(e, "force")) for e in edges if n in e]
                big = max(abs(x) for x in xs)
                top = set(x < 0 for x in xs if abs(abs(x) - big) < 1e-12 * max(1.0, big))
                if len(top) > 1:
                    raise Skip("equal forces")
                if top.pop():
                    p = sub(p, mul(q, sc))
            want.append((n, list(p) + list(mul(q, sc))))
        if len(got) != len(want):
            return "{}={}: {} arrows instead of {}".format(k, on[k], len(got), len(want))
        for n, x in want:
            big = max([1.0] + [abs(y) for y in x])
            if not any(close(list(y), x, 1e-9 * big) for y in got):
                return "{}: arrow of node {}".format(k, n)
    # labels

    def two(x):
        return "{:.2f}".format(x)
    want = []
    for n in shown if on["show_nodetext"] else []:
        g = geometric_key(d.node_coordinates(n), "2f")
        txt = {None: str(n), "key": str(n), "xyz": g, "keyxyz": "{}\n{}".format(n, g), "type": str(d.node_attribute(n, "type"))}[case["nodetext"]]
        want.append((txt, V(d.node_coordinates(n))))
    for e in es if on["show_edgetext"] else []:
        f, q = num(d.edge_attribute(e, "force") or 0.0), num(d.edge_attribute(e, "length") or 0.0)
        x = q if not form and d.edge_attribute(e, "type") == "trail" else f
        if case["edgetext"] in ("state", "forcelengthstate") and x == 0:
            raise Skip("no state")
        f, q, st = two(abs(f)), two(abs(q)), two(math.copysign(1.0, x))
        k = "{}-{}".format(*e)
        txt = {None: k, "key": k, "force": f, "length": q, "forcelength": "f: {}\nl: {}".format(f, q), "state": st,
               "forcelengthstate": "f: {}\nl: {}\ns: {}".format(f, q, st), "type": d.edge_attribute(e, "type")}[case["edgetext"]]
        want.append((txt, mul(add(V(d.node_coordinates(e[0])), V(d.node_coordinates(e[1]))), .5)))
    if len(texts) != len(want):
        return "{} labels instead of {}".format(len(texts), len(want))
    for txt, p in want:
        big = max([1.0] + [abs(y) for y in p])
        if not any(x[0] == txt and close(list(x[1:]), list(p), 1e-9 * big) for x in texts):
            return "no label {!r} at {}".format(txt, p)
    state = {"show_nodes": on["show_nodes"], "show_edges": on["show_edges"]}
    for k, b in case["set"] + [["show_edges", on["show_edges"]]]:
        setattr(o, k, b)
        state[k] = b
        if {x: getattr(o, x) for x in state} != state:
            return "switches after {} = {}: {}".format(k, b, {x: getattr(o, x) for x in state})
        if {"show_nodes": getattr(o, "show_points", None), "show_edges": getattr(o, "show_lines", None)} != state:
            return "switches of the base object"
    return None
