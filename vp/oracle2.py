"""Oracles C06-C09, C15-C17 (diagrams)."""
import math
from . import gen as G
from .oracle import Skip, num, snap, close, V, quiet, run_ref, Ref, solvers, converge_ref
from .ref import add, sub, mul, dot, norm, unit


def paths(spec):
    """Reference trails from the spec: {origin: [origin..support]}; None where a node is unreached."""
    nb = {k: [] for k, _ in spec["nodes"]}
    for e in spec["edges"]:
        if e[0] == "trail":
            nb[e[1]].append(e[2])
            nb[e[2]].append(e[1])
    out, seen = {}, set()
    for s in spec["supports"]:
        p, prev, cur = [s], None, s
        while True:
            nx = [x for x in nb[cur] if x != prev]
            if not nx:
                break
            prev, cur = cur, nx[0]
            p.append(cur)
        p.reverse()
        out[p[0]] = p
        seen.update(p)
    return out, set(nb) - seen


def check_trails(t, spec, shifts=None):
    want, un = paths(spec)
    got = dict(t.trails(keys=True))
    if {k: list(v) for k, v in got.items()} != want:
        return "trails {} instead of {}".format(got, want)
    for k, p in want.items():
        if list(t.trail(k)) != p:
            return "trail({}) is {}".format(k, t.trail(k))
        for j, n in enumerate(p):
            s = j + (shifts or {}).get(k, 0)
            if t.node_sequence(n) != s:
                return "node {} has sequence {} instead of {}".format(n, t.node_sequence(n), s)
    org = list(t.origin_nodes())
    if sorted(org) != sorted(want):
        return "origin nodes {} instead of {}".format(org, sorted(want))
    for n, _ in spec["nodes"]:
        if t.is_node_origin(n) != (n in want):
            return "is_node_origin({})".format(n)
        if t.is_node_support(n) != (n in spec["supports"]):
            return "is_node_support({}) is {}".format(n, t.is_node_support(n))
    if not t.has_trails() or t.number_of_trails() != len(want):
        return "number of trails"
    return None


# ---------------------------------------------------------------- C06
def gen_C06(r):
    spec = G.topo_spec(r, max_trails=5, max_len=6)
    ops = []
    for _ in range(r.randint(0, 3)):
        ops.append(r.choice(["rebuild", "extend", "newtrail", "aux", "extend", "shift", "fail", "cut", "turn", "drop"]))
    bad = r.choice([None] * 8 + ["unreached", "nosupport", "notrail", "isolated", "loose"])
    return {"spec": spec, "ops": ops, "bad": bad, "rev": r.random() < .5, "seed": r.randint(0, 10**6)}


def check_C06(case):
    from compas_cem.elements import Node, TrailEdge, DeviationEdge
    from compas_cem.supports import NodeSupport
    import random
    r = random.Random(case["seed"])
    spec = {k: [list(x) if isinstance(x, list) else x for x in v] for k, v in case["spec"].items()}
    spec["shifts"] = []
    bad = case["bad"]
    if bad == "unreached":
        k = max(n for n, _ in spec["nodes"]) + 1
        spec["nodes"].append([k, [50.0, 50.0, 0.0]])
        spec["edges"].append(["dev", k, spec["nodes"][0][0], 1.0])
    elif bad in ("isolated", "loose"):
        k = max(n for n, _ in spec["nodes"]) + 1
        spec["nodes"].insert(r.randint(0, len(spec["nodes"])), [k, [50.0, 50.0, 0.0]])
        if bad == "loose":
            spec["nodes"].append([k + 1, [51.0, 50.0, 0.0]])
            spec["edges"].append(["trail", k, k + 1, 1.0, None])
    elif bad == "nosupport":
        spec["supports"] = []
    elif bad == "notrail":
        spec["edges"] = [e for e in spec["edges"] if e[0] == "dev"]
        if r.random() < .5:
            spec["supports"] = [k for k, _ in spec["nodes"]]
    t = G.build(spec, trails=False)
    if bad:
        try:
            with quiet():
                t.build_trails()
        except AssertionError:
            return None
        except Exception as e:
            return "{}: {!r} instead of AssertionError".format(bad, e)
        return "{}: building was accepted".format(bad)
    attrs = {n: {a: t.node_attribute(n, a) for a in ("x", "y", "z", "qx", "qy", "qz")} for n in t.nodes()}
    edges = {e: dict(t.edge_attributes(e)) for e in t.edges()}
    with quiet():
        t.build_trails()
    m = check_trails(t, spec)
    if m:
        return "first build: " + m
    for op in case["ops"]:
        want, _ = paths(spec)
        if op == "extend":
            o = r.choice(sorted(want))
            k = max(n for n, _ in spec["nodes"]) + 1
            xyz = [100.0 + k, 0.5, 0.0]
            e = ["trail", k, o, -1.0, None] if r.random() < .5 else ["trail", o, k, -1.0, None]
            spec["nodes"].append([k, xyz])
            spec["edges"].append(e)
            t.add_node(Node(k, xyz))
            t.add_edge(TrailEdge(e[1], e[2], length=-1.0))
        elif op == "newtrail":
            k = max(n for n, _ in spec["nodes"]) + 1
            for i in range(2):
                spec["nodes"].append([k + i, [200.0 + k + i, 0.5, 0.0]])
                t.add_node(Node(k + i, [200.0 + k + i, 0.5, 0.0]))
            spec["edges"].append(["trail", k, k + 1, 1.0, None])
            t.add_edge(TrailEdge(k, k + 1, length=1.0))
            t.add_support(NodeSupport(k + 1))
            spec["supports"].append(k + 1)
        elif op == "shift":
            o = r.choice(sorted(want))
            t.shift_trail(o, 2)
        elif op == "fail":  # a build that fails, then a repair
            o = r.choice(sorted(want))
            k = max(n for n, _ in spec["nodes"]) + 1
            xyz = [300.0 + k, 0.5, 0.0]
            spec["nodes"].append([k, xyz])
            t.add_node(Node(k, xyz))
            try:
                with quiet():
                    t.build_trails()
                return "unreached node {}: building was accepted".format(k)
            except AssertionError:
                pass
            spec["edges"].append(["trail", k, o, -1.0, None])
            t.add_edge(TrailEdge(k, o, length=-1.0))
        elif op == "cut":  # the first node of a trail is removed
            o = r.choice(sorted(want))
            if len(want[o]) < 3:
                continue
            for e in [e for e in spec["edges"] if o in e[1:3]]:
                spec["edges"].remove(e)
                t.delete_edge(e[1], e[2])
                edges.pop((e[1], e[2]), None)
            spec["nodes"] = [x for x in spec["nodes"] if x[0] != o]
            spec["loads"] = [x for x in spec["loads"] if x[0] != o]
            t.delete_node(o)
            attrs.pop(o, None)
        elif op == "turn":  # origin and support change places
            o = r.choice(sorted(want))
            e = want[o][-1]
            t.unset_node_attribute(e, "type")
            t.add_support(NodeSupport(o))
            spec["supports"] = [o if x == e else x for x in spec["supports"]]
        elif op == "drop":  # a deviation edge is removed
            d = [e for e in spec["edges"] if e[0] == "dev"]
            if not d:
                continue
            e = r.choice(d)
            spec["edges"].remove(e)
            t.delete_edge(e[1], e[2])
            edges.pop((e[1], e[2]), None)
        with quiet():
            t.build_trails(auxiliary_trails=(op == "aux"))
        m = check_trails(t, spec)
        if m:
            return "after {}: {}".format(op, m)
    for n, a in attrs.items():
        for k, v in a.items():
            if t.node_attribute(n, k) != v:
                return "node {} attribute {} changed".format(n, k)
    for e, a in edges.items():
        if e not in set(t.edges()) or dict(t.edge_attributes(e)) != a:
            return "edge {} changed".format(e)
    if t.number_of_nodes() != len(spec["nodes"]) or t.number_of_edges() != len(spec["edges"]):
        return "nodes or edges were added or lost"
    fresh = G.build(spec)
    if {k: tuple(v) for k, v in fresh.trails(keys=True)} != {k: tuple(v) for k, v in t.trails(keys=True)}:
        return "rebuilding differs from a fresh build"
    return None


# ---------------------------------------------------------------- C07
def gen_C07(r):
    spec = G.topo_spec(r, max_trails=3)
    nfree = r.randint(0, 4)
    base = max(n for n, _ in spec["nodes"]) + 1
    keys = [n for n, _ in spec["nodes"]]
    free = []
    for i in range(nfree):
        k = base + i
        spec["nodes"].insert(r.randint(0, len(spec["nodes"])), [k, [round(30 + 3.7 * i, 3), round(r.uniform(-1, 1), 3), .25]])
        for _ in range(r.choice([0, 1, 1, 2])):
            o = r.choice(keys + free)
            if not any(e[0] == "dev" and {e[1], e[2]} == {o, k} for e in spec["edges"]):
                spec["edges"].append(["dev", k, o, .5])
        free.append(k)
    case = {"spec": spec, "free": free, "length": r.choice([-1.0, 2.0, -0.5, 1.25]), "vector": r.choice([[1., 1., 1.], [0., 0., 2.], [1., 0., -1.], [0., -3., 0.]]),
            "again": r.randint(0, 2), "set": r.random() < .7}
    if free and r.random() < .3:  # a node where a new support will be
        L, w = (case["length"], case["vector"]) if case["set"] else (-1.0, [1., 1., 1.])
        f = r.choice(free)
        xyz = dict(map(tuple, [(k, v) for k, v in spec["nodes"]]))
        at = add(xyz[f], mul(unit(w), L))
        k = r.choice([x for x in keys + free if x != f])
        spec["nodes"] = [[a, at if a == k else b] for a, b in spec["nodes"]]
    return case


def check_C07(case):
    spec = dict(case["spec"], shifts=[])
    t = G.build(spec, trails=False)
    L, w = -1.0, [1., 1., 1.]
    if case["set"]:
        L, w = case["length"], case["vector"]
        t.auxiliary_trail_length = L
        t.auxiliary_trail_vector = list(w)
    before = snap(t)
    nodes0, edges0 = list(t.nodes()), list(t.edges())
    for rep in range(1 + case["again"]):
        with quiet():
            t.build_trails(auxiliary_trails=True)
        aux = {k: tuple(v) for k, v in t.auxiliary_trails(keys=True)}
        if sorted(aux) != sorted(case["free"]):
            return "build {}: auxiliary trails {} but the unreached nodes are {}".format(rep + 1, aux, case["free"])
        new = [n for n in t.nodes() if n not in nodes0]
        if len(new) != len(case["free"]) or sorted(e[1] for e in aux.values()) != sorted(new):
            return "new nodes {} for {}".format(new, aux)
        for n, e in aux.items():
            if tuple(t.trail(n)) != e or e[0] != n:
                return "auxiliary trail {} is not the trail {}".format(e, t.trail(n))
            a = e[1]
            want = add(V(t.node_coordinates(n)), mul(unit(w), L))
            if not close(t.node_coordinates(a), want, 1e-9):
                return "auxiliary support at {}, expected {}".format(t.node_coordinates(a), want)
            if not t.is_node_support(a) or not t.is_trail_edge(e) or t.edge_attribute(e, "length") != L:
                return "auxiliary trail {} badly formed".format(e)
            if not t.is_auxiliary_trail_edge(e) or t.node_sequence(n) != 0 or t.node_sequence(a) != 1:
                return "auxiliary trail {} badly classified".format(e)
            if t.edge_attribute(e, "plane") is not None or V(t.node_load(a)) != [0.0] * 3:
                return "auxiliary element has extra attributes"
        if set(t.auxiliary_trail_edges()) != set(aux.values()) or t.number_of_auxiliary_trails() != len(aux):
            return "auxiliary edge listing"
        if set(t.edges()) != set(edges0) | set(aux.values()):
            return "edges {}".format(list(t.edges()))
        for e in edges0:
            if t.is_auxiliary_trail_edge(e):
                return "edge {} listed as auxiliary".format(e)
        after = snap(t)
        for n in nodes0:
            a, b = dict(before["node"][repr(n)]), dict(after["node"][repr(n)])
            for k in ("_k", "type"):
                ta, tb = a.pop(repr(k), None), b.pop(repr(k), None)
                if k == "type" and ta == "support" and tb != "support":
                    return "node {} is no longer a support".format(n)
            if a != b:
                return "node {} changed from {} to {}".format(n, a, b)
        for u in before["edge"]:
            for v in before["edge"][u]:
                if after["edge"][u][v] != before["edge"][u][v]:
                    return "edge {} {} changed".format(u, v)
        full = {k: list(v) for k, v in t.trails(keys=True)}
        want, un = paths(spec)
        for n, e in aux.items():
            want[n] = list(e)
        if full != want:
            return "trails {} instead of {}".format(full, want)
        if t.auxiliary_trail_length != L or list(t.auxiliary_trail_vector) != list(w):
            return "auxiliary settings changed"
    return None


# ---------------------------------------------------------------- C08
def gen_C08(r):
    spec = G.topo_spec(r, max_trails=5, max_len=5, calm=False)
    tr, _ = paths(spec)
    hist = [[r.choice(sorted(tr)), r.randint(0, 5)] for _ in range(r.randint(0, 4))]
    return {"spec": dict(spec, shifts=[]), "hist": hist}


def check_C08(case):
    spec = case["spec"]
    t = G.build(spec)
    tr, _ = paths(spec)
    seq = {n: j for p in tr.values() for j, n in enumerate(p)}
    for step in range(len(case["hist"]) + 1):
        if step:
            k, s = case["hist"][step - 1]
            before = snap(t)
            t.shift_trail(k, s)
            after = snap(t)
            for n in before["node"]:
                a, b = dict(before["node"][n]), dict(after["node"][n])
                a.pop(repr("_k"), None), b.pop(repr("_k"), None)
                if a != b:
                    return "shifting changed node {}".format(n)
            if before["edge"] != after["edge"] or before["attr"] != after["attr"]:
                return "shifting changed edges or trails"
            for j, n in enumerate(tr[k]):
                seq[n] = s + j
        for n in seq:
            if t.node_sequence(n) != seq[n]:
                return "node {} has sequence {} instead of {}".format(n, t.node_sequence(n), seq[n])
        last = max(seq.values())
        if t.sequence_last() != last or t.number_of_sequences() != last + 1:
            return "last sequence {} / number {} instead of {}".format(t.sequence_last(), t.number_of_sequences(), last)
        got = dict(t.sequences(keys=True))
        want = {k: sorted(n for n in seq if seq[n] == k) for k in range(last + 1)}
        if {k: sorted(v) for k, v in got.items()} != want or [sorted(s) for s in t.sequences()] != [want[k] for k in range(last + 1)]:
            return "sequences {} instead of {}".format(got, want)
        for k, p in tr.items():
            if dict(t.trail_sequences(k)) != {seq[n]: n for n in p}:
                return "trail_sequences({})".format(k)
        if {k: dict(v) for k, v in t.trails_sequences().items()} != {k: {seq[n]: n for n in p} for k, p in tr.items()}:
            return "trails_sequences {}".format(t.trails_sequences())
        direct, indirect, dev, trl = set(), set(), set(), set()
        for e in spec["edges"]:
            k = (e[1], e[2])
            if e[0] == "trail":
                trl.add(k)
                if t.is_direct_deviation_edge(k) or t.is_indirect_deviation_edge(k) or not t.is_trail_edge(k) or t.is_deviation_edge(k):
                    return "trail edge {} misclassified".format(k)
            else:
                dev.add(k)
                (direct if seq[e[1]] == seq[e[2]] else indirect).add(k)
                if t.is_direct_deviation_edge(k) != (k in direct) or t.is_indirect_deviation_edge(k) != (k in indirect) or t.is_trail_edge(k) or not t.is_deviation_edge(k):
                    return "deviation edge {} misclassified".format(k)
            if tuple(t.edge_sequence(k)) != (seq[k[0]], seq[k[1]]):
                return "edge_sequence({})".format(k)
        for name, want in (("trail_edges", trl), ("deviation_edges", dev), ("direct_deviation_edges", direct), ("indirect_deviation_edges", indirect)):
            lst = list(getattr(t, name)())
            if sorted(lst) != sorted(want) or getattr(t, "number_of_" + name)() != len(want):
                return "{} {} instead of {}".format(name, lst, want)
        for n in seq:
            for name, want in (("connected_trail_edges", trl), ("connected_deviation_edges", dev), ("_connected_direct_deviation_edges", direct), ("_connected_indirect_deviation_edges", indirect)):
                if not hasattr(t, name):
                    continue
                lst = list(getattr(t, name)(n))
                if sorted(lst) != sorted(e for e in want if n in e):
                    return "{}({}) {}".format(name, n, lst)
    for n in seq:
        if n in tr:
            continue
        try:
            t.shift_trail(n, 1)
        except (AssertionError, ValueError, KeyError):
            continue
        return "shifting from node {} that is no origin was accepted".format(n)
    return None


# ---------------------------------------------------------------- C09
def gen_C09(r):
    ops = []
    tol = r.choice(["3f", "3f", "2f", "1f", "0f"])
    step = {"3f": .01, "2f": .1, "1f": 1.0, "0f": 5.0}[tol]
    grid = [[round(i * step * 2, 4), round(j * step * 2, 4), r.choice([0.0, round(-step * 2, 4)])] for i in range(-2, 3) for j in range(-1, 3)]
    r.shuffle(grid)
    free = list(grid)
    live = []
    nid = 0
    for _ in range(r.randint(3, 14)):
        o = r.choice(["add", "add", "addkey", "move", "move", "edge_c", "edge_k", "edge_m", "support", "load", "load_k", "support_k", "readd", "miss"])
        if o in ("add", "addkey") and free:
            p = free.pop()
            ops.append([o, p])
            live.append(p)
        elif o == "move" and live and free:
            i = r.randrange(len(live))
            p = free.pop(r.randrange(len(free)))
            ops.append(["move", live[i], p, r.choice(["xyz", "update", "add"])])
            free.insert(0, live[i])
            live[i] = p
        elif o == "readd" and live:
            i = r.randrange(len(live))
            ops.append(["move", live[i], live[i], r.choice(["xyz", "update", "add"])])
        elif o in ("edge_c", "edge_k", "edge_m") and len(live) > 1:
            a, b = r.sample(live, 2)
            if o == "edge_c" and free and r.random() < .6:
                b = free.pop()
                live.append(b)
            ops.append([o, a, b, r.choice(["trail", "dev"]), round(r.uniform(-2, 2), 3)])
        elif o in ("support", "load", "support_k", "load_k") and live:
            ops.append([o, r.choice(live), G.rv(r)])
        elif o == "miss" and free:
            ops.append(["miss", free[-1], G.rv(r)])
    return {"tol": tol, "ops": ops, "jit": r.random() < .5, "seed": r.randint(0, 10**6)}


def check_C09(case):
    import random
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.elements import Node, TrailEdge, DeviationEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    r = random.Random(case["seed"])
    t = TopologyDiagram()
    t.tol = case["tol"]
    eps = {"3f": 1e-4, "2f": 1e-3, "1f": 1e-2, "0f": 1e-1}[case["tol"]]
    J = (lambda p: [c + r.uniform(-eps, eps) for c in p]) if case["jit"] else list
    model = {}     # key -> grid position
    exact = {}
    load, sup, edges = {}, set(), {}
    gone = []
    pos = lambda p: next(k for k, q in model.items() if q == p)
    nxt = 0
    allpos = []
    for op in case["ops"]:
        o = op[0]
        if o in ("add", "addkey"):
            xyz = J(op[1])
            if o == "addkey":
                k = (max(model) + 3) if model else 4
                got = t.add_node(Node(k, xyz))
                if got != k:
                    return "add_node({}) returned {}".format(k, got)
            else:
                got = t.add_node(Node(xyz=xyz) if r.random() < .5 else Node.from_point(xyz))
                if got in model:
                    return "add_node reused key {}".format(got)
            model[got], exact[got] = op[1], xyz
        elif o == "move":
            k = pos(op[1])
            xyz = J(op[2])
            if op[3] == "xyz":
                t.node_xyz(k, xyz)
            elif op[3] == "update":
                t.update_node_xyz(k, xyz)
            else:
                t.add_node(Node(k, xyz))
            if op[2] != op[1]:
                gone.append(op[1])
            model[k], exact[k] = op[2], xyz
        elif o.startswith("edge"):
            kk = []
            for p in op[1:3]:
                kk.append(next((k for k, q in model.items() if q == p), None))
            if o == "edge_k" and None in kk:
                continue
            args = [J(op[1]), J(op[2])]
            if o == "edge_k":
                args = list(kk)
            elif o == "edge_m" and kk[0] is not None:
                args[0] = kk[0]
            if kk[0] is not None and kk[1] is not None and ((kk[0], kk[1]) in edges or (kk[1], kk[0]) in edges):
                continue
            n0 = set(t.nodes())
            if o == "edge_c" and r.random() < .5:
                E = TrailEdge.from_line(args, length=op[4]) if op[3] == "trail" else DeviationEdge.from_line(args, force=op[4])
            else:
                E = TrailEdge(args[0], args[1], length=op[4]) if op[3] == "trail" else DeviationEdge(args[0], args[1], force=op[4])
            got = t.add_edge(E)
            for i in range(2):
                if kk[i] is None:
                    if got[i] in n0:
                        return "edge by coordinates attached to node {} instead of a new node".format(got[i])
                    model[got[i]], exact[got[i]] = op[1 + i], args[i]
                elif got[i] != kk[i]:
                    return "edge attached to node {} instead of {}".format(got[i], kk[i])
            edges[tuple(got)] = (op[3], op[4])
        elif o in ("support", "support_k", "load", "load_k"):
            k = pos(op[1])
            before = snap(t)
            if o == "support":
                t.add_support(NodeSupport.from_point(J(op[1])))
            elif o == "support_k":
                t.add_support(NodeSupport(k))
            elif o == "load":
                t.add_load(NodeLoad.from_point_and_vector(J(op[1]), list(op[2])))
            else:
                t.add_load(NodeLoad(k, list(op[2])))
            after = snap(t)
            if o[0] == "s":
                sup.add(k)
            else:
                load[k] = op[2]
            for n in before["node"]:
                if n != repr(k) and before["node"][n] != after["node"][n]:
                    return "{} at node {} changed node {}".format(o, k, n)
            if before["edge"] != after["edge"] or before["attr"] != after["attr"]:
                return "{} changed edges or registry".format(o)
        elif o == "miss":
            if op[1] in model.values():
                continue
            before = snap(t)
            for el, fn in ((NodeSupport.from_point(list(op[1])), t.add_support), (NodeLoad.from_point_and_vector(list(op[1]), list(op[2])), t.add_load)):
                try:
                    fn(el)
                except ValueError:
                    pass
                else:
                    return "element at {} accepted without a node there".format(op[1])
            if snap(t) != before:
                return "a refused element changed the diagram"
        # lookups
        if set(t.nodes()) != set(model):
            return "after {}: nodes {} instead of {}".format(op, sorted(t.nodes()), sorted(model))
        for k, p in model.items():
            if t.node_key(J(p)) != k or not t.node_exists(J(p)) or t.node_key(k) != k:
                return "after {}: lookup at {} gives {} instead of {}".format(op, p, t.node_key(p), k)
            if not close(t.node_coordinates(k), exact[k], 0) or not close(t.node_xyz(k), exact[k], 0):
                return "node {} at {} instead of {}".format(k, t.node_coordinates(k), exact[k])
            if t.is_node_support(k) != (k in sup):
                return "node {} support flag".format(k)
            if V(t.node_load(k)) != V(load.get(k, [0.0] * 3)):
                return "node {} load {}".format(k, t.node_load(k))
        for p in gone:
            if p not in model.values() and (t.node_key(p) is not None or t.node_exists(p)):
                return "after {}: lookup at the abandoned position {} gives {}".format(op, p, t.node_key(p))
        if set(t.edges()) != set(edges):
            return "edges {} instead of {}".format(list(t.edges()), list(edges))
        for e, (ty, v) in edges.items():
            a = t.edge_attributes(e)
            if t.edge_attribute(e, "type") != {"trail": "trail", "dev": "deviation"}[ty] or t.edge_attribute(e, "length" if ty == "trail" else "force") != v:
                return "edge {} attributes {}".format(e, dict(a))
    return None


# ---------------------------------------------------------------- C15
class Mesh(object):
    def __init__(self, verts, poly):
        self.v, self.p, self.c = verts, poly, False

    def collect_polyedges(self):
        self.c = True

    def polyedges(self, data=False):
        for k, p in enumerate(self.p):
            yield (k, list(p)) if data else k

    def vertices(self):
        return iter(self.v)

    def vertex_coordinates(self, k):
        return list(self.v[k])


def gen_C15(r):
    m, n = r.randint(1, 4), r.randint(1, 4)
    off = r.choice([0, 0, 5])
    key = lambda i, j: off + i * (n + 1) + j
    verts = {key(i, j): [num(i), num(j), round(r.uniform(-1, 1), 3)] for i in range(m + 1) for j in range(n + 1)}
    poly = [[key(i, j) for j in range(n + 1)] for i in range(m + 1)] + [[key(i, j) for i in range(m + 1)] for j in range(n + 1)]
    if r.random() < .3:
        b = max(verts) + 1
        ring = list(range(b, b + r.randint(3, 7)))
        for i, k in enumerate(ring):
            verts[k] = [20.0 + math.cos(i), math.sin(i), 0.0]
        poly.append(ring + [b])
    poly = [p[::-1] if r.random() < .4 else p for p in poly]
    r.shuffle(poly)
    sup = set()
    for side in range(4):
        if r.random() < .45:
            sup.update({0: [key(0, j) for j in range(n + 1)], 1: [key(m, j) for j in range(n + 1)],
                        2: [key(i, 0) for i in range(m + 1)], 3: [key(i, n) for i in range(m + 1)]}[side])
    if r.random() < .3 and sup:
        sup.discard(r.choice(sorted(sup)))
    if len(verts) > (m + 1) * (n + 1) and r.random() < .5:
        sup.update(r.sample(ring, r.randint(1, 2)) if r.random() < .5 else [ring[0]])
    return {"verts": [[k, v] for k, v in verts.items()], "poly": poly, "sup": sorted(sup), "default": r.random() < .2,
            "length": r.choice([None, None, 1.5, .25]), "ts": r.choice([-1, 1]), "df": r.choice([1.0, 2.5]), "ds": r.choice([-1, 1])}


def check_C15(case):
    from compas_cem.diagrams import TopologyDiagram
    verts = {k: v for k, v in case["verts"]}
    sup = set(case["sup"])
    trail, dev = [], []
    for p in case["poly"]:
        pw = list(zip(p, p[1:]))
        a, b = p[0], p[-1]
        if a == b or (a not in sup and b not in sup):
            dev += pw
        elif a in sup and b in sup:
            if p[1] in sup:
                continue
            if len(p) < 4:
                raise Skip("strip of three vertices between two supports")
            k = len(p) // 2 - 1
            trail += pw[:k] + pw[k + 1:]
            dev.append(pw[k])
        else:
            trail += pw
    und = [frozenset(e) for e in trail + dev]
    if len(set(und)) != len(und):
        raise Skip("edge in two strips")
    mesh = Mesh(verts, case["poly"])
    kw = dict(trail_length=case["length"], trail_state=case["ts"], deviation_force=case["df"], deviation_state=case["ds"])
    L, ts, df, ds = case["length"], case["ts"], case["df"], case["ds"]
    if case["default"]:
        kw, L, ts, df, ds = {}, None, -1, 1.0, -1
    t = TopologyDiagram.from_dualquadmesh(mesh, list(case["sup"]), **kw)
    if not isinstance(t, TopologyDiagram):
        return "not a topology diagram"
    if set(t.nodes()) != set(verts):
        return "nodes {}".format(sorted(t.nodes()))
    for k, p in verts.items():
        if not close(t.node_coordinates(k), p, 0) or t.is_node_support(k) != (k in sup):
            return "node {}".format(k)
    got = {frozenset(e): (t.edge_attribute(e, "type"), e) for e in t.edges()}
    if set(got) != set(und):
        return "edges {} instead of {}".format(sorted(map(sorted, got)), sorted(map(sorted, und)))
    for e in trail:
        ty, k = got[frozenset(e)]
        want = (L if L else norm(sub(verts[e[0]], verts[e[1]]))) * ts
        if ty != "trail" or abs(t.edge_attribute(k, "length") - want) > 1e-9:
            return "edge {} should be a trail of length {}: {}".format(e, want, dict(t.edge_attributes(k)))
    for e in dev:
        ty, k = got[frozenset(e)]
        if ty != "deviation" or t.edge_attribute(k, "force") != df * ds:
            return "edge {} should be a deviation of force {}".format(e, df * ds)
    return None


# ---------------------------------------------------------------- C16
def gen_C16(r):
    spec = G.topo_spec(r, shifts=True, max_len=5, wide=True)
    return {"spec": spec, "kmax": r.choice([None, 0, 0, 1, 1, 2, 2, 3, 4, 9, -1]), "mode": r.choice(["one", "two", "conv"])}


def check_C16(case):
    from compas_cem.equilibrium import static_equilibrium
    t = G.build(case["spec"])
    kmax = case["kmax"]
    if kmax is not None and kmax < 0:
        try:
            with quiet():
                static_equilibrium(t, kmax=kmax)
        except (AssertionError, ValueError):
            return None
        return "negative sequence accepted"
    kw = {"one": dict(tmax=1, eta=1e9), "two": dict(tmax=2, eta=1e9), "conv": dict(tmax=300, eta=1e-8 * case["spec"]["gs"])}[case["mode"]]
    r = converge_ref(case["spec"], t, kw["eta"], kw["tmax"], "sum", kmax)
    if r.degenerate:
        raise Skip("degenerate")
    try:
        with quiet():
            f = static_equilibrium(t, kmax=kmax, **kw)
    except ValueError:
        if r.move_sum > .99 * kw["eta"]:
            raise Skip("no convergence")
        return "raised although the nodes stopped moving"
    tol, ftol = 1e-7 * r.gbig(), 1e-7 * r.fbig()
    last = max(r.seq.values())
    cut = last if kmax is None else min(kmax, last)
    for n in r.X:
        x = V(f.node_coordinates(n))
        if not close(x, r.X[n], tol):
            return "kmax {}: node {} (sequence {}) at {} instead of {}".format(kmax, n, r.seq[n], x, r.X[n])
        if r.seq[n] > cut and not close(x, r.xyz0[n], 0):
            return "kmax {}: node {} beyond the last sequence moved".format(kmax, n)
        reac = V(f.node_attributes(n, ["rx", "ry", "rz"]))
        if not close(reac, r.react.get(n, [0.0] * 3), ftol):
            return "kmax {}: node {} reaction {} instead of {}".format(kmax, n, reac, r.react.get(n))
    for e in r.trail_len:
        q = num(f.edge_attribute(e, "force"))
        want = r.F.get(e, r.preset.get(e, 0.0))
        if abs(q - want) > ftol:
            return "kmax {}: edge {} force {} instead of {}".format(kmax, e, q, want)
    return None


# ---------------------------------------------------------------- C17
def gen_C17(r):
    spec = G.topo_spec(r, max_trails=5, calm=False)
    nodes = [n for n, _ in spec["nodes"]]
    ops = []
    for _ in range(r.randint(0, 6)):
        o = r.choice(["load", "load", "unload", "small", "support", "force", "length", "react", "plane", "build"])
        ops.append([o, r.choice(nodes), G.rv(r), r.randrange(max(1, len(spec["edges"])))])
    minf = r.choice([None, None, 1.0, 0.5])
    if r.random() < .3:
        # a load exactly at the threshold is not beyond it
        ops.append(["load", r.choice(nodes), r.choice([[0.0, 0.0, -1.0], [0.5, 0.0, 0.0], [0.0, 1e-6, 0.0]]), 0])
    return {"spec": dict(spec, shifts=[]), "ops": ops, "trails": r.random() < .8, "minf": minf}


def check_C17(case):
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    spec = case["spec"]
    t = G.build(spec, trails=case["trails"])
    tr, _ = paths(spec)
    load = {n: [0.0] * 3 for n, _ in spec["nodes"]}
    for k, v in spec["loads"]:
        load[k] = v
    sup = set(spec["supports"])
    react = {n: [0.0] * 3 for n in load}
    kind, force, length, plane = {}, {}, {}, {}
    for e in spec["edges"]:
        k = (e[1], e[2])
        kind[k] = "trail" if e[0] == "trail" else "deviation"
        force[k] = 0.0 if e[0] == "trail" else e[3]
        length[k] = e[3] if e[0] == "trail" else 0.0
        plane[k] = e[4] if e[0] == "trail" and len(e) > 4 else None
    built = case["trails"]
    for op in [None] + case["ops"]:
        if op:
            o, n, v, ei = op
            e = sorted(kind)[ei % len(kind)]
            if o == "load":
                t.add_load(NodeLoad(n, list(v))); load[n] = v
            elif o == "unload":
                t.add_load(NodeLoad(n, [0.0, 0.0, 0.0])); load[n] = [0.0] * 3
            elif o == "small":
                t.add_load(NodeLoad(n, [1e-8, -1e-8, 0.0])); load[n] = [1e-8, -1e-8, 0.0]
            elif o == "force":
                t.edge_attribute(e, "force", v[0]); force[e] = v[0]
            elif o == "length":
                t.edge_attribute(e, "length", v[1]); length[e] = v[1]
            elif o == "react":
                t.node_attributes(n, ["rx", "ry", "rz"], list(v)); react[n] = v
            elif o == "plane":
                t.edge_attribute(e, "plane", (list(v), [0.0, 0.0, 1.0])); plane[e] = [list(v), [0.0, 0.0, 1.0]]
        org = set(tr) if built else set()
        seq = {n: j for p in tr.values() for j, n in enumerate(p)}
        chk = [("support_nodes", [n for n in load if n in sup], "number_of_support_nodes"),
               ("loaded_nodes", [n for n in load if norm(load[n]) > 1e-6], "number_of_loaded_nodes"),
               ("origin_nodes", sorted(org), None),
               ("trail_edges", [e for e in kind if kind[e] == "trail"], "number_of_trail_edges"),
               ("deviation_edges", [e for e in kind if kind[e] == "deviation"], "number_of_deviation_edges")]
        if built:
            chk += [("direct_deviation_edges", [e for e in kind if kind[e] == "deviation" and seq[e[0]] == seq[e[1]]], "number_of_direct_deviation_edges"),
                    ("indirect_deviation_edges", [e for e in kind if kind[e] == "deviation" and seq[e[0]] != seq[e[1]]], "number_of_indirect_deviation_edges")]
        for name, want, cnt in chk:
            got = list(getattr(t, name)())
            if sorted(got) != sorted(want):
                return "after {}: {} {} instead of {}".format(op, name, got, want)
            if cnt and getattr(t, cnt)() != len(want):
                return "{} is {}".format(cnt, getattr(t, cnt)())
        if case["minf"] is not None:
            mf = case["minf"]
            if any(abs(norm(load[n]) - mf) < 1e-9 and len([c for c in load[n] if c]) > 1 for n in load):
                pass
            elif sorted(t.loaded_nodes(mf)) != sorted(n for n in load if norm(load[n]) > mf):
                return "loaded_nodes({})".format(mf)
        if sorted(e for e, _ in t.trail_edges(data=True)) != sorted(e for e in kind if kind[e] == "trail"):
            return "trail_edges(data=True)"
        if sorted(e for e, _ in t.deviation_edges(data=True)) != sorted(e for e in kind if kind[e] == "deviation"):
            return "deviation_edges(data=True)"
        if built:
            for nm in ("direct_deviation_edges", "indirect_deviation_edges", "auxiliary_trail_edges"):
                both = [(e, d) for e, d in getattr(t, nm)(data=True)]
                if sorted(e for e, _ in both) != sorted(getattr(t, nm)()) or any(d["force"] != force[e] for e, d in both):
                    return nm + "(data=True)"
        if t.number_of_trails() != (len(tr) if built else 0) or t.has_trails() != built:
            return "number of trails"
        for n in load:
            if t.is_node_support(n) != (n in sup) or t.is_node_origin(n) != (n in org):
                return "node {} predicates".format(n)
            if t.is_node_loaded(n) != (norm(load[n]) > 1e-6):
                return "is_node_loaded({})".format(n)
            if V(t.node_load(n)) != V(load[n]) or V(t.reaction_force(n)) != V(react[n]):
                return "node {} load {} / reaction {}".format(n, t.node_load(n), t.reaction_force(n))
        for e in kind:
            if t.is_trail_edge(e) != (kind[e] == "trail") or t.is_deviation_edge(e) != (kind[e] == "deviation"):
                return "edge {} predicates".format(e)
            if t.is_edge_supported(e) != (e[0] in sup or e[1] in sup):
                return "is_edge_supported({})".format(e)
            if t.edge_force(e) != force[e] or t.edge_length_2(e) != length[e]:
                return "edge {}: force {} length {}".format(e, t.edge_force(e), t.edge_length_2(e))
            p = t.edge_plane(e)
            if (p is None) != (plane[e] is None) or (p is not None and [list(x) for x in p] != [list(x) for x in plane[e]]):
                return "edge {} plane {}".format(e, p)
    return None
