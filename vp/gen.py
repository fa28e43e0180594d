"""Seeded generators of JSON-serialisable cases for the real code (replay layer)."""
import random


def rv(r, lo=-2.0, hi=2.0, n=3):
    return [round(r.uniform(lo, hi), 3) for _ in range(n)]


def topo_spec(r, max_trails=4, max_len=4, dev=True, indirect=True, planes=True, shifts=False,
              plane_p=0.25, calm=True, wide=False):
    """A diagram made of disjoint trails with deviation edges between them."""
    if wide and r.random() < .06:
        max_trails, max_len = r.choice([(9, 2), (2, 9), (6, 6)])
    nt = r.randint(1, max_trails)
    lens = [r.randint(2, max_len) for _ in range(nt)]
    n = sum(lens)
    keys = list(range(n))
    if r.random() < 0.5:
        r.shuffle(keys)
    if r.random() < 0.2:
        keys = [k * 3 + 1 for k in keys]
    elif wide and r.random() < .05:
        keys = [k * 7 - 5 for k in keys]
    trails, i = [], 0
    for L in lens:
        trails.append(keys[i:i + L])
        i += L
    nodes = []
    for ti, tr in enumerate(trails):
        for j, k in enumerate(tr):
            nodes.append([k, [round(2.5 * ti + r.uniform(-.4, .4), 3), round(-1.5 * j + r.uniform(-.3, .3), 3),
                              round(r.uniform(-1, 1), 3) if r.random() < .7 else 0.0]])
    if r.random() < 0.5:
        r.shuffle(nodes)
    edges = []
    for tr in trails:
        for a, b in zip(tr, tr[1:]):
            u, v = (a, b) if r.random() < .5 else (b, a)
            length = round(r.uniform(.3, 2.0), 3) * r.choice([-1, 1])
            plane = None
            if planes and r.random() < plane_p:
                nrm = r.choice([[0., 1., 0.], [0., 0., 1.], [1., 0., 0.], [0., 3., 0.], rv(r)])
                if max(abs(c) for c in nrm) < 0.05:
                    nrm = [0., 1., 0.]
                plane = [rv(r, -4, 1), nrm]
            edges.append(["trail", u, v, length, plane])
    seq = {k: j for tr in trails for j, k in enumerate(tr)}
    shift = []
    if shifts and r.random() < .6:
        for tr in trails:
            if r.random() < .4:
                s = r.randint(0, 3)
                shift.append([tr[0], s])
                for j, k in enumerate(tr):
                    seq[k] = s + j
    pairs = set(frozenset(e[1:3]) for e in edges)
    if dev and n > 2:
        for _ in range(r.randint(0, n + 1)):
            a, b = r.sample(keys, 2)
            if frozenset((a, b)) in pairs:
                continue
            if not indirect and seq[a] != seq[b]:
                continue
            if calm and seq[a] != seq[b] and r.random() < .5:
                continue
            pairs.add(frozenset((a, b)))
            f = round(r.uniform(.1, 1.5), 3) * r.choice([-1, 1])
            if calm and seq[a] != seq[b]:
                f = round(f * .25, 4)
            if r.random() < .05:
                f = 0.0
            edges.append(["dev", a, b, f])
    if r.random() < .6:
        r.shuffle(edges)
    loads = []
    for k in keys:
        if r.random() < .75:
            v = rv(r)
            if r.random() < .15:
                v[r.randrange(3)] = 0.0
            if calm:
                v[1] = round(v[1] - 2.0, 3)
            loads.append([k, v])
        elif calm:
            loads.append([k, [0.0, -1.0, 0.0]])
    supports = [tr[-1] for tr in trails]
    if r.random() < .5:
        r.shuffle(supports)
    spec = {"nodes": nodes, "edges": edges, "supports": supports, "loads": loads, "shifts": shift}
    if wide:
        vary(r, spec)
    return spec


def vary(r, spec):
    """Other magnitudes of forces and lengths, small loads beside large ones, forces given to trail edges beforehand."""
    fs = r.choice([1.0] * 6 + [1e-7, 1e-6, 1e-4, 1e3, 1e6]) if r.random() < .5 else 1.0
    gs = r.choice([1.0] * 6 + [1e-3, 1e-2, 1e2, 1e4]) if r.random() < .4 else 1.0
    spec["fs"], spec["gs"] = fs, gs
    for nd in spec["nodes"]:
        nd[1] = [c * gs for c in nd[1]]
    for e in spec["edges"]:
        if e[0] == "trail":
            e[3] *= gs
            if e[4] is not None:
                e[4] = [[c * gs for c in e[4][0]], e[4][1]]
        else:
            e[3] *= fs
    for ld in spec["loads"]:
        ld[1] = [c * fs for c in ld[1]]
    if r.random() < .1:
        for ld in spec["loads"]:
            if r.random() < .3:
                ld[1] = [c * r.choice([1e-7, 1e-5, 1e-3]) for c in ld[1]]
    if r.random() < .1:
        # a trail that starts without any force
        idle = set(k for k, _ in spec["nodes"] if r.random() < .5)
        spec["edges"] = [e for e in spec["edges"] if e[0] == "trail" or not idle & set(e[1:3])]
        spec["loads"] = [ld for ld in spec["loads"] if ld[0] not in idle]
    if r.random() < .25:
        spec["preset"] = [[e[1], e[2], round(r.uniform(-3, 3), 2) * fs] for e in spec["edges"] if e[0] == "trail" and r.random() < .6]


def build(spec, trails=True):
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.elements import Node, TrailEdge, DeviationEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    t = TopologyDiagram()
    for k, xyz in spec["nodes"]:
        t.add_node(Node(k, list(xyz)))
    for e in spec["edges"]:
        if e[0] == "trail":
            kw = {}
            if len(e) > 4 and e[4] is not None:
                kw["plane"] = (list(e[4][0]), list(e[4][1]))
            t.add_edge(TrailEdge(e[1], e[2], length=e[3], **kw))
        else:
            t.add_edge(DeviationEdge(e[1], e[2], force=e[3]))
    for k in spec["supports"]:
        t.add_support(NodeSupport(k))
    for k, v in spec["loads"]:
        t.add_load(NodeLoad(k, list(v)))
    for u, v, f in spec.get("preset", []):
        t.edge_attribute((u, v), "force", f)
    if trails:
        t.build_trails()
        for k, s in spec.get("shifts", []):
            t.shift_trail(k, s)
    return t
