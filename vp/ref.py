"""Independent reference semantics used as oracle by the replay layer (real code runs against it)."""
import math


def add(a, b): return [x + y for x, y in zip(a, b)]
def sub(a, b): return [x - y for x, y in zip(a, b)]
def mul(a, s): return [x * s for x in a]
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def norm(a): return math.sqrt(dot(a, a))
def unit(a):
    n = norm(a)
    return mul(a, 1.0 / n) if n else list(a)


class Ref:
    """Content of a topology diagram read through the spec, never through the code under test
    (trail order and sequence numbers are read from the diagram: C06/C08 check those)."""

    def __init__(self, spec, topology):
        self.fs, self.gs = spec.get("fs", 1.0), spec.get("gs", 1.0)
        self.preset = {(u, v): f for u, v, f in spec.get("preset", [])}
        self.xyz0 = {k: list(map(float, p)) for k, p in spec["nodes"]}
        self.load = {k: [0.0] * 3 for k in self.xyz0}
        for k, v in spec["loads"]:
            self.load[k] = list(v)
        self.trail_len, self.plane, self.dev = {}, {}, {}
        for e in spec["edges"]:
            if e[0] == "trail":
                self.trail_len[(e[1], e[2])] = e[3]
                self.plane[(e[1], e[2])] = e[4] if len(e) > 4 else None
            else:
                self.dev[(e[1], e[2])] = e[3]
        self.trails = [(k, list(t)) for k, t in topology.trails(keys=True)]
        shifts = {}
        for k, s in spec.get("shifts", []):
            shifts[k] = s
        self.seq, self.at = {}, {}
        for k, t in self.trails:
            for j, n in enumerate(t):
                self.seq[n] = j + shifts.get(k, 0)
                self.at[(k, self.seq[n])] = n
        self.nseq = max(self.seq.values()) + 1
        self.inc = {n: [] for n in self.xyz0}
        for (u, v), f in self.dev.items():
            self.inc[u].append((v, f, self.seq[u] == self.seq[v]))
            self.inc[v].append((u, f, self.seq[u] == self.seq[v]))
        self.supports = set(t[-1] for _, t in self.trails)
        self.X = {n: list(p) for n, p in self.xyz0.items()}
        self.R = {n: [0.0] * 3 for n in self.X}
        self.F, self.L, self.react = {}, {}, {}
        self.degenerate = False
        self.t = 0

    def edge(self, a, b):
        return (a, b) if (a, b) in self.trail_len else (b, a)

    def out(self, n):
        r = sub(self.R[n], self.load[n])
        for o, f, direct in self.inc[n]:
            if direct or self.t > 0:
                d = sub(self.X[o], self.X[n])
                if norm(d) < 1e-3 * self.gs:
                    self.degenerate = True
                r = sub(r, mul(unit(d), f))
        return r

    def sweep(self, kmax=None):
        last = {n: list(p) for n, p in self.X.items()}
        self.calls = 0
        top = self.nseq - 1 if kmax is None else min(kmax, self.nseq - 1)
        for k in range(top + 1):
            for key, _ in self.trails:
                n = self.at.get((key, k))
                if n is None:
                    continue
                r = self.out(n)
                if n in self.supports or k == kmax:
                    self.react[n] = r
                    continue
                m = self.at[(key, k + 1)]
                e = self.edge(n, m)
                L = self.trail_len[e]
                if norm(r) < 1e-3 * self.fs and (any(r) or self.plane[e] is not None):
                    self.degenerate = True
                if self.plane[e] is not None:
                    o, nn = self.plane[e]
                    c = dot(nn, unit(r))
                    if abs(abs(c) - 1e-6) < 1e-7 or (1e-6 <= abs(c) < 1e-2):
                        self.degenerate = True
                    if abs(c) >= 1e-6:
                        pl = dot(nn, sub(o, self.X[n])) / c
                        if pl:
                            L = pl
                if abs(L) < 1e-3 * self.gs:
                    self.degenerate = True
                self.X[m] = add(self.X[n], mul(unit(r), L))
                self.F[e] = math.copysign(norm(r), L)
                self.L[e] = L
                self.R[m] = r
                self.calls += 1
        self.t += 1
        self.last = last
        self.move_sum = sum(norm(sub(self.X[n], last[n])) for n in self.X)
        self.move_fro = math.sqrt(sum(norm(sub(self.X[n], last[n])) ** 2 for n in self.X))
        if self.move_sum > 1e6 * self.gs:
            self.degenerate = True

    def gbig(self):
        """Magnitude of the coordinates."""
        return max([self.gs] + [abs(c) for p in self.X.values() for c in p])

    def fbig(self):
        """Magnitude of the forces."""
        return max([self.fs] + [abs(f) for f in self.F.values()])
