"""Harness: verification units, symbolic inputs and helpers for the contracts."""
import os
import time
import traceback

from pyvc import core, aggr
from pyvc.core import *          # noqa: F401,F403
from pyvc.core import Ctx, Unsupported, PyRaise, PathCut, Sym, FList, Choice, simp, mk, toz, zreal
from pyvc.values import *        # noqa: F401,F403
from pyvc.values import Inst, ListObj, DictObj, DictC, SMap, ArrObj, SSeq, SColl, Native, eq, force, d_lookup
from pyvc.interp import Interp
from pyvc import net, lib
import z3


class Result:
    """What one verification unit established."""

    def __init__(self, name):
        self.name = name
        self.obligations = []
        self.status = "ok"
        self.detail = ""
        self.paths = 0
        self.vacuous = 0
        self.calls = {}
        self.assumptions = set()
        self.solver_time = 0.0
        self.by = {}
        self.wall = 0.0

    def to_json(self):
        return {"name": self.name, "status": self.status, "detail": self.detail, "paths": self.paths,
                "vacuous_paths": self.vacuous, "calls": self.calls, "assumptions": sorted(self.assumptions),
                "solver_s": round(self.solver_time, 3), "by": self.by, "wall_s": round(self.wall, 2),
                "obligations": [{"name": o.name, "status": o.status, "solver": o.solver, "secs": round(o.secs, 3),
                                 "goal": o.detail, "path": getattr(o, "pc", None),
                                 "model": str(o.model)[:1500] if o.model is not None and o.status == "refuted" else None}
                                for o in self.obligations]}


class Loaded:
    """The result of a unit discharged in another process."""

    def __init__(self, d):
        self.d = d
        self.name, self.status, self.detail = d["name"], d["status"], d["detail"]
        self.paths, self.vacuous, self.wall = d["paths"], d["vacuous_paths"], d["wall_s"]
        self.obligations = []
        for o in d["obligations"]:
            x = core.Obligation(o["name"], o["status"], o["solver"], o["secs"], o["goal"], o["model"])
            x.pc = o["path"]
            self.obligations.append(x)

    def to_json(self):
        return self.d


def failed_unit(name, why):
    return {"name": name, "status": "unsupported", "detail": why, "paths": 0, "vacuous_paths": 0, "calls": {},
            "assumptions": [], "solver_s": 0.0, "by": {}, "wall_s": 0.0, "obligations": []}


class Verifier:
    def __init__(self, tier="quick", budget=600, only=None):
        self.results = []
        self.tier = tier
        self.deadline = time.time() + budget
        self.only = only
        self.skipped = []
        self.pending = []

    def background(self, name, fn, **kw):
        """Discharge a unit in a process of its own; finish() collects the results."""
        import multiprocessing
        if self.only and self.only not in name:
            return
        mp = multiprocessing.get_context("fork")
        a, b = mp.Pipe(False)
        slot = len(self.results)
        self.results.append(None)

        def child():
            a.close()
            del self.results[:]
            self.only = None
            try:
                r = self.unit(name, fn, **kw).to_json()
            except BaseException as e:
                r = failed_unit(name, "%s: %s" % (type(e).__name__, e))
            b.send(r)
            b.close()
        p = mp.Process(target=child)
        self.pending.append((slot, name, p, a, b))
        self._start()

    def _start(self, limit=8):
        running = [x for x in self.pending if x[2].pid is not None and x[2].is_alive()]
        for x in self.pending:
            if x[2].pid is None and len(running) < limit:
                x[2].start()
                x[4].close()
                running.append(x)

    def finish(self):
        while any(self.results[x[0]] is None for x in self.pending):
            self._start()
            for slot, name, p, a, b in self.pending:
                if self.results[slot] is not None or p.pid is None:
                    continue
                try:
                    if a.poll(0.05):
                        self.results[slot] = Loaded(a.recv())
                        p.join(5)
                    elif not p.is_alive() and not a.poll(0):
                        self.results[slot] = Loaded(failed_unit(name, "the process of the unit ended"))
                    elif time.time() > self.deadline + 20:
                        p.kill()
                        self.results[slot] = Loaded(failed_unit(name, "time budget of the verifier exhausted"))
                except EOFError:
                    self.results[slot] = Loaded(failed_unit(name, "the process of the unit ended"))
        self.pending = []

    def lemma_unit(self, name, fn, **kw):
        """Contract of an internal helper: True if the helper satisfies it.

        Callers rely on the contract only if it was discharged; otherwise the helper is
        executed in place, so a restructured helper is no alarm by itself.
        """
        only, self.only = self.only, None
        n = len(self.results)
        try:
            res = self.unit(name, fn, **kw)
        finally:
            self.only = only
        if res.status == "ok" and all(o.status == "proved" for o in res.obligations):
            return True
        del self.results[n:]
        self.skipped.append("%s: %s" % (name, res.detail or [o.name for o in res.obligations if o.status != "proved"][:1]))
        return False

    def unit(self, name, fn, prove_ms=20000, budget=None, hooks=(), expect_paths=1):
        if self.only and self.only not in name:
            return
        res = Result(name)
        t0 = time.time()
        ctx = Ctx(prove_ms=prove_ms)
        ctx.deadline = min(self.deadline, t0 + (budget or 400))
        ctx.lemma_hooks.append(aggr.lemma_hook)
        ctx.hooks.extend(hooks)
        it = Interp(ctx)
        stats = {"vac": 0, "n": 0}

        def thunk():
            del ctx.axioms[:]
            try:
                fn(it)
            except PyRaise as e:
                if os.environ.get("VP_TRACE"):
                    import traceback
                    print(e.etype, e.args, getattr(e, "where", None)); traceback.print_exc(limit=-6)
                ctx.prove("%s: no %s is raised" % (name, e.etype.__name__), z3.BoolVal(False))
                ctx.notes.append("%s: raises %s%r" % (name, e.etype.__name__, e.eargs))
            stats["n"] += 1
            if not ctx.feasible(z3.BoolVal(True)):
                stats["vac"] += 1
        try:
            ctx.explore(thunk)
        except core.EnoughFailures:
            pass
        except Unsupported as e:
            res.status, res.detail = "unsupported", str(e)
            tb = traceback.extract_tb(e.__traceback__)
            res.detail += " [%s:%d]" % (tb[-1].filename.split("/")[-1], tb[-1].lineno)
        except RecursionError:
            res.status, res.detail = "unsupported", "recursion in the verifier"
        except Exception as e:
            res.status, res.detail = "error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1800:])
        res.obligations = ctx.obligations
        res.paths, res.vacuous = stats["n"], stats["vac"]
        res.calls = dict(ctx.calls)
        res.assumptions = set(ctx.assumptions)
        res.solver_time = ctx.solver_time
        res.by = {k: round(v, 3) for k, v in ctx.z3_time.items()}
        res.wall = time.time() - t0
        if res.status == "ok" and not ctx.failures and (res.paths - res.vacuous < expect_paths or not res.obligations):
            res.status, res.detail = "vacuous", "no feasible path or no obligation"
        self.results.append(res)
        return res


def outcome(it, fn, args=(), kwargs=None):
    """Call and catch: ('ok', value) or ('raise', exception type)."""
    try:
        return "ok", it.call(fn, tuple(args), kwargs or {})
    except PyRaise as e:
        return "raise", e.etype


def real(name):
    return Sym("real", z3.Real(name))


def integer(name):
    return Sym("int", z3.Int(name))


def vec(name, arr=False):
    return FList([Sym("real", z3.Real(name + a)) for a in "xyz"], arr)


def lvec(it, name):
    return ListObj(it.ctx, vec(name).items)


def items(it, v):
    return lib.vec_items(it, v)


def veq(it, a, b):
    """Component-wise equality of two vectors as a formula."""
    xa, xb = items(it, a), items(it, b)
    if xa is None or xb is None or len(xa) != len(xb):
        return z3.BoolVal(False)
    return z3.And(*[numeq(x, y) for x, y in zip(xa, xb)])


def numeq(x, y):
    if not core.is_scalar(x) or not core.is_scalar(y):
        return z3.BoolVal(False)
    return zreal(x) == zreal(y)


def sym_array(it, name, n):
    return ArrObj(it.ctx, z3.Array(name, z3.IntSort(), z3.RealSort()), n)
