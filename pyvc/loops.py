"""Loops over symbolic collections: the effect of the body on a generic element
is computed once and turned into the effect of the whole loop.
"""
from fractions import Fraction

import z3

from .core import (Unsupported, PathCut, PyRaise, Sym, FList, Choice, Poison, I, R, B, Ref,
                   toz, zreal, subst, merge, is_scalar, kind_of, mk, simp, has_var, vterms, ReturnSig, BreakSig)
from .values import (Frame, Inst, ListObj, DictC, DELETED, SMap, DictObj, FDict, SetObj, ArrObj, SSeq, SColl, Alts,
                     key_terms, key_kind, make_key, eq, d_lookup, force)
from . import aggr
from .lib import Grown, list_cat, seq_cat


class NetMaps(dict):
    """Maps of a diagram: name -> DictC (persistent)."""


def locations(content):
    """The places of a heap content that a loop body may change."""
    if isinstance(content, dict):
        out = {}
        for k, v in content.items():
            if isinstance(v, NetMaps):
                for n, c in v.items():
                    out[("net", k, n)] = c
            else:
                out[("var", k)] = v
        return out
    return {("whole",): content}


def with_location(content, loc, new):
    if loc[0] == "whole":
        return new
    c = dict(content)
    if loc[0] == "var":
        if new is None and False:
            pass
        c[loc[1]] = new
        return c
    nm = NetMaps(c[loc[1]])
    nm[loc[2]] = new
    c[loc[1]] = nm
    return c


MISSING = object()


def numeric(it, heap, v):
    """The numeric components of a value, with its shape, or None."""
    if isinstance(v, ListObj):
        base, items = heap[v.oid]
        if base is not None:
            return None
        v = FList(items)
    if isinstance(v, FList):
        if all(is_scalar(x) and kind_of(x) in ("real", "int") for x in v.items):
            return ("vec", v.arr, list(v.items))
        return None
    if is_scalar(v) and kind_of(v) in ("real", "int"):
        return ("num", None, [v])
    return None


class Depends(Unsupported):
    """The way through the body depends on what earlier iterations wrote."""


def sym_loop(it, coll, body, fr, targets):
    """Execute a loop over a symbolic collection. Returns True if it was left by break."""
    ctx = it.ctx
    heap0, pc0, t0 = dict(ctx.heap), list(ctx.pc), (ctx.tpos, len(ctx.trace) if ctx.trace is not None else 0)
    try:
        return free_loop(it, coll, body, fr, targets, strict=not (ctx.gparams or getattr(ctx, "no_prefix", False)))
    except Unsupported as e:
        if (ctx.tpos, len(ctx.trace) if ctx.trace is not None else 0) != t0 or ctx.gparams or getattr(ctx, "no_prefix", False):
            raise
        ctx.heap, ctx.pc = dict(heap0), list(pc0)
        try:
            return prefix_loop(it, coll, body, fr)
        except Unsupported as e2:
            ctx.heap, ctx.pc = dict(heap0), list(pc0)
            if isinstance(e, Depends):
                return free_loop(it, coll, body, fr, targets)
            raise Unsupported("%s; one iteration after the other: %s" % (e, e2)) from e


def enumeration(it, coll):
    """Some order of an unordered collection: (number, element at i, index of element)."""
    ctx = it.ctx
    if isinstance(coll, SSeq):
        return coll.n, coll.item, None
    if coll.kind == "set" and not coll.distinct:
        raise Unsupported("enumeration of a set")
    if coll.width != 1:
        return enumeration_n(it, coll)
    n = aggr.count_term(it, coll)
    E, idx = ctx.fresh_fun("enum", I, I), ctx.fresh_fun("index", I, I)
    i, x = z3.FreshInt("fa"), z3.FreshInt("fa")
    g = coll.guard(x)
    ctx.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(simp(coll.guard(E(i))), idx(E(i)) == i)), patterns=[E(i)]))
    ctx.pc.append(z3.ForAll([x], z3.Implies(g, z3.And(0 <= idx(x), idx(x) < n, E(idx(x)) == x)), patterns=[idx(x)]))
    pats = aggr.membership(g, [x])
    if pats:
        ctx.pc.append(z3.ForAll([x], z3.Implies(g, z3.And(0 <= idx(x), idx(x) < n, E(idx(x)) == x)), patterns=pats))
    ctx.enumerations = getattr(ctx, "enumerations", []) + [(coll, n, E, idx)]
    return n, (lambda j: coll.raw([E(j)])), idx


def enumeration_n(it, coll):
    ctx = it.ctx
    k = coll.width
    n = aggr.count_term(it, coll)
    Es, idx = [ctx.fresh_fun("enum", I, I) for _ in range(k)], ctx.fresh_fun("index", *([I] * (k + 1)))
    i, xs = z3.FreshInt("fa"), [z3.FreshInt("fa") for _ in range(k)]
    at = [E(i) for E in Es]
    ctx.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(simp(coll.guard(*at)), idx(*at) == i)), patterns=[Es[0](i)]))
    g = coll.guard(*xs)
    ctx.pc.append(z3.ForAll(xs, z3.Implies(g, z3.And(0 <= idx(*xs), idx(*xs) < n, *[E(idx(*xs)) == x for E, x in zip(Es, xs)])), patterns=[idx(*xs)]))
    ctx.enumerations = getattr(ctx, "enumerations", []) + [(coll, n, Es, idx)]

    def item(j):
        v = coll.raw([E(j) for E in Es])
        return merged(v.alts) if isinstance(v, Alts) else v
    return n, item, idx


def prefix_loop(it, coll, body, fr):
    """A loop whose iterations build on each other.

    The effect of iteration i is guessed from the state before the loop (with counters in closed
    form), and verified from the state after the first i iterations that the guess describes.
    """
    ctx = it.ctx
    heap0, pc0 = dict(ctx.heap), list(ctx.pc)
    n, item, idx = enumeration(it, coll)
    level = len(ctx.gparams)
    i = z3.Int("q#%d_0" % level)
    guard = z3.And(0 <= i, i < n)

    def thunk():
        ctx.assume(guard)
        v = item(i)
        if isinstance(v, Alts):
            v = v.pick(ctx)
        body(force(ctx, v))

    def run(heap):
        ctx.heap = dict(heap)
        ctx.gparams.append(i)
        try:
            outs = ctx.explore(thunk)
        finally:
            ctx.gparams.pop()
            ctx.heap = dict(heap0)
        if len(outs) > 1:
            against = {simp(x).get_id() for o in outs[1:] for x in o.pc if not z3.is_quantifier(x)}
            for c in outs[0].pc:
                if not z3.is_quantifier(c) and not has_var(c, [i]) and simp(z3.Not(c)).get_id() in against:
                    ctx.decide(c)           # the same for all iterations
                    return run(heap)
        if len(outs) != 1 or outs[0].kind != "ok":
            raise Unsupported("several ways through the body (%s)" % [o.kind for o in outs])
        return outs[0]
    o = run(heap0)
    heap0 = fill(heap0, [o])
    changed = find_changes(heap0, [o])
    counts = {}
    for (oid, loc), pre in changed.items():
        if loc[0] == "var" and pre is not MISSING and is_scalar(pre) and kind_of(pre) == "int":
            new = locations(o.heap[oid]).get(loc, MISSING)
            d = simp(toz(new) - toz(pre)) if new is not MISSING and is_scalar(new) and kind_of(new) == "int" else None
            if d is not None and z3.is_int_value(d):
                counts[(oid, loc)] = (pre, d.as_long())

    def with_counts(heap, at):
        heap = dict(heap)
        for (oid, loc), (pre, c) in counts.items():
            heap[oid] = with_location(heap[oid], loc, mk("int", toz(pre) + c * at))
        for (oid, loc), pre in changed.items():
            if loc[0] == "var" and (oid, loc) not in counts and pre is not MISSING:
                heap[oid] = with_location(heap[oid], loc, Poison("value of an earlier iteration"))
        return heap
    h1 = with_counts(heap0, i)
    o = run(h1)
    for k, pre in find_changes(h1, [o]).items():
        if k not in changed:
            changed[k] = pre
    ops, unknown = {}, set()
    hints = getattr(ctx, "inverse_hints", [])
    for (oid, loc), pre in changed.items():
        if loc[0] == "var":
            continue
        if isinstance(pre, DictC):
            lst = []
            for what, k, v in ops_since(locations(o.heap[oid])[loc], pre):
                kt = key_terms(k) if what == "put" else None
                if kt is None:
                    raise Unsupported("key written by an iteration")
                lst.append((k, kt, v if v is DELETED else freeze_in(it, o.heap, v)))
            last = {}
            for k, kt, v in lst:
                kk = tuple(simp(t).sexpr() for t in kt)
                last.pop(kk, None)
                last[kk] = (k, kt, v)
            ops[(oid, loc)] = list(last.values())
        else:
            raise Unsupported("loop body changes %r" % (oid,))

    def after(at, heap, extra=()):
        """The state after the first `at` iterations."""
        heap = with_counts(heap, at)
        p = z3.FreshInt("p")
        save = list(ctx.pc)
        ctx.inverse_hints = ([lambda x: idx(x)] if idx is not None and idx.arity() == 1 else []) + list(hints)
        try:
            for (oid, loc), lst in ops.items():
                cur = locations(heap0[oid])[loc]
                if (oid, loc) in unknown:
                    cur = unknown_dict(ctx, cur, [o], oid, loc, [at])
                else:
                    g = z3.And(0 <= p, p < at, p < n)
                    fake = SSeq(at, lambda j: None, None, "list")
                    parts = {}
                    for q, (k, kt, v) in enumerate(lst):
                        parts[q] = (subst(k, [(i, p)]), [z3.substitute(t, (i, p)) for t in kt], [(z3.BoolVal(True), v if v is DELETED else subst(v, [(i, p)]), o)])
                    try:
                        apart(it, fake, [p], g, {}, parts)
                        for k, kt, alts in parts.values():
                            cur = layer(it, fake, [p], g, k, kt, [(c, v) for c, v, _ in alts], cur, 1)
                    except Unsupported as e:
                        unknown.add((oid, loc))
                        cur = unknown_dict(ctx, locations(heap0[oid])[loc], [o], oid, loc, [at])
                heap[oid] = with_location(heap[oid], loc, cur)
        finally:
            ctx.inverse_hints = hints
            new = ctx.pc[len(save):]
            ctx.pc = save
        return heap, new
    h2, new = after(i, heap0)
    ctx.pc += new
    o2 = run(h2)
    facts = ctx.axioms + ctx.pc + [guard] + o2.pc
    for (oid, loc), pre in find_changes(h2, [o2]).items():
        if loc[0] == "var":
            if (oid, loc) in counts:
                p0, c = counts[(oid, loc)]
                now = locations(o2.heap[oid])[loc]
                if not aggr._entails(ctx, facts, toz(now) == toz(p0) + c * (i + 1), 3000):
                    raise Unsupported("a counter that is no counter")
            elif (oid, loc) not in changed:
                raise Unsupported("an iteration changes more after others")
            continue
        if (oid, loc) not in ops:
            raise Unsupported("an iteration changes more after others")
        got = []
        for what, k, v in ops_since(locations(o2.heap[oid])[loc], locations(h2[oid])[loc]):
            kt = key_terms(k) if what == "put" else None
            if kt is None:
                raise Unsupported("key written by an iteration")
            got.append((k, kt, v if v is DELETED else freeze_in(it, o2.heap, v)))
        last = {}
        for k, kt, v in got:
            kk = tuple(simp(t).sexpr() for t in kt)
            last.pop(kk, None)
            last[kk] = (k, kt, v)
        got, want = list(last.values()), ops[(oid, loc)]
        if len(got) != len(want):
            raise Unsupported("an iteration writes other keys after others")
        for (k1, t1, v1), (k2, t2, v2) in zip(got, want):
            if not aggr._entails(ctx, facts, z3.And(*[a == b for a, b in zip(t1, t2)]), 3000):
                raise Unsupported("an iteration writes other keys after others")
            if (v1 is DELETED) != (v2 is DELETED):
                raise Unsupported("an iteration writes other values after others")
            if v1 is not DELETED and not aggr._entails(ctx, facts, eq(v1, v2), 3000):
                raise Unsupported("an iteration writes other values after others: %s" % loc[-1])
    ctx.pc = list(pc0) + [f for f in ctx.pc[len(pc0):] if f not in new]
    h3, new = after(n, heap0)
    ctx.heap = h3
    ctx.pc += new
    return False


def free_loop(it, coll, body, fr, targets, strict=False):
    """A loop whose iterations do not depend on each other."""
    ctx = it.ctx
    level = len(ctx.gparams)
    ps = [z3.Int("q#%d_%d" % (level + i, i)) for i in range(coll.width)]
    heap0 = dict(ctx.heap)
    guard = simp(coll.guard(*ps))
    empty = z3.is_false(guard)
    if empty:
        return False

    def thunk():
        ctx.assume(guard)
        body(coll.elem(ctx, ps))

    def run():
        ctx.gparams.extend(ps)
        try:
            return ctx.explore(thunk)
        finally:
            del ctx.gparams[level:]

    outs = run()
    if not outs:
        # no feasible element
        return False
    still(it, coll, ps, guard, outs)
    heap0 = fill(heap0, outs)
    ctx.heap = dict(heap0)
    changed = find_changes(heap0, outs)
    # what only the last iteration (the one that leaves) changes is as before in all others
    lasting = find_changes(heap0, [o for o in outs if o.kind == "ok"])
    final = {k: changed.pop(k) for k in list(changed) if k not in lasting}
    accs = {}
    for (oid, loc), pre in changed.items():
        if loc[0] != "var":
            continue
        if pre is MISSING:
            continue
        shape = numeric(it, heap0, pre)
        if shape is None:
            continue
        ints = shape[0] == "num" and kind_of(shape[2][0]) == "int"
        if ints:
            for o in outs:
                w = locations(o.heap[oid]).get(loc, MISSING)
                s2 = numeric(it, o.heap, w)
                if s2 is None or kind_of(s2[2][0]) != "int":
                    ints = False
        accs[(oid, loc)] = (shape, ints)
    place = {}
    arrs = {}
    inds = {}
    owned = []
    if changed:
        # second run: whatever earlier iterations may have changed is unknown to the body
        for (oid, loc), pre in changed.items():
            if (oid, loc) in accs:
                shape, ints = accs[(oid, loc)]
                ph = [Sym("int" if ints else "real", z3.FreshConst(I if ints else R, "acc")) for _ in shape[2]]
                place[(oid, loc)] = ph
                val = ph[0] if shape[0] == "num" else FList(ph, shape[1])
            elif pre is MISSING:
                continue
            elif isinstance(pre, bool):
                ph = Sym("bool", z3.FreshConst(B, "acc"))
                place[(oid, loc)] = [ph]
                val = ph
            elif loc[0] == "var":
                val = Poison("value of an earlier iteration")
            elif isinstance(pre, DictC):
                val = unknown_dict(ctx, pre, outs, oid, loc, ps, own_keys(ctx, ps, guard, outs, oid, loc, pre))
                owned.append((oid, loc, val.base))
            elif oid[0] == "ListObj":
                val = (UnknownList(pre), ())
            elif oid[0] == "ArrObj":
                arrs[oid] = pre
                val = (z3.FreshConst(pre[0].sort(), "arr"), pre[1])
                place[(oid, loc)] = [Sym("arr", val[0])]
            else:
                raise Unsupported("loop body changes %r" % (oid,))
            ctx.heap[oid] = with_location(ctx.heap[oid], loc, val)
        heap1 = dict(ctx.heap)
        outs = run()
        ctx.heap = dict(heap0)
        ch2 = find_changes(heap1, outs)
        last2 = find_changes(heap1, [o for o in outs if o.kind == "ok"])
        for k in list(ch2):
            if k not in changed:
                if k not in last2:
                    final[k] = ch2[k]
                elif k in final:
                    raise Unsupported("changes of a loop depend on earlier iterations")
                else:
                    changed[k] = ch2[k]
        inds = counters(it, coll, ps, accs, place, outs)
        if inds:
            # counters have a closed form: run again with their value in iteration i
            for (oid, loc), (pre, c) in inds.items():
                heap1[oid] = with_location(heap1[oid], loc, mk("int", toz(pre) + c * ps[0]))
                place.pop((oid, loc))
                accs.pop((oid, loc))
            ctx.heap = dict(heap1)
            outs = run()
            ctx.heap = dict(heap0)
        restored = []
        for oid in arrs:
            # the content of before the loop is an invariant: an iteration that starts from it ends with it
            t1, t0, aj = heap1[oid][0], heap0[oid][0], z3.Int("arr_j")

            def back(e):
                return z3.substitute(e, (t1, t0))
            if all(aggr._entails(ctx, ctx.axioms + ctx.pc + [guard, back(o.cond())], back(z3.Select(o.heap[oid][0], aj)) == z3.Select(t0, aj), 3000) for o in outs):
                restored.append(oid)
        if restored:
            # run again from the real content
            for oid in restored:
                changed.pop((oid, ("whole",)), None)
                place.pop((oid, ("whole",)), None)
                heap1[oid] = heap0[oid]
            ctx.heap = dict(heap1)
            outs = run()
            ctx.heap = dict(heap0)
        base1 = heap1
    else:
        base1 = heap0
    for oid, loc, base in owned:
        if base.own and base.used:
            # the keys the iterations write must be those found in the first run
            for o in outs:
                c = locations(o.heap[oid]).get(loc)
                if not isinstance(c, DictC) or any(what == "set" or written(k) not in base.own for what, k, v in ops_since(c, locations(base1[oid])[loc])):
                    raise Unsupported("keys written depend on earlier iterations")
    phz = [p.z for ph in place.values() for p in ph]
    exits = [o for o in outs if o.kind in ("return", "break", "raise")]
    normals = [o for o in outs if o.kind == "ok"]

    def clean(z):
        if phz and has_var(z, phz):
            raise Unsupported("loop body depends on an accumulated value")
        return z

    conds = {id(o): clean(o.cond()) for o in outs}
    if strict and any(unknown_in(c) for c in conds.values()):
        raise Depends("the way through the body depends on earlier iterations")
    broke = False
    if exits:
        broke = leave(it, coll, ps, guard, exits, normals, conds, changed, base1, phz, inds, final)
        if broke:
            return True
        ncond = simp(z3.And(guard, *[z3.Not(conds[id(o)]) for o in exits]))
    # effects of the iterations that run to the end of the body
    for (oid, loc), pre in changed.items():
        if (oid, loc) in inds:
            v, c = inds[(oid, loc)]
            set_loc(it, oid, loc, mk("int", toz(v) + c * z3.If(coll.n >= 0, coll.n, z3.IntVal(0))))
            continue
        if (oid, loc) in accs:
            shape, ints = accs[(oid, loc)]
            ph = place[(oid, loc)]
            new = []
            pre0 = locations(heap0[oid])[loc]
            for j, p in enumerate(ph):
                delta = None
                for o in reversed(normals):
                    cur = locations(o.heap[oid]).get(loc)
                    s2 = numeric(it, o.heap, cur)
                    if s2 is None or len(s2[2]) != len(ph):
                        delta = MISSING
                        break
                    d = simp((toz(s2[2][j]) if ints else zreal(s2[2][j])) - p.z)
                    if has_var(d, phz):
                        delta = MISSING
                        break
                    delta = d if delta is None else simp(z3.If(conds[id(o)], d, delta))
                if delta is MISSING or delta is None:
                    new = None
                    break
                new.append(add_sum(shape[2][j], coll, ps, guard, delta, ints))
            if new is None:
                set_loc(it, oid, loc, Poison("reassigned in a loop over a symbolic collection"))
            else:
                set_loc(it, oid, loc, new[0] if shape[0] == "num" else FList(new, shape[1]))
            continue
        apply_effect(it, coll, ps, guard, normals, conds, oid, loc, heap0, clean, base1)
    return False


def unknown_in(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("unk!"):
                return True
            todo += x.children()
    return False


def still(it, coll, ps, guard, outs):
    """A listing that is produced while the loop runs must not change with it."""
    live = getattr(coll, "live", None)
    if live is None:
        return
    ctx = it.ctx
    ms = [z3.FreshInt("m") for _ in ps]
    for o in outs:
        if o.kind != "ok":
            continue
        now = live(o.heap, *ms)
        g = coll.guard(*ms)
        if now.eq(g):
            continue
        if not aggr._entails(ctx, ctx.axioms + ctx.pc + [guard, o.cond()], now == g, 3000):
            raise Unsupported("a listing changes while it is produced")


def counters(it, coll, ps, accs, place, outs):
    """Integer variables every iteration changes by the same amount."""
    out = {}
    if not isinstance(coll, SSeq):
        return out
    for (oid, loc), (shape, ints) in accs.items():
        if not ints or shape[0] != "num":
            continue
        p = place[(oid, loc)][0].z
        c = None
        for o in outs:
            if o.kind != "ok":
                continue
            s2 = numeric(it, o.heap, locations(o.heap[oid]).get(loc))
            d = simp(toz(s2[2][0]) - p) if s2 is not None and s2[0] == "num" else None
            if d is None or not z3.is_int_value(d) or (c is not None and d.as_long() != c):
                c = None
                break
            c = d.as_long()
        if c is not None:
            out[(oid, loc)] = (shape[2][0], c)
    return out


def add_sum(pre, coll, ps, guard, delta, ints):
    if ints:
        if z3.is_int_value(delta) and delta.as_long() == 0:
            return pre
        if z3.is_int_value(delta) and delta.as_long() == 1:
            return mk("int", toz(pre) + aggr.aggregate("count", ps, guard))
        return mk("int", toz(pre) + aggr.aggregate("sum", ps, guard, delta))
    return mk("real", zreal(pre) + aggr.sum_term(ps, guard, delta))


def find_changes(heap0, outs):
    changed = {}
    for o in outs:
        for oid, c in o.heap.items():
            if oid not in heap0 or heap0[oid] is c:
                continue
            before, after = locations(heap0[oid]), locations(c)
            for loc in set(before) | set(after):
                if before.get(loc, MISSING) is not after.get(loc, MISSING):
                    changed[(oid, loc)] = before.get(loc, MISSING)
    return changed


def fill(heap0, outs):
    """Attributes that no node or edge had before the loop: empty maps."""
    heap0 = dict(heap0)
    for (oid, loc), pre in find_changes(heap0, outs).items():
        if pre is MISSING and loc[0] == "net":
            heap0[oid] = with_location(heap0[oid], loc, DictC())
    return heap0


def set_loc(it, oid, loc, v):
    it.ctx.heap[oid] = with_location(it.ctx.heap[oid], loc, v)


def leave(it, coll, ps, guard, exits, normals, conds, changed, heap0, phz, inds=(), final=()):
    """Fork on whether some iteration leaves the loop."""
    ctx = it.ctx
    cond = simp(z3.And(guard, z3.Or(*[conds[id(o)] for o in exits])))
    atom = aggr.aggregate("exists", ps, cond)
    if not ctx.decide(atom):
        # no element leaves: remember it for all elements
        bs = [z3.FreshInt("fa") for _ in ps]
        ctx.pc.append(z3.ForAll(bs, z3.Not(z3.substitute(cond, *list(zip(ps, bs))))))
        return False
    w = aggr.witness(atom) if z3.is_app(atom) and atom.decl().get_id() in aggr.BYFUN else None
    if w is None:
        raise Unsupported("loop exit")
    pairs = list(zip(ps, w))
    ctx.assume(z3.substitute(guard, *pairs))
    if isinstance(coll, SSeq):
        j = z3.FreshInt("fa")
        ctx.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w[0]), z3.Not(z3.substitute(cond, (ps[0], j))))))
    pick = None
    for o in exits[:-1]:
        if ctx.decide(z3.substitute(conds[id(o)], *pairs)):
            pick = o
            break
    if pick is None:
        pick = exits[-1]
        ctx.assume(z3.substitute(conds[id(pick)], *pairs))
    # objects created on the way out
    for oid, c in pick.heap.items():
        if oid not in heap0:
            ctx.heap[oid] = subst_content(c, pairs)
    for (oid, loc), pre in changed.items():
        start = locations(heap0[oid]).get(loc, MISSING)
        new = locations(pick.heap[oid]).get(loc, MISSING)
        t = any(locations(o.heap[oid]).get(loc, MISSING) is not start for o in normals)
        if (oid, loc) in inds:
            set_loc(it, oid, loc, subst(new, pairs))
        elif loc[0] == "var":
            if new is not start and new is not MISSING:
                ts = vterms(new)
                if ts is not None and phz and any(has_var(x, phz) for x in ts):
                    new = Poison("accumulated value at a loop exit")
                set_loc(it, oid, loc, subst(new, pairs))
            elif t:
                set_loc(it, oid, loc, Poison("changed by a loop that was left early"))
        elif t or new is not start:
            set_loc(it, oid, loc, start)     # unknown content
    for (oid, loc) in final:
        new = locations(pick.heap[oid]).get(loc, MISSING)
        if new is locations(heap0[oid]).get(loc, MISSING):
            continue
        set_loc(it, oid, loc, subst_content(new, pairs) if loc[0] == "whole" else subst(new, pairs))
    if pick.kind == "return":
        raise ReturnSig(subst(pick.value, pairs))
    if pick.kind == "raise":
        raise pick.value
    return True


def subst_content(c, pairs):
    if isinstance(c, dict):
        return {k: subst(v, pairs) for k, v in c.items()}
    if isinstance(c, tuple) and len(c) == 2:
        return (subst(c[0], pairs) if c[0] is not None else None, subst(c[1], pairs))
    return subst(c, pairs)


def freeze_in(it, heap, v):
    save = it.ctx.heap
    it.ctx.heap = heap
    try:
        return it.freeze(v)
    finally:
        it.ctx.heap = save


def apply_effect(it, coll, ps, guard, normals, conds, oid, loc, heap0, clean, base1):
    ctx = it.ctx
    before = locations(heap0[oid]).get(loc, MISSING)
    start = locations(base1[oid]).get(loc, MISSING)
    if loc[0] == "var":
        news = [locations(o.heap[oid]).get(loc, MISSING) for o in normals]
        if before is MISSING:
            set_loc(it, oid, loc, Poison("set inside a loop over a symbolic collection"))
            return
        if isinstance(before, bool) and all(isinstance(n, bool) for n in news):
            # a flag: changed as soon as some element changes it
            cond = z3.Or(*[conds[id(o)] for o, n in zip(normals, news) if n != before])
            atom = aggr.aggregate("exists", ps, simp(z3.And(guard, cond)))
            set_loc(it, oid, loc, mk("bool", z3.If(atom, z3.BoolVal(not before), z3.BoolVal(before))))
            return
        set_loc(it, oid, loc, Poison("reassigned in a loop over a symbolic collection"))
        return
    if isinstance(before, DictC):
        dict_effect(it, coll, ps, guard, normals, conds, oid, loc, before, clean, start)
        return
    ref = oid[0]
    if ref == "ListObj":
        base, items = before
        alts = []
        if any(isinstance(o.heap[oid][0], Grown) or len(o.heap[oid][1]) > 1 for o in normals) or items or base is not None:
            return grow(it, coll, ps, guard, normals, conds, oid, before, start, clean)
        for o in normals:
            b2, i2 = o.heap[oid]
            if b2 is not start[0]:
                raise Unsupported("list rewritten in a loop")
            extra = i2
            if len(extra) > 1:
                raise Unsupported("several items appended per iteration")
            if extra:
                v = freeze_in(it, o.heap, extra[0])
                for t in vterms(v) or []:
                    clean(t)
                alts.append((conds[id(o)], v))
        if not alts:
            return
        pre = [z3.Int("hold%d" % i) for i in range(len(ps))]
        always = len(alts) == len(normals)
        full = always and not any(o.kind != "ok" for o in normals)
        if isinstance(coll, SSeq) and full:
            def item(i):
                pairs = [(ps[0], i)]
                if len(alts) == 1:
                    return subst(alts[0][1], pairs)
                return Alts([(z3.substitute(c, *pairs), subst(v, pairs)) for c, v in alts])
            new = SSeq(coll.n, item, None, "list")
        else:
            def g(*xs):
                pairs = list(zip(ps, xs))
                gg = coll.guard(*xs)
                if full:
                    return gg
                return simp(z3.And(gg, z3.Or(*[z3.substitute(c, *pairs) for c, v in alts])))

            def e(*xs):
                pairs = list(zip(ps, xs))
                if len(alts) == 1 or all(same_value(alts[0][1], v) for c, v in alts[1:]):
                    return subst(alts[0][1], pairs)
                return Alts([(z3.substitute(c, *pairs), subst(v, pairs)) for c, v in alts])
            plain = len(alts) == 1 and getattr(coll, "distinct", True) and [x.get_id() for x in key_terms(alts[0][1]) or ()] == [x.get_id() for x in ps]
            new = SColl(coll.width, g, e, ("filter", coll.tag) if coll.tag else None, "list", bool(plain))
            new.origin = coll
        ctx.heap[oid] = (new, ())
        return
    if ref == "ArrObj":
        arr_effect(it, coll, ps, guard, normals, conds, oid, before, start)
        return
    raise Unsupported("loop body changes %r" % (oid,))


def grow(it, coll, ps, guard, normals, conds, oid, before, start, clean):
    """A list to which the iterations append several items, or which was not empty before."""
    ctx = it.ctx
    parts = []
    one = True
    for o in normals:
        b2, i2 = o.heap[oid]
        seq = None
        if isinstance(b2, Grown) and b2.start is start[0]:
            seq = b2.seq
        elif b2 is not start[0]:
            raise Unsupported("list rewritten in a loop")
        items = tuple(freeze_in(it, o.heap, x) for x in i2)
        one = one and seq is None and len(items) <= 1
        if seq is None and not items:
            continue
        if seq is None:
            seq = SSeq(z3.IntVal(len(items)), seq_cat(SSeq(z3.IntVal(0), None), items).item)
        elif items:
            seq = seq_cat(seq, items)
        clean(seq.n)
        for t in vterms(seq.item(z3.Int("probe"))) or []:
            clean(t)
        parts.append((conds[id(o)], seq))
    if not parts:
        return
    if one and isinstance(coll, SSeq) and len(parts) == len(normals):
        new = SSeq(coll.n, lambda i: merged([(z3.substitute(c, (ps[0], i)), subst(q.item(z3.IntVal(0)), [(ps[0], i)])) for c, q in parts]), None, "list")
    else:
        k = len(ps)

        def g(*xs):
            pairs = list(zip(ps, xs[:k]))
            return simp(z3.And(coll.guard(*xs[:k]), xs[k] >= 0, z3.Or(*[
                z3.And(z3.substitute(c, *pairs), xs[k] < z3.substitute(q.n, *pairs)) for c, q in parts])))

        def e(*xs):
            h = z3.FreshInt("hold")
            pairs = list(zip(ps, xs[:k]))
            return merged([(z3.substitute(c, *pairs), subst(subst(q.item(h), pairs), [(h, xs[k])])) for c, q in parts])
        new = SColl(k + 1, g, e, None, "list", False)
        new.origin = coll
    base, items = before
    if base is None and not items:
        ctx.heap[oid] = (new, ())
    elif isinstance(new, SSeq):
        ctx.heap[oid] = list_cat(base, items, new)
    else:
        raise Unsupported("append to a non-empty list in a symbolic loop")


def merged(alts):
    v = alts[-1][1]
    for c, w in reversed(alts[:-1]):
        v = merge(c, w, v)
    return v


def same_value(a, b):
    ta, tb = vterms(a), vterms(b)
    if ta is None or tb is None or type(a) is not type(b):
        return a is b
    return len(ta) == len(tb) and all(x.eq(y) for x, y in zip(ta, tb))


def ops_since(c, start):
    """The updates that lead from one dictionary content to another, oldest first."""
    ops = []
    while not (c.base is start.base and c.writes[:len(start.writes)] == start.writes):
        ops.append([("put", k, v) for k, v in c.writes])
        if c.base is None or c.base.layer is None:
            raise Unsupported("dictionary rebuilt in a loop")
        hit, new, old = c.base.layer
        ops.append([("set", (c.base.width, c.base.tup, hit), new)])
        c = old
    ops.append([("put", k, v) for k, v in c.writes[len(start.writes):]])
    return [x for part in reversed(ops) for x in part]


def dict_effect(it, coll, ps, guard, normals, conds, oid, loc, before, clean, start):
    ctx = it.ctx
    groups = {}
    for o in normals:
        c = locations(o.heap[oid])[loc]
        for j, (what, k, v) in enumerate(ops_since(c, start)):
            if what == "set":
                if len(ps) != 1:
                    raise Unsupported("set of keys written in a nested loop")
                groups[("set", id(o), j)] = ("set", k, v, o)
                continue
            kt = key_terms(k)
            if kt is None:
                if isinstance(k, str):
                    raise Unsupported("constant key written in a symbolic loop")
                raise Unsupported("key %r written in a symbolic loop" % (k,))
            for t in kt:
                clean(t)
            kk = tuple(simp(t).sexpr() for t in kt)
            if v is not DELETED:
                v = freeze_in(it, o.heap, v)
                for t in vterms(v) or []:
                    clean(t)
            g = groups.pop(kk, (k, kt, []))     # the last write to a key counts
            alts = [x for x in g[2] if x[2] is not o] + [(conds[id(o)], v, o)]
            groups[kk] = (k, kt, alts)
    if not groups:
        return
    apart(it, coll, ps, guard, conds, groups)
    cur = before
    for kk, g in groups.items():
        if g[0] == "set":
            cur = set_layer(it, ps, guard, conds[id(g[3])], g[1], g[2], cur, clean)
        else:
            k, kt, alts = g
            cur = layer(it, coll, ps, guard, k, kt, [(c, v) for c, v, o in alts], cur, len(normals))
    set_loc(it, oid, loc, cur)


def apart(it, coll, ps, guard, conds, groups):
    """Different iterations write different keys, also at different places of the body."""
    ctx = it.ctx
    gs = list(groups.values())
    if len(gs) < 2:
        return
    qs = [z3.FreshInt("p2") for _ in ps]
    pairs = list(zip(ps, qs))
    width = gs[0][1][0] if gs[0][0] == "set" else len(gs[0][1])
    xs = [z3.FreshInt("x") for _ in range(width)]

    def at(g):
        if g[0] == "set":
            return z3.And(guard, conds[id(g[3])], g[1][2](*xs))
        if len(g[1]) != width:
            raise Unsupported("mixed dictionary keys")
        return z3.And(guard, z3.Or(*[c for c, v, o in g[2]]), *[a == x for a, x in zip(g[1], xs)])
    same = z3.And(*[p == q for p, q in pairs])
    for i, a in enumerate(gs):
        for b in gs[i + 1:]:
            if not aggr._entails(ctx, ctx.axioms + ctx.pc + [at(a), z3.substitute(at(b), *pairs)], same, 3000):
                raise Unsupported("keys written by a loop are not known to differ")


def hinted(it, facts, ps, key):
    """A ghost function that recovers the loop parameter from the key it writes."""
    for h in getattr(it.ctx, "inverse_hints", ()):
        if aggr._entails(it.ctx, facts, h(key) == ps[0], 3000):
            return h
    return None


def set_layer(it, ps, guard, cond, k, new, cur, clean):
    """A dictionary content updated at a set of keys for every element."""
    ctx = it.ctx
    width, tup, hit = k
    if width != 1:
        raise Unsupported("set of keys")
    x = z3.FreshInt("x")
    h0 = clean(simp(z3.And(guard, cond, hit(x))))
    own = hinted(it, ctx.axioms + ctx.pc + [h0], ps, x)
    if own is None:
        raise Unsupported("sets of keys written by a loop are not known to be disjoint")
    old = cur

    def hit2(y):
        return simp(z3.substitute(z3.substitute(h0, (ps[0], own(x))), (x, y)))

    def new2(y):
        v = new(x)
        for t in vterms(v) or []:
            clean(t)
        return subst(subst(v, [(ps[0], own(x))]), [(x, y)])
    return layered(ctx, width, tup, hit2, DELETED if new is DELETED else new2, old)


def layered(ctx, width, tup, hit, new, old):
    def olook(xs):
        if old.base is not None and (old.base.width != width or old.base.tup != tup):
            raise Unsupported("mixed dictionary keys")
        return d_lookup(ctx, old, make_key(tup, xs))

    def dom(*xs):
        if new is DELETED:
            return simp(z3.And(olook(xs)[0], z3.Not(hit(*xs))))
        return simp(z3.Or(hit(*xs), olook(xs)[0]))

    def val(*xs):
        d, o = olook(xs)
        if new is DELETED:
            return o
        if o is None:
            return new(*xs)
        return merge(hit(*xs), new(*xs), o)
    m = SMap(width, dom, val, None, tup)
    m.layer = (hit, new, old)
    return DictC(m, ())


def layer(it, coll, ps, guard, k, kt, alts, cur, npaths):
    """A dictionary content updated at key(ps) for every element ps."""
    ctx = it.ctx
    full = len(alts) == npaths
    wcond = simp(z3.And(guard, z3.Or(*[c for c, v in alts]))) if not full else guard
    inv, extra = inverse(it, coll, ps, wcond, kt)
    old = cur
    width = len(kt)
    tup = key_kind(k)

    def hit(*xs):
        qs = inv(*xs)
        pairs = list(zip(ps, qs))
        h = z3.substitute(wcond, *pairs)
        if extra is not None:
            h = z3.And(h, extra(*xs))
        return simp(h)

    alive = [(c, v) for c, v in alts if v is not DELETED]
    dels = [(c, v) for c, v in alts if v is DELETED]
    if dels and alive:
        raise Unsupported("conditional deletion")

    def new(*xs):
        pairs = list(zip(ps, inv(*xs)))
        v = subst(alive[-1][1], pairs)
        for c, w in reversed(alive[:-1]):
            v = merge(z3.substitute(c, *pairs), subst(w, pairs), v)
        return v
    return layered(ctx, width, tup, hit, DELETED if dels else new, old)


def inverse(it, coll, ps, wcond, kt):
    """The parameters as a function of the key they write."""
    ctx = it.ctx
    if len(kt) == len(ps) and all(a.eq(b) for a, b in zip(kt, ps)):
        return (lambda *xs: list(xs)), None
    if len(kt) == len(ps) and len(kt) == 2 and kt[0].eq(ps[1]) and kt[1].eq(ps[0]):
        return (lambda *xs: [xs[1], xs[0]]), None
    if len(kt) == 1 and len(ps) == 1:
        p, t = ps[0], kt[0]
        c = simp(t - p)
        if not has_var(c, [p]):
            return (lambda x: [simp(x - c)]), None
        # affine in a semantic sense: t(p) - p is constant over the admissible p
        p2 = z3.FreshInt("p2")
        facts = ctx.axioms + ctx.pc + [wcond, z3.substitute(wcond, (p, p2))]
        goal = (t - p) == z3.substitute(t - p, (p, p2))
        if isinstance(coll, SSeq) and aggr._entails(ctx, facts, goal, 3000):
            t0 = simp(z3.substitute(t, (p, z3.IntVal(0))))
            return (lambda x: [simp(x - t0)]), None
    if len(kt) == 1 and len(ps) == 1:
        h = hinted(it, ctx.axioms + ctx.pc + [wcond], ps, kt[0])
        if h is not None:
            return (lambda x: [h(x)]), (lambda x: z3.substitute(kt[0], (ps[0], h(x))) == x)
    if len(kt) > 1 and len(ps) == 1:
        for j, t in enumerate(kt):
            c = simp(t - ps[0])
            if not has_var(c, [ps[0]]):
                def inv1(*xs, j=j, c=c):
                    return [simp(xs[j] - c)]
                return inv1, (lambda *xs: z3.And(*[z3.substitute(a, (ps[0], inv1(*xs)[0])) == x for a, x in zip(kt, xs)]))
    # an injective key function: introduce its inverse
    qs = [z3.FreshInt("p2") for _ in ps]
    pairs = list(zip(ps, qs))
    facts = ctx.axioms + ctx.pc + [wcond, z3.substitute(wcond, *pairs)] + [a == z3.substitute(a, *pairs) for a in kt]
    if aggr._entails(ctx, facts, z3.And(*[p == q for p, q in zip(ps, qs)]), 3000):
        funs = [ctx.fresh_fun("inv", *([I] * len(kt) + [I])) for _ in ps]
        bs = [z3.FreshInt("fa") for _ in ps]
        sub = list(zip(ps, bs))
        ks = [z3.substitute(a, *sub) for a in kt]
        body = z3.Implies(z3.substitute(wcond, *sub), z3.And(*[f(*ks) == b for f, b in zip(funs, bs)]))
        ctx.pc.append(z3.ForAll(bs, body))

        def inv(*xs):
            return [f(*xs) for f in funs]

        def extra(*xs):
            qq = inv(*xs)
            return z3.And(*[z3.substitute(a, *list(zip(ps, qq))) == x for a, x in zip(kt, xs)])
        return inv, extra
    raise Unsupported("keys written by a loop are not known to differ")


def arr_effect(it, coll, ps, guard, normals, conds, oid, before, start):
    """Stores into a symbolic array at the loop index."""
    ctx = it.ctx
    t0, n0 = before
    ts = start[0]                 # the unknown content the body started from
    if not isinstance(coll, SSeq):
        raise Unsupported("array written in an unordered loop")
    p = ps[0]
    j = z3.FreshInt("j")
    vals = []
    for o in normals:
        t1, n1 = o.heap[oid]
        if not n1.eq(n0):
            raise Unsupported("array resized")
        facts = ctx.axioms + ctx.pc + [guard, conds[id(o)], j != p]
        if not aggr._entails(ctx, facts, z3.Select(t1, j) == z3.Select(ts, j), 3000):
            raise Unsupported("array written at another index")
        v = simp(z3.Select(t1, p))
        if has_var(v, [ts]):
            raise Unsupported("array entry depends on the array")
        vals.append((conds[id(o)], v))
    new = vals[-1][1]
    for c, v in reversed(vals[:-1]):
        new = z3.If(c, v, new)
    t2 = ctx.fresh("arr", z3.ArraySort(I, R))
    xx = z3.FreshInt("fa")
    ctx.pc.append(z3.ForAll([xx], z3.Select(t2, xx) == z3.If(z3.substitute(guard, (p, xx)), z3.substitute(new, (p, xx)), z3.Select(t0, xx)), patterns=[z3.Select(t2, xx)]))
    ctx.heap[oid] = (t2, n0)


class UnknownList:
    """The content of a list that earlier iterations extended."""
    tag = None
    width = 1

    def __init__(self, pre):
        self.pre = pre

    def __getattr__(self, name):
        raise Unsupported("list read inside the loop that extends it")


def written(k):
    kt = key_terms(k)
    return None if kt is None else (tuple(simp(t).sexpr() for t in kt), key_kind(k))


def own_keys(ctx, ps, guard, outs, oid, loc, pre):
    """The keys an iteration writes that no other iteration writes."""
    keys = {}
    for o in outs:
        c = locations(o.heap[oid]).get(loc)
        if not isinstance(c, DictC):
            return {}
        try:
            ops = ops_since(c, pre)
        except Unsupported:
            return {}
        for what, k, v in ops:
            if what == "set" or written(k) is None:
                return {}
            keys[written(k)] = key_terms(k)
    if not keys or len(keys) > 3:
        return {}
    qs = [z3.FreshInt("p2") for _ in ps]
    pairs = list(zip(ps, qs))
    same = z3.And(*[p == q for p, q in pairs])
    for a in keys.values():
        for b in keys.values():
            if len(a) != len(b):
                return {}
            facts = [guard, z3.substitute(guard, *pairs)] + [x == z3.substitute(y, *pairs) for x, y in zip(a, b)]
            if not aggr._entails(ctx, ctx.axioms + ctx.pc + facts, same, 2000):
                return {}
    return keys


def unknown_dict(ctx, pre, outs, oid, loc, at, own=None):
    """A dictionary content nothing is known about: that before the iteration `at`.

    At the keys `own`, which no other iteration writes, it is as before the loop."""
    width, tup = None, None
    if pre.base is not None:
        width, tup = pre.base.width, pre.base.tup
    else:
        for o in outs:
            for k, v in locations(o.heap[oid])[loc].writes[len(pre.writes):]:
                kt = key_terms(k)
                if kt is None:
                    raise Unsupported("key %r written in a symbolic loop" % (k,))
                width, tup = len(kt), key_kind(k)
            b = locations(o.heap[oid])[loc].base
            if b is not None:
                width, tup = b.width, b.tup
    if width is None:
        raise Unsupported("dictionary changed by a loop")
    at = [p for p in ctx.gparams if all(not p.eq(q) for q in at)] + list(at)
    f = z3.Function(str(z3.FreshConst(I, "unk")), *([I] * (len(at) + width) + [B]))
    own = own or {}

    def mine(k):
        if not own or (tuple(simp(t).sexpr() for t in k), tup) not in own:
            return None
        m.used = True
        return d_lookup(ctx, pre, make_key(tup, k))

    def dom(*k):
        o = mine(k)
        return f(*(at + list(k))) if o is None else o[0]

    def val(*k):
        o = mine(k)
        return Poison("dictionary read inside the loop that writes it") if o is None else o[1]
    m = SMap(width, dom, val, None, tup)
    m.own, m.used = own, False
    return DictC(m)
