"""Interpreter for the syntax trees of the real functions."""
import ast
import builtins
import inspect
import types
from fractions import Fraction

import z3

from . import core
from .core import (Unsupported, PathCut, PyRaise, Sym, Ref, FList, Choice, Opaque, Poison, I, R, B,
                   toz, zreal, subst, merge, is_scalar, is_real, is_int, kind_of, mk, literal, as_val,
                   mk_mul, mk_div, mk_sqrt, rv, simp, ReturnSig, BreakSig, ContinueSig)
from .values import (NAN, Frame, Obj, Inst, ListObj, DictC, DELETED, SMap, DictObj, FDict, SetObj, ArrObj, SSeq, SColl,
                     Alts, View, BoundMethod, Partial, FuncObj, Native, SuperProxy, GKey, Text, text, percent, force, key_terms, eq,
                     d_lookup, d_keys)

_ASTS = {}
UNSET = object()


def module_ast(filename):
    if filename not in _ASTS:
        with open(filename) as f:
            tree = ast.parse(f.read(), filename)
        table = {}

        def walk(node, prefix):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    line = ch.decorator_list[0].lineno if ch.decorator_list else ch.lineno
                    table[(ch.name, line)] = ch
                    walk(ch, prefix)
                elif isinstance(ch, ast.Lambda):
                    table.setdefault(("<lambda>", ch.lineno), ch)
                    walk(ch, prefix)
                else:
                    walk(ch, prefix)
        walk(tree, "")
        _ASTS[filename] = table
    return _ASTS[filename]


def function_ast(fn):
    code = fn.__code__
    table = module_ast(code.co_filename)
    node = table.get((code.co_name, code.co_firstlineno))
    if node is None:
        raise Unsupported("source of %s not found" % fn.__qualname__)
    return node


def is_generator(node):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            self.found = True

        def visit_YieldFrom(self, n):
            self.found = True

        def visit_FunctionDef(self, n):
            pass

        def visit_Lambda(self, n):
            pass
    v = V()
    for s in (node.body if isinstance(node.body, list) else [node.body]):
        v.visit(s)
    return v.found


NONDEG = "non-degenerate: no division of a non-zero array by zero, no coincident nodes of a deviation edge in array code"


class Interp:
    def __init__(self, ctx):
        self.ctx = ctx
        self.models = {}
        self.attr_models = {}
        self.depth = 0
        from . import lib
        from . import net
        lib.install(self)
        net.install(self)

    # ------------------------------------------------------------ heap access
    def get(self, ref):
        return self.ctx.heap[ref.oid]

    def put(self, ref, content):
        self.ctx.heap[ref.oid] = content

    def lift(self, v):
        """A value of the real interpreter as a value of this one."""
        if v is None or isinstance(v, (bool, int, str)):
            return v
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return v
            return Fraction(repr(v))
        if isinstance(v, tuple):
            return tuple(self.lift(x) for x in v)
        if isinstance(v, list):
            return ListObj(self.ctx, [self.lift(x) for x in v])
        if isinstance(v, dict):
            return DictObj(self.ctx, None, [(self.lift(k), self.lift(x)) for k, x in v.items()])
        return v

    def freeze(self, v):
        """An immutable copy of a value built from heap objects."""
        if isinstance(v, ListObj):
            base, items = self.get(v)
            if base is None:
                return FList([self.freeze(x) for x in items])
            if not items:
                return base
            raise Unsupported("list with a symbolic and a concrete part used as a value")
        if isinstance(v, DictObj):
            c = self.get(v)
            return FDict(DictC(c.base, [(k, self.freeze(x) if x is not DELETED else x) for k, x in c.writes]))
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        if isinstance(v, (Inst, SetObj, ArrObj)):
            return v
        return v

    # ---------------------------------------------------------------- calling
    def call(self, fn, args=(), kwargs=None):
        kwargs = kwargs or {}
        ctx = self.ctx
        ctx.check_time()
        fn = force(ctx, fn)
        if isinstance(fn, BoundMethod):
            return self.call(fn.fn, (fn.selfv,) + tuple(args), kwargs) if fn.defcls is None else self.call_def(fn.fn, (fn.selfv,) + tuple(args), kwargs, fn.defcls)
        if isinstance(fn, Partial):
            kw = dict(fn.kwargs)
            kw.update(kwargs)
            return self.call(fn.fn, tuple(fn.args) + tuple(args), kw)
        if isinstance(fn, Native):
            return fn.fn(self, *args, **kwargs)
        if isinstance(fn, FuncObj):
            return self.call_func(fn, args, kwargs)
        return self.call_def(fn, args, kwargs, None)

    def call_def(self, fn, args, kwargs, defcls):
        ctx = self.ctx
        try:
            h = ctx.contracts.get(fn)
            m = self.models.get(fn)
        except TypeError:
            h = m = None
        if h is not None:
            r = h(self, *args, **kwargs)
            if r is not NotImplemented:
                return r
        if m is not None:
            return m(self, *args, **kwargs)
        if isinstance(fn, types.FunctionType):
            node = function_ast(fn)
            defaults = [self.lift(d) for d in (fn.__defaults__ or ())]
            kwd = {k: self.lift(d) for k, d in (fn.__kwdefaults__ or {}).items()}
            q = "%s:%s" % (fn.__module__, fn.__qualname__)
            ctx.calls[q] = ctx.calls.get(q, 0) + 1
            outer = None
            if fn.__closure__:
                outer = Frame(ctx, None, fn.__globals__)
                self.put(outer, {n: self.lift(c.cell_contents) for n, c in zip(fn.__code__.co_freevars, fn.__closure__)})
            f = FuncObj(node, outer, fn.__globals__, defaults, kwd, defcls or self.defining_class(fn), fn.__name__)
            return self.call_func(f, args, kwargs)
        if isinstance(fn, types.MethodType):
            return self.call_def(fn.__func__, (fn.__self__,) + tuple(args), kwargs, defcls)
        if isinstance(fn, type):
            return self.instantiate(fn, args, kwargs)
        raise Unsupported("call of %r" % (fn,))

    def defining_class(self, fn):
        parts = fn.__qualname__.split(".")
        if len(parts) == 2:
            c = fn.__globals__.get(parts[0])
            if isinstance(c, type):
                return c
        return None

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            return ExcValue(cls, args)
        obj = Inst(self.ctx, cls)
        init, where = self.class_lookup(cls, "__init__")
        if init is object.__init__ or init is None:
            return obj
        self.call_def(init, (obj,) + tuple(args), kwargs, where)
        return obj

    def class_lookup(self, cls, name, after=None):
        mro = cls.__mro__
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.__dict__:
                return c.__dict__[name], c
        return None, None

    def call_func(self, f, args, kwargs):
        ctx = self.ctx
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("recursion")
        try:
            fr = Frame(ctx, f.frame, f.globs, f.defcls, f.name)
            self.bind(f, fr, args, kwargs)
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if is_generator(f.node):
                out = ListObj(ctx)
                fr2 = dict(self.get(fr))
                fr2["$yield"] = out
                self.put(fr, fr2)
                try:
                    self.block(f.node.body, fr)
                except ReturnSig:
                    pass
                return out
            try:
                self.block(f.node.body, fr)
            except ReturnSig as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    def bind(self, f, fr, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        kwargs = dict(kwargs)
        for i, n in enumerate(names):
            if i < len(args):
                loc[n] = args[i]
                if n in kwargs:
                    raise PyRaise(TypeError, ("multiple values",))
            elif n in kwargs:
                loc[n] = kwargs.pop(n)
            else:
                j = i - (len(names) - len(f.defaults))
                if j < 0:
                    raise PyRaise(TypeError, ("missing argument " + n,))
                loc[n] = f.defaults[j]
        rest = tuple(args[len(names):])
        if a.vararg:
            loc[a.vararg.arg] = rest
        elif rest:
            raise PyRaise(TypeError, ("too many arguments",))
        for x in a.kwonlyargs:
            n = x.arg
            if n in kwargs:
                loc[n] = kwargs.pop(n)
            elif n in f.kwdefaults:
                loc[n] = f.kwdefaults[n]
            else:
                raise PyRaise(TypeError, ("missing argument " + n,))
        if a.kwarg:
            loc[a.kwarg.arg] = DictObj(self.ctx, None, list(kwargs.items()))
        elif kwargs:
            raise PyRaise(TypeError, ("unexpected argument %s" % list(kwargs),))
        if names:
            fr.selfv = loc[names[0]]
        self.put(fr, loc)

    # ------------------------------------------------------------- attributes
    def getattr(self, o, name):
        o = force(self.ctx, o)
        ctx = self.ctx
        if isinstance(o, Inst):
            d, where = self.class_lookup(o.cls, name)
            m = self.attr_models.get((where, name))
            if m is not None:
                return m(self, o)
            if isinstance(d, property):
                try:
                    pm = self.models.get(d.fget)
                except TypeError:
                    pm = None
                if pm is not None:
                    return pm(self, o)
                return self.call_def(d.fget, (o,), {}, where)
            attrs = self.get(o)
            if name in attrs:
                return force(ctx, attrs[name])
            if name == "__class__":
                return o.cls
            if d is None and where is None:
                raise PyRaise(AttributeError, (name,))
            return self.bound(d, where, o, o.cls)
        if hasattr(o, "pv_getattr"):
            return o.pv_getattr(self, name)
        if isinstance(o, SuperProxy):
            d, where = self.class_lookup(o.cls, name, o.start)
            if where is None:
                raise PyRaise(AttributeError, (name,))
            if isinstance(d, property):
                return self.call_def(d.fget, (o.selfv,), {}, where)
            return self.bound(d, where, o.selfv, o.cls)
        if isinstance(o, type):
            if name == "__name__":
                return o.__name__
            d, where = self.class_lookup(o, name)
            if where is not None:
                if isinstance(d, property):
                    return d
                if isinstance(d, classmethod):
                    return BoundMethod(o, d.__func__, where)
                if isinstance(d, staticmethod):
                    return d.__func__
                return self.lift(d)
            return self.lift(getattr(o, name))
        if isinstance(o, property):
            return getattr(o, name)
        if isinstance(o, types.ModuleType):
            if not hasattr(o, name):
                raise PyRaise(AttributeError, (name,))
            return self.lift(getattr(o, name))
        m = self.method(o, name)
        if m is not None:
            return m
        if o is None or (is_scalar(o) and not hasattr(float, name) and not (isinstance(o, Sym) and o.kind == "val")):
            raise PyRaise(AttributeError, (name,))
        raise Unsupported("attribute %s of %r" % (name, o))

    def bound(self, d, where, o, cls):
        if isinstance(d, staticmethod):
            return d.__func__
        if isinstance(d, classmethod):
            return BoundMethod(cls, d.__func__, where)
        if isinstance(d, types.FunctionType):
            return BoundMethod(o, d, where)
        if isinstance(d, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            if d is object.__init__:
                return Native(lambda it, *a, **k: None)
            return BoundMethod(o, d, where)
        return self.lift(d)

    def method(self, o, name):
        """Methods of built-in containers."""
        from . import lib
        return lib.container_method(self, o, name)

    def setattr(self, o, name, v):
        o = force(self.ctx, o)
        if isinstance(o, Inst):
            d, where = self.class_lookup(o.cls, name)
            m = self.attr_models.get((where, name, "set"))
            if m is not None:
                return m(self, o, v)
            if isinstance(d, property):
                if d.fset is None:
                    raise PyRaise(AttributeError, (name,))
                self.call_def(d.fset, (o, v), {}, where)
                return
            a = dict(self.get(o))
            if "$frozen" in a:
                raise Unsupported("change of a generic object")
            a[name] = v
            self.put(o, a)
            return
        raise Unsupported("attribute assignment on %r" % (o,))

    # ------------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Yield):
            v = self.eval(s.value.value, fr) if s.value.value else None
            self.yield_(fr, v)
            return
        if isinstance(s.value, ast.YieldFrom):
            it = self.iterate(self.eval(s.value.value, fr))
            if not isinstance(it, list):
                raise Unsupported("yield from a symbolic collection")
            for v in it:
                self.yield_(fr, v)
            return
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def yield_(self, fr, v):
        out = self.get(fr)["$yield"]
        base, items = self.get(out)
        self.put(out, (base, items + (v,)))

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            mod = __import__(a.name)
            if a.asname:
                for p in a.name.split(".")[1:]:
                    mod = getattr(mod, p)
                self.setlocal(fr, a.asname, mod)
            else:
                self.setlocal(fr, a.name.split(".")[0], mod)

    def s_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.globs.get("__package__")
        mod = importlib.import_module(("." * s.level) + (s.module or ""), pkg)
        for a in s.names:
            self.setlocal(fr, a.asname or a.name, self.lift(getattr(mod, a.name)))

    def s_Global(self, s, fr):
        raise Unsupported("global")

    def s_Nonlocal(self, s, fr):
        fr.nonlocals = tuple(fr.nonlocals) + tuple(s.names)

    def s_Return(self, s, fr):
        raise ReturnSig(self.eval(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise BreakSig()

    def s_Continue(self, s, fr):
        raise ContinueSig()

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        load = ast.copy_location(_as_load(s.target), s)
        if isinstance(s.target, ast.Name):
            cur = self.eval(load, fr)
            v = self.eval(s.value, fr)
            self.assign(s.target, self.inplace(s.op, cur, v), fr)
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, fr)
            k = self.index(s.target.slice, fr)
            cur = self.getitem(o, k)
            v = self.eval(s.value, fr)
            self.setitem(o, k, self.inplace(s.op, cur, v))
        else:
            o = self.eval(s.target.value, fr)
            cur = self.getattr(o, s.target.attr)
            v = self.eval(s.value, fr)
            self.setattr(o, s.target.attr, self.inplace(s.op, cur, v))

    def inplace(self, op, cur, v):
        cur = force(self.ctx, cur)
        if isinstance(cur, ListObj) and isinstance(op, ast.Add):
            self.call(self.method(cur, "extend"), (v,))
            return cur
        if isinstance(cur, FList) and cur.arr:
            raise Unsupported("in place operation on an array value")
        if isinstance(cur, (SetObj, DictObj, ArrObj)):
            raise Unsupported("in place operation on a container")
        return self.binop(op, cur, v)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = force(self.ctx, self.eval(t.value, fr))
                k = self.index(t.slice, fr)
                self.delitem(o, k)
            elif isinstance(t, ast.Name):
                loc = dict(self.get(fr))
                loc.pop(t.id, None)
                self.put(fr, loc)
            else:
                raise Unsupported("del")

    def s_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise PyRaise(AssertionError, ())

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = self.get(fr).get("$exc")
            if cur is None:
                raise Unsupported("bare raise")
            raise cur
        v = self.eval(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyRaise(v, ())
        if isinstance(v, ExcValue):
            raise PyRaise(v.cls, v.args)
        raise Unsupported("raise of %r" % (v,))

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    types_ = ()
                    if h.type is None:
                        match = True
                    else:
                        t = self.eval(h.type, fr)
                        types_ = t if isinstance(t, tuple) else (t,)
                        match = any(issubclass(e.etype, x) for x in types_)
                    if match:
                        loc = dict(self.get(fr))
                        loc["$exc"] = e
                        if h.name:
                            loc[h.name] = ExcValue(e.etype, e.eargs)
                        self.put(fr, loc)
                        self.block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        raise Unsupported("with statement")

    def s_FunctionDef(self, s, fr):
        a = s.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {x.arg: self.eval(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f = FuncObj(s, fr, fr.globs, defaults, kwd, fr.defcls, s.name)
        if s.decorator_list:
            raise Unsupported("decorated local function")
        self.setlocal(fr, s.name, f)

    def s_For(self, s, fr):
        ctx = self.ctx
        val = self.eval(s.iter, fr)
        it = self.iterate(val)
        for h in ctx.hooks:
            r = h(self, s, fr, it, val)
            if r is not NotImplemented:
                return
        if isinstance(it, list):
            live = force(ctx, val)
            watch = live if isinstance(live, (ListObj, DictObj, SetObj)) else (live.d if isinstance(live, View) and isinstance(live.d, Ref) else None)
            before = self.get(watch) if watch is not None else None
            broke = False
            for v in it:
                try:
                    self.assign(s.target, v, fr)
                    self.block(s.body, fr)
                except ContinueSig:
                    pass
                except BreakSig:
                    broke = True
                if watch is not None and self.get(watch) is not before and not broke:
                    if _shape_changed(before, self.get(watch)):
                        raise Unsupported("container changed while iterated")
                if broke:
                    break
            if not broke:
                self.block(s.orelse, fr)
            return

        def body(v):
            try:
                self.assign(s.target, v, fr)
                self.block(s.body, fr)
            except ContinueSig:
                pass
        broke = self.sym_loop(it, body, fr, _target_names(s.target))
        if not broke:
            self.block(s.orelse, fr)

    def s_While(self, s, fr):
        ctx = self.ctx
        for h in ctx.hooks:
            r = h(self, s, fr, None, None)
            if r is not NotImplemented:
                return
        if self.drain(s, fr):
            return
        n = 0
        while True:
            t = self.eval(s.test, fr)
            n0 = len(ctx.pc)
            if not self.truth(t):
                self.block(s.orelse, fr)
                return
            if len(ctx.pc) != n0:
                n += 1
                if n > 3:
                    raise Unsupported("while loop with a symbolic bound")
            try:
                self.block(s.body, fr)
            except ContinueSig:
                pass
            except BreakSig:
                return
            n += 1
            if n > 300:
                raise Unsupported("while loop without a bound")

    def drain(self, s, fr):
        """while xs: x = xs.pop() ... over a symbolic collection is a loop over its elements in some order."""
        name = s.test.id if isinstance(s.test, ast.Name) else None
        first = s.body[0]
        if name is None or not (isinstance(first, ast.Assign) and len(first.targets) == 1 and isinstance(first.value, ast.Call)
                                and isinstance(first.value.func, ast.Attribute) and first.value.func.attr == "pop"
                                and isinstance(first.value.func.value, ast.Name) and first.value.func.value.id == name
                                and not first.value.args):
            return False
        if any(isinstance(x, ast.Name) and x.id == name for st in s.body[1:] for x in ast.walk(st)):
            return False
        xs = force(self.ctx, self.eval(s.test, fr))
        if not isinstance(xs, (ListObj, SetObj)):
            return False
        coll = self.iterate(xs)
        if isinstance(coll, list):
            return False

        def body(v):
            try:
                self.assign(first.targets[0], v, fr)
                self.block(s.body[1:], fr)
            except ContinueSig:
                pass
        broke = self.sym_loop(coll, body, fr, _target_names(first.targets[0]))
        if broke:
            self.setlocal(fr, name, Poison("a collection drained by a loop that was left early"))
        else:
            self.put(xs, (None, ()) if isinstance(xs, ListObj) else DictC())
            self.block(s.orelse, fr)
        return True

    # ------------------------------------------------------------- assignment
    def setlocal(self, fr, name, v):
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in self.get(f):
                    fr = f
                    break
                f = f.parent
        loc = dict(self.get(fr))
        loc[name] = v
        self.put(fr, loc)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setlocal(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for x, y in zip(t.elts, vals):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, y, fr)
                else:
                    self.assign(x, y, fr)
        elif isinstance(t, ast.Subscript):
            o = force(self.ctx, self.eval(t.value, fr))
            if isinstance(t.slice, ast.Slice):
                self.setslice(o, t.slice, v, fr)
            else:
                self.setitem(o, self.index(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, elts):
        v = force(self.ctx, v)
        it = self.iterate(v)
        n = len(elts)
        star = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
        if not isinstance(it, list):
            raise Unsupported("unpacking of a symbolic collection")
        if star:
            i = star[0]
            after = n - i - 1
            if len(it) < n - 1:
                raise PyRaise(ValueError, ("unpack",))
            mid = it[i:len(it) - after]
            return it[:i] + [ListObj(self.ctx, mid)] + it[len(it) - after:]
        if len(it) != n:
            raise PyRaise(ValueError, ("unpack",))
        return it

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return self.lift(v)
        if v is None or isinstance(v, (bool, int, str)):
            return v
        if v is Ellipsis:
            return v
        raise Unsupported("constant %r" % (v,))

    def e_JoinedStr(self, e, fr):
        return text(self.pieces(e, fr))

    def pieces(self, e, fr):
        """The parts of a formatted string."""
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
                continue
            v = force(self.ctx, self.eval(p.value, fr))
            spec = "" if p.format_spec is None else text(self.pieces(p.format_spec, fr))
            if not isinstance(spec, str) or p.conversion not in (-1, 115):
                v, spec = Opaque("text"), ""
            parts.append((v, spec))
        return parts

    def e_Name(self, e, fr):
        f = fr
        while f is not None:
            loc = self.get(f)
            if e.id in loc:
                v = loc[e.id]
                if isinstance(v, Poison):
                    raise Unsupported("variable %s not determined: %s" % (e.id, v.why))
                return v
            f = f.parent
        if e.id in fr.globs:
            return self.lift(fr.globs[e.id])
        if hasattr(builtins, e.id):
            return getattr(builtins, e.id)
        raise PyRaise(NameError, (e.id,))

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return ListObj(self.ctx, self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return SetObj(self.ctx, None, [(k, True) for k in self.elts(e.elts, fr)])

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.eval(x.value, fr))
                if not isinstance(it, list):
                    raise Unsupported("star of a symbolic collection")
                out += it
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        w = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = force(self.ctx, self.eval(v, fr))
                c = self.get(d) if isinstance(d, DictObj) else d.c
                if c.base is not None:
                    raise Unsupported("dict unpacking")
                w += list(c.writes)
            else:
                kk = self.eval(k, fr)
                w.append((kk, self.eval(v, fr)))
        return DictObj(self.ctx, None, w)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.eval(x, fr)
            if isinstance(v, Sym) and v.kind == "bool":
                t = self.truth(v)
                if t != isand:
                    return t
                continue
            t = self.truth(v)
            if t != isand:
                return v
        return self.eval(e.values[-1], fr)

    def e_UnaryOp(self, e, fr):
        v = force(self.ctx, self.eval(e.operand, fr))
        if isinstance(e.op, ast.Not):
            if isinstance(v, Sym) and v.kind == "bool":
                return mk("bool", z3.Not(v.z))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, float):
                return -v
            return self.binop(ast.Mult(), -1, v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def e_IfExp(self, e, fr):
        if self.truth(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return False
            left = right
        return res

    def e_Call(self, e, fr):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and f.defcls is None:
                f = f.parent
            if f is None:
                raise Unsupported("super()")
            s = f.selfv
            return SuperProxy(f.defcls, s, s.cls if isinstance(s, Inst) else s)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars", "eval", "exec"):
            raise Unsupported(e.func.id)
        fn = self.eval(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.eval(a.value, fr))
                if not isinstance(it, list):
                    raise Unsupported("star argument of symbolic length")
                args += it
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = force(self.ctx, self.eval(k.value, fr))
                c = self.get(d) if isinstance(d, DictObj) else d.c
                if c.base is not None:
                    raise Unsupported("symbolic keyword arguments")
                for kk, vv in c.writes:
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(fn, tuple(args), kwargs)

    def e_Lambda(self, e, fr):
        a = e.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {x.arg: self.eval(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return FuncObj(e, fr, fr.globs, defaults, kwd, fr.defcls, "<lambda>")

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            return self.getslice(force(self.ctx, o), e.slice, fr)
        return self.getitem(o, self.index(e.slice, fr))

    def index(self, s, fr):
        return force(self.ctx, self.eval(s, fr))

    def e_Slice(self, e, fr):
        return slice(*[self.eval(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        raise Unsupported("star expression")

    # comprehensions
    def e_ListComp(self, e, fr):
        out = ListObj(self.ctx)
        self.comp(e.generators, fr, lambda f: self.list_append(out, self.eval(e.elt, f)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        out = SetObj(self.ctx)
        self.comp(e.generators, fr, lambda f: self.put(out, self.get(out).put(force(self.ctx, self.eval(e.elt, f)), True)))
        return out

    def e_DictComp(self, e, fr):
        out = DictObj(self.ctx)

        def emit(f):
            k = force(self.ctx, self.eval(e.key, f))
            v = self.eval(e.value, f)
            self.put(out, self.get(out).put(k, v))
        self.comp(e.generators, fr, emit)
        return out

    def comp(self, gens, fr, emit):
        f = Frame(self.ctx, fr, fr.globs, fr.defcls, fr.fname)
        f.selfv = fr.selfv

        def go(i):
            if i == len(gens):
                emit(f)
                return
            g = gens[i]
            it = self.iterate(self.eval(g.iter, f if i else fr))

            def body(v):
                self.assign(g.target, v, f)
                for c in g.ifs:
                    if not self.truth(self.eval(c, f)):
                        return
                go(i + 1)
            if isinstance(it, list):
                for v in it:
                    body(v)
            else:
                self.sym_loop(it, body, f, _target_names(g.target))
        go(0)

    def list_append(self, lst, v):
        base, items = self.get(lst)
        self.put(lst, (base, items + (v,)))

    # -------------------------------------------------------------- operators
    def truth_term(self, v):
        """The truth of a value as a formula (None: not expressible)."""
        if isinstance(v, (bool, int, str, type(None), Fraction, float)):
            return z3.BoolVal(bool(v))
        if isinstance(v, tuple):
            return z3.BoolVal(len(v) > 0)
        if isinstance(v, Sym):
            return v.z if v.kind == "bool" else v.z != literal(None) if v.kind == "val" else v.z != 0
        if isinstance(v, FList) and not v.arr:
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, ListObj):
            base, items = self.get(v)
            return z3.BoolVal(bool(items)) if items or base is None else self.truth_term(base)
        if isinstance(v, SSeq):
            return v.n > 0
        if isinstance(v, SColl):
            return self.nonempty(v)
        if isinstance(v, Alts):
            ts = [(c, self.truth_term(w)) for c, w in v.alts]
            if any(t is None for _, t in ts):
                return None
            r = ts[-1][1]
            for c, t in reversed(ts[:-1]):
                r = z3.If(c, t, r)
            return r
        return None

    def truth(self, v):
        ctx = self.ctx
        v = force(ctx, v)
        if isinstance(v, (bool, int, str, type(None), Fraction, float)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Sym):
            if v.kind == "bool":
                return ctx.decide(v.z)
            if v.kind == "val":
                return ctx.decide(v.z != literal(None))
            return ctx.decide(v.z != 0)
        if isinstance(v, FList):
            if v.arr:
                raise Unsupported("truth of an array")
            return len(v.items) > 0
        if isinstance(v, ListObj):
            base, items = self.get(v)
            if items or base is None:
                return bool(items)
            return self.truth(base)
        if isinstance(v, SSeq):
            return ctx.decide(v.n > 0)
        if isinstance(v, SColl):
            return ctx.decide(self.nonempty(v))
        if isinstance(v, (DictObj, SetObj, FDict)):
            c = v.c if isinstance(v, FDict) else self.get(v)
            ks = d_keys(ctx, c)
            if isinstance(ks, list):
                return bool(ks)
            return ctx.decide(self.nonempty(ks))
        if isinstance(v, Inst):
            f, w = self.class_lookup(v.cls, "__bool__")
            if f is None:
                f, w = self.class_lookup(v.cls, "__len__")
            if f is not None:
                m = self.models.get((v.cls, "truth"))
                raise Unsupported("truth of %r" % v) if m is None else None
            return True
        if isinstance(v, Opaque):
            raise Unsupported("truth of opaque value")
        return True

    def binop(self, op, a, b):
        ctx = self.ctx
        a, b = force(ctx, a), force(ctx, b)
        if isinstance(a, ListObj) and isinstance(op, ast.Mult) and isinstance(b, int):
            base, items = self.get(a)
            if base is None:
                return ListObj(ctx, items * b)
        if isinstance(a, ListObj) and isinstance(b, ListObj) and isinstance(op, ast.Add):
            (b1, i1), (b2, i2) = self.get(a), self.get(b)
            if b1 is None and b2 is None:
                return ListObj(ctx, i1 + i2)
            raise Unsupported("concatenation of symbolic lists")
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque)):
            if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Add):
                return text([(a, ""), (b, "")]) if all(isinstance(x, (str, Text, GKey)) for x in (a, b)) else Opaque("text")
            if isinstance(op, ast.Mod) and isinstance(a, str):
                return percent(a, [force(ctx, x) for x in (b if isinstance(b, tuple) else (b,))])
            return Opaque("text")
        if isinstance(a, SetObj) or isinstance(b, SetObj):
            return self.setop(op, a, b)
        if (isinstance(a, FList) and a.arr) or (isinstance(b, FList) and b.arr):
            return self.arrop(op, a, b)
        from . import lib
        if isinstance(a, ArrObj) or isinstance(b, ArrObj):
            return lib.arr_elementwise(self, op, a, b)
        if isinstance(a, lib.ArrColl) and isinstance(b, lib.ArrColl):
            return lib.arr_binop_coll(self, op, a, b)
        if (isinstance(a, lib.ArrColl) and is_scalar(b)) or (isinstance(b, lib.ArrColl) and is_scalar(a)):
            return lib.arr_scalar_coll(self, op, a, b)
        if isinstance(a, Inst) or isinstance(b, Inst):
            return self.instop(op, a, b)
        if isinstance(a, float) or isinstance(b, float):
            return self.floatop(op, a, b)
        if a is None or b is None or not is_scalar(a) or not is_scalar(b):
            if a is None or b is None or isinstance(a, (tuple, ListObj, FList)) or isinstance(b, (tuple, ListObj, FList)):
                raise PyRaise(TypeError, ("operand",))
            raise Unsupported("operation on %r and %r" % (a, b))
        return self.scalarop(op, a, b)

    def scalarop(self, op, a, b):
        ctx = self.ctx
        if kind_of(a) == "val" or kind_of(b) == "val":
            raise Unsupported("arithmetic on attribute values")
        a = int(a) if isinstance(a, bool) else a
        b = int(b) if isinstance(b, bool) else b
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            try:
                if isinstance(op, ast.Add):
                    return a + b
                if isinstance(op, ast.Sub):
                    return a - b
                if isinstance(op, ast.Mult):
                    return a * b
                if isinstance(op, ast.Div):
                    return Fraction(a) / Fraction(b)
                if isinstance(op, ast.FloorDiv) and isinstance(a, int) and isinstance(b, int):
                    return a // b
                if isinstance(op, ast.Mod) and isinstance(a, int) and isinstance(b, int):
                    return a % b
                if isinstance(op, ast.Pow) and isinstance(b, int) and b >= 0:
                    return a ** b
            except ZeroDivisionError:
                raise PyRaise(ZeroDivisionError, ())
        ints = is_int(a) and is_int(b)
        if isinstance(op, (ast.Add, ast.Sub)):
            sgn = 1 if isinstance(op, ast.Add) else -1
            if ints:
                return mk("int", toz(a) + toz(b) if sgn > 0 else toz(a) - toz(b))
            return mk("real", zreal(a) + zreal(b) if sgn > 0 else zreal(a) - zreal(b))
        if isinstance(op, ast.Mult):
            if ints:
                return mk("int", toz(a) * toz(b))
            return mk("real", mk_mul(zreal(a), zreal(b)))
        if isinstance(op, ast.Div):
            d = zreal(b)
            if ctx.decide(d == 0):
                return self.div_zero(a)
            return mk("real", mk_div(zreal(a), d))
        if isinstance(op, ast.Pow):
            if isinstance(b, int) and 0 <= b <= 4:
                if b == 0:
                    return 1
                r = a
                for _ in range(b - 1):
                    r = self.scalarop(ast.Mult(), r, a)
                return r
            if b == Fraction(1, 2):
                z = zreal(a)
                if ctx.decide(z < 0):
                    raise Unsupported("square root of a negative number")
                return mk("real", mk_sqrt(z))
            raise Unsupported("power")
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and ints:
            d = toz(b)
            if not (z3.is_int_value(d) and d.as_long() > 0):
                raise Unsupported("integer division")
            return mk("int", toz(a) / d if isinstance(op, ast.FloorDiv) else toz(a) % d)
        raise Unsupported("operator %s" % type(op).__name__)

    def div_zero(self, a):
        raise PyRaise(ZeroDivisionError, ())

    def floatop(self, op, a, b):
        """Arithmetic with infinities."""
        inf = float("inf")
        x, y = (a, b) if isinstance(a, float) else (b, a)
        if isinstance(op, ast.Mult) and y == -1:
            return -x
        if isinstance(op, ast.Add) and not isinstance(y, float) and is_scalar(y):
            return x
        raise Unsupported("arithmetic with infinity")

    def arrop(self, op, a, b):
        def items(v, n):
            if isinstance(v, FList):
                return v.items
            if isinstance(v, ListObj):
                return self.freeze(v).items
            if is_scalar(v):
                return (v,) * n
            raise Unsupported("array operation with %r" % (v,))
        n = len(a.items) if isinstance(a, FList) else len(b.items)
        xa, xb = items(a, n), items(b, n)
        if len(xa) != len(xb):
            raise PyRaise(ValueError, ("shapes",))
        out = []
        if isinstance(op, ast.Div) and is_scalar(b) and not self.ctx.gparams and self.ctx.decide(zreal(b) == 0):
            if all(self.ctx.entailed(zreal(x) == 0) for x in xa):
                return NAN
            self.ctx.assumptions.add(NONDEG)
            raise PathCut()
        for x, y in zip(xa, xb):
            if isinstance(op, ast.Div):
                out.append(self.np_div(x, y))
            else:
                out.append(self.binop(op, x, y))
        return FList(out, True)

    def np_div(self, x, y):
        d = zreal(y)
        if self.ctx.decide(d == 0):
            self.ctx.assumptions.add(NONDEG)
            raise PathCut()
        return mk("real", mk_div(zreal(x), d))

    def instop(self, op, a, b):
        name = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__"}.get(type(op))
        if isinstance(a, Inst) and name:
            f, w = self.class_lookup(a.cls, name)
            if isinstance(f, types.FunctionType):
                return self.call_def(f, (a, b), {}, w)
        raise Unsupported("operator on objects")

    def setop(self, op, a, b):
        ctx = self.ctx
        if not (isinstance(a, SetObj) and isinstance(b, SetObj)):
            raise Unsupported("set operation")
        ca, cb = self.get(a), self.get(b)
        if isinstance(op, ast.Sub):
            keys = d_keys(ctx, ca)
            if isinstance(keys, list):
                out = [k for k in keys if not ctx.decide(d_lookup(ctx, cb, k)[0])]
                return SetObj(ctx, None, [(k, True) for k in out])
            base = ca.base

            def dom(*ks):
                key = base.key(ks)
                return z3.And(d_lookup(ctx, ca, key)[0], z3.Not(d_lookup(ctx, cb, key)[0]))
            return SetObj(ctx, SMap(base.width, dom, lambda *ks: True, None, base.tup))
        if isinstance(op, ast.BitOr):
            if ca.base is None and cb.base is None:
                return SetObj(ctx, None, ca.writes + cb.writes)
        if isinstance(op, ast.BitAnd):
            if ca.base is None and cb.base is None:
                return SetObj(ctx, None, [(k, v) for k, v in ca.writes if ctx.decide(d_lookup(ctx, cb, k)[0])])
        raise Unsupported("set operation")

    def compare(self, op, a, b):
        ctx = self.ctx
        a, b = force(ctx, a), force(ctx, b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            if isinstance(op, ast.IsNot):
                r = mk("bool", z3.Not(r)) if isinstance(r, z3.ExprRef) else not r
            elif isinstance(r, z3.ExprRef):
                r = mk("bool", r)
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = mk("bool", self.contains(b, a))
            if isinstance(op, ast.NotIn):
                r = mk("bool", z3.Not(toz(r)))
            return r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if (isinstance(a, FList) and a.arr) or (isinstance(b, FList) and b.arr):
                raise Unsupported("array comparison")
            if isinstance(a, ListObj):
                a = self.freeze(a)
            if isinstance(b, ListObj):
                b = self.freeze(b)
            if isinstance(a, Inst) or isinstance(b, Inst):
                x = a if isinstance(a, Inst) else b
                f, w = self.class_lookup(x.cls, "__eq__")
                if isinstance(f, types.FunctionType):
                    raise Unsupported("user defined equality")
            r = eq(a, b)
            if isinstance(op, ast.NotEq):
                r = z3.Not(r)
            return mk("bool", r)
        if isinstance(a, float) or isinstance(b, float):
            return self.cmp_inf(op, a, b)
        if isinstance(a, SetObj) or isinstance(b, SetObj):
            raise Unsupported("set comparison")
        if not is_scalar(a) or not is_scalar(b):
            if a is None or b is None or isinstance(a, (str, tuple)) != isinstance(b, (str, tuple)):
                raise PyRaise(TypeError, ("comparison",))
            raise Unsupported("comparison of %r and %r" % (a, b))
        if is_int(a) and is_int(b):
            x, y = toz(a), toz(b)
        else:
            x, y = zreal(a), zreal(b)
        if isinstance(op, ast.Lt):
            r = x < y
        elif isinstance(op, ast.LtE):
            r = x <= y
        elif isinstance(op, ast.Gt):
            r = x > y
        elif isinstance(op, ast.GtE):
            r = x >= y
        else:
            raise Unsupported("comparison")
        return mk("bool", r)

    def cmp_inf(self, op, a, b):
        fa = a if isinstance(a, float) else 0.0
        fb = b if isinstance(b, float) else 0.0
        if isinstance(op, ast.Lt):
            return fa < fb
        if isinstance(op, ast.LtE):
            return fa <= fb
        if isinstance(op, ast.Gt):
            return fa > fb
        return fa >= fb

    def is_(self, a, b):
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, Sym) and o.kind == "val":
                return o.z == literal(None)
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            if (isinstance(a, Sym) and a.kind == "bool") or (isinstance(b, Sym) and b.kind == "bool"):
                return toz(a) == toz(b)
            return False
        if isinstance(a, type) or isinstance(b, type):
            return a is b
        raise Unsupported("identity of values")

    def contains(self, c, x):
        ctx = self.ctx
        c = force(ctx, c)
        if hasattr(c, "pv_contains"):
            return c.pv_contains(self, x)
        if isinstance(c, View):
            if c.what == "keys":
                c = c.d
            else:
                it = self.iterate(c)
                if isinstance(it, list):
                    return z3.Or(*[eq(x, y) for y in it]) if it else z3.BoolVal(False)
                raise Unsupported("membership in a view")
        if isinstance(c, (DictObj, SetObj)):
            return d_lookup(ctx, self.get(c), x)[0]
        if isinstance(c, FDict):
            return d_lookup(ctx, c.c, x)[0]
        if isinstance(c, ListObj):
            base, items = self.get(c)
            r = z3.Or(*[eq(x, y) for y in items]) if items else z3.BoolVal(False)
            if base is not None:
                r = z3.Or(r, self.coll_contains(base, x))
            return r
        if isinstance(c, (tuple, FList)):
            items = c if isinstance(c, tuple) else c.items
            return z3.Or(*[eq(x, y) for y in items]) if items else z3.BoolVal(False)
        if isinstance(c, (SColl, SSeq)):
            return self.coll_contains(c, x)
        if isinstance(c, str) and isinstance(x, str):
            return z3.BoolVal(x in c)
        raise Unsupported("membership in %r" % (c,))

    def coll_contains(self, coll, x):
        ks = key_terms(x)
        ps = [z3.FreshInt("w") for _ in range(coll.width)]
        if isinstance(coll, SColl):
            raw = coll.raw(ps)
            rt = key_terms(raw) if not isinstance(raw, Alts) else None
            if ks is not None and rt is not None and len(ks) == len(rt) and all(a.eq(b) for a, b in zip(rt, ps)):
                return coll.guard(*ks)
            if isinstance(raw, Alts) and ks is not None and all(key_terms(v) is not None and len(key_terms(v)) == len(ps) and all(a.eq(b) for a, b in zip(key_terms(v), ps)) for c, v in raw.alts):
                return coll.guard(*ks)
        else:
            raw = coll.item(ps[0])
        if isinstance(raw, Alts):
            raise Unsupported("membership in a mapped collection")
        return z3.Exists(ps, z3.And(coll.guard(*ps), eq(raw, x)))

    # ------------------------------------------------------------ item access
    def getitem(self, o, k):
        ctx = self.ctx
        o, k = force(ctx, o), force(ctx, k)
        if hasattr(o, "pv_getitem"):
            return o.pv_getitem(self, k)
        if isinstance(o, View):
            raise PyRaise(TypeError, ("view",))
        if isinstance(o, (DictObj, FDict)):
            c = self.get(o) if isinstance(o, DictObj) else o.c
            if isinstance(k, FList):
                raise PyRaise(TypeError, ("unhashable",))
            if isinstance(k, ListObj):
                raise PyRaise(TypeError, ("unhashable",))
            if isinstance(k, Sym) and k.kind == "real":
                k = self.real_key(c, k)
            if c.base is None and not all(is_scalar(x[0]) or isinstance(x[0], tuple) for x in c.writes):
                pass
            dom, val = d_lookup(ctx, c, k)
            if not ctx.decide(dom):
                raise PyRaise(KeyError, (k,))
            return force(ctx, val)
        if isinstance(o, ListObj):
            base, items = self.get(o)
            if base is None:
                return self.seqitem(items, k)
            if isinstance(base, SSeq) and not items:
                return self.getitem(base, k)
            if isinstance(base, SColl) and not items and k == 0 and getattr(ctx, "any_first", False):
                # only where the contract allows it (outside symbolic loops): the first item is an arbitrary one
                if not self.truth(o):
                    raise PyRaise(IndexError, ("list index out of range",))
                ps = [z3.FreshConst(I, "first") for _ in range(base.width)]
                ctx.assume(base.guard(*ps))
                return force(ctx, base.elem(ctx, ps))
            raise Unsupported("index into a symbolic list")
        if isinstance(o, tuple):
            return self.seqitem(o, k)
        if isinstance(o, FList):
            if isinstance(k, tuple):
                raise Unsupported("array index")
            return self.seqitem(o.items, k)
        if isinstance(o, SSeq):
            if isinstance(k, int) and k < 0:
                z = o.n + k
                if not ctx.decide(z >= 0):
                    raise PyRaise(IndexError, ())
                return force(ctx, o.item(simp(z)))
            z = toz(k)
            if not ctx.decide(z3.And(z >= 0, z < o.n)):
                raise PyRaise(IndexError, ()) if ctx.decide(z >= o.n) else Unsupported("negative index")
            return force(ctx, o.item(z))
        if isinstance(o, ArrObj):
            t, n = self.get(o)
            z = toz(k)
            if not ctx.decide(z3.And(z >= 0, z < n)):
                raise PyRaise(IndexError, ())
            return mk("real", z3.Select(t, z))
        if isinstance(o, Inst):
            f, w = self.class_lookup(o.cls, "__getitem__")
            if isinstance(f, types.FunctionType):
                return self.call_def(f, (o, k), {}, w)
        raise Unsupported("indexing of %r" % (o,))

    def real_key(self, c, k):
        return k

    def seqitem(self, items, k):
        if isinstance(k, Sym):
            z = toz(k)
            for i in range(len(items)):
                if self.ctx.decide(z == i):
                    return force(self.ctx, items[i])
            raise PyRaise(IndexError, ())
        if not isinstance(k, int):
            raise Unsupported("index")
        if k < -len(items) or k >= len(items):
            raise PyRaise(IndexError, ())
        return force(self.ctx, items[k])

    def getslice(self, o, s, fr):
        lo, up, st = [self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)]
        if isinstance(o, ListObj):
            base, items = self.get(o)
            if base is None and all(x is None or isinstance(x, int) for x in (lo, up, st)):
                return ListObj(self.ctx, items[lo:up:st])
            if base is not None and not items and isinstance(base, SSeq):
                r = self.seqslice(base, lo, up, st)
                return r if isinstance(r, ListObj) else ListObj(self.ctx, r, None) if isinstance(r, tuple) else ListObj(self.ctx, (), r)
        if isinstance(o, tuple) and all(x is None or isinstance(x, int) for x in (lo, up, st)):
            return o[lo:up:st]
        if isinstance(o, FList) and all(x is None or isinstance(x, int) for x in (lo, up, st)):
            return FList(o.items[lo:up:st], o.arr)
        if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (lo, up, st)):
            return o[lo:up:st]
        if isinstance(o, SSeq):
            return self.seqslice(o, lo, up, st)
        raise Unsupported("slice")

    def seqslice(self, q, lo, up, st):
        ctx = self.ctx
        if st not in (None, 1):
            if st == -1 and lo is None and up is None:
                return SSeq(q.n, lambda i: q.item(simp(q.n - 1 - i)), None, q.kind)
            raise Unsupported("slice step")
        lo = 0 if lo is None else lo

        def norm(x):
            z = toz(x)
            if ctx.decide(z < 0):
                z = z + q.n
                if ctx.decide(z < 0):
                    z = z3.IntVal(0)
            if ctx.decide(z > q.n):
                z = q.n
            return z
        a = norm(lo)
        b = q.n if up is None else norm(up)
        if ctx.decide(b < a):
            b = a
        size = simp(b - a)
        if z3.is_int_value(size) and 0 <= size.as_long() <= 4:
            xs = [q.item(simp(a + i)) for i in range(size.as_long())]
            if q.kind == "tuple":
                return tuple(xs)
            if q.kind == "list":
                return ListObj(ctx, xs)
        return SSeq(size, lambda i: q.item(simp(a + i)), None, q.kind)

    def setitem(self, o, k, v):
        ctx = self.ctx
        o, k = force(ctx, o), force(ctx, k)
        if hasattr(o, "pv_setitem"):
            return o.pv_setitem(self, k, v)
        if isinstance(o, DictObj):
            if isinstance(k, (ListObj, FList)):
                raise PyRaise(TypeError, ("unhashable",))
            c = self.get(o)
            if key_terms(k) is None and not isinstance(k, (str, bool, Fraction, type(None), float)) and not (isinstance(k, Sym)):
                raise Unsupported("dictionary key %r" % (k,))
            if c.base is not None:
                v = self.freeze(v)
            self.put(o, c.put(k, v))
            return
        if isinstance(o, ListObj):
            base, items = self.get(o)
            if base is None and isinstance(k, int) and -len(items) <= k < len(items):
                items = list(items)
                items[k] = v
                self.put(o, (base, tuple(items)))
                return
            raise Unsupported("item assignment into a symbolic list")
        if isinstance(o, ArrObj):
            t, n = self.get(o)
            z = toz(k)
            if not ctx.decide(z3.And(z >= 0, z < n)):
                raise PyRaise(IndexError, ())
            self.put(o, (z3.Store(t, z, self.arr_real(v)), n))
            return
        raise Unsupported("item assignment on %r" % (o,))

    INF = z3.Real("inf")

    def arr_real(self, v):
        """A number as a term of an array (infinities are two constants)."""
        v = force(self.ctx, v)
        if isinstance(v, float):
            if v == float("inf"):
                return self.INF
            if v == float("-inf"):
                return -self.INF
            raise Unsupported("nan")
        return zreal(v)

    def setslice(self, o, s, v, fr):
        if isinstance(o, ArrObj) and s.lower is None and s.upper is None:
            v = force(self.ctx, v)
            t, n = self.get(o)
            if isinstance(v, ArrObj):
                t2, n2 = self.get(v)
                if not self.ctx.decide(n == n2):
                    raise PyRaise(ValueError, ("shape",))
                self.put(o, (t2, n))
                return
        raise Unsupported("slice assignment")

    def delitem(self, o, k):
        ctx = self.ctx
        if hasattr(o, "pv_delitem"):
            return o.pv_delitem(self, force(ctx, k))
        if isinstance(o, DictObj):
            c = self.get(o)
            dom, _ = d_lookup(ctx, c, k)
            if not ctx.decide(dom):
                raise PyRaise(KeyError, (k,))
            self.put(o, c.put(k, DELETED))
            return
        raise Unsupported("del on %r" % (o,))

    # -------------------------------------------------------------- iteration
    def iterate(self, v):
        """A concrete list of the elements or a symbolic collection."""
        ctx = self.ctx
        v = force(ctx, v)
        if isinstance(v, (tuple, list)):
            return list(v)
        if hasattr(v, "pv_iterate"):
            return v.pv_iterate(self)
        if isinstance(v, FList):
            return list(v.items)
        if isinstance(v, (SSeq, SColl)):
            return v
        if isinstance(v, ListObj):
            base, items = self.get(v)
            if base is None:
                return list(items)
            if not items:
                return base
            raise Unsupported("iteration over a partly symbolic list")
        if isinstance(v, (DictObj, SetObj, FDict)):
            c = v.c if isinstance(v, FDict) else self.get(v)
            ks = d_keys(ctx, c)
            if isinstance(v, SetObj) and isinstance(ks, SColl):
                ks.origin = ("set", v)      # in an order of its own
            return ks
        if isinstance(v, View):
            c = v.d.c if isinstance(v.d, FDict) else self.get(v.d)
            ks = d_keys(ctx, c)
            if v.what == "keys":
                return ks
            if isinstance(ks, list):
                vals = [d_lookup(ctx, c, k)[1] for k in ks]
                return vals if v.what == "values" else list(zip(ks, vals))
            base = c.base
            if v.what == "values":
                return SColl(base.width, ks.guard, lambda *ps: d_lookup(ctx, c, base.key(ps))[1], tag=(v.what, base.tag) if not c.writes else None, distinct=False)
            return SColl(base.width, ks.guard, lambda *ps: (base.key(ps), d_lookup(ctx, c, base.key(ps))[1]), tag=(v.what, base.tag) if not c.writes else None)
        if isinstance(v, Inst):
            f, w = self.class_lookup(v.cls, "__iter__")
            if isinstance(f, types.FunctionType):
                return self.iterate(self.call_def(f, (v,), {}, w))
        if isinstance(v, str):
            return list(v)
        if isinstance(v, ArrObj):
            t, n = self.get(v)
            return SSeq(n, lambda i: mk("real", z3.Select(t, i)))
        if v is None or is_scalar(v):
            raise PyRaise(TypeError, ("not iterable",))
        raise Unsupported("iteration over %r" % (v,))

    def nonempty(self, coll):
        from . import aggr
        return aggr.exists_atom(self, coll)

    def sym_loop(self, coll, body, fr, targets):
        from . import loops
        return loops.sym_loop(self, coll, body, fr, targets)


class ExcValue:
    def __init__(self, cls, args):
        self.cls, self.args = cls, tuple(args)


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    return t2


def _target_names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def _shape_changed(a, b):
    if isinstance(a, tuple):
        return len(a[1]) != len(b[1]) or a[0] is not b[0]
    # dictionaries: only writes to existing keys are allowed
    ka = [k for k, v in a.writes]
    for k, v in b.writes[len(a.writes):]:
        if v is DELETED or not any(z3.is_true(eq(k, x)) for x in ka):
            return True
    return False
