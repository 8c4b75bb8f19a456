"""Symbolic interpreter of the real function bodies.

The source of a function is located from the live object (file and first line
of its code) and parsed on every run; nothing is dropped from it.  Calls to
repository functions enter their bodies (or use their contract, where one is
registered in CONTRACTS, which is then proved separately); calls to libraries
go to the models in npmodel.py, anything else is Unsupported.
"""
import ast
import builtins
import os
import types

from . import ir
from .ir import T, Unsupported
from .core import (seg_reversed, Raised, ctx, Ctx, Arr, Store, mkarr, arr_of_body, shape_eq, write, One, Rep, many, PySeq, seglen, seq_at,
                   KV, KRep, PyDict, key_eq, Obj, FamObj, Family, Dirty, Closure, Bound, Opaque, Poison, UNDEF, Vars, AccSeg,
                   vsyms, vsubst, vite, signature, all_dirty, single_sym, segsyms, PH, dim, Infeasible)

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
MODELS = {}            # id(host object) -> model(args, kwargs)
MODEL_KEEP = []        # keeps the host objects alive
CONTRACTS = {}         # qualified name -> model(args, kwargs)
INVARIANTS = {}        # (qualified name, loop ordinal) -> fn(interp state) ; see genloop
ATTRS = {}             # kind -> fn(value, name)
MAXDEPTH = 60


def model(*hosts):
    def deco(f):
        for h in hosts:
            MODELS[id(h)] = f
            MODEL_KEEP.append(h)
        return f
    return deco


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


# ------------------------------------------------------------------ sources

_files = {}


def file_index(path):
    """(name, first line) -> function node"""
    if path not in _files:
        tree = ast.parse(open(path).read(), path)
        idx = {}
        for nd in ast.walk(tree):
            if isinstance(nd, (ast.FunctionDef, ast.Lambda)):
                line = nd.lineno
                if isinstance(nd, ast.FunctionDef) and nd.decorator_list:
                    line = min(d.lineno for d in nd.decorator_list)
                idx.setdefault((getattr(nd, "name", "<lambda>"), line), nd)
        _files[path] = idx
    return _files[path]


CLIENT = os.path.join(os.path.dirname(os.path.dirname(os.path.realpath(__file__))), "contracts", "client.py")


def source_of(fn):
    code = fn.__code__
    path = os.path.realpath(code.co_filename)
    if not in_repo(fn):
        raise Unsupported("function %s outside the repository" % fn.__qualname__)
    nd = file_index(path).get((code.co_name, code.co_firstlineno))
    if nd is None:
        raise Unsupported("source of %s" % fn.__qualname__)
    return nd


def in_repo(fn):
    code = getattr(fn, "__code__", None)
    if code is None:
        return False
    path = os.path.realpath(code.co_filename)
    return path.startswith(REPO + os.sep) or path == CLIENT


def qual(fn):
    return "%s.%s" % (fn.__module__.replace("templatefitter.", ""), fn.__qualname__)


# -------------------------------------------------------------------- scopes

class Scope:
    """names of one activation; parent: enclosing function scope"""
    __slots__ = ("vars", "parent", "globals", "cls", "fnargs", "yields", "name", "nloc")

    def __init__(self, globals_, parent=None, cls=None, name="?"):
        self.vars = Vars(ctx().tick())
        self.parent = parent
        self.globals = globals_
        self.cls = cls
        self.fnargs = None
        self.yields = None
        self.name = name
        self.nloc = ()

    def get(self, name):
        s = self
        while s is not None:
            v = getattr(s.vars, name, UNDEF)
            if v is not UNDEF:
                if isinstance(v, Poison) and v.last is not None:
                    v, n, old = v.last
                    if not ctx().decide(ir.lt(ir.ZERO, n)):
                        v = old
                    if v is UNDEF:
                        raise Raised(UnboundLocalError, (name,))
                if isinstance(v, Poison):
                    raise Unsupported("value of %s: %s" % (name, v.why))
                return v
            s = s.parent
        if name in self.globals:
            return self.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise Unsupported("name %s" % name)

    def set(self, name, v):
        ctx().heap.put(self.vars, name, v)


# ---------------------------------------------------------------- conversion

def num(x):
    """term of a scalar value"""
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return ir.boolc(x)
    if isinstance(x, (int, float)):
        return ir.num(x)
    import numpy as np
    if isinstance(x, np.generic):
        return num(x.item())
    if isinstance(x, Arr) and not x.shape:
        return x.body()
    from fractions import Fraction
    if isinstance(x, Fraction):
        return ir.num(x)
    raise Unsupported("scalar expected, got %s" % type(x).__name__)


def is_scalar(x):
    import numpy as np
    from fractions import Fraction
    return (isinstance(x, T) and x.sort in ("I", "R", "B")) or isinstance(x, (bool, int, float, np.generic, Fraction))


def simplify_scalar(t):
    """host int for integer constants, the term otherwise"""
    if isinstance(t, ir.Poly):
        c = ir.const(t)
        if c is not None and c.denominator == 1 and t.sort == "I":
            return int(c)
    elif isinstance(t, ir.BConst):
        return t.v
    elif isinstance(t, ir.Str):
        return t.v
    return t


def truth(v):
    if isinstance(v, (bool, int, str, float)) or v is None:
        return bool(v)
    if isinstance(v, T):
        if v.sort == "S":
            raise Unsupported("truth of a symbolic string")
        return ctx().decide(ir.tobool(v))
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, (PySeq, PyDict)):
        return ctx().decide(ir.ne(v.length(), ir.ZERO))
    if isinstance(v, Arr):
        if not v.shape:
            return truth(v.body())
        if all(ir.const(s) == 1 for s in v.shape):
            return truth(v.get(*[0] * v.ndim))
        if ctx().entailed(ir.le(v.size(), ir.ONE)) is False:
            raise Raised(ValueError, ("truth of an array",))
        raise Unsupported("truth of an array")
    if isinstance(v, (Obj, FamObj)):
        for n in ("__bool__", "__len__"):
            m = class_lookup(v.cls, n)
            if m is not None:
                return truth(call(Bound(m, v), (), {}))
        return True
    if isinstance(v, (Closure, Bound, Opaque, types.FunctionType, type)):
        return True
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    raise Unsupported("truth of %s" % type(v).__name__)


# ------------------------------------------------------------------ strings

def cat(*parts):
    """concatenation of strings, flattened"""
    out = []
    for p in parts:
        if isinstance(p, (int, float)) and not isinstance(p, bool):
            p = str(p)
        if isinstance(p, T) and p.sort in ("I", "R"):
            c = ir.const(p)
            p = ir.strc(str(int(c))) if c is not None and c.denominator == 1 else ir.app("str", (p,), "S")
        p = ir.lift(p)
        if isinstance(p, ir.App) and p.f == "cat":
            out.extend(p.args)
        else:
            out.append(p)
    m = []
    for p in out:
        if isinstance(p, ir.Str):
            if p.v == "":
                continue
            if m and isinstance(m[-1], ir.Str):
                m[-1] = ir.strc(m[-1].v + p.v)
                continue
        m.append(p)
    if not m:
        return ""
    if len(m) == 1:
        return m[0].v if isinstance(m[0], ir.Str) else m[0]
    return ir.mk(ir.App, ("cat", tuple(m), "S"), f="cat", args=tuple(m), sort="S")


ir._REBUILD["cat"] = lambda *a: ir.lift(cat(*a))


def to_str(v):
    if isinstance(v, str):
        return v
    if isinstance(v, T):
        if v.sort == "S":
            return v
        if v.sort == "I":
            return cat(v)
    if isinstance(v, bool) or v is None:
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, type):
        return str(v)
    return opaque_text()


def opaque_text():
    """a text the verifier does not follow; a failed obligation that mentions
    one decides nothing"""
    return ctx().new_value("text", "S")


def formatted(v, spec="", conv=None):
    """one field of a format string"""
    if conv in ("r", "a"):
        return opaque_text()
    if isinstance(v, (str, int)) and not isinstance(v, bool):
        try:
            return format(v, spec)
        except ValueError as e:
            raise Raised(ValueError, e.args)
    sort = v.sort if isinstance(v, T) else None
    if spec == "" or (spec == "s" and sort == "S") or (spec == "d" and sort == "I"):
        return to_str(v)
    return opaque_text()


def str_format(fmt, args, kwargs):
    """fmt.format(...)"""
    if not isinstance(fmt, str):
        return opaque_text()
    import string
    parts, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        parts.append(lit)
        if field is None:
            continue
        if field == "":
            field, auto = str(auto), auto + 1
        if "{" in spec or not (field.isdigit() or field.isidentifier()):
            parts.append(opaque_text())
        elif field.isdigit():
            if int(field) >= len(args):
                raise Raised(IndexError, ("format",))
            parts.append(formatted(args[int(field)], spec, conv))
        elif field not in kwargs:
            raise Raised(KeyError, (field,))
        else:
            parts.append(formatted(kwargs[field], spec, conv))
    return cat(*parts)


def str_percent(fmt, arg):
    """fmt % arg"""
    if not isinstance(fmt, str) or isinstance(arg, PyDict):
        return opaque_text()
    args = list(arg) if isinstance(arg, tuple) else [arg]
    if isinstance(arg, PySeq) and arg.kind == "tuple":
        return opaque_text()
    import re
    parts, pos = [], 0
    for m in re.finditer("%(.)", fmt):
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(1) == "%":
            parts.append("%")
        elif m.group(1) in "sdi" and args:
            v = args.pop(0)
            if m.group(1) != "s" and not (isinstance(v, int) or isinstance(v, T) and v.sort == "I"):
                return opaque_text()
            parts.append(formatted(v))
        else:
            return opaque_text()
    if args:
        raise Raised(TypeError, ("not all arguments converted during string formatting",))
    return cat(*parts, fmt[pos:])


# ---------------------------------------------------------------- attributes

def class_lookup(cls, name):
    for k in getattr(cls, "__mro__", ()):
        if name in k.__dict__:
            return k.__dict__[name]
    return None


def unwrap_fn(raw):
    """function object below numba dispatchers"""
    if hasattr(raw, "py_func"):
        return raw.py_func
    return raw


def bind(raw, obj, cls):
    """attribute raw found on the class of obj"""
    if isinstance(raw, property):
        return call(raw.fget, (obj,), {})
    if isinstance(raw, staticmethod):
        return raw.__func__
    if isinstance(raw, classmethod):
        return Bound(raw.__func__, cls)
    if isinstance(raw, types.FunctionType):
        return Bound(raw, obj)
    if type(raw).__name__ == "_lru_cache_wrapper":
        raise Unsupported("cached method %s" % getattr(raw, "__qualname__", raw))
    if type(raw).__name__ == "cached_property":
        raise Unsupported("cached property")
    if hasattr(raw, "py_func"):
        return Bound(raw.py_func, obj)
    return raw


def getattr_(v, name):
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    if isinstance(v, (Obj, FamObj)):
        raw = class_lookup(v.cls, name)
        if isinstance(raw, property):
            return bind(raw, v, v.cls)
        if v.has(name):
            x = v.read(name)
            if isinstance(x, Poison):
                raise Unsupported(x.why)
            return x
        if name == "__class__":
            return v.cls
        if name == "__dict__":
            raise Unsupported("__dict__")
        if raw is None:
            g = class_lookup(v.cls, "__getattr__")
            if g is not None:
                return call(Bound(g, v), (name,), {})
            raise Raised(AttributeError, (name,))
        return bind(raw, v, v.cls)
    if isinstance(v, Opaque):
        h = ATTRS.get(v.kind)
        if h is not None:
            return h(v, name)
        if name in v.f:
            return v.f[name]
        return Bound(("opaque", v.kind, name), v)
    if isinstance(v, Arr):
        return ATTRS["arr"](v, name)
    if isinstance(v, PySeq):
        return Bound(("seq", name), v)
    if isinstance(v, PyDict):
        return Bound(("dict", name), v)
    if isinstance(v, tuple):
        if hasattr(v, "_fields") and name in v._fields:
            return getattr(v, name)
        return Bound(("seq", name), v)
    if isinstance(v, str) or (isinstance(v, T) and v.sort == "S"):
        return Bound(("str", name), v)
    if isinstance(v, types.ModuleType):
        return getattr(v, name)
    if isinstance(v, type):
        if name in ("__name__", "__qualname__"):
            return getattr(v, name)
        raw = class_lookup(v, name)
        if raw is None:
            raise Raised(AttributeError, (name,))
        if isinstance(raw, staticmethod):
            return raw.__func__
        if isinstance(raw, classmethod):
            return Bound(raw.__func__, v)
        if not in_repo_class(v) and id(getattr(v, name, None)) not in MODELS:
            return getattr(v, name)
        return raw
    if is_scalar(v):
        return ATTRS["scalar"](v, name)
    if isinstance(v, Super):
        for k in v.mro():
            if name in k.__dict__:
                raw = k.__dict__[name]
                if isinstance(raw, property):
                    return call(raw.fget, (v.obj,), {})
                if k is object:
                    return Bound(("object", name), v.obj)
                return bind(raw, v.obj, k)
        raise Raised(AttributeError, (name,))
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, Closure, Bound)):
        if name == "__name__":
            return getattr(v, "__name__", getattr(v, "name", "f"))
        if isinstance(v, types.FunctionType):
            return getattr(v, name)
    if not isinstance(v, (type(None), Closure, Bound)):
        # attribute of a library object reached through a module
        try:
            return getattr(v, name)
        except AttributeError:
            raise Raised(AttributeError, (name,))
    if v is None:
        raise Raised(AttributeError, (name,))
    raise Unsupported("attribute %s of %s" % (name, type(v).__name__))


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def mro(self):
        m = self.obj.__mro__ if isinstance(self.obj, type) else self.obj.cls.__mro__
        return m[m.index(self.cls) + 1:]


def in_repo_class(cls):
    import sys
    m = sys.modules.get(getattr(cls, "__module__", ""), None)
    f = getattr(m, "__file__", None)
    return bool(f) and (os.path.realpath(f).startswith(REPO + os.sep) or os.path.realpath(f) == CLIENT)


def setattr_(v, name, val):
    if isinstance(v, (Obj, FamObj)):
        raw = class_lookup(v.cls, name)
        if isinstance(raw, property):
            if raw.fset is None:
                raise Raised(AttributeError, (name,))
            call(raw.fset, (v, val), {})
            return
        if class_lookup(v.cls, "__setattr__") is not object.__setattr__:
            raise Unsupported("__setattr__")
        v.write(name, val)
        return
    if isinstance(v, Opaque) and ATTRS.get("set:" + v.kind):
        return ATTRS["set:" + v.kind](v, name, val)
    raise Unsupported("assignment to attribute %s of %s" % (name, type(v).__name__))


# --------------------------------------------------------------------- calls

_depth = [0]
ELEMENTWISE = None      # set by npmodel
METHODS = {}            # (kind, name) -> fn(receiver, args, kwargs)


def call(fn, args=(), kwargs=None):
    kwargs = kwargs or {}
    args = tuple(args)
    m = MODELS.get(id(fn))
    if m is not None:
        ctx().assumed.add("%s" % getattr(fn, "__qualname__", getattr(fn, "__name__", str(fn))))
        return m(args, kwargs)
    if isinstance(fn, Bound):
        if isinstance(fn.fn, tuple):
            h = METHODS.get(fn.fn)
            if h is None:
                raise Unsupported("method %s" % (fn.fn,))
            return h(fn.self, args, kwargs)
        return call(fn.fn, (fn.self,) + args, kwargs)
    if isinstance(fn, Closure):
        return run_function(fn.node, fn.scope.globals, fn.scope, fn.defaults, fn.kwdefaults, args, kwargs, fn.name, fn.cls)
    if isinstance(fn, types.FunctionType):
        if not in_repo(fn):
            if type(fn).__name__ == "function" and hasattr(fn, "__wrapped__") and in_repo(fn.__wrapped__):
                raise Unsupported("decorated function %s" % fn.__qualname__)
            raise Unsupported("library function %s.%s" % (fn.__module__, fn.__qualname__))
        q = qual(fn)
        c = CONTRACTS.get(q)
        if c is not None and q not in ctx().proving:
            ctx().used.add(q)
            return c(args, kwargs)
        node = source_of(fn)
        cls = None
        parent = None
        if fn.__closure__:
            parent = Scope(fn.__globals__)
            for n, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                if n == "__class__":
                    cls = cell.cell_contents
                else:
                    setattr(parent.vars, n, cell.cell_contents)
        if not q.startswith("contracts."):
            ctx().visited.add(q)
        return run_function(node, fn.__globals__, parent, list(fn.__defaults__ or ()), dict(fn.__kwdefaults__ or {}), args, kwargs, q, cls)
    if isinstance(fn, type):
        return instantiate(fn, args, kwargs)
    if type(fn).__name__ == "DUFunc":
        return ELEMENTWISE(fn._dispatcher.py_func, args, kwargs)
    if hasattr(fn, "py_func"):
        return call(fn.py_func, args, kwargs)
    if type(fn).__name__ == "_lru_cache_wrapper":
        raise Unsupported("cached function %s" % getattr(fn, "__qualname__", fn))
    if isinstance(fn, (Obj, FamObj)):
        raw = class_lookup(fn.cls, "__call__")
        if raw is not None:
            return call(Bound(raw, fn), args, kwargs)
    if isinstance(fn, Opaque):
        h = METHODS.get((fn.kind, "__call__"))
        if h is not None:
            return h(fn, args, kwargs)
    if callable(fn):
        raise Unsupported("library function %s.%s" % (getattr(fn, "__module__", "?"), getattr(fn, "__qualname__", getattr(fn, "__name__", fn))))
    raise Raised(TypeError, ("not callable",))


def instantiate(cls, args, kwargs):
    if issubclass(cls, BaseException):
        return Opaque("exc", cls=cls, args=args)
    if hasattr(cls, "_fields") and issubclass(cls, tuple):
        vals = list(args)
        for f in cls._fields[len(args):]:
            if f in kwargs:
                vals.append(kwargs[f])
            elif f in cls._field_defaults:
                vals.append(cls._field_defaults[f])
            else:
                raise Raised(TypeError, (f,))
        return cls(*vals)
    if not in_repo_class(cls):
        raise Unsupported("instance of %s.%s" % (cls.__module__, cls.__qualname__))
    q = "%s.%s" % (cls.__module__.replace("templatefitter.", ""), cls.__qualname__)
    c = CONTRACTS.get(q)
    if c is not None and q not in ctx().proving:
        ctx().used.add(q)
        return c(args, kwargs)
    if getattr(cls, "__abstractmethods__", None):
        raise Raised(TypeError, ("abstract class",))
    o = Obj(cls)
    init = class_lookup(cls, "__init__")
    if init is not object.__init__:
        call(Bound(init, o), args, kwargs)
    return o


def bind_args(a, defaults, kwdefaults, args, kwargs, name):
    """a: ast.arguments -> dict of parameter values"""
    out = {}
    pos = [p.arg for p in a.posonlyargs + a.args]
    kwargs = dict(kwargs)
    if len(args) > len(pos) and a.vararg is None:
        raise Raised(TypeError, ("%s takes %d arguments" % (name, len(pos)),))
    for p, v in zip(pos, args):
        out[p] = v
    if a.vararg is not None:
        out[a.vararg.arg] = tuple(args[len(pos):])
    for p in pos[len(args):]:
        if p in kwargs:
            out[p] = kwargs.pop(p)
    nd = len(defaults)
    for i, p in enumerate(pos):
        if p not in out:
            k = i - (len(pos) - nd)
            if k < 0:
                raise Raised(TypeError, ("%s misses argument %s" % (name, p),))
            out[p] = defaults[k]
    for p in a.kwonlyargs:
        if p.arg in kwargs:
            out[p.arg] = kwargs.pop(p.arg)
        elif p.arg in kwdefaults:
            out[p.arg] = kwdefaults[p.arg]
        else:
            raise Raised(TypeError, ("%s misses argument %s" % (name, p.arg),))
    for p in pos:
        if p in kwargs:
            raise Raised(TypeError, ("%s got two values for %s" % (name, p),))
    if a.kwarg is not None:
        sp = kwargs.pop("**", None)
        d = sp if sp is not None else PyDict()
        if kwargs:
            if sp is not None:
                raise Unsupported("keyword arguments with a symbolic dictionary")
            d = PyDict([KV(k, v) for k, v in kwargs.items()])
        out[a.kwarg.arg] = d
    elif kwargs:
        raise Raised(TypeError, ("%s got unexpected arguments %s" % (name, sorted(kwargs)),))
    return out


def run_function(node, globals_, parent, defaults, kwdefaults, args, kwargs, name, cls=None):
    c = ctx()
    if _depth[0] > MAXDEPTH:
        raise Unsupported("recursion")
    vals = bind_args(node.args, defaults, kwdefaults, args, kwargs, name)
    sc = Scope(globals_, parent, cls if cls is not None else (parent.cls if parent is not None else None), name)
    for k, v in vals.items():
        sc.set(k, v)
    allargs = [p.arg for p in node.args.posonlyargs + node.args.args]
    sc.fnargs = allargs
    _depth[0] += 1
    old, c.func = c.func, name
    try:
        if isinstance(node, ast.Lambda):
            return ev(node.body, sc)
        gen = is_generator(node)
        if gen:
            sc.yields = PySeq([], "list")
        try:
            block(node.body, sc)
            r = None
        except Return as e:
            r = e.v
        return make_iter(sc.yields) if gen else r
    finally:
        _depth[0] -= 1
        c.func = old


_gens = {}


def is_generator(node):
    if node not in _gens:
        found = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                found = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _gens[node] = found
    return _gens[node]


def make_iter(seq):
    """iterator over a sequence: position kept on the heap"""
    if isinstance(seq, Obj) and seq.cls is IterCls:
        return seq
    return Obj(IterCls, dict(seq=seq, pos=0))


class IterCls:
    """iterator"""


# --------------------------------------------------------------- statements

def block(stmts, sc):
    for s in stmts:
        stmt(s, sc)


def stmt(s, sc):
    c = ctx()
    c.line = getattr(s, "lineno", 0)
    k = type(s)
    if k is ast.Expr:
        if isinstance(s.value, ast.Constant):
            return
        ev(s.value, sc)
    elif k is ast.Assign:
        v = ev(s.value, sc)
        for t in s.targets:
            assign(t, v, sc)
    elif k is ast.AnnAssign:
        if s.value is not None:
            assign(s.target, ev(s.value, sc), sc)
    elif k is ast.AugAssign:
        augassign(s, sc)
    elif k is ast.Return:
        raise Return(None if s.value is None else ev(s.value, sc))
    elif k is ast.If:
        if truth(ev(s.test, sc)):
            block(s.body, sc)
        else:
            block(s.orelse, sc)
    elif k is ast.For:
        it = ev(s.iter, sc)
        broke = loop(it, s.target, sc, lambda: block(s.body, sc))
        if s.orelse and not broke:
            block(s.orelse, sc)
    elif k is ast.While:
        n = 0
        while True:
            cond = ev(s.test, sc)
            if isinstance(cond, T) and not isinstance(cond, ir.BConst) and ctx().entailed(ir.tobool(cond)) is None:
                raise Unsupported("while loop with a symbolic condition")
            if not truth(cond):
                block(s.orelse, sc)
                break
            n += 1
            if n > 64:
                raise Unsupported("while loop")
            try:
                block(s.body, sc)
            except Continue:
                continue
            except Break:
                break
    elif k is ast.Pass:
        pass
    elif k is ast.Raise:
        if s.exc is None:
            if getattr(c, "handling", None) is None:
                raise Raised(RuntimeError)
            raise c.handling
        e = ev(s.exc, sc)
        if isinstance(e, type):
            raise Raised(e, (), sc.name)
        if isinstance(e, Opaque) and e.kind == "exc":
            raise Raised(e.f["cls"], e.f["args"], sc.name)
        raise Unsupported("raise of %s" % type(e).__name__)
    elif k is ast.Try:
        try_(s, sc)
    elif k is ast.Continue:
        raise Continue()
    elif k is ast.Break:
        raise Break()
    elif k is ast.Assert:
        if not truth(ev(s.test, sc)):
            raise Raised(AssertionError)
    elif k is ast.FunctionDef:
        a = s.args
        f = Closure(s, sc, None, [ev(d, sc) for d in a.defaults],
                    {p.arg: ev(d, sc) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}, "%s.%s" % (sc.name, s.name), sc.cls)
        for d in reversed(s.decorator_list):
            f = call(ev(d, sc), (f,), {})
        sc.set(s.name, f)
    elif k is ast.With:
        for item in s.items:
            m = ev(item.context_expr, sc)
            v = call(getattr_(m, "__enter__"), (), {}) if not isinstance(m, Opaque) else METHODS.get((m.kind, "__enter__"), lambda r, a, kw: r)(m, (), {})
            if isinstance(m, (Obj, FamObj)):
                raise Unsupported("with statement on a repository object")
            if item.optional_vars is not None:
                assign(item.optional_vars, v, sc)
        block(s.body, sc)
    elif k in (ast.Import, ast.ImportFrom):
        import importlib
        if k is ast.Import:
            for a in s.names:
                mod = importlib.import_module(a.name)
                sc.set(a.asname or a.name.split(".")[0], mod if a.asname else importlib.import_module(a.name.split(".")[0]))
        else:
            mod = importlib.import_module(s.module)
            for a in s.names:
                sc.set(a.asname or a.name, getattr(mod, a.name))
    elif k is ast.Delete:
        for t in s.targets:
            if isinstance(t, ast.Name):
                sc.set(t.id, Poison("deleted"))
            else:
                raise Unsupported("del")
    else:
        raise Unsupported("statement %s" % k.__name__)


def try_(s, sc):
    c = ctx()
    try:
        try:
            block(s.body, sc)
        except Raised as e:
            for h in s.handlers:
                if h.type is None:
                    ok = True
                else:
                    t = ev(h.type, sc)
                    ok = any(issubclass(e.cls, x) for x in (t if isinstance(t, tuple) else (t,)))
                if ok:
                    if h.name:
                        sc.set(h.name, Opaque("exc", cls=e.cls, args=e.xargs))
                    old = getattr(c, "handling", None)
                    c.handling = e
                    try:
                        block(h.body, sc)
                    finally:
                        c.handling = old
                    break
            else:
                raise
        else:
            block(s.orelse, sc)
    finally:
        if s.finalbody:
            block(s.finalbody, sc)


def assign(t, v, sc):
    k = type(t)
    if k is ast.Name:
        if getattr(sc, "nloc", None) and t.id in sc.nloc:
            raise Unsupported("nonlocal")
        sc.set(t.id, v)
    elif k in (ast.Tuple, ast.List):
        vals = unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
        if any(isinstance(e, ast.Starred) for e in t.elts):
            i = [isinstance(e, ast.Starred) for e in t.elts].index(True)
            after = len(t.elts) - i - 1
            for e, x in zip(t.elts[:i], vals[:i]):
                assign(e, x, sc)
            assign(t.elts[i].value, PySeq.of(vals[i:len(vals) - after]), sc)
            for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                assign(e, x, sc)
        else:
            for e, x in zip(t.elts, vals):
                assign(e, x, sc)
    elif k is ast.Attribute:
        setattr_(ev(t.value, sc), t.attr, v)
    elif k is ast.Subscript:
        setitem(ev(t.value, sc), index_of(t.slice, sc), v)
    elif k is ast.Starred:
        raise Unsupported("starred target")
    else:
        raise Unsupported("target %s" % k.__name__)


def unpack(v, n, star=False):
    if isinstance(v, tuple):
        r = list(v)
    elif isinstance(v, PySeq):
        r = v.items()
    elif isinstance(v, Arr):
        c = ir.const(v.shape[0]) if v.shape else None
        if c is None:
            if v.shape and ctx().entailed(ir.eq(v.shape[0], ir.num(n))) is True:
                c = n
            else:
                raise Unsupported("unpacking of an array of symbolic length")
        r = [getitem(v, i) for i in range(int(c))]
    elif isinstance(v, Obj) and v.cls is IterCls:
        return unpack(list_of(v), n, star)
    else:
        raise Unsupported("unpacking of %s" % type(v).__name__)
    if not star and len(r) != n:
        raise Raised(ValueError, ("unpack",))
    return r


def augassign(s, sc):
    t = s.target
    if isinstance(t, ast.Name):
        cur = sc.get(t.id)
        r = inplace(s.op, cur, ev(s.value, sc))
        assign(t, r, sc)
    elif isinstance(t, ast.Attribute):
        o = ev(t.value, sc)
        cur = getattr_(o, t.attr)
        setattr_(o, t.attr, inplace(s.op, cur, ev(s.value, sc)))
    elif isinstance(t, ast.Subscript):
        o = ev(t.value, sc)
        i = index_of(t.slice, sc)
        cur = getitem(o, i)
        setitem(o, i, inplace(s.op, cur, ev(s.value, sc)))
    else:
        raise Unsupported("augmented target")


def inplace(op, a, b):
    if isinstance(a, Arr) and a.shape:
        r = binop(op, a, b)
        if not isinstance(r, Arr) or r.ndim != a.ndim:
            raise Raised(ValueError, ("broadcast",))
        ctx().oblige("shape", shape_eq(a.shape, r.shape), "shape")
        if a.dtype == "i" and r.dtype == "f":
            raise Raised(TypeError, ("UFuncTypeError",))
        body = r.body()
        write(a, lambda *i: ir.subst(body, dict(zip(PH, i))))
        return a
    if isinstance(a, PySeq) and a.kind == "list" and isinstance(op, ast.Add):
        METHODS[("seq", "extend")](a, (b,), {})
        return a
    return binop(op, a, b)


# -------------------------------------------------------------- expressions

def ev(e, sc):
    k = type(e)
    if k is ast.Constant:
        v = e.value
        if isinstance(v, float):
            return ir.num(v)
        return v
    if k is ast.Name:
        return sc.get(e.id)
    if k is ast.Attribute:
        return getattr_(ev(e.value, sc), e.attr)
    if k is ast.Call:
        return ev_call(e, sc)
    if k is ast.BinOp:
        return binop(e.op, ev(e.left, sc), ev(e.right, sc))
    if k is ast.UnaryOp:
        return unop(e.op, ev(e.operand, sc))
    if k is ast.Compare:
        l = ev(e.left, sc)
        res = True
        for op, r in zip(e.ops, e.comparators):
            r = ev(r, sc)
            x = compare(op, l, r)
            if res is True:
                res = x
            else:
                res = simplify_scalar(ir.band(num(res), num(x)))
            if res is False:
                return False
            l = r
        return res
    if k is ast.BoolOp:
        for i, x in enumerate(e.values):
            v = ev(x, sc)
            if i == len(e.values) - 1:
                return v
            t = truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, T) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not (isinstance(v, T) and v.sort == "B") else True
    if k is ast.IfExp:
        return ev(e.body, sc) if truth(ev(e.test, sc)) else ev(e.orelse, sc)
    if k is ast.Subscript:
        return getitem(ev(e.value, sc), index_of(e.slice, sc))
    if k is ast.Tuple:
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = ev(x.value, sc)
                s = list_of(v)
                if not s.concrete():
                    # tuple of symbolic length
                    rest = PySeq([One(o) for o in out] + s.segs, "tuple")
                    for y in e.elts[e.elts.index(x) + 1:]:
                        if isinstance(y, ast.Starred):
                            rest.segs.extend(list_of(ev(y.value, sc)).segs)
                        else:
                            rest.segs.append(One(ev(y, sc)))
                    return rest
                out.extend(s.items())
            else:
                out.append(ev(x, sc))
        return tuple(out)
    if k in (ast.List, ast.Set):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs.extend(list_of(ev(x.value, sc)).segs)
            else:
                segs.append(One(ev(x, sc)))
        if k is ast.Set:
            raise Unsupported("set")
        return PySeq(segs, "list")
    if k is ast.Dict:
        d = PyDict()
        for kk, vv in zip(e.keys, e.values):
            if kk is None:
                src = ev(vv, sc)
                if not isinstance(src, PyDict):
                    raise Unsupported("** of %s" % type(src).__name__)
                d.segs.extend(src.segs)
            else:
                d.store(ev(kk, sc), ev(vv, sc))
        return d
    if k in (ast.ListComp, ast.GeneratorExp):
        r = PySeq([], "list")
        comprehension(e.generators, sc, lambda s2: METHODS[("seq", "append")](r, (ev(e.elt, s2),), {}))
        return r if k is ast.ListComp else make_iter(r)
    if k is ast.DictComp:
        d = PyDict()
        comprehension(e.generators, sc, lambda s2: d.store(ev(e.key, s2), ev(e.value, s2)))
        return d
    if k is ast.SetComp:
        raise Unsupported("set comprehension")
    if k is ast.Lambda:
        a = e.args
        return Closure(e, sc, None, [ev(d, sc) for d in a.defaults],
                       {p.arg: ev(d, sc) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}, sc.name + ".<lambda>", sc.cls)
    if k is ast.JoinedStr:
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = ev(x.value, sc)
                spec = "" if x.format_spec is None else ev(x.format_spec, sc)
                parts.append(formatted(v, spec, {114: "r", 97: "a"}.get(x.conversion)) if isinstance(spec, str) else opaque_text())
        return cat(*parts)
    if k is ast.NamedExpr:
        v = ev(e.value, sc)
        assign(e.target, v, sc)
        return v
    if k is ast.Slice:
        return index_of(e, sc)
    if k is ast.Yield:
        s = sc
        while s.yields is None:
            s = s.parent
        METHODS[("seq", "append")](s.yields, (None if e.value is None else ev(e.value, sc),), {})
        return None
    if k is ast.YieldFrom:
        METHODS[("seq", "extend")](sc.yields, (ev(e.value, sc),), {})
        return None
    raise Unsupported("expression %s" % k.__name__)


def comprehension(gens, sc, leaf):
    inner = Scope(sc.globals, sc, sc.cls, sc.name)

    def level(i):
        if i == len(gens):
            leaf(inner)
            return
        g = gens[i]
        it = ev(g.iter, sc if i == 0 else inner)

        def body():
            for c in g.ifs:
                if not truth(ev(c, inner)):
                    return
            level(i + 1)
        loop(it, g.target, inner, body)
    level(0)


def ev_call(e, sc):
    if isinstance(e.func, ast.Name) and e.func.id == "super" and sc.get("super") is super:
        if e.args:
            c, o = [ev(a, sc) for a in e.args]
            return Super(c, o)
        s = sc
        while s.fnargs is None:
            s = s.parent
        if s.cls is None:
            raise Unsupported("super without class")
        return Super(s.cls, s.get(s.fnargs[0]))
    f = ev(e.func, sc)
    args = []
    for a in e.args:
        if isinstance(a, ast.Starred):
            v = list_of(ev(a.value, sc))
            if v.concrete():
                args.extend(v.items())
            else:
                args.append(StarArg(v))
        else:
            args.append(ev(a, sc))
    kwargs = {}
    for k in e.keywords:
        if k.arg is None:
            d = ev(k.value, sc)
            if not isinstance(d, PyDict):
                raise Unsupported("** of %s" % type(d).__name__)
            if all(isinstance(s, KV) and isinstance(s.k, str) for s in d.segs):
                for s in d.segs:
                    kwargs[s.k] = s.v
            else:
                kwargs["**"] = PyDict(d.segs)
        else:
            kwargs[k.arg] = ev(k.value, sc)
    return call(f, args, kwargs)


class StarArg:
    """*args of symbolic length"""

    def __init__(self, seq):
        self.seq = seq


# ---------------------------------------------------------------- operators

def unop(op, v):
    if isinstance(op, ast.Not):
        if isinstance(v, T) and v.sort == "B":
            return simplify_scalar(ir.bnot(v))
        return not truth(v)
    if isinstance(op, ast.USub):
        if isinstance(v, (int, bool)):
            return -v
        if isinstance(v, Arr):
            return emap(lambda x: ir.neg(x), v)
        return simplify_scalar(ir.neg(num(v)))
    if isinstance(op, ast.UAdd):
        return v
    if isinstance(op, ast.Invert):
        if isinstance(v, Arr) and v.dtype == "b":
            return arr_of_body(v.shape, ir.bnot(v.body()), "b")
        if isinstance(v, T) and v.sort == "B":
            return ir.bnot(v)
    raise Unsupported("unary operator")


def emap(f, *arrs):
    """elementwise on arrays and scalars, with broadcasting"""
    shape, dt = broadcast_shape(arrs)
    bodies = [abody(a, len(shape), shape) for a in arrs]
    r = f(*bodies)
    d = "b" if r.sort == "B" else ("i" if r.sort == "I" else "f")
    if shape is None:
        return simplify_scalar(r)
    return arr_of_body(shape, r, d)


def lazy(f, *arrs, pick=None):
    """emap of arithmetic: an element that is not defined (nan, infinite) is
    an obligation where it is read, not where it is computed.  pick: which
    operand an element comes from (np.where)"""
    shape, _ = broadcast_shape(arrs)
    undef = []
    bodies = []
    for k, a in enumerate(arrs):
        if isinstance(a, Arr) and a.store.undef:
            u = a.store.undef
            st = a.store
            ctx().heap.put(st, "undef", ())
            bodies.append(abody(a, len(shape), shape))
            ctx().heap.put(st, "undef", u)
            for what, ok, nan in u:
                if a.vmap is not None:
                    e = dict(zip(core.PH, a.vmap))
                    ok, nan = ir.subst(ok, e), ir.subst(nan, e)
                e = placing(a, len(shape), shape)
                ok, nan = ir.subst(ok, e), ir.subst(nan, e)
                if pick is not None:
                    ok, nan = ir.implies(pick(k, bodies), ok), ir.band(pick(k, bodies), nan)
                if ok is not ir.TRUE:
                    undef.append((what, ok, nan))
        else:
            bodies.append(abody(a, len(shape), shape))
    c = ctx()
    old = getattr(c, "undef", None)
    c.undef = undef
    try:
        r = f(*bodies)
    finally:
        c.undef = old
    d = "b" if r.sort == "B" else ("i" if r.sort == "I" else "f")
    r = arr_of_body(shape, r, d)
    if not shape:
        for what, ok, nan in undef:
            ctx().oblige(what, ok, "defined")
        return r
    r.store.undef = tuple(dict.fromkeys(undef))
    return r


def defined(what, ok, nan):
    """definedness condition, over all elements"""
    u = getattr(ctx(), "undef", None)
    if u is not None:
        u.append((what, ok, nan))
    elif ok is ir.FALSE:
        ctx().oblige(what, ok, "defined")
    else:
        ctx().oblige(what, generic(ok), "defined")


def broadcast_shape(arrs):
    nd = max([a.ndim for a in arrs if isinstance(a, Arr)] or [0])
    shape = []
    for k in range(nd):
        cand = None
        for a in arrs:
            if not isinstance(a, Arr):
                continue
            j = k - (nd - a.ndim)
            if j < 0:
                continue
            s = a.shape[j]
            if cand is None or ir.const(cand) == 1:
                cand = s
            elif ir.const(s) == 1:
                pass
            elif s is not cand:
                g = ir.eq(s, cand)
                if ctx().entailed(g) is not True:
                    # either equal, or one of them is 1: only the equal case is supported
                    one = ir.eq(cand, ir.ONE)
                    ctx().oblige("operand shapes agree", g, "shape")
        shape.append(cand)
    return tuple(shape), None


def abody(a, nd, shape):
    if not isinstance(a, Arr):
        return num(a)
    b = a.body()
    env = placing(a, nd, shape)
    return ir.subst(b, env) if env else b


def placing(a, nd, shape):
    """element of a for the element of the broadcast shape"""
    off = nd - a.ndim
    env = {}
    for j in range(a.ndim):
        if ir.const(a.shape[j]) == 1 and ir.const(shape[j + off]) != 1:
            env[PH[j]] = ir.ZERO
        elif off:
            env[PH[j]] = ir.poly(PH[j + off])
    return env


def nonzero(d, what="divisor is not zero", of=None):
    """definedness obligation, over all elements"""
    d = ir.poly(d)
    nan = ir.FALSE if of is None else ir.band(ir.eq(d, ir.ZERO), ir.eq(ir.poly(of), ir.ZERO))
    if ir.const(d) is not None:
        if ir.const(d) == 0:
            defined(what, ir.FALSE, nan)
        return
    defined(what, ir.ne(d, ir.ZERO), nan)


def generic(cond):
    """placeholders become fresh (arbitrary) indices"""
    free = [p for p in PH if p in ir.syms(cond)]
    if not free:
        return cond
    return ir.subst(cond, {p: ir.poly(ctx_index(p)) for p in free})


def ctx_index(p):
    c = ctx()
    sh = getattr(c, "elem_shape", None)
    i = PH.index(p)
    return ir.fresh("x", "I", hi=(sh[i] if sh is not None and i < len(sh) else None))


def scalar_op(op, a, b):
    k = type(op)
    if k is ast.Add:
        return ir.add(a, b)
    if k is ast.Sub:
        return ir.sub(a, b)
    if k is ast.Mult:
        return ir.mul(a, b)
    if k is ast.Div:
        nonzero(b, of=a)
        return ir.div(a, b)
    if k is ast.Pow:
        c = ir.const(b)
        if c is None:
            raise Unsupported("symbolic exponent")
        if c < 0:
            nonzero(a)
        if c.denominator == 2:
            nonneg(a)
        return ir.power(a, c if c.denominator != 1 else (ir.num(c) if False else c))
    if k is ast.FloorDiv:
        if ir.poly(a).sort == "I" and ir.poly(b).sort == "I":
            nonzero(b)
            return ir.idiv(a, b)
        raise Unsupported("floor division of reals")
    if k is ast.Mod:
        if ir.poly(a).sort == "I" and ir.poly(b).sort == "I":
            nonzero(b)
            return ir.imod(a, b)
        raise Unsupported("modulo of reals")
    if k is ast.BitAnd:
        return ir.band(ir.tobool(a), ir.tobool(b))
    if k is ast.BitOr:
        return ir.bor(ir.tobool(a), ir.tobool(b))
    raise Unsupported("operator %s" % k.__name__)


def nonneg(x, what="argument of the square root is not negative"):
    x = ir.poly(x)
    c = ir.const(x)
    if c is not None and c >= 0:
        return
    defined(what, ir.le(ir.ZERO, x), ir.lt(x, ir.ZERO))


def with_shape(shape, f):
    c = ctx()
    old = getattr(c, "elem_shape", None)
    c.elem_shape = shape
    try:
        return f()
    finally:
        c.elem_shape = old


def masked(v):
    return isinstance(v, Opaque) and v.kind == "masked"


def under_mask(f, *xs):
    """elementwise arithmetic on selections a[mask] with one and the same mask,
    and scalars: only the selected elements have to be defined"""
    ms = [x.f["mask"] for x in xs if masked(x)]
    if any(m is not ms[0] for m in ms) or not all(masked(x) or is_scalar(x) for x in xs):
        raise Unsupported("arithmetic of a selection with another one")
    arrs = [x.f["arr"] if masked(x) else x for x in xs]
    shape, _ = broadcast_shape(arrs)
    r = with_shape(shape, lambda: lazy(f, *arrs))
    return Opaque("masked", arr=limited(r, ms[0]), mask=ms[0])


def limited(a, m):
    a.store.undef = tuple((what, ir.implies(m, ok), ir.band(m, nan)) for what, ok, nan in a.store.undef)
    return a


def binop(op, a, b):
    k = type(op)
    for x in (a, b):
        if isinstance(x, Poison):
            raise Unsupported(x.why)
    if masked(a) or masked(b):
        return under_mask(lambda x, y: scalar_op(op, x, y), a, b)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and not isinstance(a, T) and not isinstance(b, T):
        a_, b_ = int(a), int(b)
        if k is ast.Add:
            return a_ + b_
        if k is ast.Sub:
            return a_ - b_
        if k is ast.Mult:
            return a_ * b_
        if k is ast.Div:
            if b_ == 0:
                raise Raised(ZeroDivisionError)
            from fractions import Fraction
            return ir.as_real(ir.num(Fraction(a_, b_)))
        if k is ast.FloorDiv:
            if b_ == 0:
                raise Raised(ZeroDivisionError)
            return a_ // b_
        if k is ast.Mod:
            if b_ == 0:
                raise Raised(ZeroDivisionError)
            return a_ % b_
        if k is ast.Pow and b_ >= 0:
            return a_ ** b_
        if k is ast.BitAnd:
            return a & b
        if k is ast.BitOr:
            return a | b
    if k is ast.MatMult:
        import numpy as np
        return call(np.matmul, (a, b), {})
    sa = isinstance(a, str) or (isinstance(a, T) and a.sort == "S")
    sb = isinstance(b, str) or (isinstance(b, T) and b.sort == "S")
    if sa and sb and k is ast.Add:
        return cat(a, b)
    if sa and k is ast.Mod:
        return str_percent(a, b)
    if isinstance(a, str) and isinstance(b, int) and k is ast.Mult:
        return a * b
    if isinstance(a, tuple) and isinstance(b, tuple) and k is ast.Add:
        return a + b
    if isinstance(a, (PySeq, tuple)) and isinstance(b, (PySeq, tuple)) and k is ast.Add:
        A, B = list_of(a), list_of(b)
        return PySeq(A.segs + B.segs, a.kind if isinstance(a, PySeq) else "tuple")
    if isinstance(a, (PySeq, tuple)) and k is ast.Mult and (isinstance(b, int) or isinstance(b, T)):
        return seq_repeat(a, b)
    if isinstance(b, (PySeq, tuple)) and k is ast.Mult and (isinstance(a, int) or isinstance(a, T)):
        return seq_repeat(b, a)
    if isinstance(a, PyDict) or isinstance(b, PyDict) or a is None or b is None:
        if a is None or b is None:
            raise Raised(TypeError, ("operand",))
        raise Unsupported("operator on dictionaries")
    if isinstance(a, (PySeq, tuple)) and isinstance(b, Arr):
        import numpy as np
        a = call(np.array, (a,), {})
    if isinstance(b, (PySeq, tuple)) and isinstance(a, Arr):
        import numpy as np
        b = call(np.array, (b,), {})
    for x, nm, rn in ((a, "l", "r"), (b, "r", "l")):
        if isinstance(x, (Obj, FamObj, Opaque)):
            raise Unsupported("operator on %s" % type(x).__name__)
    if (sa or sb):
        raise Raised(TypeError, ("operand",))
    if isinstance(a, Arr) or isinstance(b, Arr):
        if not (isinstance(a, Arr) or is_scalar(a)) or not (isinstance(b, Arr) or is_scalar(b)):
            raise Unsupported("operands %s %s" % (type(a).__name__, type(b).__name__))
        shape, _ = broadcast_shape((a, b))
        return with_shape(shape, lambda: lazy(lambda x, y: scalar_op(op, x, y), a, b))
    if not (is_scalar(a) and is_scalar(b)):
        raise Unsupported("operands %s %s" % (type(a).__name__, type(b).__name__))
    r = scalar_op(op, num(a), num(b))
    return simplify_scalar(r)


def seq_repeat(a, n):
    s = list_of(a)
    kind = a.kind if isinstance(a, PySeq) else "tuple"
    c = n if isinstance(n, int) else (int(ir.const(n)) if ir.const(n) is not None else None)
    if c is not None:
        if isinstance(a, tuple):
            return a * c
        return PySeq(s.segs * max(c, 0), kind)
    if len(s.segs) == 1:
        f = ir.fresh("e", "I", hi=n)
        if isinstance(s.segs[0], One) and isinstance(s.segs[0].v, (Obj, PySeq, PyDict, Arr)):
            raise Unsupported("repetition of a mutable element")
        return PySeq([Rep(f, ir.as_int(num(n)), list(s.segs))], kind)
    raise Unsupported("symbolic repetition")


def compare(op, a, b):
    k = type(op)
    for x in (a, b):
        if isinstance(x, Poison):
            raise Unsupported(x.why)
    if k is ast.Is or k is ast.IsNot:
        r = identical(a, b)
        return r if k is ast.Is else not r
    if k is ast.In or k is ast.NotIn:
        r = contains(b, a)
        if k is ast.NotIn:
            return (not r) if isinstance(r, bool) else simplify_scalar(ir.bnot(r))
        return r
    if isinstance(a, Arr) or isinstance(b, Arr):
        if isinstance(a, (PySeq, tuple)):
            import numpy as np
            a = call(np.array, (a,), {})
        if isinstance(b, (PySeq, tuple)):
            import numpy as np
            b = call(np.array, (b,), {})
        if not (isinstance(a, Arr) or is_scalar(a)) or not (isinstance(b, Arr) or is_scalar(b)):
            raise Unsupported("comparison of array and %s" % type(b).__name__)
        return emap(lambda x, y: scalar_cmp(k, x, y), a, b)
    if k in (ast.Eq, ast.NotEq):
        r = equal(a, b)
        if k is ast.NotEq:
            r = (not r) if isinstance(r, bool) else simplify_scalar(ir.bnot(r))
        return r
    if is_scalar(a) and is_scalar(b):
        return simplify_scalar(scalar_cmp(k, num(a), num(b)))
    if isinstance(a, str) and isinstance(b, str):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[k]
    if a is None or b is None or is_scalar(a) or is_scalar(b):
        raise Raised(TypeError, ("comparison",))
    raise Unsupported("comparison")


def scalar_cmp(k, x, y):
    if k is ast.Eq:
        return ir.eq(x, y)
    if k is ast.NotEq:
        return ir.ne(x, y)
    if k is ast.Lt:
        return ir.lt(ir.poly(x), ir.poly(y))
    if k is ast.LtE:
        return ir.le(ir.poly(x), ir.poly(y))
    if k is ast.Gt:
        return ir.lt(ir.poly(y), ir.poly(x))
    if k is ast.GtE:
        return ir.le(ir.poly(y), ir.poly(x))
    raise Unsupported("comparison")


def identical(a, b):
    if a is b:
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.store is b.store and a.vmap is None and b.vmap is None
    if isinstance(a, FamObj) and isinstance(b, FamObj) and a.fam is b.fam:
        return ctx().decide(ir.band(*[ir.eq(x, y) for x, y in zip(a.idx, b.idx)]))
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a is b
    return False


def equal(a, b):
    """== on non-array values -> bool or term"""
    if a is b:
        return True
    if is_scalar(a) and is_scalar(b):
        return simplify_scalar(ir.eq(num(a), num(b)))
    S = lambda x: isinstance(x, str) or (isinstance(x, T) and x.sort == "S")
    if S(a) and S(b):
        return simplify_scalar(ir.eq(ir.lift(a), ir.lift(b)))
    if isinstance(a, T) and isinstance(b, T) and a.sort == b.sort:
        return simplify_scalar(ir.eq(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return allof([equal_t(x, y) for x, y in zip(a, b)])
    if isinstance(a, PySeq) and isinstance(b, PySeq) and a.kind != b.kind:
        return False
    if isinstance(a, tuple) and isinstance(b, PySeq):
        a, b = b, a
    if isinstance(a, PySeq) and isinstance(b, (PySeq, tuple)):
        if isinstance(b, tuple) and a.kind != "tuple":
            return False
        B = list_of(b)
        if a.concrete() and B.concrete():
            if len(a.segs) != len(B.segs):
                return False
            return allof([equal_t(x, y) for x, y in zip(a.items(), B.items())])
        raise Unsupported("comparison of sequences of symbolic length")
    if isinstance(a, FamObj) and isinstance(b, FamObj) and a.fam is b.fam:
        return simplify_scalar(ir.band(*[ir.eq(x, y) for x, y in zip(a.idx, b.idx)]))
    if isinstance(a, (Obj, FamObj)) and class_lookup(a.cls, "__eq__") is not object.__eq__:
        return call(Bound(class_lookup(a.cls, "__eq__"), a), (b,), {})
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        raise Unsupported("comparison of dictionaries")
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if isinstance(a, Opaque) and isinstance(b, Opaque) and (a.kind == "u" and b.kind == "u"):
            return simplify_scalar(ir.eq(a.f["t"], b.f["t"]))
        raise Unsupported("comparison of library objects")
    try:
        if not isinstance(a, T) and not isinstance(b, T) and not isinstance(a, (Obj, FamObj, Arr, PySeq)) and not isinstance(b, (Obj, FamObj, Arr, PySeq)):
            return bool(a == b)
    except Exception:
        pass
    return False


def equal_t(a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        raise Unsupported("comparison of arrays inside a sequence")
    return equal(a, b)


def allof(xs):
    return simplify_scalar(ir.band(*[num(x) for x in xs]))


def contains(c, x):
    if isinstance(c, (str,)) and isinstance(x, str):
        return x in c
    if isinstance(c, PyDict):
        return c.find(x) is not None
    if isinstance(c, Obj) and c.cls is IterCls:
        c = list_of(c)
    if isinstance(c, Arr):
        c = list_of(c)
    if isinstance(c, (tuple, PySeq)):
        s = list_of(c)
        conds = []
        for g in s.segs:
            conds.append(num(seg_contains(g, x)))
        return simplify_scalar(ir.bor(*conds)) if conds else False
    if isinstance(c, (Obj, FamObj)):
        raw = class_lookup(c.cls, "__contains__")
        if raw is not None:
            return truth(call(Bound(raw, c), (x,), {}))
    raise Unsupported("in %s" % type(c).__name__)


def inverted(a, p, s, n):
    """a(s) is the value at the end of p"""
    if ir.single_sym(a.args[-1]) is s and ir.as_int(ir.INVERSE[a.f][1](*p[:-1])) is ir.as_int(n):
        return ir.inv_has(a.f, *p), ir.inv_pos(a.f, *p)
    r = solve_index(ir.eq(a.args[-1], ir.inv_pos(a.f, *p)), s, n)
    return None if r is None else (ir.band(ir.inv_has(a.f, *p), r[0]), r[1])


def solve_index(cond, s, n):
    """cond over index s in [0, n): (condition, position) when it determines s"""
    if isinstance(cond, ir.EqU):
        for a, b in ((cond.a, cond.b), (cond.b, cond.a)):
            if isinstance(a, ir.App) and a.f in ir.INVERSE and s in ir.syms(a.args[-1]) and s not in ir.syms(b) and \
                    not any(s in ir.syms(x) for x in a.args[:-1]):
                return inverted(a, a.args[:-1] + (b,), s, n)
        return None
    if isinstance(cond, ir.Cmp) and cond.op == "eq":
        for m, c in cond.p.items:
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and isinstance(m[0][0], ir.App) and m[0][0].f in ir.INVERSE:
                a = m[0][0]
                rest = ir.scale(ir.sub(cond.p, ir.mkpoly({m: c}, cond.p.sort)), -1 / c)
                if s in ir.syms(a.args[-1]) and s not in ir.syms(rest) and not any(s in ir.syms(x) for x in a.args[:-1]) and ir.is_int(rest):
                    return inverted(a, a.args[:-1] + (ir.as_int(rest),), s, n)
    if isinstance(cond, ir.Cmp) and cond.op == "eq":
        lin = ir.linear_in(cond.p, s)
        if lin is not None and abs(lin[0]) == 1:
            pos = ir.scale(lin[1], -1 / lin[0])
            if ir.is_int(pos):
                pos = ir.as_int(pos)
                from .core import in_range
                return in_range(pos, n), pos
    return None


def seg_contains(g, x):
    if isinstance(g, One):
        if is_scalar(x) and not is_scalar(g.v) or (isinstance(g.v, Arr) or isinstance(x, Arr)):
            if isinstance(g.v, Arr) or isinstance(x, Arr):
                raise Unsupported("in on arrays")
            return False
        return equal(g.v, x)
    if len(g.segs) == 1 and isinstance(g.segs[0], One):
        v = g.segs[0].v
        c = num(equal(v, x))
        if g.sym not in ir.syms(c):
            return ir.band(c, ir.lt(ir.ZERO, g.n))
        r = solve_index(c, g.sym, g.n)
        if r is not None:
            return r[0]
        return ir.mkquant("exists", [(g.sym, g.n)], c)
    inner = ir.bor(*[num(seg_contains(y, x)) for y in g.segs])
    return ir.mkquant("exists", [(g.sym, g.n)], inner)


# ------------------------------------------------------------------ indexing

class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def index_of(e, sc):
    if isinstance(e, ast.Slice):
        return SliceV(*[None if x is None else ev(x, sc) for x in (e.lower, e.upper, e.step)])
    if isinstance(e, ast.Tuple):
        return tuple(index_of(x, sc) if isinstance(x, ast.Slice) else ev(x, sc) for x in e.elts)
    return ev(e, sc)


GETITEM = {}
SETITEM = {}


def norm_index(i, n, what="index in range"):
    """position of a python index in a sequence of length n (negative counted from the end)"""
    t = ir.as_int(num(i))
    c = ir.const(t)
    if c is not None:
        if c < 0:
            p = ir.add(n, t)
            ok = ir.le(ir.ZERO, p)
        else:
            p = t
            ok = ir.lt(t, n)
        p = ir.as_int(p)
    else:
        neg = ctx().decide(ir.lt(t, ir.ZERO))
        p = ir.as_int(ir.add(n, t)) if neg else t
        ok = ir.le(ir.ZERO, p) if neg else ir.lt(p, n)
    return p, ok


def getitem(o, i):
    if isinstance(o, Poison):
        raise Unsupported(o.why)
    if isinstance(o, tuple):
        if isinstance(i, int):
            if not -len(o) <= i < len(o):
                raise Raised(IndexError)
            return o[i]
        if isinstance(i, SliceV):
            return o[slice(*[x if x is None or isinstance(x, int) else int(ir.const(x)) for x in (i.lo, i.hi, i.step)])]
        o = PySeq.of(o, "tuple")
    if isinstance(o, PySeq):
        if isinstance(i, SliceV):
            return seq_slice(o, i)
        if not is_scalar(i):
            raise Raised(TypeError, ("list index",))
        if o.concrete() and isinstance(i, int):
            k = o.items()
            if not -len(k) <= i < len(k):
                raise Raised(IndexError)
            return k[i]
        n = o.length()
        p, ok = norm_index(i, n)
        if not ctx().decide(ok):
            raise Raised(IndexError)
        if isinstance(i, int) and i < 0:
            try:
                return seq_at(o, i)
            except Unsupported:
                pass
        return seq_at(o, p)
    if isinstance(o, PyDict):
        r = o.lookup(i)
        if r is None:
            raise Raised(KeyError, (i,))
        return r[0]
    if isinstance(o, Arr):
        return GETITEM["arr"](o, i)
    if isinstance(o, (Obj, FamObj)):
        raw = class_lookup(o.cls, "__getitem__")
        if raw is None:
            raise Raised(TypeError, ("not subscriptable",))
        return call(Bound(raw, o), (i,), {})
    if isinstance(o, str) and isinstance(i, (int, SliceV)):
        return o[i] if isinstance(i, int) else o[slice(i.lo, i.hi, i.step)]
    if isinstance(o, Opaque) and o.kind in GETITEM:
        return GETITEM[o.kind](o, i)
    if isinstance(o, type) or o is None or is_scalar(o):
        raise Raised(TypeError, ("not subscriptable",))
    raise Unsupported("subscript of %s" % type(o).__name__)


def seq_slice(o, i):
    if i.step is not None and i.step != 1:
        if i.step == -1 and i.lo is None and i.hi is None:
            return PySeq(seg_reversed(o.segs), o.kind)
        if not (o.concrete() and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step))):
            raise Unsupported("slice step")
        return PySeq.of(o.items()[i.lo:i.hi:i.step], o.kind)
    if o.concrete():
        its = o.items()
        lo = i.lo if i.lo is None or isinstance(i.lo, int) else None
        hi = i.hi if i.hi is None or isinstance(i.hi, int) else None
        if (i.lo is None or lo is not None) and (i.hi is None or hi is not None):
            return PySeq.of(its[lo:hi], o.kind)
    if len(o.segs) == 1 and isinstance(o.segs[0], Rep) and len(o.segs[0].segs) == 1 and isinstance(o.segs[0].segs[0], One):
        g = o.segs[0]
        start, ln = slice_bounds(i, g.n)
        f = ir.fresh("e", "I", hi=ln)
        return PySeq([Rep(f, ln, [One(vsubst(g.segs[0].v, {g.sym: ir.add(start, ir.poly(f))}))])], o.kind)
    # cut at a segment boundary
    lo = ir.ZERO if i.lo is None else ir.as_int(num(i.lo))
    hi = o.length() if i.hi is None else ir.as_int(num(i.hi))
    off = ir.ZERO
    out, on = [], False
    for g in o.segs:
        if ctx().known(ir.eq(off, lo)) is True:
            on = True
        if on and ctx().known(ir.eq(off, hi)) is True:
            return PySeq(out, o.kind)
        if on:
            out.append(g)
        off = ir.add(off, ir.ONE if isinstance(g, One) else seglen([g]))
    if on and ctx().known(ir.eq(off, hi)) is True:
        return PySeq(out, o.kind)
    raise Unsupported("slice of a list")


def slice_bounds(i, n):
    """(start, length) of a slice of a sequence of length n, python rules"""
    def bound(x, default):
        if x is None:
            return default
        t = ir.as_int(num(x))
        c = ir.const(t)
        if c is not None and c < 0 or (c is None and ctx().entailed(ir.le(ir.ZERO, t)) is not True and ctx().decide(ir.lt(t, ir.ZERO))):
            t = ir.add(n, t)
            if ctx().decide(ir.lt(t, ir.ZERO)):
                return ir.ZERO
            return ir.as_int(t)
        if ir.poly(t) is ir.poly(n):
            return t
        if ctx().decide(ir.le(t, n)):
            return t
        return n
    lo = bound(i.lo, ir.ZERO)
    hi = bound(i.hi, n)
    if hi is n and ir.const(lo) == 0:
        return lo, n
    ln = ir.as_int(ir.sub(hi, lo))
    if not ctx().decide(ir.le(ir.ZERO, ln)):
        return lo, ir.ZERO
    return lo, ln


def setitem(o, i, v):
    if isinstance(o, PySeq):
        if o.kind == "tuple":
            raise Raised(TypeError, ("tuple assignment",))
        if isinstance(i, SliceV):
            raise Unsupported("slice assignment to a list")
        if o.concrete() and isinstance(i, int):
            k = list(o.segs)
            if not -len(k) <= i < len(k):
                raise Raised(IndexError)
            k[i] = One(v)
            o.set_segs(k)
            return
        n = o.length()
        p, ok = norm_index(i, n)
        if not ctx().decide(ok):
            raise Raised(IndexError)
        if len(o.segs) == 1 and isinstance(o.segs[0], Rep) and len(o.segs[0].segs) == 1 and isinstance(o.segs[0].segs[0], One):
            g = o.segs[0]
            o.set_segs([Rep(g.sym, g.n, [One(vite(ir.eq(ir.poly(g.sym), p), v, g.segs[0].v))])])
            return
        raise Unsupported("assignment into a list of symbolic length")
    if isinstance(o, PyDict):
        o.store(i, v)
        return
    if isinstance(o, Arr):
        SETITEM["arr"](o, i, v)
        return
    if isinstance(o, (Obj, FamObj)):
        raw = class_lookup(o.cls, "__setitem__")
        if raw is not None:
            call(Bound(raw, o), (i, v), {})
            return
    if isinstance(o, tuple):
        raise Raised(TypeError, ("tuple assignment",))
    raise Unsupported("item assignment to %s" % type(o).__name__)


# ----------------------------------------------------------------- iteration

def list_of(v):
    """PySeq view of an iterable (a snapshot for iterators: they are consumed)"""
    if isinstance(v, PySeq):
        return v
    if isinstance(v, tuple):
        return PySeq.of(v, "tuple")
    if isinstance(v, PyDict):
        return v.keys()
    if isinstance(v, Arr):
        if not v.shape:
            raise Raised(TypeError, ("iteration over a 0-d array",))
        c = ir.const(v.shape[0])
        if c is not None and c <= 16:
            return PySeq.of([GETITEM["arr"](v, i) for i in range(int(c))])
        f = ir.fresh("e", "I", hi=v.shape[0])
        el = GETITEM["row"](v, ir.poly(f))
        return PySeq([Rep(f, v.shape[0], [One(el)])])
    if isinstance(v, Obj) and v.cls is IterCls:
        s = v.read("seq")
        p = v.read("pos")
        if isinstance(p, int) and p == 0:
            r = s
        else:
            r = seq_slice(list_of(s), SliceV(p, None, None))
        v.write("pos", simplify_scalar(list_of(s).length()))
        return list_of(r)
    if isinstance(v, str):
        return PySeq.of(list(v))
    if isinstance(v, Opaque) and v.kind == "rangev":
        return v.f["seq"]
    if isinstance(v, (Obj, FamObj)):
        raw = class_lookup(v.cls, "__iter__")
        if raw is not None:
            return list_of(call(Bound(raw, v), (), {}))
    if v is None or is_scalar(v):
        raise Raised(TypeError, ("not iterable",))
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    raise Unsupported("iteration over %s" % (v.kind if isinstance(v, Opaque) else type(v).__name__))


def loop(it, target, sc, body):
    """for target in it: body(); True when left by break"""
    if isinstance(it, Obj) and it.cls is IterCls:
        seq = list_of(it)
    else:
        seq = list_of(it)
    try:
        run_segs(seq.segs, lambda v: assign(target, v, sc), body, sc)
    except Break:
        return True
    return False


def run_segs(segs, set_target, body, sc):
    for g in list(segs):
        if isinstance(g, One):
            set_target(g.v)
            try:
                body()
            except Continue:
                pass
        elif isinstance(g, AccSeg):
            raise Unsupported("iteration over a list that grows in a loop")
        else:
            n = ir.as_int(g.n)
            c = ir.const(n)
            if c is not None and c <= 16:
                for i in range(int(c)):
                    run_segs([x for x in (vseg(y, {g.sym: ir.num(i)}) for y in g.segs)], set_target, body, sc)
                continue
            genloop(g.sym, n, lambda j, g=g: run_segs([vseg(y, {g.sym: j}) for y in g.segs], set_target, body, sc), sc)


def vseg(y, env):
    from .core import segsubst
    if isinstance(y, One):
        return One(vsubst_live(y.v, env))
    return segsubst([y], env)[0]


def vsubst_live(v, env):
    """substitution that keeps references to mutable objects that do not depend on the index"""
    return vsubst(v, env)


from .genloop import genloop  # noqa: E402
