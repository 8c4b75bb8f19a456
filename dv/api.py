"""What contracts are written with.

A contract is a Python function over a harness H: it declares arbitrary inputs
(with their precondition), executes the real function on them and states what
must hold of the result.  It is run once per path of the code.
"""
import sys

from . import ir, core, interp, npmodel, genloop      # noqa: F401
from .ir import T, Unsupported, fresh, poly, lift, ite, eq, ne, lt, le, band, bor, bnot, br, summ, forall, exists, app, sqrt, num
from .core import (ctx, Arr, Store, mkarr, One, Rep, PySeq, PyDict, KV, KRep, Obj, Family, FamObj, Opaque, Raised, Infeasible, dim,
                   vsubst, shape_eq)
from .interp import call, getattr_, Bound, class_lookup
from .solve import Solver

REGISTRY = {}         # property -> [Contract]


class Contract:
    def __init__(self, name, props, fn, targets, mode):
        self.name, self.props, self.fn, self.targets, self.mode = name, props, fn, targets, mode


def truth_of(v):
    """truth value as a formula"""
    if v is None or isinstance(v, (str, float)):
        return ir.TRUE if v else ir.FALSE
    return ir.tobool(interp.num(v))


def contract(*props, targets=(), mode="proof"):
    def deco(fn):
        c = Contract(fn.__name__, props, fn, tuple(targets), mode)
        for p in props:
            REGISTRY.setdefault(p, []).append(c)
        return fn
    return deco


class H:
    """one run of a contract"""

    def __init__(self, solver, name):
        self.solver = solver
        self.name = name
        self.inputs = {}
        self.prefix = ""

    # ------------------------------------------------------------- inputs
    def int(self, name, lo=None, hi=None):
        s = ir.sym(name if not isinstance(lo, int) else "%s.ge%d" % (name, lo), "I")
        if isinstance(lo, int):
            ir._lower[s] = lo
        s = poly(s)
        self.inputs[name] = s
        if lo is not None:
            ctx().assume(le(lift(lo), s))
        if hi is not None:
            ctx().assume(lt(s, lift(hi)))
        return s

    def ints(self, name, lo):
        """function symbol with integer values >= lo"""
        f = "%s.ge%d" % (name, lo)
        ir.APPLOWER[f] = lo
        return lambda *i: app(f, [lift(x) for x in i], "I")

    def names(self, name, bound, sort="S", anything=False):
        """fn(*prefix, i): distinct values for different i (anything: of any size)"""
        f = name + "#"
        if anything:
            ir.TOTAL.add(f)
        ir.injective(f, sort, lambda *a: ir.as_int(lift(bound(*a) if callable(bound) else bound)))
        return lambda *i: app(f, [lift(x) for x in i], sort)

    def real(self, name):
        s = poly(ir.sym(name, "R"))
        self.inputs[name] = s
        return s

    def bool(self, name):
        return ir.sym(name, "B")

    def index(self, name, n):
        """arbitrary index 0 <= i < n"""
        s = fresh(name, "I", hi=lift(n))
        return poly(s)

    def text(self, name):
        return ir.sym(name, "S")

    def array(self, name, *shape, dtype="f", fact=None, args=()):
        """arbitrary array; fact(i, ..., value) holds for its elements"""
        sort = {"f": "R", "i": "I", "b": "B"}[dtype]
        shape = tuple(dim(s) for s in shape)
        a = mkarr(shape, lambda *i: app(name, list(args) + list(i), sort), dtype)
        self.inputs[name] = a
        if fact is not None:
            k = len(args)
            gen = [ir.single_sym(lift(g)) for g in args]

            def fct(*x):
                env = {g: v for g, v in zip(gen, x) if g is not None}
                rng = band(*[band(le(ir.ZERO, i), lt(i, ir.subst(s, env))) for i, s in zip(x[k:], shape)])
                return ir.implies(rng, fact(*x, app(name, list(x), sort)))
            self.fact(name, fct)
        return a

    def values(self, name, *idx, sort="R"):
        return app(name, [lift(i) for i in idx], sort)

    def fact(self, fname, fn):
        """fn(*args) holds for every application of fname"""
        number = len(self.solver.axioms)

        def ax(e, done):
            out = []
            for a in list(e.apps):
                if a.f == fname and ("fact", number, a) not in done:
                    done.add(("fact", number, a))
                    out.append(fn(*a.args))
            return out
        ax.fname = fname
        self.solver.axioms.append(ax)

    def require(self, cond):
        ctx().assume(cond)

    def sum_lemma(self, n, f, k=None, what="term is not negative"):
        """non-negative terms: the sum is not negative and not below any term"""
        i = self.index("i", n)
        self.ensure(what, le(0, f(i)))
        s = summ(n, f)
        self.require(le(0, s))
        if k is not None:
            self.require(ir.implies(band(le(0, lift(k)), lt(lift(k), lift(n))), le(f(k), s)))

    # ---------------------------------------------------------- execution
    def call(self, fn, *args, **kw):
        return call(fn, args, kw)

    def method(self, obj, name, *args, **kw):
        return call(getattr_(obj, name), args, kw)

    def get(self, obj, name):
        return getattr_(obj, name)

    def set(self, obj, name, v):
        interp.setattr_(obj, name, v)

    def attempt(self, fn, *args, **kw):
        """-> ('ok', value) or ('raised', exception class)"""
        try:
            return "ok", call(fn, args, kw)
        except Raised as e:
            return "raised", e.cls

    # ------------------------------------------------------------- claims
    def ensure(self, name, cond):
        if isinstance(cond, bool):
            cond = ir.boolc(cond)
        old = ctx().func
        ctx().func = self.name
        o = ctx().oblige(self.prefix + name, cond, "post")
        ctx().func = old
        return o

    def fail(self, name):
        self.ensure(name, ir.FALSE)

    def is_array(self, name, v, shape, dtype=None):
        if not isinstance(v, Arr) or len(v.shape) != len(shape):
            self.fail(name + ": is an array of %d dimensions" % len(shape))
            return False
        self.ensure(name + ": shape", shape_eq(v.shape, [dim(lift(s)) for s in shape]))
        if dtype is not None and v.dtype != dtype:
            self.fail(name + ": element type")
            return False
        return True

    def elements(self, name, v, shape, fn, dtype=None):
        """v is an array of this shape with elements fn(*idx)"""
        if not self.is_array(name, v, shape, dtype):
            return
        idx = [self.index("k", s) for s in shape]
        got, want = v.get(*idx), lift(fn(*idx))
        if v.dtype == "b" or want.sort == "B":
            self.ensure(name, band(ir.implies(ir.tobool(got), ir.tobool(want)), ir.implies(ir.tobool(want), ir.tobool(got))))
        else:
            self.ensure(name, eq(got, want))

    def scalar(self, name, v, want):
        if isinstance(v, Arr) and not v.shape:
            v = v.body()
        if not interp.is_scalar(v):
            self.fail(name + ": is a number")
            return
        self.ensure(name, eq(interp.num(v), lift(want)))

    def text_is(self, name, v, want):
        if not (isinstance(v, str) or isinstance(v, T) and v.sort == "S"):
            self.fail(name + ": is a text")
            return
        self.ensure(name, eq(lift(v), lift(want)))

    def same_array(self, name, v, w):
        """equal content and shape (w: array or snapshot)"""
        self.elements(name, v, w.shape, w.get)

    def snapshot(self, v):
        """content of a value now, to be compared later"""
        return Snapshot(v)

    def unchanged(self, name, snap):
        snap.compare(self, name, snap.obj, snap.val)

    def distinct_storage(self, name, *arrays):
        """no two of these share storage"""
        seen = {}
        for a in arrays:
            if isinstance(a, Arr):
                if id(a.store) in seen:
                    self.fail(name)
                    return
                seen[id(a.store)] = a
        self.ensure(name, ir.TRUE)

    def reachable(self, label=""):
        """this point is reached with satisfiable assumptions (vacuity guard)"""
        c = ctx()
        if not hasattr(c, "witness"):
            c.witness = []
        c.witness.append((self.prefix + label, tuple(c.pc)))


class Snapshot:
    def __init__(self, v):
        self.obj = v
        self.val = self.take(v, {})

    def take(self, v, seen):
        if isinstance(v, Arr):
            if v.store.body is None:
                return ("blocks", v, tuple(v.store.blocks))
            return ("arr", v, core.arr_of_body(v.shape, v.body(), v.dtype))
        if isinstance(v, (Obj, PySeq, PyDict)):
            if id(v) in seen:
                return ("seen", v)
            seen[id(v)] = v
        if isinstance(v, Obj):
            return ("obj", v, {k: self.take(x, seen) for k, x in v.attrs.items()})
        if isinstance(v, tuple):
            return ("tuple", v, [self.take(x, seen) for x in v])
        if isinstance(v, PySeq):
            return ("seq", v, list(v.segs), [self.take(s.v, seen) if isinstance(s, One) else None for s in v.segs])
        if isinstance(v, PyDict):
            return ("dict", v, list(v.segs), [self.take(s.v, seen) if isinstance(s, KV) else None for s in v.segs])
        return ("val", v)

    def compare(self, h, name, obj, s):
        k = s[0]
        if k in ("seen", "blocks"):
            return
        if k == "arr":
            if s[1].dtype == "b":
                h.ensure(name, ir.TRUE if s[1].body() is s[2].body() else ir.FALSE)
            else:
                h.same_array(name, s[1], s[2])
            return
        if k == "obj":
            now = s[1].attrs
            if set(now) != set(s[2]):
                extra = [a for a in now if a not in s[2]]
                if [a for a in s[2] if a not in now]:
                    h.fail(name + ": attributes")
            for a, x in s[2].items():
                if a in now:
                    self.cmpval(h, "%s.%s" % (name, a), now[a], x)
            return
        if k == "tuple":
            for i, (x, y) in enumerate(zip(s[1], s[2])):
                self.cmpval(h, "%s[%d]" % (name, i), x, y)
            return
        if k in ("seq", "dict"):
            if len(s[1].segs) != len(s[2]):
                h.fail(name + ": elements")
                return
            for i, (a, b, t) in enumerate(zip(s[1].segs, s[2], s[3])):
                if a is b and t is None:
                    continue
                if isinstance(a, (One, KV)) and t is not None:
                    if isinstance(a, KV):
                        h.ensure(name + ": key", core.key_eq(a.k, b.k))
                    self.cmpval(h, "%s[%d]" % (name, i), a.v, t)
                elif a is not b:
                    h.fail(name + ": elements")
            return

    def cmpval(self, h, name, now, s):
        k = s[0]
        if k == "val":
            if now is s[1]:
                return
            if interp.is_scalar(now) and interp.is_scalar(s[1]):
                h.ensure(name, eq(interp.num(now), interp.num(s[1])))
                return
            if isinstance(now, FamObj) and isinstance(s[1], FamObj) and now.fam is s[1].fam:
                h.ensure(name, band(*[eq(a, b) for a, b in zip(now.idx, s[1].idx)]))
                return
            try:
                same = now == s[1]
            except Exception:
                same = False
            if same is True:
                return
            h.fail(name)
            return
        if k == "arr" and isinstance(now, Arr):
            if now.dtype == "b":
                h.ensure(name, ir.TRUE if now.body() is s[2].body() else ir.FALSE)
            else:
                h.same_array(name, now, s[2])
            return
        if k == "tuple" and isinstance(now, tuple) and len(now) == len(s[2]):
            for i, (x, y) in enumerate(zip(now, s[2])):
                self.cmpval(h, "%s[%d]" % (name, i), x, y)
            return
        if now is s[1]:
            self.compare(h, name, now, s)
            return
        if k in ("seq", "dict") and type(now) is type(s[1]):
            t = (k, now) + tuple(s[2:])
            self.compare(h, name, now, t)
            return
        if k == "seen" or k == "blocks":
            h.fail(name)
            return
        h.fail(name)
