"""Models of the library functions the repository calls (trusted: each states
the exact-arithmetic meaning of the function on the arguments it accepts;
anything else is Unsupported)."""
import builtins
import collections
import functools
import itertools
import logging
import operator
from fractions import Fraction

import numpy as np
import scipy.special
import scipy.stats
import scipy.linalg

from . import ir, interp, core
from .ir import T, Unsupported
from .core import (Raised, ctx, Arr, Store, mkarr, arr_of_body, shape_eq, write, One, Rep, PySeq, seglen, seq_at, KV, KRep,
                   PyDict, Obj, FamObj, Closure, Bound, Opaque, Poison, PH, dim, vsubst, vite, vsyms, AccSeg, segsubst)
from .genloop import branches, merge_branches, genloop
from .interp import (model, METHODS, ATTRS, GETITEM, SETITEM, call, num, is_scalar, simplify_scalar, emap, binop, list_of,
                     SliceV, norm_index, slice_bounds, truth, StarArg, make_iter, IterCls, getattr_, getitem, to_str, cat,
                     run_segs, class_lookup, nonneg, nonzero, generic, with_shape, broadcast_shape, equal, contains)
import ast


# ------------------------------------------------------------------- helpers

def need_args(name, args, kwargs, allowed):
    for k in kwargs:
        if k not in allowed:
            raise Unsupported("%s(%s=...)" % (name, k))


def arg(args, kwargs, i, name, default=None):
    if i < len(args):
        return args[i]
    return kwargs.get(name, default)


def dtype_of(d):
    if d is None:
        return None
    if d in (float, np.float64, np.double, "float", "float64", "f8", "d", np.float32) or d == np.dtype(float):
        return "f"
    if d in (int, np.int64, np.int32, np.int_, "int", "int64", "i8") or d == np.dtype(int):
        return "i"
    if d in (bool, np.bool_, "bool"):
        return "b"
    if isinstance(d, Opaque) and d.kind == "dtype":
        return d.f["d"]
    raise Unsupported("dtype %s" % (d,))


def dtype_sort(t):
    return {"I": "i", "R": "f", "B": "b"}[ir.lift(t).sort]


def elem(t, d):
    """term converted to an element type"""
    t = ir.lift(t)
    if d == "f":
        return ir.as_real(ir.poly(t))
    if d == "i":
        t = ir.poly(t)
        if t.sort == "I":
            return t
        return ir.app("trunc", (t,), "I", "R")
    if d == "b":
        return ir.tobool(t)
    raise Unsupported("dtype")


def convert(a, d):
    if d is None or a.dtype == d:
        return a
    return arr_of_body(a.shape, elem(a.body(), d), d)


def build(shape, fn, dtype):
    """array whose element at ranged index symbols is fn(*idx)"""
    shape = tuple(dim(s) for s in shape)
    fs = [ir.fresh("x", "I", hi=s) for s in shape]
    body = ir.lift(fn(*[ir.poly(f) for f in fs]))
    body = elem(body, dtype) if dtype else body
    d = dtype or dtype_sort(body)
    body = ir.subst(body, {f: ir.poly(p) for f, p in zip(fs, PH)})
    return arr_of_body(shape, body, d)


def copy_arr(a):
    if a.store.body is None:
        st = Store(a.shape, None, a.dtype)
        st.blocks = list(a.store.blocks)
        return Arr(st)
    r = arr_of_body(a.shape, a.body(), a.dtype)
    if a.vmap is None:
        r.store.tag = a.store.tag
    return r


def to_arr(v, dtype=None, copy=False):
    """np.asarray"""
    if isinstance(v, Arr):
        if dtype is not None and v.dtype != dtype:
            return convert(v, dtype)
        return copy_arr(v) if copy else v
    if is_scalar(v):
        t = num(v)
        d = dtype or dtype_sort(t)
        return arr_of_body((), elem(t, d), d)
    if isinstance(v, Opaque) and v.kind == "series":
        return to_arr(v.f["arr"], dtype, copy)
    if isinstance(v, (PySeq, tuple)):
        s = list_of(v)
        if not s.segs:
            return arr_of_body((0,), ir.as_real(ir.ZERO), dtype or "f")
        return stack(s.segs, dtype)
    if isinstance(v, Obj) and v.cls is IterCls:
        raise Unsupported("array of an iterator")
    raise Unsupported("array of %s" % (v.kind if isinstance(v, Opaque) else type(v).__name__))


def rectangle(s, dtype):
    """n groups of m items each, m the same for all: n*m items"""
    inner = stack(s.segs, dtype)
    m = inner.shape[0]
    if any(s.sym in ir.syms(x) for x in inner.shape):
        raise Unsupported("array of groups of unequal length")
    total = ir.as_int(ir.mul(s.n, m))
    f = ir.fresh("r", "I", hi=total)
    g, i = unflatten(ir.poly(f), (s.n, m))
    el = mkarr(inner.shape[1:], lambda *k: ir.subst(inner.get(i, *k), {s.sym: g}), inner.dtype)
    return total, f, el


def stack(segs, dtype=None):
    """np.array of a sequence of scalars or equally shaped arrays"""
    parts = []          # (length, sym or None, element Arr)
    for s in segs:
        if isinstance(s, One):
            parts.append((ir.ONE, None, to_arr(s.v)))
        elif isinstance(s, AccSeg):
            raise Unsupported("array of a list that grows in a loop")
        elif len(s.segs) == 1 and isinstance(s.segs[0], One):
            parts.append((s.n, s.sym, to_arr(s.segs[0].v)))
        else:
            parts.append(rectangle(s, dtype))
    sh = parts[0][2].shape
    for n, sy, a in parts[1:]:
        if len(a.shape) != len(sh) or not ctx().decide(shape_eq(a.shape, sh)):
            raise Raised(ValueError, ("inhomogeneous",))
    for n, sy, a in parts:
        if sy is not None and any(sy in ir.syms(x) for x in a.shape):
            raise Unsupported("array of sequences of unequal length")
    ds = [a.dtype for _, _, a in parts]
    d = dtype or ("f" if "f" in ds else ("i" if "i" in ds else "b"))
    total = ir.as_int(ir.addn([n for n, _, _ in parts]))
    shape = (total,) + tuple(sh)

    def fn(i, *rest):
        off = ir.ZERO
        res = None
        conds = []
        for n, sy, a in parts:
            k = ir.as_int(ir.sub(i, off))
            b = elem(a.get(*rest) if a.shape else a.body(), d)
            if sy is not None:
                b = ir.subst(b, {sy: k})
            conds.append((off, ir.add(off, n), n, b))
            off = ir.add(off, n)
        res = conds[-1][3]
        for lo, hi, n, b in reversed(conds[:-1]):
            c = ir.eq(i, lo) if ir.const(n) == 1 and len(conds) > 1 and False else ir.lt(i, hi)
            res = ir.ite(c, b, res)
        if all(ir.const(n) == 1 for _, _, n, _ in conds):
            # finite table
            if d != "b":
                res = ir.addn([ir.mul(ir.br(ir.eq(i, ir.num(k))), c[3]) for k, c in enumerate(conds)])
        return res
    return build(shape, fn, d)


def shape_arg(v):
    if is_scalar(v):
        return (v,)
    if isinstance(v, (tuple, PySeq)):
        return tuple(list_of(v).items())
    raise Unsupported("shape")


def shape_tuple(a):
    return tuple(simplify_scalar(s) for s in a.shape)


def full_model(val):
    def f(args, kwargs):
        need_args("zeros", args, kwargs, ("shape", "dtype", "fill_value"))
        sh = shape_arg(arg(args, kwargs, 0, "shape"))
        for s in sh:
            if not is_scalar(s) or ir.poly(num(s)).sort != "I":
                raise Raised(TypeError, ("shape",))
        if val is None:
            x = arg(args, kwargs, 1, "fill_value")
            d = dtype_of(arg(args, kwargs, 2, "dtype")) or dtype_sort(num(x))
        else:
            x = val
            d = dtype_of(arg(args, kwargs, 1, "dtype")) or "f"
        return arr_of_body(sh, elem(num(x), d), d)
    return f


model(np.zeros)(full_model(0))
model(np.ones)(full_model(1))
model(np.full)(full_model(None))


def like_model(val):
    def f(args, kwargs):
        need_args("zeros_like", args, kwargs, ("dtype", "a", "fill_value"))
        a = to_arr(arg(args, kwargs, 0, "a"))
        if val is None:
            x = arg(args, kwargs, 1, "fill_value")
            d = dtype_of(arg(args, kwargs, 2, "dtype")) or a.dtype
        else:
            x = val
            d = dtype_of(arg(args, kwargs, 1, "dtype")) or a.dtype
        return arr_of_body(a.shape, elem(num(x), d), d)
    return f


model(np.zeros_like)(like_model(0))
model(np.ones_like)(like_model(1))
model(np.full_like)(like_model(None))


@model(np.array)
def m_array(args, kwargs):
    need_args("array", args, kwargs, ("dtype", "copy", "object"))
    return to_arr(arg(args, kwargs, 0, "object"), dtype_of(arg(args, kwargs, 1, "dtype")), copy=kwargs.get("copy", True) is not False)


@model(np.asarray, np.asanyarray, np.ascontiguousarray, np.atleast_1d)
def m_asarray(args, kwargs):
    need_args("asarray", args, kwargs, ("dtype", "a"))
    r = to_arr(arg(args, kwargs, 0, "a"), dtype_of(arg(args, kwargs, 1, "dtype")))
    return r


@model(np.copy)
def m_copy(args, kwargs):
    need_args("copy", args, kwargs, ("a",))
    return to_arr(arg(args, kwargs, 0, "a"), copy=True)


@model(np.linspace)
def m_linspace(args, kwargs):
    need_args("linspace", args, kwargs, ("start", "stop", "num"))
    a, b = num(arg(args, kwargs, 0, "start")), num(arg(args, kwargs, 1, "stop"))
    n = arg(args, kwargs, 2, "num", 50)
    if not is_scalar(n) or ir.poly(num(n)).sort != "I":
        raise Raised(TypeError, ("num",))
    n = ir.as_int(num(n))
    if ctx().decide(ir.lt(n, ir.ZERO)):
        raise Raised(ValueError, ("num",))
    d = ir.sub(n, ir.ONE)
    if ctx().decide(ir.le(n, ir.ONE)):
        return mkarr((n,), lambda i: ir.as_real(a))
    return mkarr((n,), lambda i: ir.add(a, ir.mul(ir.sub(b, a), ir.div(i, d))))


@model(np.arange)
def m_arange(args, kwargs):
    need_args("arange", args, kwargs, ())
    if not all(is_scalar(a) and ir.poly(num(a)).sort == "I" for a in args) or len(args) > 2:
        raise Unsupported("arange")
    lo, hi = (ir.ZERO, num(args[0])) if len(args) == 1 else (num(args[0]), num(args[1]))
    n = ir.as_int(ir.sub(hi, lo))
    if not ctx().decide(ir.le(ir.ZERO, n)):
        n = ir.ZERO
    return mkarr((n,), lambda i: ir.add(lo, i), "i")


@model(np.eye, np.identity)
def m_eye(args, kwargs):
    need_args("eye", args, kwargs, ("N", "n"))
    if len(args) > 1:
        raise Unsupported("eye")
    n = args[0] if args else kwargs.get("N", kwargs.get("n"))
    return mkarr((num(n), num(n)), lambda i, j: ir.br(ir.eq(i, j)))


@model(np.diag, np.diagonal)
def m_diag(args, kwargs):
    need_args("diag", args, kwargs, ("v", "a"))
    if len(args) > 1:
        raise Unsupported("diag offset")
    a = to_arr(args[0] if args else kwargs.get("v", kwargs.get("a")))
    if a.ndim == 1:
        u = () if a.vmap is not None else a.store.undef
        if u:
            ctx().heap.put(a.store, "undef", ())
        b = a.body()
        if u:
            ctx().heap.put(a.store, "undef", u)
        r = mkarr((a.shape[0], a.shape[0]), lambda i, j: ir.mul(ir.br(ir.eq(i, j)), ir.subst(b, {PH[0]: i})), a.dtype if a.dtype != "b" else "i")
        # undefined on the diagonal where the vector is
        on = ir.eq(ir.poly(PH[0]), ir.poly(PH[1]))
        r.store.undef = tuple((what, ir.implies(on, ok), ir.band(on, nan)) for what, ok, nan in u)
        return r
    if a.ndim == 2:
        n = a.shape[0]
        if not ctx().decide(ir.eq(a.shape[0], a.shape[1])):
            n = a.shape[0] if ctx().decide(ir.le(a.shape[0], a.shape[1])) else a.shape[1]
        return mkarr((n,), lambda i: a.get(i, i), a.dtype)
    raise Raised(ValueError, ("diag",))


@model(np.outer)
def m_outer(args, kwargs):
    need_args("outer", args, kwargs, ("a", "b"))
    a, b = flat(to_arr(arg(args, kwargs, 0, "a"))), flat(to_arr(arg(args, kwargs, 1, "b")))
    return build((a.shape[0], b.shape[0]), lambda i, j: ir.mul(a.get(i), b.get(j)), "f" if "f" in (a.dtype, b.dtype) else "i")


# ------------------------------------------------------------------ reshape

def flat(a):
    if a.ndim == 1:
        return a
    return reshape(a, (a.size(),))


def prod(xs):
    r = ir.ONE
    for x in xs:
        r = ir.mul(r, x)
    return ir.as_int(r)


def flat_index(idx, shape):
    r = ir.ZERO
    for i, s in zip(idx, shape):
        r = ir.add(ir.mul(r, s), i)
    return ir.as_int(r)


def unflatten(f, shape):
    """indices of the position f of a row-major array"""
    out = []
    for k in range(len(shape) - 1, 0, -1):
        out.append(ir.imod(f, shape[k]))
        f = ir.idiv(f, shape[k])
    out.append(f)
    return list(reversed(out))


def reshape(a, shape):
    shape = [ir.as_int(num(s)) for s in shape]
    unk = [i for i, s in enumerate(shape) if ir.const(s) == -1]
    size = a.size()
    if len(unk) > 1:
        raise Raised(ValueError, ("reshape",))
    if unk:
        rest = prod(s for i, s in enumerate(shape) if i != unk[0])
        qr = ir._divide(size, rest)
        if qr is None or ir.const(qr[1]) != 0:
            if ir.const(size) is not None and ir.const(rest) is not None:
                raise Raised(ValueError, ("reshape",))
            q = ir.idiv(size, rest)
            if not ctx().decide(ir.band(ir.ne(rest, ir.ZERO), ir.eq(ir.mul(q, rest), size))):
                raise Raised(ValueError, ("reshape",))
        else:
            q = qr[0]
        shape[unk[0]] = q
    if not ctx().decide(ir.eq(prod(shape), size)):
        raise Raised(ValueError, ("reshape",))
    if len(shape) == a.ndim and all(x is y for x, y in zip(shape, a.shape)):
        return Arr(a.store, a.shape, a.vmap, a.inv)
    if a.store.body is None:
        raise Unsupported("reshape of a concatenation of unequal blocks")
    # view: store index = ... of the flat position
    fs = [ir.fresh("x", "I", hi=s) for s in shape]
    pos = flat_index([ir.poly(f) for f in fs], shape)
    aidx = unflatten(pos, a.shape)
    if a.vmap is not None:
        e = dict(zip(PH, aidx))
        sidx = [ir.poly(ir.subst(v, e)) for v in a.vmap]
    else:
        sidx = aidx
    back = {f: ir.poly(p) for f, p in zip(fs, PH)}
    vmap = [ir.poly(ir.subst(x, back)) for x in sidx]
    inv = None
    if a.vmap is None or a.inv is not None:
        # writing through the view
        ss = [ir.fresh("y", "I", hi=s) for s in a.store.shape]
        e = {p: ir.poly(s) for p, s in zip(PH, ss)}
        g, vidx = (ir.TRUE, [ir.poly(s) for s in ss]) if a.vmap is None else (ir.subst(a.inv[0], e), [ir.poly(ir.subst(x, e)) for x in a.inv[1]])
        nidx = unflatten(flat_index(vidx, a.shape), shape)
        b2 = {s: ir.poly(p) for s, p in zip(ss, PH)}
        inv = (ir.subst(g, b2), [ir.poly(ir.subst(x, b2)) for x in nidx])
    return Arr(a.store, shape, vmap, inv)


@model(np.reshape)
def m_reshape(args, kwargs):
    need_args("reshape", args, kwargs, ("newshape", "shape"))
    return reshape(to_arr(args[0]), shape_arg(args[1] if len(args) > 1 else kwargs.get("newshape", kwargs.get("shape"))))


@model(np.ravel)
def m_ravel(args, kwargs):
    need_args("ravel", args, kwargs, ())
    return flat(to_arr(args[0]))


@model(np.transpose)
def m_transpose(args, kwargs):
    need_args("transpose", args, kwargs, ())
    if len(args) > 1:
        raise Unsupported("transpose axes")
    return transpose(to_arr(args[0]))


def transpose(a):
    if a.ndim <= 1:
        return a
    n = a.ndim
    perm = list(reversed(range(n)))
    shape = [a.shape[p] for p in perm]
    e = {PH[p]: ir.poly(PH[k]) for k, p in enumerate(perm)}
    base = [ir.poly(PH[k]) for k in range(n)] if a.vmap is None else a.vmap
    vmap = [ir.poly(ir.subst(v, e)) for v in base]
    if a.vmap is None:
        inv = (ir.TRUE, [ir.poly(PH[p]) for p in perm])
    elif a.inv is not None:
        inv = (a.inv[0], [a.inv[1][p] for p in perm])
    else:
        inv = None
    return Arr(a.store, shape, vmap, inv)


@model(np.squeeze)
def m_squeeze(args, kwargs):
    need_args("squeeze", args, kwargs, ())
    a = to_arr(args[0])
    keep = []
    for k, s in enumerate(a.shape):
        if not ctx().decide(ir.eq(s, ir.ONE)):
            keep.append(k)
    if len(keep) == a.ndim:
        return a
    return mkarr([a.shape[k] for k in keep], lambda *i: a.get(*[i[keep.index(k)] if k in keep else ir.ZERO for k in range(a.ndim)]), a.dtype)


@model(np.expand_dims)
def m_expand(args, kwargs):
    a, ax = to_arr(args[0]), arg(args, kwargs, 1, "axis")
    if ax not in (0, 1, -1):
        raise Unsupported("expand_dims")
    i = [SliceV(None, None, None)] * a.ndim
    i.insert(ax if ax >= 0 else len(i), None)
    return arr_getitem(a, tuple(i))


# ----------------------------------------------------------------- indexing

def arr_getitem(a, i):
    if isinstance(i, PySeq) or (isinstance(i, tuple) and any(isinstance(x, (PySeq, Arr)) for x in i)):
        if isinstance(i, PySeq):
            i = to_arr(i) if i.segs else arr_of_body((0,), ir.ZERO, "i")
        else:
            return fancy_multi(a, i)
    if isinstance(i, Arr) and i.ndim > 0:
        if i.dtype == "b":
            if i.ndim != a.ndim or not ctx().decide(shape_eq(i.shape, a.shape)):
                raise Unsupported("boolean index of another shape")
            m = i.body()
            if a.store._body is None:
                return Opaque("masked", arr=copy_arr(a), mask=m)
            c = interp.limited(interp.lazy(lambda x: x, a), m)
            c.store.dtype = a.dtype
            return Opaque("masked", arr=c, mask=m)
        if i.dtype == "i" and i.ndim == 1:
            return fancy(a, i)
        raise Unsupported("fancy index")
    if isinstance(i, Opaque):
        raise Unsupported("index %s" % i.kind)
    ix = list(i) if isinstance(i, tuple) else [i]
    if any(x is Ellipsis for x in ix):
        k = [x is Ellipsis for x in ix].index(True)
        used = sum(1 for x in ix if x is not None and x is not Ellipsis)
        ix[k:k + 1] = [SliceV(None, None, None)] * (a.ndim - used)
    used = sum(1 for x in ix if x is not None)
    if used > a.ndim:
        raise Raised(IndexError, ("too many indices",))
    ix += [SliceV(None, None, None)] * (a.ndim - used)
    shape, aidx, invs, conds = [], [], [], []
    ax = 0
    simple = True
    for x in ix:
        if x is None:
            shape.append(ir.ONE)
            invs.append(("const",))
            continue
        n = a.shape[ax]
        if isinstance(x, SliceV):
            if x.step is not None and x.step != 1:
                if x.step == -1 and x.lo is None and x.hi is None:
                    k = ir.poly(PH[len(shape)])
                    aidx.append(ir.sub(ir.sub(n, ir.ONE), k))
                    shape.append(n)
                    invs.append(("rev", ax, n))
                    ax += 1
                    simple = False
                    continue
                raise Unsupported("slice step")
            lo, ln = slice_bounds(x, n)
            k = ir.poly(PH[len(shape)])
            aidx.append(ir.add(lo, k))
            invs.append(("slice", ax, lo, ln))
            if not (ir.const(lo) == 0 and ln is n):
                simple = False
            shape.append(ln)
        elif is_scalar(x):
            t = num(x)
            if t.sort != "I":
                raise Raised(IndexError, ("index type",))
            p, ok = norm_index(x, n)
            if not ctx().decide(ok):
                raise Raised(IndexError, ("out of bounds",))
            aidx.append(p)
            invs.append(("int", ax, p))
            simple = False
        elif isinstance(x, str) or (isinstance(x, T) and x.sort == "S"):
            raise Raised(IndexError, ("string index",))
        else:
            raise Unsupported("index of type %s" % type(x).__name__)
        ax += 1
    if simple and len(shape) == a.ndim and not any(x is None for x in ix):
        return Arr(a.store, a.shape, a.vmap, a.inv)
    if a.store.body is None:
        r = block_index(a, ix)
        if r is not None:
            return r
        ctx().heap.put(a.store, "body", a.store.elements())
    if not shape:
        return simplify_scalar(a.get(*aidx))
    e = dict(zip(PH, aidx))
    base = [ir.poly(PH[k]) for k in range(a.ndim)] if a.vmap is None else a.vmap
    vmap = [ir.poly(ir.subst(v, e)) for v in base]
    if a.vmap is None:
        g, vidx = ir.TRUE, [ir.poly(PH[k]) for k in range(a.ndim)]
    elif a.inv is not None:
        g, vidx = a.inv
    else:
        return Arr(a.store, shape, vmap, None)
    out = []
    for v in invs:
        if v[0] == "const":
            out.append(ir.ZERO)
        elif v[0] == "int":
            g = ir.band(g, ir.eq(vidx[v[1]], v[2]))
        elif v[0] == "rev":
            out.append(ir.as_int(ir.sub(ir.sub(v[2], ir.ONE), vidx[v[1]])))
        else:
            k = ir.as_int(ir.sub(vidx[v[1]], v[2]))
            if not (ir.const(v[2]) == 0 and v[3] is a.shape[v[1]]):
                # full remainder slices need one bound only
                g = ir.band(g, ir.le(ir.ZERO, k))
                if ir.as_int(ir.add(v[2], v[3])) is not a.shape[v[1]]:
                    g = ir.band(g, ir.lt(k, v[3]))
            out.append(k)
    return Arr(a.store, shape, vmap, (g, out))


def block_index(a, ix):
    if len(ix) == 1 and isinstance(ix[0], SliceV):
        # slice at block boundaries
        lo = ir.ZERO if ix[0].lo is None else ir.as_int(num(ix[0].lo))
        hi = a.shape[0] if ix[0].hi is None else ir.as_int(num(ix[0].hi))
        off, out, on = ir.ZERO, [], False
        for s in list(a.store.blocks) + [None]:
            if not on and (ctx().entailed(ir.eq(off, lo)) is True):
                on = True
            if on and ctx().entailed(ir.eq(off, hi)) is True:
                r = concat_segs(out)
                a.store.frozen = r.store.frozen = True
                return r
            if s is None:
                break
            if on:
                out.append(s)
            off = ir.as_int(ir.add(off, blocklen([s])))
    return None


def fancy(a, idx):
    n = a.shape[0]
    b = idx.body()
    t = generic(b) if False else b
    f = ir.fresh("x", "I", hi=idx.shape[0])
    g = ir.subst(b, {PH[0]: ir.poly(f)})
    ok = ir.band(ir.le(ir.ZERO, g), ir.lt(g, n))
    if not (ok is ir.TRUE or ctx().solver.quick(ctx().pc, ok)):
        ctx().oblige("index array in range", ok, "index")
    rest = list(a.shape[1:])

    def fn(k, *r):
        return a.get(ir.subst(b, {PH[0]: k}), *r)
    return build([idx.shape[0]] + rest, fn, a.dtype)


def fancy_multi(a, i):
    if len(i) == a.ndim and all(isinstance(x, Arr) and x.dtype == "i" and x.ndim == 1 for x in [to_arr(y) if isinstance(y, PySeq) else y for y in i]):
        raise Unsupported("multi-dimensional fancy index")
    raise Unsupported("fancy index")


def arr_setitem(a, i, v):
    if isinstance(i, Arr) and i.dtype == "b" and i.ndim > 0:
        if i.ndim != a.ndim or not ctx().decide(shape_eq(i.shape, a.shape)):
            raise Unsupported("boolean index of another shape")
        m = i.body()
        if is_scalar(v):
            write(a, lambda *x: num(v), lambda *x: ir.subst(m, dict(zip(PH, x))))
            return
        if isinstance(v, Opaque) and v.kind == "masked" and v.f["mask"] is m:
            b = v.f["arr"].body()
            write(a, lambda *x: ir.subst(b, dict(zip(PH, x))), lambda *x: ir.subst(m, dict(zip(PH, x))))
            return
        raise Unsupported("assignment under a mask")
    if isinstance(i, (PySeq,)) or (isinstance(i, Arr) and i.ndim):
        raise Unsupported("fancy assignment")
    view = arr_getitem_view(a, i)
    if isinstance(v, (PySeq, tuple)):
        v = to_arr(v)
    if isinstance(v, Opaque):
        raise Unsupported("assignment of %s" % v.kind)
    if view.shape == () or isinstance(v, Arr) is False:
        if isinstance(v, Arr):
            if v.size() is not ir.ONE and ir.const(v.size()) != 1:
                if not ctx().decide(ir.eq(v.size(), ir.ONE)):
                    raise Raised(ValueError, ("setting an element with a sequence",))
            v = v.get(*[ir.ZERO] * v.ndim)
        if not is_scalar(v):
            if isinstance(v, str) or (isinstance(v, T) and v.sort == "S"):
                raise Raised(ValueError, ("could not convert string to float",))
            if v is None:
                raise Raised(TypeError, ("None",))
            raise Unsupported("element of type %s" % type(v).__name__)
        t = num(v)
        write(view, lambda *x: t)
        return
    # broadcast v into the view
    b = v.body()
    off = view.ndim - v.ndim
    if off < 0:
        extra = v.shape[:-view.ndim] if view.ndim else v.shape
        if not all(ctx().decide(ir.eq(s, ir.ONE)) for s in extra):
            raise Raised(ValueError, ("could not broadcast",))
        raise Unsupported("assignment of a higher-dimensional array")
    env = {}
    for k, s in enumerate(v.shape):
        if s is view.shape[k + off] or ctx().decide(ir.eq(s, view.shape[k + off])):
            env[k] = k + off
        elif ctx().decide(ir.eq(s, ir.ONE)):
            env[k] = None
        else:
            raise Raised(ValueError, ("could not broadcast",))
    write(view, lambda *x: ir.subst(b, {PH[k]: (ir.ZERO if p is None else x[p]) for k, p in env.items()}))


def arr_getitem_view(a, i):
    """like getitem, but a single element is a 0-d view"""
    ix = list(i) if isinstance(i, tuple) else [i]
    if len(ix) == a.ndim and all(is_scalar(x) for x in ix):
        ps = []
        for x, n in zip(ix, a.shape):
            if num(x).sort != "I":
                raise Raised(IndexError, ("index type",))
            p, ok = norm_index(x, n)
            if not ctx().decide(ok):
                raise Raised(IndexError, ("out of bounds",))
            ps.append(p)
        base = [ir.poly(PH[k]) for k in range(a.ndim)] if a.vmap is None else a.vmap
        vmap = [ir.poly(ir.subst(v, dict(zip(PH, ps)))) for v in base]
        if a.vmap is None:
            g, vidx = ir.TRUE, [ir.poly(PH[k]) for k in range(a.ndim)]
        elif a.inv is not None:
            g, vidx = a.inv
        else:
            raise Unsupported("write through this kind of view")
        for v, p in zip(vidx, ps):
            g = ir.band(g, ir.eq(v, p))
        return Arr(a.store, (), vmap, (g, []))
    r = arr_getitem(a, i)
    if not isinstance(r, Arr):
        raise Unsupported("assignment target")
    return r


def row(a, i):
    """a[i] for an index known to be in range"""
    return arr_getitem_raw(a, i)


def arr_getitem_raw(a, t):
    if a.ndim == 1:
        return simplify_scalar(a.get(t))
    e = {PH[0]: ir.poly(t)}
    for k in range(1, a.ndim):
        e[PH[k]] = ir.poly(PH[k - 1])
    return arr_of_body(a.shape[1:], ir.subst(a.body(), e), a.dtype)


GETITEM["arr"] = arr_getitem
GETITEM["row"] = row
SETITEM["arr"] = arr_setitem


# --------------------------------------------------------------- reductions

def reduce_sum(a, axis=None, keepdims=False):
    if isinstance(a, Opaque) and a.kind == "masked":
        b = a.f["arr"]
        m = ir.mul(ir.br(a.f["mask"]), ir.poly(b.body()))
        return reduce_sum(arr_of_body(b.shape, m, b.dtype if b.dtype != "b" else "i"), axis)
    a = to_arr(a)
    if a.store.body is None:
        if axis not in (None, 0):
            raise Raised(ValueError, ("axis",))
        return simplify_scalar(block_sum(a.store.blocks))
    if axis is None:
        axes = list(range(a.ndim))
    else:
        axes = [int(x) for x in (axis if isinstance(axis, tuple) else (axis,))]
        for x in axes:
            if not -a.ndim <= x < a.ndim:
                raise Raised(ValueError, ("axis",))
        axes = [x % a.ndim for x in axes]
    dt = "f" if a.dtype == "f" else "i"
    keep = [k for k in range(a.ndim) if k not in axes]

    def total(idx):
        fs = {k: ir.fresh("s", "I", hi=a.shape[k]) for k in axes}
        it = iter(idx)
        full = [ir.poly(fs[k]) if k in fs else next(it) for k in range(a.ndim)]
        b = ir.poly(a.get(*full))
        for k in reversed(axes):
            b = ir.ssum(fs[k], a.shape[k], b)
        return ir.as_real(b) if dt == "f" else b
    if not keep:
        r = simplify_scalar(total([]))
        if keepdims:
            return arr_of_body([1] * a.ndim, num(r), dt)
        return r
    if keepdims:
        return build([ir.ONE if k in axes else a.shape[k] for k in range(a.ndim)], lambda *i: total([i[k] for k in keep]), dt)
    return build([a.shape[k] for k in keep], lambda *i: total(list(i)), dt)


def block_sum(blocks):
    r = ir.ZERO
    for s in blocks:
        if isinstance(s, One):
            r = ir.add(r, num(reduce_sum(s.v)))
        else:
            r = ir.add(r, ir.ssum(s.sym, s.n, block_sum(s.segs)))
    return r


@model(np.sum)
def m_sum(args, kwargs):
    need_args("sum", args, kwargs, ("axis", "a", "keepdims"))
    a = arg(args, kwargs, 0, "a")
    if isinstance(a, (PySeq, tuple)):
        a = to_arr(a)
    return reduce_sum(a, arg(args, kwargs, 1, "axis"), kwargs.get("keepdims", False))


@model(np.mean, np.average)
def m_mean(args, kwargs):
    need_args("mean", args, kwargs, ("axis", "a"))
    a = to_arr(arg(args, kwargs, 0, "a"))
    ax = arg(args, kwargs, 1, "axis")
    n = a.size() if ax is None else a.shape[ax]
    nonzero(n, "mean of a non-empty array")
    return binop(ast.Div(), reduce_sum(a, ax), simplify_scalar(n))


@model(np.std)
def m_std(args, kwargs):
    need_args("std", args, kwargs, ("a", "ddof"))
    if len(args) > 1 or not isinstance(kwargs.get("ddof", 0), int):
        raise Unsupported("std")
    a = to_arr(arg(args, kwargs, 0, "a"))
    n = a.size()
    nonzero(n, "standard deviation of a non-empty array")
    m = ir.div(num(reduce_sum(a)), n)
    d = emap(lambda x: ir.power(ir.sub(x, m), 2), a)
    k = kwargs.get("ddof", 0)
    if k:
        nonzero(ir.sub(n, ir.num(k)), "standard deviation of a large enough array")
    return simplify_scalar(ir.sqrt(ir.div(num(reduce_sum(d)), ir.sub(n, ir.num(k)))))


@model(np.prod)
def m_prod(args, kwargs):
    need_args("prod", args, kwargs, ())
    a = args[0]
    if isinstance(a, (tuple, PySeq)):
        r = 1
        for x in list_of(a).items():
            r = binop(ast.Mult(), r, x)
        return r
    a = to_arr(a)
    if a.ndim == 1 and ir.const(a.shape[0]) is not None:
        r = 1
        for k in range(int(ir.const(a.shape[0]))):
            r = binop(ast.Mult(), r, getitem(a, k))
        return r
    raise Unsupported("product of symbolic length")


@model(np.diff)
def m_diff(args, kwargs):
    need_args("diff", args, kwargs, ("a",))
    a = to_arr(arg(args, kwargs, 0, "a"))
    if len(args) > 1 or a.ndim != 1:
        raise Unsupported("diff")
    return binop(ast.Sub(), arr_getitem(a, SliceV(1, None, None)), arr_getitem(a, SliceV(None, -1, None)))


@model(np.cumsum)
def m_cumsum(args, kwargs):
    need_args("cumsum", args, kwargs, ())
    a = to_arr(args[0])
    if a.ndim != 1:
        raise Unsupported("cumsum")

    def fn(i):
        n = ir.as_int(ir.add(i, ir.ONE))
        f = ir.fresh("s", "I", hi=n)
        return ir.ssum(f, n, ir.poly(a.get(ir.poly(f))))
    return mkarr(a.shape, fn, "f" if a.dtype == "f" else "i")


def quant(a, q):
    a = to_arr(a)
    fs = [ir.fresh("q", "I", hi=s) for s in a.shape]
    b = ir.tobool(a.get(*[ir.poly(f) for f in fs]) if fs else a.body())
    if not fs:
        return simplify_scalar(b)
    return simplify_scalar(ir.mkquant(q, list(zip(fs, a.shape)), b))


@model(np.all, np.alltrue if hasattr(np, "alltrue") else np.all)
def m_all(args, kwargs):
    need_args("all", args, kwargs, ())
    if len(args) > 1:
        raise Unsupported("all axis")
    return quant(args[0], "forall")


@model(np.any)
def m_any(args, kwargs):
    need_args("any", args, kwargs, ())
    if len(args) > 1:
        raise Unsupported("any axis")
    return quant(args[0], "exists")


@model(np.array_equal)
def m_array_equal(args, kwargs):
    need_args("array_equal", args, kwargs, ())
    a, b = to_arr(args[0]), to_arr(args[1])
    if a.ndim != b.ndim or not ctx().decide(shape_eq(a.shape, b.shape)):
        return False
    return quant(emap(lambda x, y: ir.eq(x, y), a, b), "forall")


@model(np.count_nonzero)
def m_cnz(args, kwargs):
    need_args("count_nonzero", args, kwargs, ())
    return reduce_sum(emap(lambda x: ir.br(ir.tobool(x)), to_arr(args[0])))


def extremum(a, up):
    a = to_arr(a)
    c = ctx()
    if ir.const(a.size()) == 0:
        raise Raised(ValueError, ("empty",))
    v = c.new_value("max" if up else "min", "R" if a.dtype == "f" else "I")
    fs = [ir.fresh("q", "I", hi=s) for s in a.shape]
    b = ir.poly(a.get(*[ir.poly(f) for f in fs]) if fs else a.body())
    v = ir.poly(v)
    c.assume(ir.mkquant("forall", list(zip(fs, a.shape)), ir.le(b, v) if up else ir.le(v, b)))
    c.assume(ir.mkquant("exists", list(zip(fs, a.shape)), ir.eq(b, v)))
    return v


@model(np.max, np.amax)
def m_max(args, kwargs):
    need_args("max", args, kwargs, ())
    return extremum(args[0], True) if len(args) == 1 else _u("max axis")


@model(np.min, np.amin)
def m_min(args, kwargs):
    need_args("min", args, kwargs, ())
    return extremum(args[0], False) if len(args) == 1 else _u("min axis")


def _u(w):
    raise Unsupported(w)


# -------------------------------------------------------------- elementwise

def positive(x, what):
    x = ir.poly(x)
    c = ir.const(x)
    if c is not None and c > 0:
        return
    interp.defined(what, ir.lt(ir.ZERO, x), ir.lt(x, ir.ZERO))


def unary(fn):
    def f(args, kwargs):
        need_args("ufunc", args, kwargs, ())
        if len(args) != 1:
            raise Unsupported("ufunc arguments")
        a = args[0]
        if isinstance(a, (PySeq, tuple)):
            a = to_arr(a)
        if interp.masked(a):
            return interp.under_mask(fn, a)
        if isinstance(a, Arr):
            if a.store._body is None:
                return block_map(fn, a)
            return with_shape(a.shape, lambda: interp.lazy(fn, a))
        if not is_scalar(a):
            if a is None or isinstance(a, str):
                raise Raised(TypeError, ("ufunc",))
            raise Unsupported("ufunc of %s" % type(a).__name__)
        return simplify_scalar(fn(num(a)))
    return f


def block_map(fn, a):
    def go(segs):
        return [One(emap(fn, s.v)) if isinstance(s, One) else Rep(s.sym, s.n, go(s.segs)) for s in segs]
    st = Store(a.shape, None, a.dtype)
    st.blocks = go(a.store.blocks)
    return Arr(st)


def u_sqrt(x):
    nonneg(x)
    return ir.sqrt(x)


def u_log(x):
    positive(x, "argument of the logarithm is positive")
    return ir.log(x)


def u_log1p(x):
    positive(ir.add(x, ir.ONE), "argument of the logarithm is positive")
    return ir.log(ir.as_real(ir.add(x, ir.ONE)))


model(np.sqrt)(unary(u_sqrt))
model(np.log)(unary(u_log))
model(np.log1p)(unary(u_log1p))
model(np.abs, np.absolute, np.fabs)(unary(lambda x: ir.absval(x)))
model(np.square)(unary(lambda x: ir.power(ir.poly(x), 2)))
model(np.negative)(unary(lambda x: ir.neg(x)))
model(np.isnan, np.isinf)(unary(lambda x: ir.FALSE))
model(np.isfinite)(unary(lambda x: ir.TRUE))
model(np.logical_not)(unary(lambda x: ir.bnot(ir.tobool(x))))
model(np.exp)(unary(lambda x: ir.app("exp", (ir.as_real(x),), "R", "R")))
model(np.rint, np.round, np.around)(unary(lambda x: x if ir.poly(x).sort == "I" else ir.app("rint", (ir.as_real(x),), "R", "R")))
model(np.floor)(unary(lambda x: x if ir.poly(x).sort == "I" else ir.app("floor", (ir.as_real(x),), "R", "R")))
model(np.ceil)(unary(lambda x: x if ir.poly(x).sort == "I" else ir.app("ceil", (ir.as_real(x),), "R", "R")))
model(np.sign)(unary(lambda x: ir.sub(ir.br(ir.lt(ir.ZERO, ir.poly(x))), ir.br(ir.lt(ir.poly(x), ir.ZERO)))))


@model(np.nan_to_num)
def m_nan(args, kwargs):
    need_args("nan_to_num", args, kwargs, ("nan",))
    a = args[0]
    if not isinstance(a, Arr):
        return a
    u = a.store.undef
    if not u or a.vmap is not None:
        return copy_arr(a)
    nan = kwargs.get("nan", 0)
    ok, isnan = ir.band(*[k for _, k, _ in u]), ir.bor(*[m for _, _, m in u])
    some = lambda *i: ctx().new_value("undefined", "R", *i)
    if nan is None or not is_scalar(nan):
        raise Unsupported("nan_to_num")
    x = [ir.poly(p) for p in PH[:len(a.shape)]]
    v = some(*x)
    w = some(*x) if is_inf(nan) else ir.as_real(num(nan))
    return arr_of_body(a.shape, ir.ite(ok, a.store._body, ir.ite(isnan, w, v)), "f")


def is_inf(x):
    return isinstance(x, Opaque) and getattr(x, "name", "") == "inf" or isinstance(x, float) and x in (float("inf"), float("-inf"))


def binary(op):
    def f(args, kwargs):
        need_args("ufunc", args, kwargs, ("out", "where"))
        a, b = args[0], args[1]
        if len(args) > 2:
            raise Unsupported("ufunc arguments")
        a = to_arr(a) if isinstance(a, (PySeq, tuple)) else a
        b = to_arr(b) if isinstance(b, (PySeq, tuple)) else b
        where, out = kwargs.get("where"), kwargs.get("out")
        if where is True:
            where = None
        if where is None and out is None:
            return op(a, b)
        arrs = [x for x in (a, b, where, out) if isinstance(x, Arr)]
        shape, _ = broadcast_shape([x for x in (a, b, where) if isinstance(x, Arr)])
        if where is None:
            r = op(a, b)
        else:
            sub_ = ctx()
            w = where if isinstance(where, Arr) else to_arr(where)
            if out is None:
                raise Unsupported("where without out")
            old = getattr(sub_, "elem_guard", None)
            n = len(sub_.obls)
            pcn, setn = list(sub_.pc), set(sub_.pcset)
            r = op(a, b)
            r = to_arr(r)
            r.body()
            wb = interp.abody(w, r.ndim, r.shape)
            # definedness is needed where the mask holds only
            gs = []
            for o in sub_.obls[n:]:
                if o.kind == "defined":
                    gs.append(o)
            del sub_.obls[n:]
            sub_.pc[:] = pcn
            sub_.pcset.clear()
            sub_.pcset.update(setn)
            if gs:
                redo_defined(op, a, b, wb, r.shape)
            ob = interp.abody(out, r.ndim, r.shape)
            r = arr_of_body(r.shape, ir.ite(wb, elem(r.body(), out.dtype), ob), out.dtype)
        if out is not None:
            b2 = r.body()
            if not ctx().decide(shape_eq(out.shape, r.shape)):
                raise Raised(ValueError, ("out shape",))
            write(out, lambda *i: ir.subst(b2, dict(zip(PH, i))))
            return out
        return r
    return f


def redo_defined(op, a, b, wb, shape):
    """definedness obligations of op(a, b) at an arbitrary index where the mask holds"""
    c = ctx()
    fs = [ir.fresh("x", "I", hi=s) for s in shape]
    e = {p: ir.poly(f) for p, f in zip(PH, fs)}
    m = ir.subst(wb, e)
    if m is ir.FALSE:
        return
    A = ir.subst(interp.abody(a, len(shape), shape), e) if isinstance(a, Arr) else num(a)
    B = ir.subst(interp.abody(b, len(shape), shape), e) if isinstance(b, Arr) else num(b)
    pcn, setn, n = list(c.pc), set(c.pcset), len(c.obls)
    try:
        c.assume(m)
        op(simplify_scalar(A), simplify_scalar(B))
    except core.Infeasible:
        pass
    c.pc[:] = pcn
    c.pcset.clear()
    c.pcset.update(setn)


def bop(k):
    return binary(lambda a, b: binop(k(), a, b))


model(np.add)(bop(ast.Add))
model(np.subtract)(bop(ast.Sub))
model(np.multiply)(bop(ast.Mult))
model(np.divide, np.true_divide)(bop(ast.Div))
model(np.power)(bop(ast.Pow))
model(np.minimum)(binary(lambda a, b: emap(lambda x, y: ir.ite(ir.le(ir.poly(x), ir.poly(y)), x, y), a, b)))
model(np.maximum)(binary(lambda a, b: emap(lambda x, y: ir.ite(ir.le(ir.poly(y), ir.poly(x)), x, y), a, b)))
model(np.logical_and)(binary(lambda a, b: emap(lambda x, y: ir.band(ir.tobool(x), ir.tobool(y)), a, b)))
model(np.logical_or)(binary(lambda a, b: emap(lambda x, y: ir.bor(ir.tobool(x), ir.tobool(y)), a, b)))
for _f, _k in ((np.less, ast.Lt), (np.greater, ast.Gt), (np.less_equal, ast.LtE), (np.greater_equal, ast.GtE), (np.equal, ast.Eq), (np.not_equal, ast.NotEq)):
    model(_f)(binary(lambda a, b, k=_k: interp.compare(k(), a, b)))


@model(np.isclose)
def m_isclose(args, kwargs):
    kw = dict(kwargs)
    rtol, atol = kw.pop("rtol", Fraction(1, 10 ** 5)), kw.pop("atol", Fraction(1, 10 ** 8))
    if len(args) != 2 or kw:
        raise Unsupported("isclose arguments")
    rtol, atol = ir.poly(ir.lift(rtol)), ir.poly(ir.lift(atol))
    return emap(lambda a, b: ir.le(ir.absval(ir.poly(a) - ir.poly(b)), atol + rtol * ir.absval(ir.poly(b))), args[0], args[1])


@model(np.allclose)
def m_allclose(args, kwargs):
    return quant(m_isclose(args, kwargs), "forall")


@model(np.where)
def m_where(args, kwargs):
    need_args("where", args, kwargs, ())
    if len(args) != 3:
        raise Unsupported("where with one argument")
    c, a, b = [to_arr(x) if isinstance(x, (PySeq, tuple)) else x for x in args]
    pick = lambda k, bodies: ir.TRUE if k == 0 else ir.tobool(bodies[0]) if k == 1 else ir.bnot(ir.tobool(bodies[0]))
    return interp.lazy(lambda x, y, z: ir.ite(ir.tobool(x), y, z), c, a, b, pick=pick)


@model(np.clip)
def m_clip(args, kwargs):
    need_args("clip", args, kwargs, ())
    a, lo, hi = args
    if lo is not None:
        a = emap(lambda x, y: ir.ite(ir.lt(ir.poly(x), ir.poly(y)), y, x), a, lo)
    if hi is not None:
        a = emap(lambda x, y: ir.ite(ir.lt(ir.poly(y), ir.poly(x)), y, x), a, hi)
    return a


@model(scipy.special.xlogy)
def m_xlogy(args, kwargs):
    need_args("xlogy", args, kwargs, ())

    def f(x, y):
        z = ir.eq(ir.poly(x), ir.ZERO)
        c = ir.const(ir.poly(y))
        if not (c is not None and c > 0):
            ctx().oblige("argument of the logarithm is positive", generic(ir.bor(z, ir.lt(ir.ZERO, ir.poly(y)))), "defined")
        return ir.mul(x, ir.log(y))
    a, b = [to_arr(x) if isinstance(x, (PySeq, tuple)) else x for x in args]
    shape, _ = broadcast_shape((a, b))
    return with_shape(shape, lambda: emap(f, a, b))


def elementwise(py, args, kwargs):
    """numba.vectorize: the Python function at an arbitrary index"""
    if kwargs:
        raise Unsupported("ufunc keywords")
    args = [to_arr(a) if isinstance(a, (PySeq, tuple)) else a for a in args]
    arrs = [a for a in args if isinstance(a, Arr)]
    for a in args:
        if not isinstance(a, Arr) and not is_scalar(a):
            raise Raised(TypeError, ("ufunc",))
    if not arrs:
        res = branches(lambda: num(call(py, [ir.as_real(ir.poly(num(a))) for a in args])), set())
        return simplify_scalar(merge_branches(res))
    shape, _ = broadcast_shape(args)
    fs = [ir.fresh("x", "I", hi=s) for s in shape]
    e = {p: ir.poly(f) for p, f in zip(PH, fs)}
    vals = [ir.as_real(ir.poly(ir.subst(interp.abody(a, len(shape), shape), e))) if isinstance(a, Arr) else ir.as_real(ir.poly(num(a))) for a in args]
    res = branches(lambda: num(call(py, vals)), set(fs))
    v = ir.as_real(ir.poly(merge_branches(res)))
    return arr_of_body(shape, ir.subst(v, {f: ir.poly(p) for f, p in zip(fs, PH)}), "f")


interp.ELEMENTWISE = elementwise


# ----------------------------------------------------------- linear algebra

def contract(name, n, m):
    if n is not m and not ctx().decide(ir.eq(n, m)):
        raise Raised(ValueError, (name,))


@model(np.matmul, np.dot)
def m_matmul(args, kwargs):
    need_args("matmul", args, kwargs, ())
    a, b = args
    a = to_arr(a) if isinstance(a, (PySeq, tuple)) else a
    b = to_arr(b) if isinstance(b, (PySeq, tuple)) else b
    if not isinstance(a, Arr) or not isinstance(b, Arr) or a.ndim == 0 or b.ndim == 0:
        if is_scalar(a) or is_scalar(b) or isinstance(a, Arr) and isinstance(b, Arr):
            return binop(ast.Mult(), a, b)
        raise Raised(TypeError, ("matmul",))
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("matmul of more than two dimensions")
    ka, kb = a.shape[-1], b.shape[0]
    contract("matmul", ka, kb)
    dt = "f" if "f" in (a.dtype, b.dtype) else "i"

    def fn(*i):
        f = ir.fresh("m", "I", hi=ka)
        ft = ir.poly(f)
        ia = (i[0], ft) if a.ndim == 2 else (ft,)
        ib = (ft, i[-1]) if b.ndim == 2 else (ft,)
        return ir.ssum(f, ka, ir.mul(a.get(*ia), b.get(*ib)))
    shape = tuple(a.shape[:-1]) + tuple(b.shape[1:])
    if not shape:
        return simplify_scalar(elem(fn(), dt))
    return build(shape, fn, dt)


def matfun(name, a, extra=()):
    """library function of a whole matrix, as an uninterpreted function of it"""
    l = ir.lam(a.shape, lambda *i: ir.as_real(ir.poly(a.get(*i))))
    return lambda *i: ir.app(name, (l,) + tuple(extra) + i, "R")


@model(np.linalg.inv)
def m_inv(args, kwargs):
    need_args("inv", args, kwargs, ())
    a = to_arr(args[0])
    if a.ndim != 2:
        raise Raised(np.linalg.LinAlgError, ("dimensions",))
    contract("inv", a.shape[0], a.shape[1])
    f = matfun("matinv", a)
    return build(a.shape, lambda i, j: f(i, j), "f")


@model(scipy.linalg.block_diag)
def m_block_diag(args, kwargs):
    segs = []
    for a in args:
        if isinstance(a, StarArg):
            segs.extend(a.seq.segs)
        else:
            segs.append(One(a))
    if all(isinstance(s, One) for s in segs):
        mats = [to_arr(s.v) for s in segs]
        offs = [ir.ZERO]
        offc = [ir.ZERO]
        for m in mats:
            offs.append(ir.as_int(ir.add(offs[-1], m.shape[0])))
            offc.append(ir.as_int(ir.add(offc[-1], m.shape[1])))

        def fn(i, j):
            r = ir.ZERO
            for k, m in enumerate(mats):
                c = [ir.le(offs[k], i), ir.lt(i, offs[k + 1]), ir.le(offc[k], j), ir.lt(j, offc[k + 1])]
                r = ir.add(r, ir.mul(ir.br(ir.band(*c)), m.get(ir.sub(i, offs[k]), ir.sub(j, offc[k]))))
            return r
        return build((offs[-1], offc[-1]), fn, "f")
    if len(segs) == 1 and len(segs[0].segs) == 1 and isinstance(segs[0].segs[0], One):
        s = segs[0]
        m = to_arr(s.segs[0].v)
        if m.ndim != 2 or any(s.sym in ir.syms(x) for x in m.shape):
            raise Unsupported("block_diag of unequal blocks")
        p, q = m.shape

        def fn(i, j):
            k = ir.idiv(i, p)
            return ir.mul(ir.br(ir.eq(k, ir.idiv(j, q))), ir.subst(m.get(ir.imod(i, p), ir.imod(j, q)), {s.sym: k}))
        return build((ir.mul(s.n, p), ir.mul(s.n, q)), fn, "f")
    flat = [to_arr(x.v) if isinstance(x, One) else (to_arr(x.segs[0].v) if len(x.segs) == 1 and isinstance(x.segs[0], One) else None) for x in segs]
    if all(m is not None and m.ndim == 2 for m in flat) and all(m.shape[d] is flat[0].shape[d] for m in flat for d in (0, 1)) and \
            not any(isinstance(x, Rep) and x.sym in ir.syms(z) for x in segs for z in flat[0].shape):
        p, q = flat[0].shape
        offs = [ir.ZERO]
        for x in segs:
            offs.append(ir.as_int(ir.add(offs[-1], ir.ONE if isinstance(x, One) else x.n)))

        def fn(i, j):
            k, r, c = ir.idiv(i, p), ir.imod(i, p), ir.imod(j, q)
            t = ir.ZERO
            for a, b, x, m in zip(offs, offs[1:], segs, flat):
                v = m.get(r, c)
                if isinstance(x, Rep):
                    v = ir.subst(v, {x.sym: ir.as_int(ir.sub(k, a))})
                t = ir.add(t, ir.mul(ir.br(ir.band(ir.le(a, k), ir.lt(k, b))), v))
            return ir.mul(ir.br(ir.eq(k, ir.idiv(j, q))), t)
        return build((ir.mul(offs[-1], p), ir.mul(offs[-1], q)), fn, "f")
    raise Unsupported("block_diag")


# -------------------------------------------------- joining and splitting

def blocklen(segs):
    r = ir.ZERO
    for s in segs:
        if isinstance(s, One):
            r = ir.add(r, s.v.shape[0])
        else:
            r = ir.add(r, ir.ssum(s.sym, s.n, blocklen(s.segs)))
    return ir.as_int(r)


def concat_segs(segs):
    if len(segs) == 1 and isinstance(segs[0], One):
        return copy_arr(segs[0].v)
    dts = set()

    def types(ss):
        for s in ss:
            if isinstance(s, One):
                dts.add(s.v.dtype)
            elif isinstance(s, AccSeg):
                raise Unsupported("concatenation of a list that grows in a loop")
            else:
                types(s.segs)
    types(segs)
    d = "f" if "f" in dts else ("i" if "i" in dts else "b")
    total = blocklen(segs)
    if len(segs) == 1 and isinstance(segs[0], Rep) and len(segs[0].segs) == 1 and isinstance(segs[0].segs[0], One):
        s = segs[0]
        a = s.segs[0].v
        m = a.shape[0]
        if s.sym not in ir.syms(m) and a.store.body is not None:
            return build((ir.mul(s.n, m),), lambda i: ir.subst(a.get(ir.imod(i, m)), {s.sym: ir.idiv(i, m)}), d)
    if all(isinstance(s, One) and s.v.store.body is not None for s in segs):
        parts = []
        off = ir.ZERO
        for s in segs:
            parts.append((off, s.v))
            off = ir.as_int(ir.add(off, s.v.shape[0]))

        def fn(i):
            r = elem(parts[-1][1].get(ir.sub(i, parts[-1][0])), d)
            for (o, a), (o2, _) in zip(reversed(parts[:-1]), reversed(parts[1:])):
                r = ir.ite(ir.lt(i, o2), elem(a.get(ir.sub(i, o)), d), r)
            return r
        r = build((total,), fn, d)
        return r
    st = Store((total,), None, d)
    st.blocks = list(segs)
    return Arr(st)


def as_blocks(segs):
    """1-d arrays in a sequence, blocks of blocks flattened"""
    out = []
    for s in segs:
        if isinstance(s, One):
            a = to_arr(s.v)
            if a.ndim != 1:
                if a.ndim == 0:
                    raise Raised(ValueError, ("zero-dimensional arrays cannot be concatenated",))
                raise Unsupported("concatenation of matrices")
            if a.store.body is None:
                out.extend(a.store.blocks)
            else:
                out.append(One(copy_arr(a)))
        elif isinstance(s, AccSeg):
            raise Unsupported("concatenation of a list that grows in a loop")
        else:
            out.append(Rep(s.sym, s.n, as_blocks(s.segs)))
    return out


@model(np.concatenate, np.hstack)
def m_concatenate(args, kwargs):
    need_args("concatenate", args, kwargs, ("axis",))
    ax = arg(args, kwargs, 1, "axis", 0)
    s = list_of(args[0])
    if not s.segs:
        raise Raised(ValueError, ("need at least one array to concatenate",))
    if ax not in (0, None):
        raise Unsupported("concatenate axis")
    if s.concrete() and all(isinstance(x, Arr) and x.ndim == 2 for x in s.items()):
        raise Unsupported("concatenation of matrices")
    if not any(isinstance(x, One) for x in s.segs):
        if not ctx().decide(ir.lt(ir.ZERO, s.length())):
            raise Raised(ValueError, ("need at least one array to concatenate",))
    return concat_segs(as_blocks(s.segs))


@model(np.append)
def m_append(args, kwargs):
    need_args("append", args, kwargs, ())
    a, b = to_arr(args[0]), to_arr(args[1])
    b = reshape(b, (1,)) if b.ndim == 0 else b
    return concat_segs(as_blocks([One(a), One(b)]))


@model(np.vstack, np.stack)
def m_vstack(args, kwargs):
    need_args("vstack", args, kwargs, ("axis",))
    if kwargs.get("axis", 0) != 0:
        raise Unsupported("stack axis")
    s = list_of(args[0])
    r = stack(s.segs)
    if r.ndim != 2:
        raise Unsupported("vstack")
    return r


@model(np.split)
def m_split(args, kwargs):
    need_args("split", args, kwargs, ("axis", "indices_or_sections"))
    if kwargs.get("axis", 0) != 0 or len(args) > 2:
        raise Unsupported("split axis")
    a = to_arr(args[0])
    k = arg(args, kwargs, 1, "indices_or_sections")
    if a.ndim != 1:
        raise Unsupported("split of a matrix")
    size = a.shape[0]
    if is_scalar(k):
        k = ir.as_int(num(k))
        if not ctx().decide(ir.lt(ir.ZERO, k)):
            raise Raised(ValueError, ("sections",))
        qr = ir._divide(size, k)
        if qr is not None and ir.const(qr[1]) == 0:
            m = qr[0]
        else:
            m = ir.idiv(size, k)
            # the length is a multiple of the number of sections
            if not ctx().decide(ir.eq(ir.mul(m, k), size)):
                raise Raised(ValueError, ("array split does not result in an equal division",))
            ctx().assume(ir.eq(ir.mul(m, k), size))
        c = ir.const(k)
        if c is not None and c <= 16:
            return PySeq.of([arr_piece(a, ir.mul(ir.num(q), m), m) for q in range(int(c))])
        f = ir.fresh("e", "I", hi=k)
        return PySeq([Rep(f, k, [One(arr_piece(a, ir.mul(ir.poly(f), m), m))])])
    ix = to_arr(k)
    if ix.ndim != 1:
        raise Unsupported("split indices")
    L = ix.shape[0]
    n = ir.as_int(ir.add(L, ir.ONE))
    cl = ir.const(L)
    if cl is not None and cl <= 16:
        bs = [ir.ZERO] + [ir.as_int(ix.get(ir.num(q))) for q in range(int(cl))] + [size]
        out = []
        for lo, hi in zip(bs, bs[1:]):
            out.append(arr_getitem(a, SliceV(simplify_scalar(lo), simplify_scalar(hi), None)))
        return PySeq.of(out)
    f = ir.fresh("e", "I", hi=n)
    ft = ir.poly(f)
    lo = ir.as_int(ix.get(ir.sub(ft, ir.ONE)))
    hi = ir.as_int(ix.get(ft))
    if ir.const(ir.subst(lo, {f: ir.ZERO})) != 0:
        lo = ir.as_int(ir.ite(ir.eq(ft, ir.ZERO), ir.ZERO, lo))
    end = ir.subst(hi, {f: L})
    if ir.as_int(end) is not size and ctx().entailed(ir.eq(end, size)) is not True:
        hi = ir.as_int(ir.ite(ir.lt(ft, L), hi, size))
    # bounds in order
    ln = ir.as_int(ir.sub(hi, lo))
    ok = ir.band(ir.le(ir.ZERO, lo), ir.le(ir.ZERO, ln), ir.le(hi, size))
    if ok is not ir.TRUE and not ctx().solver.quick(ctx().pc, ok):
        ctx().oblige("split positions increase and lie inside the array", ok, "index")
    return PySeq([Rep(f, n, [One(arr_piece(a, lo, ln))])])


def arr_piece(a, lo, ln):
    """view a[lo:lo+ln], known to be in range"""
    lo, ln = ir.as_int(lo), ir.as_int(ln)
    k = ir.poly(PH[0])
    base = [k] if a.vmap is None else a.vmap
    vmap = [ir.poly(ir.subst(v, {PH[0]: ir.add(lo, k)})) for v in base]
    if a.vmap is None:
        g, vidx = ir.TRUE, [k]
    elif a.inv is not None:
        g, vidx = a.inv
    else:
        return Arr(a.store, (ln,), vmap, None)
    x = ir.as_int(ir.sub(vidx[0], lo))
    return Arr(a.store, (ln,), vmap, (ir.band(g, ir.le(ir.ZERO, x), ir.lt(x, ln)), [x]))


@model(np.tile)
def m_tile(args, kwargs):
    a, n = to_arr(args[0]), args[1]
    if a.ndim == 1 and is_scalar(n):
        return build((ir.mul(num(n), a.shape[0]),), lambda i: a.get(ir.imod(i, a.shape[0])), a.dtype)
    raise Unsupported("tile")


@model(np.repeat)
def m_repeat(args, kwargs):
    need_args("repeat", args, kwargs, ())
    a, n = to_arr(args[0]), args[1]
    if a.ndim == 1 and is_scalar(n):
        return build((ir.mul(num(n), a.shape[0]),), lambda i: a.get(ir.idiv(i, num(n))), a.dtype)
    if a.ndim == 0 and is_scalar(n):
        return mkarr((num(n),), lambda i: a.body(), a.dtype)
    raise Unsupported("repeat")


@model(np.shape)
def m_shape(args, kwargs):
    return shape_tuple(to_arr(args[0]))


@model(np.ndim)
def m_ndim(args, kwargs):
    return to_arr(args[0]).ndim


@model(np.size)
def m_size(args, kwargs):
    return simplify_scalar(to_arr(args[0]).size())


# --------------------------------------------------------------- statistics

def in_bin(x, edges, i):
    """lower edge included, upper edge excluded except for the last bin"""
    nb = ir.sub(edges.shape[0], ir.ONE)
    lo, hi = edges.get(i), edges.get(ir.add(i, ir.ONE))
    last = ir.band(ir.eq(i, ir.sub(nb, ir.ONE)), ir.eq(x, edges.get(nb)))
    return ir.add(ir.mul(ir.br(ir.le(lo, x)), ir.br(ir.lt(x, hi))),
                  ir.br(last))


def get_edges(b, rng, axis=None):
    if is_scalar(b):
        if ir.poly(num(b)).sort != "I":
            raise Raised(TypeError, ("bins",))
        if rng is None:
            raise Unsupported("histogram without range")
        lo, hi = [num(x) for x in list_of(rng).items()]
        return m_linspace((simplify_scalar(lo), simplify_scalar(hi), binop(ast.Add(), b, 1)), {})
    e = to_arr(b)
    if e.ndim != 1:
        raise Raised(ValueError, ("bins",))
    return convert(e, "f")


def hist_sum(xs, w, edges, cond=None):
    """sums of weights per bin; xs: one array per axis"""
    n = xs[0].shape[0]
    for x in xs[1:] + [w]:
        if x is not None and not (x.ndim == 1 and ctx().decide(ir.eq(x.shape[0], n))):
            raise Raised(ValueError, ("lengths differ",))
    shape = [ir.as_int(ir.sub(e.shape[0], ir.ONE)) for e in edges]

    lams = [ir.lam([n], lambda k, a=a: ir.as_real(ir.poly(a.get(k)))) if a is not None else ir.lam([n], lambda k: ir.as_real(ir.ONE)) for a in [w] + list(xs)]
    el = [ir.lam([e.shape[0]], lambda k, e=e: ir.as_real(ir.poly(e.get(k)))) for e in edges]

    def fn(*i):
        return ir.app("binned%d" % len(xs), lams + el + list(i), "R")
    return build(shape, fn, "f")


def def_binned(dim):
    """binned(w, x..., e..., i...): sum over entries k of w(k) [x(k) in bin i]"""
    def f(w, *rest):
        xs, es, idx = rest[:dim], rest[dim:2 * dim], rest[2 * dim:]
        n = w.binders[0][1]
        k = ir.fresh("e", "I", hi=n)
        kt = ir.poly(k)
        r = ir.as_real(ir.poly(ir.beta(w, kt)))
        for x, e, i in zip(xs, es, idx):
            ea = mkarr((e.binders[0][1],), lambda j, e=e: ir.beta(e, j))
            r = ir.mul(r, in_bin(ir.as_real(ir.poly(ir.beta(x, kt))), ea, i))
        return ir.as_real(ir.ssum(k, n, r))
    return f


for _d in (1, 2):
    ir.DEFS["binned%d" % _d] = def_binned(_d)


def data_arr(x):
    if isinstance(x, Opaque) and x.kind == "series":
        return x.f["arr"]
    a = to_arr(x)
    if a.ndim != 1:
        raise Unsupported("data of %d dimensions" % a.ndim)
    return a


@model(scipy.stats.binned_statistic)
def m_binned(args, kwargs):
    need_args("binned_statistic", args, kwargs, ("x", "values", "statistic", "bins", "range"))
    x, v = data_arr(arg(args, kwargs, 0, "x")), data_arr(arg(args, kwargs, 1, "values"))
    st = arg(args, kwargs, 2, "statistic", "mean")
    bins = arg(args, kwargs, 3, "bins", 10)
    if st not in ("sum", "count"):
        raise Unsupported("statistic %s" % (st,))
    e = get_edges(bins, arg(args, kwargs, 4, "range"))
    return (hist_sum([x], v if st == "sum" else None, [e]), e, Opaque("binnumber"))


@model(scipy.stats.binned_statistic_2d)
def m_binned2(args, kwargs):
    need_args("binned_statistic_2d", args, kwargs, ("x", "y", "values", "statistic", "bins", "range"))
    x, y = data_arr(arg(args, kwargs, 0, "x")), data_arr(arg(args, kwargs, 1, "y"))
    v = arg(args, kwargs, 2, "values")
    st = arg(args, kwargs, 3, "statistic", "mean")
    if st not in ("sum", "count"):
        raise Unsupported("statistic %s" % (st,))
    ex, ey = two_edges(arg(args, kwargs, 4, "bins", 10), arg(args, kwargs, 5, "range"))
    return (hist_sum([x, y], data_arr(v) if st == "sum" else None, [ex, ey]), ex, ey, Opaque("binnumber"))


def two_edges(bins, rng):
    if is_scalar(bins):
        bins = (bins, bins)
    bs = list_of(bins).items()
    if len(bs) != 2:
        raise Unsupported("bins")
    rs = list_of(rng).items() if rng is not None else [None, None]
    return [get_edges(b, r) for b, r in zip(bs, rs)]


@model(np.histogram)
def m_histogram(args, kwargs):
    need_args("histogram", args, kwargs, ("a", "bins", "range", "weights"))
    x = data_arr(arg(args, kwargs, 0, "a"))
    e = get_edges(arg(args, kwargs, 1, "bins", 10), arg(args, kwargs, 2, "range"))
    w = kwargs.get("weights")
    return (hist_sum([x], None if w is None else data_arr(w), [e]), e)


@model(np.histogram2d)
def m_histogram2d(args, kwargs):
    need_args("histogram2d", args, kwargs, ("x", "y", "bins", "range", "weights"))
    x, y = data_arr(arg(args, kwargs, 0, "x")), data_arr(arg(args, kwargs, 1, "y"))
    ex, ey = two_edges(arg(args, kwargs, 2, "bins", 10), arg(args, kwargs, 3, "range"))
    w = kwargs.get("weights")
    return (hist_sum([x, y], None if w is None else data_arr(w), [ex, ey]), ex, ey)


def trace(kind, *vals):
    c = ctx()
    if getattr(c, "trace", None) is None:
        c.trace = PySeq([])
        c.trace.birth = 0
    METHODS[("seq", "append")](c.trace, ((kind,) + vals,), {})


def m_poisson(args, kwargs):
    need_args("poisson.rvs", args, kwargs, ("mu", "size"))
    mu = arg(args, kwargs, 0, "mu")
    size = arg(args, kwargs, 1, "size", kwargs.get("size"))
    if len(args) > 1:
        raise Unsupported("poisson.rvs loc")
    size = kwargs.get("size")
    mu = to_arr(mu)
    shape = mu.shape if size is None else tuple(ir.as_int(num(x)) for x in shape_arg(size))
    if size is not None and mu.ndim and not (len(shape) == mu.ndim and ctx().decide(shape_eq(shape, mu.shape))):
        raise Unsupported("poisson.rvs of another shape")
    ctx().ncall += 1
    name = "poisson!%d" % ctx().ncall
    trace("poisson.rvs", mu if mu.ndim == 0 else copy_arr(mu))
    ls = ctx().loop_syms()
    # the value is a function of the call, the mean and the element: reusing the
    # numbers of another call or of other means is visible
    name += ".ge0"
    ir.APPLOWER[name] = 0
    m = mu if mu.ndim == 0 else copy_arr(mu)
    mean = (lambda i: m.get()) if m.ndim == 0 else (lambda i: m.get(*i))
    f = lambda *i: ir.app(name, ls + [ir.as_real(mean(i))] + list(i), "I")
    if not shape:
        return simplify_scalar(f())
    return mkarr(shape, f, "i")


class _ByMethod:
    pass


def model_method(obj, name, fn):
    """model of a bound method of a library singleton"""
    LIBMETHODS[(id(obj), name)] = fn
    interp.MODEL_KEEP.append(obj)


LIBMETHODS = {}
_old_getattr = interp.getattr_


def getattr_2(v, name):
    m = LIBMETHODS.get((id(v), name))
    if m is not None:
        ctx().assumed.add("%s.%s" % (getattr(v, "name", type(v).__name__), name))
        return Opaque("libfn", fn=m)
    return _old_getattr(v, name)


interp.getattr_ = getattr_2
getattr_ = getattr_2
METHODS[("libfn", "__call__")] = lambda r, a, k: r.f["fn"](a, k)

model_method(scipy.stats.poisson, "rvs", m_poisson)


def m_chi2sf(args, kwargs):
    need_args("chi2.sf", args, kwargs, ("df", "x"))
    x, df = arg(args, kwargs, 0, "x"), arg(args, kwargs, 1, "df")
    return ir.app("chi2sf", (ir.as_real(ir.poly(num(x))), ir.as_real(ir.poly(num(df)))), "R")


model_method(scipy.stats.chi2, "sf", m_chi2sf)


# ------------------------------------------------------------------- arrays

def arr_attr(a, name):
    if name == "shape":
        return shape_tuple(a)
    if name == "ndim":
        return a.ndim
    if name == "size":
        return simplify_scalar(a.size())
    if name == "T":
        return transpose(a)
    if name == "dtype":
        return Opaque("dtype", d=a.dtype)
    if name == "values" or name == "__array__":
        raise Raised(AttributeError, (name,))
    if not hasattr(np.ndarray, name):
        raise Raised(AttributeError, (name,))
    return Bound(("arr", name), a)


ATTRS["arr"] = arr_attr


def arr_method(name):
    def deco(f):
        METHODS[("arr", name)] = f
        return f
    return deco


METHODS[("arr", "flatten")] = lambda a, x, k: copy_arr(flat(a)) if a.store.body is not None else copy_arr(a)
METHODS[("arr", "ravel")] = lambda a, x, k: flat(a)
METHODS[("arr", "copy")] = lambda a, x, k: copy_arr(a)
METHODS[("arr", "__copy__")] = lambda a, x, k: copy_arr(a)


@arr_method("reshape")
def am_reshape(a, args, kwargs):
    need_args("reshape", args, kwargs, ())
    if len(args) == 1 and isinstance(args[0], (tuple, PySeq)):
        args = list_of(args[0]).items()
    return reshape(a, args)


@arr_method("astype")
def am_astype(a, args, kwargs):
    d = dtype_of(args[0] if args else kwargs.get("dtype"))
    return copy_arr(convert(a, d))


for _n, _f in (("sum", np.sum), ("mean", np.mean), ("std", np.std), ("cumsum", np.cumsum), ("all", np.all), ("any", np.any),
               ("dot", np.dot), ("max", np.max), ("min", np.min), ("squeeze", np.squeeze), ("transpose", np.transpose),
               ("prod", np.prod), ("diagonal", np.diagonal), ("round", np.round), ("clip", np.clip), ("repeat", np.repeat)):
    METHODS[("arr", _n)] = lambda a, x, k, f=_f: call(f, (a,) + tuple(x), k)


@arr_method("tolist")
def am_tolist(a, args, kwargs):
    if a.ndim != 1:
        raise Unsupported("tolist")
    s = list_of(a)
    return PySeq(s.segs, "list")


@arr_method("fill")
def am_fill(a, args, kwargs):
    t = num(args[0])
    write(a, lambda *i: t)


@arr_method("item")
def am_item(a, args, kwargs):
    if args:
        return getitem(a, args[0])
    if ctx().decide(ir.eq(a.size(), ir.ONE)):
        return simplify_scalar(a.get(*[ir.ZERO] * a.ndim))
    raise Raised(ValueError, ("item",))


def scalar_attr(v, name):
    if isinstance(v, T) and v.sort == "R" or isinstance(v, (float, Fraction)):
        if name in ("real",):
            return v
        if name == "shape":
            # numpy scalar or Python number: both must do
            if ctx().decide(ir.sym("scalar is a numpy scalar", "B")):
                return ()
            raise Raised(AttributeError, (name,))
        if not hasattr(np.float64, name):
            raise Raised(AttributeError, (name,))
    elif not hasattr(np.int64, name):
        raise Raised(AttributeError, (name,))
    return Bound(("scalar", name), v)


ATTRS["scalar"] = scalar_attr


METHODS[("scalar", "item")] = lambda v, a, k: v
for _n in ("sum", "copy", "squeeze"):
    METHODS[("scalar", _n)] = lambda v, a, k: v


# ---------------------------------------------------------------- sequences

def sm(name):
    def deco(f):
        METHODS[("seq", name)] = f
        return f
    return deco


@sm("append")
def s_append(s, args, kwargs):
    if isinstance(s, tuple) or s.kind != "list":
        raise Raised(AttributeError, ("append",))
    s.set_segs(s.segs + [One(args[0])])


@sm("extend")
def s_extend(s, args, kwargs):
    if isinstance(s, tuple) or s.kind != "list":
        raise Raised(AttributeError, ("extend",))
    s.set_segs(s.segs + list(list_of(args[0]).segs))


@sm("insert")
def s_insert(s, args, kwargs):
    if args[0] != 0 or isinstance(s, tuple) or s.kind != "list":
        raise Unsupported("insert")
    s.set_segs([One(args[1])] + s.segs)


@sm("copy")
def s_copy(s, args, kwargs):
    return PySeq(s.segs, "list")


@sm("clear")
def s_clear(s, args, kwargs):
    s.set_segs([])


@sm("reverse")
def s_reverse(s, args, kwargs):
    s.set_segs(core.seg_reversed(s.segs))


@sm("pop")
def s_pop(s, args, kwargs):
    i = args[0] if args else -1
    if not s.concrete() or not isinstance(i, int):
        raise Unsupported("pop")
    k = list(s.segs)
    if not -len(k) <= i < len(k):
        raise Raised(IndexError)
    v = k.pop(i).v
    s.set_segs(k)
    return v


@sm("index")
def s_index(s, args, kwargs):
    x = args[0]
    s = list_of(s)
    off = ir.ZERO
    for g in s.segs:
        if isinstance(g, One):
            e = num(equal(g.v, x))
            if ctx().decide(e):
                return simplify_scalar(off)
            off = ir.as_int(ir.add(off, ir.ONE))
            continue
        if isinstance(g, AccSeg):
            raise Unsupported("index in a list that grows in a loop")
        if not (len(g.segs) == 1 and isinstance(g.segs[0], One)):
            if ctx().decide(interp.seg_contains(g, x)):
                raise Unsupported("index in a nested symbolic sequence")
            off = ir.as_int(ir.add(off, core.seglen([g])))
            continue
        c = num(equal(g.segs[0].v, x))
        r = interp.solve_index(c, g.sym, g.n)
        if r is None:
            if c is ir.FALSE:
                off = ir.as_int(ir.add(off, g.n))
                continue
            # first position holding x
            ex = ir.mkquant("exists", [(g.sym, g.n)], c)
            if ctx().decide(ex):
                raise Unsupported("index of an element of a symbolic list")
            off = ir.as_int(ir.add(off, g.n))
            continue
        if ctx().decide(r[0]):
            return simplify_scalar(ir.as_int(ir.add(off, r[1])))
        off = ir.as_int(ir.add(off, g.n))
    raise Raised(ValueError, ("not in list",))


@sm("count")
def s_count(s, args, kwargs):
    r = ir.ZERO
    for g in list_of(s).segs:
        if isinstance(g, One):
            r = ir.add(r, ir.br(num(equal(g.v, args[0]))))
        else:
            if len(g.segs) != 1 or not isinstance(g.segs[0], One):
                raise Unsupported("count")
            r = ir.add(r, ir.ssum(g.sym, g.n, ir.br(num(equal(g.segs[0].v, args[0])))))
    return simplify_scalar(r)


def dm(name):
    def deco(f):
        METHODS[("dict", name)] = f
        return f
    return deco


METHODS[("dict", "keys")] = lambda d, a, k: d.keys()
METHODS[("dict", "values")] = lambda d, a, k: d.values()
METHODS[("dict", "items")] = lambda d, a, k: d.items()
METHODS[("dict", "__getitem__")] = lambda d, a, k: getitem(d, a[0])


@dm("copy")
def d_copy(d, args, kwargs):
    return PyDict(d.segs, d.cls)


@dm("clear")
def d_clear(d, args, kwargs):
    d.set_segs([])


@dm("get")
def d_get(d, args, kwargs):
    r = d.lookup(args[0])
    if r is None:
        return args[1] if len(args) > 1 else kwargs.get("default")
    return r[0]


@dm("setdefault")
def d_setdefault(d, args, kwargs):
    r = d.lookup(args[0])
    if r is None:
        v = args[1] if len(args) > 1 else None
        d.store(args[0], v)
        return v
    return r[0]


@dm("pop")
def d_pop(d, args, kwargs):
    r = d.find(args[0])
    if r is None:
        if len(args) > 1:
            return args[1]
        raise Raised(KeyError, (args[0],))
    if r[0] != "kv":
        raise Unsupported("pop from a symbolic dictionary")
    segs = list(d.segs)
    v = segs.pop(r[1]).v
    d.set_segs(segs)
    return v


@dm("update")
def d_update(d, args, kwargs):
    for src in args:
        if not isinstance(src, PyDict):
            raise Unsupported("update")
        if not d.segs:
            d.set_segs(src.segs)
            continue
        for s in src.segs:
            if not isinstance(s, KV):
                raise Unsupported("update with a symbolic dictionary")
            d.store(s.k, s.v)
    for k, v in kwargs.items():
        d.store(k, v)


# strings
def sj(s, args, kwargs):
    items = list_of(args[0]).items()
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(s)
        out.append(x)
    return cat(*out)


METHODS[("str", "join")] = sj


def str_method(name):
    def m(s, args, kwargs):
        if isinstance(s, str) and all(isinstance(a, (str, int)) for a in args):
            return getattr(s, name)(*args)
        if args or kwargs:
            raise Unsupported("str.%s of a symbolic text" % name)
        return ir.app("str." + name, [s], "S")
    return m


for _n in ("lower", "upper", "strip", "casefold", "title", "capitalize"):
    METHODS[("str", _n)] = str_method(_n)
METHODS[("str", "format")] = interp.str_format
for _n in ("startswith", "endswith", "split", "replace", "find"):
    def _strm(s, a, k, n=_n):
        if isinstance(s, str) and all(isinstance(x, (str, int)) for x in a):
            r = getattr(s, n)(*a)
            return PySeq.of(r) if isinstance(r, list) else r
        raise Unsupported("string method %s" % n)
    METHODS[("str", _n)] = _strm

METHODS[("object", "__init__")] = lambda o, a, k: None


# ----------------------------------------------------------------- builtins

@model(len)
def m_len(args, kwargs):
    v = args[0]
    if isinstance(v, Arr):
        if not v.shape:
            raise Raised(TypeError, ("len of unsized object",))
        return simplify_scalar(v.shape[0])
    if isinstance(v, (PySeq, PyDict)):
        return simplify_scalar(v.length())
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, Opaque) and v.kind == "series":
        return simplify_scalar(v.f["arr"].shape[0])
    if isinstance(v, (Obj, FamObj)) and class_lookup(v.cls, "__len__") is not None:
        return call(Bound(class_lookup(v.cls, "__len__"), v))
    if v is None or is_scalar(v):
        raise Raised(TypeError, ("len",))
    raise Unsupported("len of %s" % type(v).__name__)


@model(range)
def m_range(args, kwargs):
    if not all(is_scalar(a) for a in args):
        raise Raised(TypeError, ("range",))
    for a in args:
        if num(a).sort != "I":
            raise Raised(TypeError, ("range",))
    if len(args) == 3:
        if all(isinstance(a, int) for a in args):
            return PySeq.of(list(range(*args)), "range")
        raise Unsupported("range step")
    lo, hi = (0, args[0]) if len(args) == 1 else args
    if isinstance(lo, int) and isinstance(hi, int):
        if hi - lo <= 64:
            return PySeq.of(list(range(lo, hi)), "range")
    n = ir.as_int(ir.sub(num(hi), num(lo)))
    if not ctx().decide(ir.le(ir.ZERO, n)):
        n = ir.ZERO
    f = ir.fresh("e", "I", hi=n)
    return PySeq([Rep(f, n, [One(simplify_scalar(ir.as_int(ir.add(num(lo), ir.poly(f)))))])], "range")


def rezip(seqs):
    """bring sequences of equal length to a common segmentation"""
    if all(s.concrete() for s in seqs):
        return [One(t) for t in zip(*[s.items() for s in seqs])]
    if len({len(s.segs) for s in seqs}) == 1:
        out = []
        for gs in zip(*[s.segs for s in seqs]):
            if all(isinstance(g, One) for g in gs):
                out.append(One(tuple(g.v for g in gs)))
            elif all(isinstance(g, Rep) for g in gs):
                n = gs[0].n
                for g in gs[1:]:
                    if g.n is not n and not ctx().decide(ir.eq(g.n, n)):
                        if len(seqs[0].segs) == 1:
                            return zip_min(gs)
                        return None
                f = ir.fresh("e", "I", hi=n)
                subs = [PySeq(segsubst(g.segs, {g.sym: ir.poly(f)})) for g in gs]
                inner = rezip(subs)
                if inner is None:
                    return None
                out.append(Rep(f, n, inner))
            else:
                return align(seqs)
        return out
    return align(seqs)


def align(seqs):
    """split segments of single elements until the segmentations agree"""
    n = seqs[0].length()
    if not all(ctx().solver.quick(ctx().pc, ir.eq(s.length(), n)) for s in seqs[1:]):
        return None

    def length(g):
        if isinstance(g, One):
            return ir.ONE
        if isinstance(g, Rep) and len(g.segs) == 1 and isinstance(g.segs[0], One):
            return ir.as_int(g.n)
        return None
    streams = [list(s.segs) for s in seqs]
    out = []
    for _ in range(40):
        if not any(streams):
            return out
        if not all(streams):
            return None
        ls = [length(st[0]) for st in streams]
        if any(l is None for l in ls):
            return None
        for l in ls:
            if all(x is l or ctx().solver.quick(ctx().pc, ir.le(l, x)) for x in ls):
                break
        else:
            return None
        if any(x is not l and isinstance(st[0], One) for x, st in zip(ls, streams)):
            # a Rep that may be empty against a One
            return None
        row = []
        f = ir.fresh("e", "I", hi=l)
        for x, st in zip(ls, streams):
            g = st.pop(0)
            if l is ir.ONE:
                row.append(g.v if isinstance(g, One) else vsubst(g.segs[0].v, {g.sym: ir.ZERO}))
            else:
                row.append(vsubst(g.segs[0].v, {g.sym: ir.poly(f)}))
            rest = ir.as_int(ir.sub(x, l))
            c = ir.const(rest)
            if c == 1:
                st.insert(0, One(vsubst(g.segs[0].v, {g.sym: l})))
            elif c is None and not ctx().solver.quick(ctx().pc, ir.eq(rest, 0)) or c:
                e = ir.fresh("e", "I", hi=rest)
                st.insert(0, Rep(e, rest, [One(vsubst(g.segs[0].v, {g.sym: ir.as_int(ir.add(ir.poly(e), l))}))]))
        out.append(One(tuple(row)) if l is ir.ONE else Rep(f, l, [One(tuple(row))]))
    return None


def zip_min(gs):
    """zip of single symbolic segments of different length"""
    n = gs[0].n
    for g in gs[1:]:
        if ctx().decide(ir.lt(g.n, n)):
            n = g.n
    if not all(len(g.segs) == 1 and isinstance(g.segs[0], One) for g in gs):
        return None
    f = ir.fresh("e", "I", hi=n)
    return [Rep(f, n, [One(tuple(vsubst(g.segs[0].v, {g.sym: ir.poly(f)}) for g in gs))])]


def seq_item_at(s, t):
    """element of a sequence at an in-range position, without forking if possible"""
    return seq_at(s, t)


@model(zip)
def m_zip(args, kwargs):
    its = []
    for a in args:
        if isinstance(a, StarArg):
            raise Unsupported("zip(*symbolic)")
        its.append(list_of(a))
    r = rezip(its)
    if r is None:
        # concrete against symbolic: compare lengths
        conc = [s for s in its if s.concrete()]
        if conc and min(len(s.segs) for s in conc) <= 16:
            m = min(len(s.segs) for s in conc)
            out = []
            for k in range(m):
                row_ = []
                for s in its:
                    if s.concrete():
                        row_.append(s.segs[k].v)
                    else:
                        if not ctx().decide(ir.lt(ir.num(k), s.length())):
                            return make_iter(PySeq(out))
                        row_.append(seq_at(s, k))
                out.append(One(tuple(row_)))
            return make_iter(PySeq(out))
        # general: element-wise by position
        n = its[0].length()
        for s in its[1:]:
            if not ctx().decide(ir.eq(s.length(), n)):
                raise Unsupported("zip of sequences of different length")
        raise Unsupported("zip of differently segmented sequences")
    return make_iter(PySeq(r))


def enum_segs(segs, off):
    out = []
    for g in segs:
        if isinstance(g, One):
            out.append(One((simplify_scalar(off), g.v)))
            off = ir.as_int(ir.add(off, ir.ONE))
        elif isinstance(g, AccSeg):
            raise Unsupported("enumeration of a list that grows in a loop")
        else:
            per = seglen(g.segs)
            f = ir.fresh("e", "I", hi=g.n)
            inner = segsubst(g.segs, {g.sym: ir.poly(f)})
            k = ir.fresh("k", "I", hi=ir.poly(f))
            before = ir.ssum(k, ir.poly(f), ir.subst(per, {g.sym: ir.poly(k)}))
            out.append(Rep(f, g.n, enum_segs(inner, ir.as_int(ir.add(off, before)))))
            off = ir.as_int(ir.add(off, seglen([g])))
    return out


@model(enumerate)
def m_enumerate(args, kwargs):
    start = arg(args, kwargs, 1, "start", 0)
    return make_iter(PySeq(enum_segs(list_of(args[0]).segs, ir.as_int(num(start)))))


@model(map)
def m_map(args, kwargs):
    f = args[0]
    if len(args) == 2:
        segs = list_of(args[1]).segs
        fn = lambda v: call(f, (v,))
    else:
        segs = list_of(m_zip(args[1:], {})).segs
        fn = lambda v: call(f, v)
    return make_iter(map_segs(segs, fn))


def map_segs(segs, fn):
    r = PySeq([])
    cell = [None]

    def set_(v):
        cell[0] = v
    run_segs(segs, set_, lambda: s_append(r, (fn(cell[0]),), {}), None)
    return r


@model(filter)
def m_filter(args, kwargs):
    s = list_of(args[1])
    if not s.concrete():
        raise Unsupported("filter of a symbolic sequence")
    return make_iter(PySeq.of([v for v in s.items() if truth(v if args[0] is None else call(args[0], (v,)))]))


@model(list)
def m_list(args, kwargs):
    if not args:
        return PySeq([])
    return PySeq(list_of(args[0]).segs, "list")


@model(tuple)
def m_tuple(args, kwargs):
    if not args:
        return ()
    s = list_of(args[0])
    if s.concrete():
        return tuple(s.items())
    return PySeq(s.segs, "tuple")


def dict_model(cls):
    def f(args, kwargs):
        d = PyDict(cls=cls)
        if args:
            if isinstance(args[0], PyDict):
                d.segs = list(args[0].segs)
            else:
                s = list_of(args[0])
                for g in s.segs:
                    if isinstance(g, One):
                        k, v = interp.unpack(g.v, 2)
                        d.store(k, v)
                    else:
                        run_segs([g], lambda v: d.store(*interp.unpack(v, 2)), lambda: None, None)
        for k, v in kwargs.items():
            if k == "**":
                d.segs = d.segs + list(v.segs)
            else:
                d.store(k, v)
        return d
    return f


model(dict)(dict_model(dict))
model(collections.OrderedDict)(dict_model(collections.OrderedDict))


@model(sum)
def m_bsum(args, kwargs):
    start = args[1] if len(args) > 1 else 0
    a = args[0]
    if isinstance(a, Arr):
        if a.ndim == 1:
            return binop(ast.Add(), start, reduce_sum(a))
        a = list_of(a)
    return sum_segs(list_of(a).segs, start)


def sum_segs(segs, acc):
    for g in segs:
        if isinstance(g, One):
            acc = binop(ast.Add(), acc, g.v)
        elif isinstance(g, AccSeg):
            raise Unsupported("sum of a list that grows in a loop")
        else:
            f = ir.fresh("e", "I", hi=g.n)
            part = sum_segs(segsubst(g.segs, {g.sym: ir.poly(f)}), 0)
            if isinstance(part, Arr):
                if any(f in ir.syms(s) for s in part.shape):
                    raise Unsupported("sum of arrays of different shape")
                if not ctx().decide(ir.lt(ir.ZERO, g.n)):
                    continue
                b = part.body()
                tot = arr_of_body(part.shape, ir.ssum(f, g.n, ir.poly(b)), part.dtype)
                acc = binop(ast.Add(), acc, tot)
            elif is_scalar(part):
                acc = binop(ast.Add(), acc, simplify_scalar(ir.ssum(f, g.n, ir.poly(num(part)))))
            else:
                raise Unsupported("sum of %s" % type(part).__name__)
    return acc


@model(functools.partial)
def m_partial(args, kwargs):
    return Opaque("partial", fn=args[0], args=tuple(args[1:]), kwargs=tuple(kwargs.items()))


def partial_call(r, args, kwargs):
    kw = dict(r.f["kwargs"])
    kw.update(kwargs)
    return call(r.f["fn"], r.f["args"] + tuple(args), kw)


METHODS[("partial", "__call__")] = partial_call


@model(functools.reduce)
def m_reduce(args, kwargs):
    f, s = args[0], list_of(args[1])
    its = s.items()
    if len(args) > 2:
        its = [args[2]] + its
    if not its:
        raise Raised(TypeError, ("reduce of empty sequence",))
    r = its[0]
    for x in its[1:]:
        r = call(f, (r, x))
    return r


for _f, _k in ((operator.mul, ast.Mult), (operator.add, ast.Add), (operator.sub, ast.Sub), (operator.truediv, ast.Div)):
    model(_f)(lambda args, kwargs, k=_k: binop(k(), args[0], args[1]))


@model(itertools.islice)
def m_islice(args, kwargs):
    it = args[0]
    lo, hi = (0, args[1]) if len(args) == 2 else (args[1], args[2])
    if len(args) > 3 or (lo not in (0, None)):
        raise Unsupported("islice")
    if not (isinstance(it, Obj) and it.cls is IterCls):
        s = list_of(it)
        return make_iter(interp.seq_slice(s, SliceV(None, hi, None)) if hi is not None else s)
    s = list_of(it.read("seq"))
    p = it.read("pos")
    if hi is None:
        return make_iter(PySeq(list_of(it).segs))
    if not is_scalar(hi) or num(hi).sort != "I":
        raise Raised(ValueError, ("islice",))
    if not ctx().decide(ir.le(ir.ZERO, num(hi))):
        raise Raised(ValueError, ("islice",))
    # the position may run beyond the end: what is left is then empty
    n = s.length()
    p = ir.as_int(num(p))
    end = ir.as_int(ir.add(p, num(hi)))
    it.write("pos", simplify_scalar(end))
    if s.concrete() and ir.const(p) is not None and ir.const(end) is not None:
        return make_iter(PySeq.of(s.items()[int(ir.const(p)):int(ir.const(end))]))
    if ctx().entailed(ir.le(end, n)) is True:
        ln = ir.as_int(num(hi))
    else:
        left = ir.ite(ir.lt(n, p), ir.ZERO, ir.sub(n, p))
        ln = ir.as_int(ir.ite(ir.lt(left, num(hi)), left, num(hi)))
    return make_iter(PySeq(window(s, p, ln)))


def window(s, p, ln):
    """segments for the ln elements from position p on"""
    if len(s.segs) == 1 and isinstance(s.segs[0], Rep) and len(s.segs[0].segs) == 1 and isinstance(s.segs[0].segs[0], One):
        g = s.segs[0]
        f = ir.fresh("e", "I", hi=ln)
        return [Rep(f, ln, [One(vsubst(g.segs[0].v, {g.sym: ir.add(p, ir.poly(f))}))])]
    return interp.seq_slice(s, SliceV(simplify_scalar(p), simplify_scalar(ir.as_int(ir.add(p, ln))), None)).segs


@model(itertools.product)
def m_product(args, kwargs):
    ss = [list_of(a) for a in args]
    if len(ss) == 2:
        out = []
        for g in ss[0].segs:
            for h in [0]:
                if isinstance(g, One):
                    for k in ss[1].segs:
                        out.append(One((g.v, k.v)) if isinstance(k, One) else Rep(k.sym, k.n, [One((g.v, k.segs[0].v))]))
                else:
                    if len(g.segs) != 1 or not isinstance(g.segs[0], One):
                        raise Unsupported("product")
                    inner = []
                    for k in segsubst(ss[1].segs, {}):
                        if isinstance(k, One):
                            inner.append(One((g.segs[0].v, k.v)))
                        else:
                            # bound symbols of the inner sequence are its own in every group
                            f = ir.fresh("e", "I", hi=k.n)
                            inner.append(Rep(f, k.n, [One((g.segs[0].v, vsubst(k.segs[0].v, {k.sym: ir.poly(f)})))]))
                    out.append(Rep(g.sym, g.n, inner))
        return make_iter(PySeq(out))
    raise Unsupported("product")


@model(itertools.chain)
def m_chain(args, kwargs):
    out = []
    for a in args:
        if isinstance(a, StarArg):
            raise Unsupported("chain(*symbolic)")
        out.extend(list_of(a).segs)
    return make_iter(PySeq(out))


def m_chain_parts(args, kwargs):
    """the elements of the elements"""
    need_args("chain.from_iterable", args, kwargs, ())

    def go(segs):
        out = []
        for s in segs:
            if isinstance(s, One):
                out.extend(list_of(s.v).segs)
            elif isinstance(s, Rep):
                out.append(Rep(s.sym, s.n, go(s.segs)))
            else:
                raise Unsupported("chain of this sequence")
        return out
    return make_iter(PySeq(go(list_of(args[0]).segs)))


model_method(itertools.chain, "from_iterable", m_chain_parts)


@model(iter)
def m_iter(args, kwargs):
    v = args[0]
    if isinstance(v, Obj) and v.cls is IterCls:
        return v
    return make_iter(list_of(v))


@model(next)
def m_next(args, kwargs):
    it = args[0]
    if not (isinstance(it, Obj) and it.cls is IterCls):
        raise Raised(TypeError, ("not an iterator",))
    s = list_of(it.read("seq"))
    p = it.read("pos")
    if ctx().decide(ir.lt(num(p), s.length())):
        it.write("pos", binop(ast.Add(), p, 1))
        return seq_at(s, p)
    if len(args) > 1:
        return args[1]
    raise Raised(StopIteration)


def type_of(v):
    if isinstance(v, (Obj, FamObj)):
        return v.cls
    if isinstance(v, Arr):
        return np.ndarray
    if isinstance(v, bool):
        return bool
    if isinstance(v, int):
        return int
    if isinstance(v, (float, Fraction)):
        return float
    if isinstance(v, T):
        return {"I": int, "R": float, "B": bool, "S": str}.get(v.sort) or _u("type of a value")
    if isinstance(v, PySeq):
        return {"list": list, "tuple": tuple, "range": range}[v.kind]
    if isinstance(v, PyDict):
        return v.cls
    if isinstance(v, (tuple, str)) or v is None:
        return type(v)
    if isinstance(v, (Closure, Bound)):
        import types
        return types.FunctionType
    if isinstance(v, Opaque):
        if v.kind in TYPES:
            return TYPES[v.kind]
        if v.kind == "exc":
            return v.f["cls"]
        raise Unsupported("type of %s" % v.kind)
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    return type(v)


TYPES = {}


@model(type)
def m_type(args, kwargs):
    if len(args) != 1:
        raise Unsupported("type()")
    return type_of(args[0])


@model(isinstance)
def m_isinstance(args, kwargs):
    t = type_of(args[0])
    cs = args[1] if isinstance(args[1], tuple) else (args[1],)
    out = False
    for c in cs:
        if isinstance(c, tuple):
            out = out or m_isinstance((args[0], c), {})
            continue
        if not isinstance(c, type):
            raise Unsupported("isinstance of %s" % (c,))
        if issubclass(t, c):
            out = True
        elif t is float and c in (np.floating, np.float64, np.number, np.generic) and isinstance(args[0], T):
            raise Unsupported("kind of a real number")
        elif t is int and c in (np.integer, np.int64, np.number, np.generic) and isinstance(args[0], T):
            raise Unsupported("kind of an integer")
        else:
            import collections.abc as cabc
            import numbers
            if c.__module__ in ("collections.abc", "typing") or c in (numbers.Number, numbers.Real, numbers.Integral):
                if issubclass(t, c):
                    out = True
    return out


@model(issubclass)
def m_issubclass(args, kwargs):
    return issubclass(args[0], args[1])


@model(callable)
def m_callable(args, kwargs):
    return isinstance(args[0], (Closure, Bound, type)) or callable(args[0])


@model(hasattr)
def m_hasattr(args, kwargs):
    try:
        getattr_2(args[0], args[1])
        return True
    except Raised as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


@model(getattr)
def m_getattr(args, kwargs):
    if not isinstance(args[1], str):
        raise Unsupported("getattr with a symbolic name")
    if len(args) > 2:
        try:
            return getattr_2(args[0], args[1])
        except Raised as e:
            if issubclass(e.cls, AttributeError):
                return args[2]
            raise
    return getattr_2(args[0], args[1])


@model(setattr)
def m_setattr(args, kwargs):
    interp.setattr_(args[0], args[1], args[2])


@model(float, np.float64)
def m_float(args, kwargs):
    if not args:
        return ir.as_real(ir.ZERO)
    v = args[0]
    if isinstance(v, Arr):
        if not ctx().decide(ir.eq(v.size(), ir.ONE)):
            raise Raised(TypeError, ("only length-1 arrays",))
        v = v.get(*[ir.ZERO] * v.ndim)
    if isinstance(v, str):
        try:
            return ir.num(float(v)) if float(v) == float(v) else _u("nan")
        except ValueError:
            raise Raised(ValueError, ("float",))
    if not is_scalar(v):
        raise Raised(TypeError, ("float",))
    return ir.as_real(ir.poly(num(v)))


@model(int, np.int64)
def m_int(args, kwargs):
    v = args[0]
    if isinstance(v, Arr):
        if not ctx().decide(ir.eq(v.size(), ir.ONE)):
            raise Raised(TypeError, ("only length-1 arrays",))
        v = v.get(*[ir.ZERO] * v.ndim)
    if not is_scalar(v):
        if isinstance(v, str):
            return int(v)
        raise Raised(TypeError, ("int",))
    t = ir.poly(num(v))
    return simplify_scalar(t if t.sort == "I" else ir.app("trunc", (t,), "I", "R"))


@model(bool)
def m_bool(args, kwargs):
    return truth(args[0])


@model(str, repr)
def m_str(args, kwargs):
    return to_str(args[0])


@model(abs)
def m_babs(args, kwargs):
    return call(np.abs, args, kwargs) if isinstance(args[0], Arr) else simplify_scalar(ir.absval(num(args[0])))


def minmax(args, up):
    its = list(args)
    if len(its) == 1:
        if isinstance(its[0], Arr):
            return extremum(its[0], up)
        s = list_of(its[0])
        if not s.concrete():
            return extremum(to_arr(s), up)
        its = s.items()
    if not its:
        raise Raised(ValueError, ("empty",))
    if all(isinstance(x, (int, bool)) for x in its):
        return (max if up else min)(its)
    r = its[0]
    for x in its[1:]:
        c = ir.lt(ir.poly(num(r)), ir.poly(num(x))) if up else ir.lt(ir.poly(num(x)), ir.poly(num(r)))
        r = simplify_scalar(ir.ite(c, num(x), num(r)))
    return r


model(max)(lambda args, kwargs: minmax(args, True) if not kwargs else _u("max key"))
model(min)(lambda args, kwargs: minmax(args, False) if not kwargs else _u("min key"))


def boolseq(args, q):
    v = args[0]
    if isinstance(v, Arr):
        return quant(v, q)
    s = list_of(v)
    if s.concrete():
        # short-circuit evaluation was done by the generator already; results only
        for x in s.items():
            t = truth(x)
            if q == "forall" and not t:
                return False
            if q == "exists" and t:
                return True
        return q == "forall"

    def go(segs):
        out = []
        for g in segs:
            if isinstance(g, One):
                x = g.v
                if isinstance(x, (Obj, FamObj, Arr, PySeq, PyDict)):
                    raise Unsupported("truth of objects")
                out.append(ir.boolc(truth(x)) if not isinstance(x, T) else ir.tobool(x))
            else:
                b = go(g.segs)
                out.append(ir.mkquant(q, [(g.sym, g.n)], b))
        return ir.band(*out) if q == "forall" else ir.bor(*out)
    return simplify_scalar(go(s.segs))


model(all)(lambda args, kwargs: boolseq(args, "forall"))
model(any)(lambda args, kwargs: boolseq(args, "exists"))


@model(sorted)
def m_sorted(args, kwargs):
    s = list_of(args[0])
    if s.concrete() and not kwargs and all(isinstance(x, (int, str)) for x in s.items()):
        return PySeq.of(sorted(s.items()))
    raise Unsupported("sorted")


@model(reversed)
def m_reversed(args, kwargs):
    s = list_of(args[0])
    return make_iter(PySeq(core.seg_reversed(s.segs)))


@model(print)
def m_print(args, kwargs):
    return None


@model(id)
def m_id(args, kwargs):
    raise Unsupported("id()")


@model(property)
def m_property(args, kwargs):
    raise Unsupported("property()")


@model(logging.getLogger)
def m_getlogger(args, kwargs):
    return Opaque("logger")


for _n in ("debug", "info", "warning", "error", "critical", "exception", "log", "addHandler", "setLevel"):
    METHODS[("logger", _n)] = lambda o, a, k: None
    if hasattr(logging, _n):
        model(getattr(logging, _n))(lambda args, kwargs: None)

import warnings  # noqa: E402
model(warnings.warn)(lambda args, kwargs: None)
import copy as _copy  # noqa: E402


@model(_copy.copy)
def m_copycopy(args, kwargs):
    v = args[0]
    if isinstance(v, Arr):
        return copy_arr(v)
    if isinstance(v, PySeq):
        return PySeq(v.segs, v.kind)
    if isinstance(v, PyDict):
        return PyDict(v.segs, v.cls)
    if isinstance(v, Obj):
        return Obj(v.cls, v.attrs)
    if isinstance(v, (tuple, str, int, T)) or v is None:
        return v
    raise Unsupported("copy of %s" % type(v).__name__)


@model(_copy.deepcopy)
def m_deepcopy(args, kwargs):
    v = args[0]
    if isinstance(v, FamObj):
        raise Unsupported("deepcopy")
    if isinstance(v, tuple):
        return tuple(m_deepcopy((x,), {}) for x in v)
    if isinstance(v, PySeq):
        return PySeq([One(m_deepcopy((s.v,), {})) if isinstance(s, One) else _u("deepcopy") for s in v.segs], v.kind)
    if isinstance(v, PyDict):
        return PyDict([KV(s.k, m_deepcopy((s.v,), {})) if isinstance(s, KV) else _u("deepcopy") for s in v.segs], v.cls)
    if isinstance(v, Obj):
        return Obj(v.cls, {k: m_deepcopy((x,), {}) for k, x in v.attrs.items()})
    return m_copycopy((v,), {})


# ------------------------------------------------- numdifftools (derivatives)

def events(kind):
    """ghost trace: the calls of a library made so far on this path"""
    return [e for e in getattr(ctx(), "ghost", []) if e["kind"] == kind]


def event(kind, **f):
    c = ctx()
    if c.loops:
        raise Unsupported("%s in a loop of unknown length" % kind)
    if not hasattr(c, "ghost"):
        c.ghost = []
    e = dict(f, kind=kind, number=len(events(kind)))
    c.ghost.append(e)
    return e


def m_jacobian_of(args, kwargs):
    need_args("Jacobian", args, kwargs, ("fun",))
    return Opaque("jacobian", fn=arg(args, kwargs, 0, "fun"))


def at_any(fn, n, name):
    """value of fn for an arbitrary vector of n elements (library code calls it
    as often and wherever it likes: its effects are those of any one call)"""
    ctx().nsym = getattr(ctx(), "nsym", 0) + 1
    name = "%s!%d" % (name, ctx().nsym)
    p = mkarr((n,), lambda i: ir.app(name, [i], "R"), "f")
    old = copy_arr(p)
    r = interp.call(fn, (p,), {})
    if p.store.body is None or p.body() is not old.body():
        raise Unsupported("function changes the vector it is given")
    return p, r


def jacobian_call(j, args, kwargs):
    need_args("Jacobian()", args, kwargs, ())
    x = to_arr(args[0])
    if x.ndim != 1:
        raise Unsupported("Jacobian of a table")
    p, r = at_any(j.f["fn"], x.shape[0], "vector")
    v = to_arr(r)
    if v.ndim > 1:
        raise Unsupported("Jacobian of a table")
    rows = v.shape[0] if v.ndim else ir.ONE
    e = event("jacobian", point=copy_arr(x), p=p, value=v)
    name = "d!%d" % e["number"]
    e["d"] = lambda i, k: ir.app(name, [ir.lift(i), ir.lift(k)], "R")
    return mkarr((rows, x.shape[0]), e["d"], "f")


METHODS[("jacobian", "__call__")] = jacobian_call
try:
    import numdifftools as _nd
    model(_nd.Jacobian)(m_jacobian_of)
except ImportError:
    pass


# ------------------------------------------------------------ matplotlib axes

def axes():
    """an axis (or figure) that records what is drawn on it"""
    return Opaque("axes")


def keep_value(v):
    if isinstance(v, Arr):
        return copy_arr(v)
    if isinstance(v, PySeq):
        return PySeq(list(v.segs), v.kind)
    if isinstance(v, tuple):
        return tuple(keep_value(x) for x in v)
    return v


ATTRS["axes"] = lambda v, name: Opaque("drawing", axes=v, name=name)


def drawing_call(d, args, kwargs):
    event("draw", axes=d.f["axes"], name=d.f["name"], args=tuple(keep_value(a) for a in args),
          kwargs={k: keep_value(v) for k, v in kwargs.items()})
    return Opaque("drawn")


METHODS[("drawing", "__call__")] = drawing_call
GETITEM["drawn"] = lambda v, i: Opaque("drawn")
ATTRS["drawn"] = lambda v, name: Opaque("drawing", axes=v, name=name)
try:
    import matplotlib.pyplot as _plt
    import matplotlib.colors as _mc
    model(_plt.get_cmap)(lambda a, k: Opaque("cmap"))
    model(_mc.ListedColormap)(lambda a, k: Opaque("cmap"))

    def cmap_call(v, args, kwargs):
        x = to_arr(args[0])
        return mkarr(x.shape + (ir.lift(4),), lambda *i: ir.app("colour", list(i), "R"), "f")
    METHODS[("cmap", "__call__")] = cmap_call
except ImportError:
    pass
