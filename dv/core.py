"""Values, heap and path exploration of the verifier.

The interpreter (interp.py) executes the real function bodies on these values.
Scalars are host numbers or ir terms; arrays are a generic element term over
the placeholders @0, @1, ... plus a shape; sequences may have symbolic length
(Rep segments); families are objects indexed by symbolic integers.  All
mutation goes through Heap.put so that loop bodies can be executed
tentatively and undone.
"""
from fractions import Fraction

from . import ir
from .ir import Unsupported, T

PH = [ir.sym("@%d" % i, "I") for i in range(6)]


class Raised(Exception):
    """the interpreted program raised an exception"""

    def __init__(self, cls, args=(), where=""):
        Exception.__init__(self, cls.__name__)
        self.cls = cls
        self.xargs = args
        self.where = where


class Infeasible(Exception):
    """the current path contradicts its assumptions"""


class TooManyPaths(Unsupported):
    pass


# ------------------------------------------------------------------ context

class Obligation:
    __slots__ = ("name", "pc", "goal", "kind", "func", "status", "backend", "time", "detail", "prop", "path", "counterexample")

    def __init__(self, name, pc, goal, kind, func):
        self.name, self.pc, self.goal, self.kind, self.func = name, pc, goal, kind, func
        self.status = None
        self.backend = None
        self.time = 0.0
        self.detail = ""
        self.path = ""
        self.counterexample = None


class _Undef:
    def __repr__(self):
        return "<undefined>"


UNDEF = _Undef()


class Poison:
    """a value the summary of a loop does not describe"""

    def __init__(self, why, last=None):
        self.why = why
        self.last = last           # (value, n, old): value after a loop of n > 0 steps, else old


class Vars:
    """local variables of one activation"""

    def __init__(self, birth):
        object.__setattr__(self, "_birth", birth)


class AccSeg:
    """what a sequence or dictionary held before the current iteration"""


class Heap:
    def __init__(self):
        self.log = []

    def put(self, obj, field, val):
        self.log.append((obj, field, getattr(obj, field, UNDEF)))
        setattr(obj, field, val)

    def mark(self):
        return len(self.log)

    def undo(self, mark, start=None):
        """take back the writes since mark; what was made after start (and so
        cannot be reached from the state restored) keeps its contents"""
        while len(self.log) > mark:
            o, f, v = self.log.pop()
            if start is not None and (o._birth if isinstance(o, Vars) else getattr(o, "birth", 0)) > start:
                continue
            if v is UNDEF:
                delattr(o, f)
            else:
                setattr(o, f, v)


class Ctx:
    """one execution path"""
    cur = None

    def __init__(self, script, solver):
        self.script = list(script)
        self.iters = {}          # symbol of a generic iteration: when its loop began
        self.pos = 0
        self.forks = []          # scripts still to explore
        self.pc = []
        self.pcset = set()
        self.obls = []
        self.heap = Heap()
        self.solver = solver
        self.loops = []          # active generic iterations
        self.frames = []         # indices of the active iterations, generic or not
        self.func = "?"
        self.line = ""
        self.seq = 0
        self.events = []         # ghost trace
        self.assumed = set()     # names of trusted models used
        self.used = set()        # contracts applied at call sites
        self.proving = set()     # contracts being proved
        self.ncall = 0           # calls of generators of random numbers
        self.handling = None
        self.visited = set()     # repo functions executed
        ir._fresh[0] = 0

    def tick(self):
        self.seq += 1
        return self.seq

    def assume(self, t, label=None):
        t = ir.tobool(t)
        if t is ir.TRUE:
            return
        if t is ir.FALSE:
            raise Infeasible()
        for x in (t.args if isinstance(t, ir.Bop) and t.op == "and" else (t,)):
            if x not in self.pcset:
                self.pc.append(x)
                self.pcset.add(x)
                if ir.bnot(x) in self.pcset:
                    raise Infeasible()

    def oblige(self, name, goal, kind="post"):
        goal = ir.tobool(goal)
        o = Obligation(name, tuple(self.pc), goal, kind, self.func)
        if self.loops:
            o.path = "loop"
        self.obls.append(o)
        # once checked it may be used
        if goal is not ir.FALSE and kind in ("defined", "pre", "shape", "index"):
            try:
                self.assume(goal)
            except Infeasible:
                pass
        return o

    def known(self, cond):
        """cheap syntactic decision"""
        cond = ir.tobool(cond)
        if isinstance(cond, ir.BConst):
            return cond.v
        if cond in self.pcset:
            return True
        n = ir.bnot(cond)
        if n in self.pcset:
            return False
        if isinstance(cond, ir.Bop) and cond.op in ("and", "or"):
            rs = [self.known(c) for c in cond.args]
            if cond.op == "and":
                if any(r is False for r in rs):
                    return False
                if all(r is True for r in rs):
                    return True
            else:
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
        return None

    def entailed(self, cond):
        """True / False / None, with the solver"""
        k = self.known(cond)
        if k is not None:
            return k
        cond = ir.tobool(cond)
        if self.solver.quick(self.pc, cond):
            self.assume(cond)
            return True
        n = ir.bnot(cond)
        if self.solver.quick(self.pc, n):
            self.assume(n)
            return False
        return None

    def decide(self, cond):
        """truth value of a condition on this path; forks if it is open"""
        cond = ir.tobool(cond)
        k = self.entailed(cond)
        if k is not None:
            return k
        for i in range(len(self.loops) - 1, -1, -1):
            lp = self.loops[i]
            if lp.depends(cond):
                v = lp.decide(cond)
                break
        else:
            i = -1
            if self.pos < len(self.script):
                v = self.script[self.pos]
            else:
                v = True
                self.forks.append(self.script + [False])
                self.script = self.script + [True]
            self.pos += 1
        f = cond if v else ir.bnot(cond)
        self.assume(f)
        for lp in self.loops[i + 1:]:
            lp.outer.append(f)
        return v

    def loop_syms(self):
        return list(self.frames)

    def new_value(self, name, sort="R", *args):
        """a value nothing is known about, per iteration of the active loops"""
        self.nnew = getattr(self, "nnew", 0) + 1
        a = list(args) + self.loop_syms()
        if not a:
            return ir.fresh(name, sort)
        return ir.app("%s!%d" % (name, self.nnew), a, sort)


def ctx():
    return Ctx.cur


MAXPATHS = 600


def explore(fn, solver, on_path):
    """run fn() on every path; on_path(ctx, outcome) after each"""
    stack = [[]]
    n = 0
    while stack:
        script = stack.pop()
        n += 1
        if n > MAXPATHS:
            raise TooManyPaths("more than %d paths" % MAXPATHS)
        c = Ctx(script, solver)
        Ctx.cur = c
        try:
            fn()
            out = "ok"
        except Infeasible:
            out = "infeasible"
        finally:
            Ctx.cur = None
        stack.extend(c.forks)
        on_path(c, out)
    return n


# -------------------------------------------------------------------- arrays

def dim(x):
    return ir.as_int(ir.lift(x))


class Store:
    """content of an array: generic element over @0..@(d-1)"""
    __slots__ = ("shape", "_body", "dtype", "birth", "stale", "tag", "blocks", "frozen", "undef")

    def __init__(self, shape, body, dtype="f"):
        self.shape = tuple(dim(s) for s in shape)
        # what elementwise arithmetic left undefined (nan or infinite): what
        # must hold for an element to be defined, and when it is nan for sure.
        # Becomes an obligation as soon as the elements are read.
        self.undef = ()
        self._body = body
        self.dtype = dtype
        self.birth = ctx().tick() if ctx() else 0
        self.stale = False
        self.frozen = False
        self.tag = None
        self.blocks = None

    @property
    def body(self):
        if self.undef:
            u = self.undef
            ctx().heap.put(self, "undef", ())
            for what, ok, _ in u:
                fs = {p: ir.poly(ir.fresh("x", "I", hi=n)) for p, n in zip(PH, self.shape)}
                ctx().oblige(what, ir.subst(ok, fs), "defined")
        return self._body

    @body.setter
    def body(self, v):
        self._body = v

    def elements(self):
        """generic element; of a concatenation of unequal blocks by the block
        an index lies in"""
        if self.body is not None:
            return self.body
        x = ir.fresh("x", "I")
        e = ir.subst(block_element(self.blocks, ir.poly(x)), {x: ir.poly(PH[0])})
        return ir.as_real(ir.poly(e)) if self.dtype == "f" else ir.poly(e) if self.dtype == "i" else ir.tobool(e)


def block_length(segs):
    r = ir.ZERO
    for s in segs:
        if isinstance(s, One):
            r = ir.add(r, s.v.shape[0])
        else:
            r = ir.add(r, ir.ssum(s.sym, s.n, block_length(s.segs)))
    return ir.as_int(r)


def block_element(segs, x):
    """element x of the concatenation"""
    parts = []
    off = ir.ZERO
    for s in segs:
        parts.append((off, s))
        off = ir.as_int(ir.add(off, block_length([s])))
    r = None
    for o, s in reversed(parts):
        i = ir.as_int(ir.sub(x, o))
        if isinstance(s, One):
            v = s.v.get(i)
        else:
            b, y = which(s, block_length(s.segs), i)
            v = block_element(segsubst(s.segs, {s.sym: b}), y)
        r = v if r is None else ir.ite(ir.lt(i, block_length([s])), v, r)
    return r


class Arr:
    """array or view: vmap gives the store index of a view index"""
    __slots__ = ("store", "shape", "vmap", "inv")

    def __init__(self, store, shape=None, vmap=None, inv=None):
        self.store = store
        self.shape = store.shape if shape is None else tuple(dim(s) for s in shape)
        self.vmap = vmap
        self.inv = inv

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return self.store.dtype

    def body(self):
        """generic element over @0.. of this view (snapshot)"""
        if self.store.stale:
            raise Unsupported("read of an array that was replaced in a loop")
        b = self.store.elements()
        if self.vmap is None:
            return b
        return ir.subst(b, dict(zip(PH, self.vmap)))

    def get(self, *idx):
        b = self.store.elements()
        if self.store.stale:
            raise Unsupported("read of an array that was replaced in a loop")
        idx = [ir.poly(ir.lift(i)) for i in idx]
        if self.vmap is not None:
            e = dict(zip(PH, idx))
            idx = [ir.poly(ir.subst(v, e)) for v in self.vmap]
        return ir.subst(b, dict(zip(PH, idx)))

    def size(self):
        r = ir.ONE
        for s in self.shape:
            r = ir.mul(r, s)
        return ir.as_int(r)


def mkarr(shape, fn, dtype="f"):
    """array from a Python function of index terms"""
    shape = tuple(dim(s) for s in shape)
    body = fn(*[ir.poly(p) for p in PH[:len(shape)]])
    body = ir.lift(body)
    if dtype == "f":
        body = ir.as_real(body)
    elif dtype == "i":
        body = ir.as_int(body) if body.sort != "B" else ir.br(body)
    elif dtype == "b":
        body = ir.tobool(body)
    return Arr(Store(shape, body, dtype))


def arr_of_body(shape, body, dtype):
    return mkarr(shape, lambda *i: body, dtype)


def shape_eq(a, b):
    if len(a) != len(b):
        return ir.FALSE
    return ir.band(*[ir.eq(x, y) for x, y in zip(a, b)]) if a else ir.TRUE


def write(arr, fn, guard=None):
    """arr[idx] = fn(idx) where guard(idx), all view indices"""
    st = arr.store
    if st.frozen or st.stale:
        raise Unsupported("write to an array through a snapshot")
    d = len(st.shape)
    base = [ir.poly(p) for p in PH[:d]]
    if arr.vmap is None:
        idx, g = base, ir.TRUE
    else:
        if arr.inv is None:
            raise Unsupported("write through this kind of view")
        e = dict(zip(PH, base))
        g = ir.subst(arr.inv[0], e)
        idx = [ir.poly(ir.subst(x, e)) for x in arr.inv[1]]
    if guard is not None:
        g = ir.band(g, guard(*idx))
    if st.body is None:
        ctx().heap.put(st, "body", st.elements())
    new = ir.lift(fn(*idx))
    if st.dtype == "f":
        new = ir.as_real(ir.poly(new))
    elif st.dtype == "i":
        new = ir.poly(new)
        if new.sort != "I":
            new = ir.app("trunc", (new,), "I", "R")
    elif st.dtype == "b":
        new = ir.tobool(new)
    h = ctx().heap
    h.put(st, "body", ir.ite(g, new, st.body))
    if st.tag is not None:
        h.put(st, "tag", None)


# ----------------------------------------------------------------- sequences

class One:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Rep:
    """segs repeated for sym = 0 .. n-1"""
    __slots__ = ("sym", "n", "segs")

    def __init__(self, sym, n, segs):
        self.sym, self.n, self.segs = sym, dim(n), segs


def many(n, fn):
    s = ir.fresh("e", "I", hi=n)
    return Rep(s, n, [One(fn(ir.poly(s)))])


class PySeq:
    """list, or tuple of symbolic length"""
    __slots__ = ("segs", "kind", "birth", "frozen")

    def __init__(self, segs, kind="list"):
        self.segs = list(segs)
        self.kind = kind
        self.birth = ctx().tick() if ctx() else 0
        self.frozen = False

    @staticmethod
    def of(items, kind="list"):
        return PySeq([One(v) for v in items], kind)

    def concrete(self):
        return all(isinstance(s, One) for s in self.segs)

    def items(self):
        if not self.concrete():
            raise Unsupported("sequence of symbolic length enumerated")
        return [s.v for s in self.segs]

    def length(self):
        return seglen(self.segs)

    def set_segs(self, segs):
        if self.frozen:
            raise Unsupported("change of an element of a symbolic sequence")
        ctx().heap.put(self, "segs", list(segs))


def seglen(segs):
    r = ir.ZERO
    for s in segs:
        if isinstance(s, One):
            r = ir.add(r, ir.ONE)
        elif isinstance(s, AccSeg):
            raise Unsupported("length of a list that grows in a loop")
        else:
            r = ir.add(r, ir.ssum(s.sym, s.n, seglen(s.segs)))
    return ir.as_int(r)


def seg_reversed(segs):
    """the same elements in opposite order"""
    out = []
    for g in reversed(segs):
        if isinstance(g, One):
            out.append(g)
        elif isinstance(g, AccSeg):
            raise Unsupported("reversal of a list that grows in a loop")
        else:
            s = ir.fresh("e", "I", hi=g.n)
            at = ir.as_int(ir.sub(ir.sub(g.n, ir.ONE), ir.poly(s)))
            out.append(Rep(s, g.n, seg_reversed(segsubst(g.segs, {g.sym: at}))))
    return out


def which(rep, ln, i):
    """(repetition, position in it) of position i; ln: length of repetition rep.sym"""
    if rep.sym not in ir.syms(ln):
        return ir.idiv(i, ln), ir.imod(i, ln)
    l = ir.mklam([(rep.sym, rep.n)], ln)
    b = ir.locate(l, i)
    return b, ir.as_int(ir.sub(i, ir.start_of(l, b)))


def seq_at(seq, i):
    """element at position i (host int or term); the caller checks the range"""
    segs = seq.segs
    if any(isinstance(x, AccSeg) for x in segs):
        raise Unsupported("element of a list that grows in a loop")
    if len(segs) == 1 and isinstance(segs[0], Rep) and len(segs[0].segs) == 1 and isinstance(segs[0].segs[0], One):
        return vsubst(segs[0].segs[0].v, {segs[0].sym: ir.poly(ir.lift(i))})
    c = ir.const(ir.lift(i))
    if c is not None:
        c = int(c)
        if c >= 0:
            for k, s in enumerate(segs):
                if isinstance(s, One):
                    if c == 0:
                        return s.v
                    c -= 1
                else:
                    break
        else:
            for s in reversed(segs):
                if isinstance(s, One):
                    c += 1
                    if c == 0:
                        return s.v
                else:
                    break
    # uniform prefix: locate the segment by comparing positions
    off = ir.ZERO
    it = ir.poly(ir.lift(i))
    for s in segs:
        ln = ir.ONE if isinstance(s, One) else seglen([s])
        inside = ctx().decide(ir.lt(it, ir.add(off, ln)))
        if inside:
            if isinstance(s, One):
                return s.v
            if len(s.segs) == 1 and isinstance(s.segs[0], One):
                return vsubst(s.segs[0].v, {s.sym: ir.sub(it, off)})
            b, y = which(s, seglen(s.segs), ir.as_int(ir.sub(it, off)))
            return seq_at(PySeq(segsubst(s.segs, {s.sym: b})), y)
        off = ir.add(off, ln)
    raise Unsupported("index into a sequence")


# --------------------------------------------------------------- dictionaries

class KV:
    __slots__ = ("k", "v")

    def __init__(self, k, v):
        self.k, self.v = k, v


class KRep:
    """keys key(i), values val(i) for i < n; member(k) -> (condition, position)"""
    __slots__ = ("sym", "n", "key", "val", "member")

    def __init__(self, sym, n, key, val, member):
        self.sym, self.n, self.key, self.val, self.member = sym, dim(n), key, val, member


class PyDict:
    __slots__ = ("segs", "birth", "frozen", "cls")

    def __init__(self, segs=(), cls=dict):
        self.segs = list(segs)
        self.birth = ctx().tick() if ctx() else 0
        self.frozen = False
        self.cls = cls

    def set_segs(self, segs):
        if self.frozen:
            raise Unsupported("change of an element of a symbolic sequence")
        ctx().heap.put(self, "segs", list(segs))

    def length(self):
        r = ir.ZERO
        for s in self.segs:
            if isinstance(s, AccSeg):
                raise Unsupported("length of a dictionary that grows in a loop")
            r = ir.add(r, ir.ONE if isinstance(s, KV) else s.n)
        return ir.as_int(r)

    def keys(self):
        return PySeq([One(s.k) if isinstance(s, KV) else Rep(s.sym, s.n, [One(s.key)]) for s in self.segs])

    def values(self):
        return PySeq([One(s.v) if isinstance(s, KV) else Rep(s.sym, s.n, [One(s.val)]) for s in self.segs])

    def items(self):
        return PySeq([One((s.k, s.v)) if isinstance(s, KV) else Rep(s.sym, s.n, [One((s.key, s.val))]) for s in self.segs])

    def find(self, key, storing=False):
        """-> ('kv', index) / ('rep', index, position) / None; may fork"""
        for i, s in enumerate(self.segs):
            if isinstance(s, AccSeg):
                if storing:
                    continue       # keys of earlier iterations are compared by the loop summary
                raise Unsupported("look-up in a dictionary that grows in a loop")
            if isinstance(s, KV):
                e = key_eq(s.k, key)
                if e is ir.TRUE or (e is not ir.FALSE and ctx().decide(e)):
                    return ("kv", i)
            else:
                if s.member is None:
                    raise Unsupported("look-up in a symbolic dictionary")
                r = s.member(key)
                if r is None:
                    continue
                cond, pos = r
                if ctx().decide(cond):
                    return ("rep", i, pos)
        return None

    def lookup(self, key):
        if any(isinstance(s, AccSeg) for s in self.segs):
            raise Unsupported("look-up in a dictionary that grows in a loop")
        r = self.find(key)
        if r is None:
            return None
        s = self.segs[r[1]]
        if r[0] == "kv":
            return (s.v,)
        return (vsubst(s.val, {s.sym: ir.poly(r[2])}),)

    def store(self, key, val):
        r = self.find(key, True)
        segs = list(self.segs)
        if r is None:
            segs.append(KV(key, val))
        elif r[0] == "kv":
            segs[r[1]] = KV(segs[r[1]].k, val)
        else:
            s = segs[r[1]]
            segs[r[1]] = KRep(s.sym, s.n, s.key, vite(ir.eq(ir.poly(s.sym), r[2]), val, s.val), s.member)
        self.set_segs(segs)


def key_eq(a, b):
    if isinstance(a, T) or isinstance(b, T):
        try:
            return ir.eq(ir.lift(a), ir.lift(b))
        except Unsupported:
            return ir.FALSE
    try:
        return ir.boolc(a == b)
    except Exception:
        return ir.boolc(a is b)


# ------------------------------------------------------------------- objects

class Obj:
    """instance of a repository class"""
    __slots__ = ("cls", "attrs", "birth", "frozen", "tag")

    def __init__(self, cls, attrs=None, tag=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.birth = ctx().tick() if ctx() else 0
        self.frozen = False
        self.tag = tag

    def has(self, name):
        return name in self.attrs

    def read(self, name):
        return self.attrs[name]

    def write(self, name, val):
        if self.frozen:
            raise Unsupported("change of an element of a symbolic sequence")
        a = dict(self.attrs)
        a[name] = val
        ctx().heap.put(self, "attrs", a)


class Dirty:
    """for all binders with guard: attribute at idx is val"""
    __slots__ = ("binders", "guard", "idx", "val", "snap")

    def __init__(self, binders, guard, idx, val):
        self.binders, self.guard, self.idx, self.val = binders, guard, idx, val
        self.snap = None


class Family:
    """objects indexed by integers; dims: bounds of the indices (terms over
    the placeholders of earlier indices)"""
    __slots__ = ("name", "cls", "ctors", "cells", "dirty", "birth", "clsfn", "reads")

    def __init__(self, name, cls, ctors):
        self.name = name
        self.cls = cls
        self.ctors = ctors            # attribute -> fn(*idx) -> value
        self.cells = ()               # ((attr, idx), value, pristine signature)
        self.dirty = ()               # Dirty entries, oldest first: (attr, Dirty)
        self.reads = ()               # (attr, idx) since the last cut
        self.birth = 0

    def at(self, *idx):
        return FamObj(self, tuple(ir.poly(ir.lift(i)) for i in idx))


class FamObj:
    __slots__ = ("fam", "idx")

    def __init__(self, fam, idx):
        self.fam, self.idx = fam, idx

    @property
    def cls(self):
        return self.fam.cls

    def has(self, name):
        return name in self.fam.ctors or any(a == name for a, _ in self.fam.dirty)

    def read(self, name):
        f = self.fam
        if (name, self.idx) not in f.reads:
            ctx().heap.put(f, "reads", f.reads + ((name, self.idx),))
        for (a, ix), v, sig in f.cells:
            if a == name and ix == self.idx:
                return v
        # newest first; cells changed in place count as dirty entries
        over = []
        for a, d in reversed(all_dirty(f)):
            if a != name:
                continue
            if d.binders is None:
                # unknown for all objects
                v = d.val
                break
            env, conds = {}, []
            for p, q in zip(d.idx, self.idx):
                b = single_sym(p)
                if b is not None and any(b is s for s, _ in d.binders) and b not in env:
                    env[b] = q
                else:
                    conds.append((p, q))
            if len(env) != len(d.binders):
                raise Unsupported("update pattern of a family")
            cs = [ir.eq(ir.subst(p, env), q) for p, q in conds]
            for s, n in d.binders:
                cs.append(in_range(env[s], ir.subst(n, env)))
            cs.append(ir.subst(d.guard, env))
            c = ir.band(*cs)
            if c is not ir.TRUE and c is not ir.FALSE:
                k = ctx().known(c)
                if k is None and ctx().solver.quick(ctx().pc, c):
                    k = True
                if k is None and ctx().solver.quick(ctx().pc, ir.bnot(c)):
                    k = False
                if k is not None:
                    c = ir.boolc(k)
            if c is ir.FALSE:
                continue
            nv = vclone(vsubst(d.val, env))
            if c is ir.TRUE:
                v = nv
                break
            over.append((c, nv))
        else:
            v = f.ctors[name](*self.idx) if name in f.ctors else None
        for c, nv in reversed(over):
            v = vite(c, nv, v)
        unfreeze(v)
        ctx().heap.put(f, "cells", f.cells + (((name, self.idx), v, signature(v)),))
        return v

    def write(self, name, val):
        f = self.fam
        cells = tuple(c for c in f.cells if not (c[0][0] == name and c[0][1] == self.idx))
        cells = cells + (((name, self.idx), val, None),)
        # other cells of this attribute may alias: drop the clean ones, keep dirty ones as entries
        ctx().heap.put(f, "cells", cells)


single_sym = ir.single_sym


def in_range(x, n):
    """0 <= x < n, TRUE when x is an index symbol declared with that bound"""
    s = single_sym(ir.poly(x))
    if s is not None and s in ir._ranges and ir.poly(ir._ranges[s]) is ir.as_int(n):
        return ir.TRUE
    return ir.band(ir.le(ir.ZERO, x), ir.lt(x, n))


def signature(v):
    """what an in-place change of v would alter"""
    if isinstance(v, Arr):
        return ("arr", v.store.body)
    if isinstance(v, PySeq):
        return ("seq", tuple(id(s) for s in v.segs))
    if isinstance(v, PyDict):
        return ("dict", tuple(id(s) for s in v.segs))
    if isinstance(v, Obj):
        return ("obj", tuple((k, id(x), signature(x)) for k, x in v.attrs.items()))
    return ("val", v if isinstance(v, T) else id(v))


def all_dirty(fam):
    """explicit entries, then cells that differ from what was constructed"""
    out = list(fam.dirty)
    for (a, ix), v, sig in fam.cells:
        if sig is None or sig != signature(v):
            out.append((a, Dirty((), ir.TRUE, ix, v)))
    return out


def unfreeze(v):
    if isinstance(v, Arr):
        v.store.frozen = False
    elif isinstance(v, (PySeq, PyDict, Obj)):
        v.frozen = False
        if isinstance(v, Obj):
            for x in v.attrs.values():
                unfreeze(x)


def freeze(v, start):
    """forbid changes of what was created after start"""
    if isinstance(v, Arr):
        if v.store.birth > start:
            v.store.frozen = True
    elif isinstance(v, tuple):
        for x in v:
            freeze(x, start)
    elif isinstance(v, PySeq):
        if v.birth > start:
            v.frozen = True
            for s in v.segs:
                freeze_seg(s, start)
    elif isinstance(v, PyDict):
        if v.birth > start:
            v.frozen = True
            for s in v.segs:
                if isinstance(s, KV):
                    freeze(s.v, start)
                elif isinstance(s, KRep):
                    freeze(s.val, start)
    elif isinstance(v, Obj):
        if v.birth > start:
            v.frozen = True
            for x in v.attrs.values():
                freeze(x, start)
    elif isinstance(v, Closure):
        scope_freeze(v.scope, start)
        for x in list(v.defaults) + list(v.kwdefaults.values()):
            freeze(x, start)
    elif isinstance(v, Bound):
        freeze(v.fn, start)
        freeze(v.self, start)
    elif isinstance(v, Opaque):
        for x in v.f.values():
            freeze(x, start)


def freeze_seg(s, start):
    if isinstance(s, One):
        freeze(s.v, start)
    elif isinstance(s, Rep):
        for x in s.segs:
            freeze_seg(x, start)


def vclone(v):
    """independent copy of a value read from a summary"""
    if isinstance(v, Arr):
        if v.store.body is None:
            st = Store(v.shape, None, v.dtype)
            st.blocks = v.store.blocks
            return Arr(st)
        a = arr_of_body(v.shape, v.body(), v.dtype)
        a.store.tag = v.store.tag if v.vmap is None else None
        return a
    if isinstance(v, PySeq):
        return PySeq([One(vclone(s.v)) if isinstance(s, One) else s for s in v.segs], v.kind)
    if isinstance(v, PyDict):
        return PyDict([KV(s.k, vclone(s.v)) if isinstance(s, KV) else s for s in v.segs], v.cls)
    if isinstance(v, Obj):
        return Obj(v.cls, {k: vclone(x) for k, x in v.attrs.items()}, v.tag)
    return v


# ------------------------------------------------- substitution on values

class Closure:
    """function defined by interpreted code"""
    __slots__ = ("node", "scope", "module", "defaults", "kwdefaults", "name", "birth", "cls")

    def __init__(self, node, scope, module, defaults, kwdefaults, name, cls=None):
        self.node, self.scope, self.module = node, scope, module
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, name
        self.birth = ctx().tick() if ctx() else 0
        self.cls = cls


class Bound:
    """method bound to a receiver"""
    __slots__ = ("fn", "self")

    def __init__(self, fn, slf):
        self.fn, self.self = fn, slf


class Opaque:
    """external object handled by models: kind, fields"""
    __slots__ = ("kind", "f", "birth")

    def __init__(self, kind, **f):
        self.kind = kind
        self.f = f
        self.birth = ctx().tick() if ctx() else 0


def vsyms(v):
    if isinstance(v, T):
        return ir.syms(v)
    if isinstance(v, Arr):
        s = frozenset()
        for x in v.shape:
            s |= ir.syms(x)
        if v.store.body is not None:
            s |= ir.syms(v.body())
        for b in (v.store.blocks or ()):
            s |= segsyms([b])
        return s - frozenset(PH)
    if isinstance(v, tuple):
        return frozenset().union(*[vsyms(x) for x in v]) if v else frozenset()
    if isinstance(v, PySeq):
        return segsyms(v.segs)
    if isinstance(v, PyDict):
        s = frozenset()
        for x in v.segs:
            if isinstance(x, KV):
                s |= vsyms(x.k) | vsyms(x.v)
            elif isinstance(x, AccSeg):
                pass
            else:
                s |= (vsyms(x.key) | vsyms(x.val) | ir.syms(x.n)) - {x.sym}
        return s
    if isinstance(v, FamObj):
        return frozenset().union(*[ir.syms(i) for i in v.idx]) if v.idx else frozenset()
    if isinstance(v, Obj):
        return frozenset().union(*[vsyms(x) for x in v.attrs.values()]) if v.attrs else frozenset()
    if isinstance(v, Closure):
        r = scope_syms(v.scope)
        for x in list(v.defaults) + list(v.kwdefaults.values()):
            r |= vsyms(x)
        return r
    if isinstance(v, Bound):
        return vsyms(v.fn) | vsyms(v.self)
    if isinstance(v, Opaque):
        return frozenset().union(*[vsyms(x) for x in v.f.values()]) if v.f else frozenset()
    return frozenset()


def segsyms(segs):
    s = frozenset()
    for x in segs:
        if isinstance(x, One):
            s |= vsyms(x.v)
        elif isinstance(x, AccSeg):
            pass
        else:
            s |= (segsyms(x.segs) | ir.syms(x.n)) - {x.sym}
    return s


def segsubst(segs, env):
    out = []
    for x in segs:
        if isinstance(x, One):
            out.append(One(vsubst(x.v, env)))
        elif isinstance(x, AccSeg):
            out.append(x)
        else:
            e = {k: w for k, w in env.items() if k is not x.sym}
            n = ir.subst(x.n, env)
            f = ir.fresh("e", "I", hi=n)
            e[x.sym] = ir.poly(f)
            out.append(Rep(f, n, segsubst(x.segs, e)))
    return out


def vsubst(v, env):
    """substitute symbols in a value; the result is a snapshot"""
    if isinstance(v, T):
        return ir.subst(v, env)
    if isinstance(v, Arr):
        if not (vsyms(v) & env.keys()):
            return v
        if v.store.body is None:
            st = Store([ir.subst(s, env) for s in v.shape], None, v.dtype)
            st.blocks = segsubst(v.store.blocks, env)
            st.frozen = True
            return Arr(st)
        a = arr_of_body([ir.subst(s, env) for s in v.shape], ir.subst(v.body(), env), v.dtype)
        a.store.tag = vsubst_tag(v.store.tag, env) if v.vmap is None else None
        a.store.frozen = True
        return a
    if isinstance(v, tuple):
        if hasattr(v, "_fields"):
            return type(v)(*[vsubst(x, env) for x in v])
        return tuple(vsubst(x, env) for x in v)
    if not (vsyms(v) & env.keys()):
        return v
    if isinstance(v, PySeq):
        r = PySeq(segsubst(v.segs, env), v.kind)
        r.frozen = True
        return r
    if isinstance(v, PyDict):
        out = []
        for x in v.segs:
            if isinstance(x, KV):
                out.append(KV(vsubst(x.k, env), vsubst(x.v, env)))
            elif isinstance(x, AccSeg):
                out.append(x)
            else:
                e = {k: w for k, w in env.items() if k is not x.sym}
                n = ir.subst(x.n, env)
                f = ir.fresh("e", "I", hi=n)
                e[x.sym] = ir.poly(f)
                m = x.member
                out.append(KRep(f, n, vsubst(x.key, e), vsubst(x.val, e), None if m is None else (lambda k, m=m: _msub(m(k), env))))
        r = PyDict(out, v.cls)
        r.frozen = True
        return r
    if isinstance(v, FamObj):
        return FamObj(v.fam, tuple(ir.poly(ir.subst(i, env)) for i in v.idx))
    if isinstance(v, Obj):
        r = Obj(v.cls, {k: vsubst(x, env) for k, x in v.attrs.items()}, v.tag)
        r.frozen = True
        return r
    if isinstance(v, Closure):
        return Closure(v.node, scope_subst(v.scope, env), v.module, [vsubst(x, env) for x in v.defaults], {k: vsubst(x, env) for k, x in v.kwdefaults.items()}, v.name, v.cls)
    if isinstance(v, Bound):
        return Bound(vsubst(v.fn, env), vsubst(v.self, env))
    if isinstance(v, Opaque):
        return Opaque(v.kind, **{k: vsubst(x, env) for k, x in v.f.items()})
    return v


# A closure refers to the scopes around it.  A scope made by the iteration of a
# loop is another one in each iteration: it goes along when the closure is
# instantiated.  A scope that was there before the loop is shared: what its names
# mean is looked up when the closure runs.
_SCOPES = []
_SCOPY = {}


def scope_vals(vs):
    return [(k, x) for k, x in vars(vs).items() if k not in ("_birth", "_copied") and x is not UNDEF]


def scope_mine(vs, keys):
    """the symbols among keys that the scope itself depends on"""
    if getattr(vs, "_copied", False):
        return keys
    it = ctx().iters
    return {s for s in keys if it.get(s, vs._birth) < vs._birth}


def scope_syms(sc):
    r = frozenset()
    while sc is not None:
        if any(x is sc for x in _SCOPES):
            break
        vs = sc.vars
        if getattr(vs, "_copied", False) or any(b < vs._birth for b in ctx().iters.values()):
            _SCOPES.append(sc)
            try:
                for _, x in scope_vals(vs):
                    if isinstance(x, Poison):
                        parts = x.last or ()
                    else:
                        parts = (x,)
                    for x in parts:
                        r |= frozenset(scope_mine(vs, vsyms(x)))
            finally:
                _SCOPES.pop()
        sc = sc.parent
    return r


def scope_subst(sc, env):
    if sc is None or not (scope_syms(sc) & env.keys()):
        return sc
    if id(sc) in _SCOPY:
        return _SCOPY[id(sc)]
    new = object.__new__(type(sc))
    for a in type(sc).__slots__:
        if a not in ("vars", "parent"):
            setattr(new, a, getattr(sc, a))
    new.vars = Vars(ctx().tick())
    new.vars._copied = True
    _SCOPY[id(sc)] = new
    try:
        new.parent = scope_subst(sc.parent, env)
        mine = scope_mine(sc.vars, set(env))
        e = {k: env[k] for k in mine}
        for k, x in scope_vals(sc.vars):
            if isinstance(x, Poison):
                x = Poison(x.why, x.last and tuple(vsubst(y, e) for y in x.last))
            else:
                x = vsubst(x, e)
            setattr(new.vars, k, x)
    finally:
        del _SCOPY[id(sc)]
    return new


def scope_freeze(sc, start):
    while sc is not None:
        if any(x is sc for x in _SCOPES):
            return
        if sc.vars._birth > start:
            _SCOPES.append(sc)
            try:
                for _, x in scope_vals(sc.vars):
                    freeze(x, start)
            finally:
                _SCOPES.pop()
        sc = sc.parent


def _msub(r, env):
    return None if r is None else (ir.subst(r[0], env), ir.subst(r[1], env))


def vsubst_tag(tag, env):
    if tag is None:
        return None
    return tuple(ir.subst(x, env) if isinstance(x, T) else x for x in tag)


def vite(c, a, b):
    """merge two values under a condition"""
    c = ir.tobool(c)
    if c is ir.TRUE:
        return a
    if c is ir.FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, (int, float, T, Fraction)) and isinstance(b, (int, float, T, Fraction)) and a is not None:
        return ir.ite(c, ir.lift(a), ir.lift(b))
    if isinstance(a, str) or isinstance(b, str):
        return ir.ite(c, ir.lift(a), ir.lift(b))
    if type(a) is type(b) and isinstance(a, (str, int, float, bool)) and a == b:
        return a
    if isinstance(a, Arr) and isinstance(b, Arr):
        if MERGING and min(a.store.birth, b.store.birth) <= MERGING[-1]:
            raise Unsupported("merge of arrays that may change later")
        if shape_eq(a.shape, b.shape) is not ir.TRUE or a.dtype != b.dtype:
            if ctx().entailed(shape_eq(a.shape, b.shape)) is not True:
                raise Unsupported("merge of arrays of different shape")
        r = arr_of_body(a.shape, ir.ite(c, a.body(), b.body()), a.dtype)
        r.store.frozen = True
        return r
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, FamObj) and isinstance(b, FamObj) and a.fam is b.fam:
        return FamObj(a.fam, tuple(ir.poly(ir.ite(c, x, y)) for x, y in zip(a.idx, b.idx)))
    if isinstance(a, PySeq) and isinstance(b, PySeq) and len(a.segs) == len(b.segs) and a.concrete() and b.concrete():
        return PySeq.of([vite(c, x, y) for x, y in zip(a.items(), b.items())], a.kind)
    if type(a) is Obj and type(b) is Obj and a.cls is b.cls and a.tag == b.tag and set(a.attrs) == set(b.attrs) and fresh_here(a, b):
        r = Obj(a.cls, {k: vite(c, x, b.attrs[k]) for k, x in a.attrs.items()}, a.tag)
        r.frozen = True
        return r
    if isinstance(a, PyDict) and isinstance(b, PyDict) and a.cls is b.cls and len(a.segs) == len(b.segs) and fresh_here(a, b) \
            and all(isinstance(s, KV) and isinstance(t, KV) and key_eq(s.k, t.k) is ir.TRUE for s, t in zip(a.segs, b.segs)):
        r = PyDict([KV(s.k, vite(c, s.v, t.v)) for s, t in zip(a.segs, b.segs)], a.cls)
        r.frozen = True
        return r
    raise Unsupported("merge of %s and %s" % (type(a).__name__, type(b).__name__))


# while the paths through a loop body are merged: when the loop began
MERGING = []


def fresh_here(a, b):
    """both made by the iteration: nothing else refers to them"""
    return bool(MERGING) and a.birth > MERGING[-1] and b.birth > MERGING[-1]


def merge_paths(start, c, a, b):
    MERGING.append(start)
    try:
        return vite(c, a, b)
    finally:
        MERGING.pop()
