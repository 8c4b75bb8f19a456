"""Loops over index ranges of symbolic length.

The body is executed once for an arbitrary index j.  What it writes outside
itself is found with the heap journal; each written location is summarised by
an exact formula for the state before iteration j (its invariant) and after
all iterations, and the body is executed again from that state.  A location
for which no such formula is found is unusable afterwards (Poison): there is
no approximation.  Summaries are recognised from the executed body only:

  scalar      acc := acc + f(j)                    -> old + sum_{i<j} f(i)
  scalar      acc := f(j)                          -> f(n-1)   (n > 0)
  array       a[x] := a[x] + f(j, x)               -> old[x] + sum_{i<j} f(i, x)
  array       a[x] := v where g(j, x), the guards of different j exclusive
  list        append/extend of an iteration's items -> items of 0 .. j-1
  dictionary  new keys, different in each iteration
  family      objects indexed by j (and outer indices) written at their index

A loop left early (exception, return, break) is split into the path where no
iteration leaves and the path where the first one that leaves is j0.
"""
from . import ir
from .ir import T, Unsupported
from . import core
from .core import (ctx, Raised, Infeasible, Poison, UNDEF, Vars, AccSeg, Store, Arr, PySeq, PyDict, KV, KRep, One, Rep, Obj,
                   Family, FamObj, Dirty, PH, vsubst, vsyms, vite, segsyms, segsubst, signature)


class Loop:
    def __init__(self, sym, n):
        self.sym = sym
        self.n = n
        self.outer = []
        self.script = []
        self.pos = 0
        self.forks = []
        self.guard = []
        self.own = {sym}
        self.start = 0

    def depends(self, cond):
        return bool(ir.syms(cond) & self.own) or _uses_acc(cond, self)

    def decide(self, cond):
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            v = True
            self.forks.append(self.script + [False])
            self.script = self.script + [True]
        self.pos += 1
        self.guard.append(cond if v else ir.bnot(cond))
        return v


_appnames = {}


def app_names(t):
    """names of function applications in a term"""
    r = _appnames.get(t)
    if r is not None:
        return r
    out = set()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if isinstance(x, ir.App):
            out.add(x.f)
            stack.extend(x.args)
        elif isinstance(x, ir.Poly):
            for m, _ in x.items:
                stack.extend(a for a, _ in m)
        elif isinstance(x, ir.Sum):
            stack.extend(a for a, _ in x.mono)
            stack.extend(n for _, n in x.binders)
        elif isinstance(x, ir.Br):
            stack.append(x.cond)
        elif isinstance(x, ir.PA):
            stack.append(x.poly)
        elif isinstance(x, ir.Cmp):
            stack.append(x.p)
        elif isinstance(x, ir.Bop):
            stack.extend(x.args)
        elif isinstance(x, ir.EqU):
            stack.extend((x.a, x.b))
        elif isinstance(x, (ir.Quant, ir.Lam)):
            stack.append(x.body)
            stack.extend(n for _, n in x.binders)
    r = frozenset(out)
    _appnames[t] = r
    return r


def _uses_acc(t, lp):
    return any(f in lp.own for f in app_names(t))


# ---------------------------------------------------------------- locations

class Loc:
    """an outer location written by the body"""

    def __init__(self, kind, obj, name):
        self.kind, self.obj, self.name = kind, obj, name
        self.key = (kind, id(obj), name)
        self.old = self.get()
        self.summary = None       # fn(bound) -> value
        self.acc = None
        self.guess = None         # summary taken from one path, to be confirmed
        self.note = "not summarised"
        # a dictionary of fixed keys: the keys whose values change
        self.changed = None
        if isinstance(obj, PyDict) and name == "segs" and self.old and all(isinstance(s, KV) and isinstance(s.k, str) for s in self.old):
            self.changed = set()

    def get(self):
        if self.kind == "attr":
            return self.obj.attrs.get(self.name, UNDEF)
        return getattr(self.obj, self.name, UNDEF)

    def confirmed(self, normal, jt, start):
        """the guessed state before an iteration leads to the guessed state
        after it, on every path"""
        if self.guess is False:
            return True
        v = merged(self, normal, start)
        if isinstance(v, (Poison, _Undef)) or not isinstance(v, (int, T)) or isinstance(v, bool):
            return False
        return ir.poly(ir.sub(ir.lift(v), self.summary(jt))) is ir.poly(self.guess)

    def put(self, v):
        h = ctx().heap
        if self.kind == "attr":
            a = dict(self.obj.attrs)
            if v is UNDEF:
                a.pop(self.name, None)
            else:
                a[self.name] = v
            h.put(self.obj, "attrs", a)
        elif v is UNDEF:
            h.log.append((self.obj, self.name, getattr(self.obj, self.name, UNDEF)))
            if hasattr(self.obj, self.name):
                delattr(self.obj, self.name)
        else:
            h.put(self.obj, self.name, v)


def birth(o):
    if isinstance(o, Vars):
        return o._birth
    return getattr(o, "birth", 0)


def written(log, start):
    """outer locations in a journal segment"""
    out = {}
    for obj, field, old in log:
        if birth(obj) > start:
            continue
        if isinstance(obj, Family):
            out[("fam", id(obj), "")] = ("fam", obj, "")
        elif isinstance(obj, Obj) and field == "attrs":
            cur = obj.attrs
            prev = old if isinstance(old, dict) else {}
            for k in set(cur) | set(prev):
                if cur.get(k, UNDEF) is not prev.get(k, UNDEF):
                    out[("attr", id(obj), k)] = ("attr", obj, k)
        elif isinstance(obj, Obj):
            out[("attr", id(obj), field)] = ("attr", obj, field)
        elif isinstance(obj, Store) and field == "tag":
            continue
        else:
            out[("f", id(obj), field)] = ("f", obj, field)
    return out


# --------------------------------------------------------------------- main

def genloop(sym, n, body, sc):
    """If the loop cannot be summarised as it is, its first iteration is
    executed separately (a variable may start as None or 0 and be an array
    from then on)."""
    c = ctx()
    n = ir.as_int(n)
    base, start = c.heap.mark(), c.tick()
    pc0, set0, nobl, ncall = list(c.pc), set(c.pcset), len(c.obls), c.ncall
    nloops, nframes = len(c.loops), len(c.frames)
    tried = []
    try:
        return _genloop(n, body, ir.ZERO, tried)
    except Unsupported:
        del c.loops[nloops:]
        del c.frames[nframes:]
        c.heap.undo(base, start)
        c.pc[:] = pc0
        c.pcset.clear()
        c.pcset.update(set0)
        del c.obls[nobl:]
        c.ncall = ncall
        for f in list(tried[0].outer):
            c.assume(f)
    if not c.decide(ir.lt(ir.ZERO, n)):
        return
    c.frames.append(ir.ZERO)
    try:
        body(ir.ZERO)
    finally:
        c.frames.pop()
    n1 = c.ncall
    c.ncall = ncall
    try:
        _genloop(ir.as_int(ir.sub(n, ir.ONE)), lambda i: body(ir.add(i, ir.ONE)), ir.ONE, [])
    finally:
        c.ncall = max(c.ncall, n1)


def _genloop(n, body, shift, tried):
    c = ctx()
    j = ir.fresh("j", "I", hi=n)
    jt = ir.poly(j)
    base = c.heap.mark()
    start = c.tick()
    c.iters[j] = start
    lp = Loop(j, n)
    tried.append(lp)
    lp.start = start
    lp.shift = shift
    pc0, set0, nobl = list(c.pc), set(c.pcset), len(c.obls)
    ncall = [c.ncall, c.ncall]

    locs = {}
    fams = {}

    def restore():
        c.heap.undo(base, start)
        c.pc[:] = pc0
        c.pcset.clear()
        c.pcset.update(set0)
        for f in list(lp.outer):
            c.assume(f)

    def install(upto, exact=False):
        """state before iteration upto"""
        for l in locs.values():
            if l.summary is not None:
                l.put(l.summary(upto))
            else:
                l.put(placeholder(l, lp))
        for f in fams.values():
            if not exact:
                f.install()

    def run_paths():
        """-> list of (guard, outcome, {loc key: value}, family changes)"""
        res = []
        stack = [[]]
        found = {}
        while stack:
            lp.script = stack.pop()
            lp.pos, lp.forks, lp.guard = 0, [], []
            restore()
            c.ncall = ncall[0]
            install(jt)
            mark = c.heap.mark()
            c.loops.append(lp)
            c.frames.append(ir.add(jt, shift))
            out = None
            try:
                c.assume(ir.lt(ir.ZERO, n))
                body(jt)
                out = ("ok", None)
            except Infeasible:
                out = ("dead", None)
            except Raised as e:
                out = ("exit", e)
            except BaseException as e:
                if type(e).__name__ in ("Break", "Return"):
                    out = ("exit", e)
                else:
                    c.loops.pop()
                    c.frames.pop()
                    restore()
                    raise
            c.loops.pop()
            c.frames.pop()
            ncall[1] = max(ncall[1], c.ncall)
            stack.extend(lp.forks)
            if len(res) > 64:
                restore()
                raise Unsupported("too many paths in a loop body")
            if out[0] == "dead":
                continue
            w = written(c.heap.log[mark:], start)
            for k, v in w.items():
                found.setdefault(k, v)
            for _, o, _ in [v for v in w.values() if v[0] == "fam"]:
                reads.setdefault(id(o), (o, {}))[1].update(dict.fromkeys(o.reads))
            vals = {l.key: l.get() for l in locs.values()}
            fch = {k: f.changes(j) for k, f in fams.items()} if out[0] == "ok" else {}
            dirtyfam = {id(f): f for f in [v[1] for v in w.values() if v[0] == "fam"] if fam_changed(f, c.heap.log[mark:])}
            for k in [k for k, v in found.items() if v[0] == "fam" and v[1] is not None and id(v[1]) not in dirtyfam and k not in fams]:
                if k in w:
                    del found[k]
            res.append((ir.band(*lp.guard), out[0], vals, fch))
            if len(res) == 1 and out[0] == "ok" and stack and guesses(locs.values(), vals, lp, jt):
                restore()
                return None, found
        return res, found

    rounds = 0
    reads = {}
    while True:
        rounds += 1
        if rounds > 12:
            restore()
            raise Unsupported("loop summary does not converge")
        del c.obls[nobl:]
        reads.clear()
        res, found = run_paths()
        if res is None:
            continue
        restore()
        wrong = [l for l in locs.values() if l.guess is not None and not l.confirmed([r for r in res if r[1] == "ok"], jt, start)]
        if wrong:
            for l in wrong:
                l.summary, l.guess, l.acc = None, False, None
            continue
        for l in locs.values():
            # not a guess any more
            if isinstance(l.guess, T):
                l.guess = None
        new = False
        for k, (kind, obj, name) in found.items():
            if kind == "fam":
                if k not in fams:
                    fams[k] = FamLoop(obj, lp)
                    new = True
            elif k not in locs:
                locs[k] = Loc(kind, obj, name)
                new = True
        if new:
            continue
        # try to summarise what is not summarised yet
        progress = False
        normal = [r for r in res if r[1] == "ok"]
        if not normal:
            break
        for l in locs.values():
            if l.summary is None:
                if summarise(l, normal, lp, jt, n):
                    progress = True
        for f in fams.values():
            if f.update([(r[0], r[3].get(f.key)) for r in normal], j, n):
                progress = True
        if not progress:
            break

    restore()
    for l in locs.values():
        if l.summary is None and l.acc is not None and not isinstance(l.obj, Store):
            keeps_kind(l, [r for r in res if r[1] == "ok"])
    for o, rs in reads.values():
        # the loops around this one must know
        c.heap.put(o, "reads", tuple(dict.fromkeys(o.reads + tuple(rs))))
    c.ncall = ncall[1]
    exits = [r for r in res if r[1] == "exit"]
    pend = list(c.obls[nobl:])
    if exits:
        eg = ir.bor(*[r[0] for r in exits])
        if uses_own(eg, lp, allow_sym=True):
            raise Unsupported("loop left under a condition on its own state")
        some = exists_index(j, n, eg)
        if c.decide(some):
            # the first iteration that leaves
            if j in ir.syms(eg):
                j0 = ir.fresh("first", "I", hi=n)
                t0 = ir.poly(j0)
                if c.loops:
                    raise Unsupported("inner loop left early under its own condition")
                c.assume(ir.subst(eg, {j: t0}))
                i = ir.fresh("i", "I", hi=t0)
                c.assume(ir.mkquant("forall", [(i, t0)], ir.bnot(ir.subst(eg, {j: ir.poly(i)}))))
            else:
                t0 = ir.ZERO
            install(t0, True)
            for f in fams.values():
                f.finish(t0)
            # the same calls as in the iterations, at t0
            c.ncall = ncall[0]
            c.frames.append(ir.add(ir.poly(t0), shift))
            try:
                body(t0)
            finally:
                c.frames.pop()
                c.ncall = max(c.ncall, ncall[1])
            raise Unsupported("loop exit not reproduced")
        if j in ir.syms(eg):
            i = ir.fresh("i", "I", hi=n)
            c.assume(ir.mkquant("forall", [(i, n)], ir.bnot(ir.subst(eg, {j: ir.poly(i)}))))
    if not [r for r in res if r[1] == "ok"]:
        # nothing runs through: the loop is empty
        return
    # state after the loop
    for l in locs.values():
        if l.summary is not None:
            l.put(l.summary(n))
        else:
            last = final_value(l, res, lp, j, n)
            l.put(last)
    for f in fams.values():
        f.finish(n)


def guesses(locs, vals, lp, jt):
    """the body branches on a running sum: take its increment from the first
    path (to be confirmed on all of them)"""
    found = False
    used = set().union(*[ir.syms(g) for g in lp.guard])
    for l in locs:
        if l.summary is not None or l.guess is not None or l.acc is None or isinstance(l.old, Arr) or isinstance(l.obj, Store) or l.acc[0] not in used:
            continue
        v = vals[l.key]
        if isinstance(v, bool) or not isinstance(v, (int, T)) or ir.lift(v).sort not in ("I", l.acc[1]):
            continue
        d = ir.sub(ir.lift(v), ir.poly(l.acc[0]))
        if uses_own(d, lp, allow_sym=True):
            continue
        old = ir.as_real(ir.lift(l.old)) if l.acc[1] == "R" else ir.lift(l.old)
        l.guess = d
        l.summary = lambda b, d=d, old=old: summed(old, d, lp.sym, b, lp)
        found = True
    return found


def exists_index(j, n, cond):
    if j not in ir.syms(cond):
        return ir.band(cond, ir.lt(ir.ZERO, n))
    return ir.mkquant("exists", [(j, n)], cond)


def uses_own(t, lp, allow_sym=False):
    s = lp.own & ir.syms(t)
    if allow_sym:
        s = s - {lp.sym}
    return bool(s) or _uses_acc(t, lp)


# -------------------------------------------------------------- placeholders

def placeholder(l, lp):
    o = l.old
    if isinstance(l.obj, Store) and l.name == "body":
        st = l.obj
        if l.acc is None:
            name = "acc!%d" % ctx().tick()
            lp.own.add(name)
            l.acc = (name, o.sort if o is not None else "R")
        if o is None:
            raise Unsupported("update of a concatenation of unequal blocks in a loop")
        return ir.app(l.acc[0], [ir.poly(p) for p in PH[:len(st.shape)]], o.sort)
    if l.changed is not None:
        return [KV(s.k, Poison("changes in a loop")) if s.k in l.changed else s for s in o]
    if isinstance(l.obj, (PySeq, PyDict)) and l.name == "segs":
        return [AccSeg()]
    if isinstance(o, (bool, T)) and not isinstance(o, bool) and o.sort in ("I", "R") or (isinstance(o, int) and not isinstance(o, bool)):
        sort = getattr(l, "sort", None) or ("I" if isinstance(o, int) or o.sort == "I" else "R")
        if l.acc is None:
            s = ir.fresh("acc", sort)
            lp.own.add(s)
            l.acc = (s, sort)
        return ir.poly(l.acc[0])
    if isinstance(o, Arr) and not isinstance(l.obj, Store) and o.dtype in ("f", "i"):
        # a variable that refers to another array after each iteration
        sort = getattr(l, "sort", None) or ("I" if o.dtype == "i" else "R")
        if l.acc is None:
            name = "acc!%d" % ctx().tick()
            lp.own.add(name)
            l.acc = (name, sort)
        return frozen_array(o.shape, ir.app(l.acc[0], [ir.poly(p) for p in PH[:len(o.shape)]], sort), sort)
    return Poison("changes in a loop")


def frozen_array(shape, body, sort):
    """array that cannot be written: it may be another one's alias"""
    st = Store(shape, ir.as_real(body) if sort == "R" else ir.as_int(body), "f" if sort == "R" else "i")
    st.frozen = True
    return Arr(st)


def keeps_kind(l, normal):
    """the body was executed with a number (an array) in this place"""
    for _, _, vals, _ in normal:
        v = vals[l.key]
        if isinstance(l.old, Arr):
            ok = isinstance(v, Arr) and core.shape_eq(v.shape, l.old.shape) is ir.TRUE and (v.dtype in ("f", "i") and (v.dtype == "i" or l.acc[1] == "R"))
        else:
            ok = isinstance(v, (int, T)) and not isinstance(v, bool) and (ir.lift(v).sort == "I" or ir.lift(v).sort == l.acc[1])
        if not ok:
            raise Unsupported("a variable changes its type in a loop")


# ----------------------------------------------------------------- summaries

def merged(l, normal, start):
    v = None
    for g, _, vals, _ in reversed(normal):
        x = vals[l.key]
        if v is None:
            v = x
        elif x is UNDEF or v is UNDEF or isinstance(x, Poison) or isinstance(v, Poison):
            return Poison("assigned on some paths only")
        else:
            v = core.merge_paths(start, g, x, v)
    return v


def summarise(l, normal, lp, jt, n):
    try:
        return _summarise(l, normal, lp, jt, n)
    except Unsupported as e:
        l.note = str(e)
        return False


def _summarise(l, normal, lp, jt, n):
    j = lp.sym
    o = l.old
    if isinstance(l.obj, PySeq) and l.name == "segs":
        return sum_seq(l, normal, lp, j)
    if l.changed is not None:
        return fixed_keys(l, normal)
    if isinstance(l.obj, PyDict) and l.name == "segs":
        return sum_dict(l, normal, lp, j)
    v = merged(l, normal, lp.start)
    if isinstance(l.obj, Store) and l.name == "body":
        return sum_array(l, v, lp, j)
    if isinstance(o, Arr):
        return sum_rebound(l, v, lp, j)
    if l.acc is not None and not isinstance(v, (Poison, _Undef)) and isinstance(v, (int, T)) and not isinstance(v, bool):
        v = ir.lift(v)
        if v.sort not in ("I", "R"):
            return False
        v = ir.poly(v)
        s, sort = l.acc
        if v.sort == "R" and sort == "I":
            l.sort = "R"
            l.acc = None
            # run again with a real accumulator
            return True
        d = ir.sub(v, ir.poly(s))
        if s not in ir.syms(d):
            if uses_own(d, lp, allow_sym=True):
                return False
            old = ir.lift(o)
            if sort == "R":
                old = ir.as_real(old)

            l.summary = lambda b, d=d, old=old: summed(old, d, j, b, lp)
            return True
    return False


_Undef = type(UNDEF)


def summed(old, d, j, b, lp):
    """old plus the sum of d for the iterations before b"""
    b = ir.as_int(ir.lift(b))
    if j not in ir.syms(d):
        return ir.add(old, ir.mul(d, b))
    if lp.shift is ir.ONE:
        # the iteration executed separately was of the same kind: with
        # g(i + 1) = d(i),  sum_{i<b} d(i) = sum_{i<b+1} g(i) - g(0)
        old = ir.sub(old, ir.subst(d, {j: ir.num(-1)}))
        d = ir.subst(d, {j: ir.sub(ir.poly(j), ir.ONE)})
        b = ir.as_int(ir.add(b, ir.ONE))
    f = ir.fresh("i", "I", hi=b)
    return ir.add(old, ir.ssum(f, b, ir.subst(d, {j: ir.poly(f)})))


def sum_rebound(l, v, lp, j):
    o = l.old
    if l.acc is None or not isinstance(v, Arr) or v.store.undef or v.store.stale or v.dtype not in ("f", "i"):
        return False
    if core.shape_eq(v.shape, o.shape) is not ir.TRUE:
        return False
    name, sort = l.acc
    if v.dtype == "f" and sort == "I":
        # run again with real elements
        l.sort = "R"
        l.acc = None
        return True
    body = ir.poly(v.body())
    d = ir.sub(body, ir.app(name, [ir.poly(p) for p in PH[:len(o.shape)]], sort))
    if uses_own(d, lp, allow_sym=True):
        return False
    old = ir.poly(o.body())
    if sort == "R":
        old = ir.as_real(old)

    def summary(b):
        return frozen_array(o.shape, summed(old, d, j, b, lp), sort)
    l.summary = summary
    return True


def sum_array(l, v, lp, j):
    name, sort = l.acc
    st = l.obj
    idx = [ir.poly(p) for p in PH[:len(st.shape)]]
    if sort == "B":
        return False
    accp = ir.app(name, idx, sort)
    at = accp.items[0][0][0][0]
    v = same_element(ir.poly(v), name, idx, at)
    # v = R + (1-G) * acc
    rest, coef = {}, {}
    for m, k in v.items:
        dm = dict(m)
        e = dm.pop(at, 0)
        if e == 0:
            rest[m] = k
        elif e == 1:
            coef[tuple(sorted(dm.items(), key=lambda ae: ae[0].id))] = k
        else:
            return False
    R = ir.mkpoly(rest, v.sort)
    K = ir.mkpoly(coef, "I" if all(a.sort == "I" for m in coef for a, _ in m) else "R")
    G = ir.sub(ir.ONE, K)
    if uses_own(R, lp, True) or uses_own(G, lp, True):
        return False
    old = l.old
    if ir.const(G) != 0:
        # overwritten where G: different iterations must not overlap
        if ir.mul(G, G) is not G and ir.as_real(ir.mul(G, G)) is not ir.as_real(G):
            return False
        if ir.as_real(ir.mul(R, G)) is not ir.as_real(R):
            return False
        i2 = ir.fresh("i", "I", hi=lp.n)
        x = {p: ir.poly(ir.fresh("x", "I", hi=s)) for p, s in zip(PH, st.shape)}
        G1 = ir.subst(G, x)
        G2 = ir.subst(G1, {j: ir.poly(i2)})
        both = ir.band(ir.ne(G1, ir.ZERO), ir.ne(G2, ir.ZERO))
        same = ir.implies(both, ir.eq(ir.poly(j), ir.poly(i2)))
        c = ctx()
        if not (same is ir.TRUE or c.solver.quick(c.pc, same)):
            return False

    def summary(b):
        b = ir.as_int(ir.lift(b))
        f = ir.fresh("i", "I", hi=b)
        e = {j: ir.poly(f)}
        r = ir.add(ir.mul(old, ir.sub(ir.ONE, ir.ssum(f, b, ir.subst(G, e)))), ir.ssum(f, b, ir.subst(R, e)))
        return ir.as_real(r) if sort == "R" else ir.as_int(r)
    l.summary = summary
    return True


def same_element(v, name, idx, at):
    """acc(x) where a bracket of the term says that x is this element"""
    d = {}
    for m, k in v.items:
        dm = {}
        for a, e in m:
            if isinstance(a, ir.App) and a.f == name and a is not at:
                env = {}
                for b, _ in m:
                    if isinstance(b, ir.Br) and isinstance(b.cond, ir.Cmp) and b.cond.op == "eq":
                        for p in PH[:len(idx)]:
                            lin = ir.linear_in(b.cond.p, p) if p in ir.syms(b.cond) else None
                            if lin is not None and abs(lin[0]) == 1 and p not in env:
                                env[p] = ir.as_int(ir.scale(lin[1], -1 / lin[0]))
                if all(ir.poly(ir.subst(x, env)) is ir.poly(y) for x, y in zip(idx, a.args)):
                    a = at
            dm[a] = dm.get(a, 0) + e
        t = tuple(sorted(dm.items(), key=lambda ae: ae[0].id))
        d[t] = d.get(t, 0) + k
    return ir.mkpoly({m: k for m, k in d.items() if k}, v.sort)


def sum_seq(l, normal, lp, j):
    outs = []
    for g, _, vals, _ in normal:
        segs = vals[l.key]
        if not segs or not isinstance(segs[0], AccSeg):
            return False
        outs.append(segs[1:])
    first = outs[0]
    if len(outs) > 1:
        # the same number of items on every path: merge them
        if not all(len(o) == len(first) and all(isinstance(s, One) for s in o) for o in outs):
            return False
        m = list(outs[-1])
        for (g, _, _, _), o in zip(reversed(normal[:-1]), reversed(outs[:-1])):
            m = [One(core.merge_paths(lp.start, g, a.v, b.v)) for a, b in zip(o, m)]
        first = m
    if any(bool(lp.own - {j} & segsyms([s])) for s in first):
        return False
    if not first:
        l.summary = lambda b: list(l.old)
        return True
    freeze_segs(first, lp.start)
    if seg_uses_acc(first, lp):
        return False
    old = l.old

    def summary(b):
        b = ir.as_int(ir.lift(b))
        f = ir.fresh("e", "I", hi=b)
        return list(old) + [Rep(f, b, segsubst(first, {j: ir.poly(f)}))]
    l.summary = summary
    return True


def seg_uses_acc(segs, lp):
    return any(val_uses_acc(s.v, lp) if isinstance(s, One) else seg_uses_acc(s.segs, lp) for s in segs)


def val_uses_acc(v, lp):
    if isinstance(v, T):
        return _uses_acc(v, lp)
    if isinstance(v, Arr):
        return v.store.body is not None and _uses_acc(v.body(), lp)
    if isinstance(v, tuple):
        return any(val_uses_acc(x, lp) for x in v)
    if isinstance(v, PySeq):
        return any(isinstance(s, AccSeg) for s in v.segs) or seg_uses_acc(v.segs, lp)
    if isinstance(v, PyDict):
        return any(isinstance(s, AccSeg) or val_uses_acc(s.v if isinstance(s, KV) else s.val, lp) for s in v.segs)
    if isinstance(v, Obj):
        return any(val_uses_acc(x, lp) for x in v.attrs.values())
    if isinstance(v, Poison):
        return True
    if isinstance(v, core.Closure):
        return any(val_uses_acc(x, lp) for x in list(v.defaults) + list(v.kwdefaults.values())) or scope_uses_acc(v.scope, lp)
    if isinstance(v, core.Bound):
        return val_uses_acc(v.fn, lp) or val_uses_acc(v.self, lp)
    if isinstance(v, core.Opaque):
        return any(val_uses_acc(x, lp) for x in v.f.values())
    return False


def scope_uses_acc(sc, lp):
    while sc is not None:
        if any(x is sc for x in core._SCOPES):
            return False
        if sc.vars._birth > lp.start:
            core._SCOPES.append(sc)
            try:
                if any(val_uses_acc(x, lp) for _, x in core.scope_vals(sc.vars)):
                    return True
            finally:
                core._SCOPES.pop()
        sc = sc.parent
    return False


def freeze_segs(segs, start):
    for s in segs:
        if isinstance(s, One):
            core.freeze(s.v, start)
        elif isinstance(s, Rep):
            freeze_segs(s.segs, start)


def sum_dict(l, normal, lp, j):
    if len(normal) != 1:
        ks = [[s.k for s in vals[l.key][1:]] for _, _, vals, _ in normal]
        if any(len(k) != len(ks[0]) or any(core.key_eq(a, b) is not ir.TRUE for a, b in zip(k, ks[0])) for k in ks):
            return False
    segs = normal[0][2][l.key]
    if not segs or not isinstance(segs[0], AccSeg) or not all(isinstance(s, KV) for s in segs[1:]):
        return False
    new = []
    for i, s in enumerate(segs[1:]):
        v = None
        for g, _, vals, _ in reversed(normal):
            x = vals[l.key][1 + i].v
            v = x if v is None else core.merge_paths(lp.start, g, x, v)
        new.append(KV(s.k, v))
    if not new:
        l.summary = lambda b: list(l.old)
        return True
    if len(new) > 1:
        return False
    key, val = new[0].k, new[0].v
    if not isinstance(key, T) or j not in ir.syms(key):
        return False
    i2 = ir.fresh("i", "I", hi=lp.n)
    e = ir.eq(key, ir.subst(key, {j: ir.poly(i2)}))
    same = ir.implies(e, ir.eq(ir.poly(j), ir.poly(i2)))
    c = ctx()
    if not (same is ir.TRUE or c.solver.quick(c.pc, same)):
        l.note = "keys of different iterations may agree"
        return False
    for s in l.old:
        if isinstance(s, KV):
            d = core.key_eq(s.k, key)
            if d is not ir.FALSE and not c.solver.quick(c.pc, ir.bnot(d)):
                return False
        else:
            return False
    if val_uses_acc(val, lp) or (lp.own - {j}) & vsyms(val):
        return False
    core.freeze(val, lp.start)
    old = l.old

    def summary(b):
        b = ir.as_int(ir.lift(b))
        f = ir.fresh("e", "I", hi=b)
        env = {j: ir.poly(f)}
        kf = ir.subst(key, env)

        def member(k, f=f, b=b, kf=kf):
            if not isinstance(k, (str, T)):
                return None
            eqn = ir.eq(kf, ir.lift(k))
            if eqn is ir.FALSE:
                return None
            from .interp import solve_index
            r = solve_index(eqn, f, b)
            if r is None:
                raise Unsupported("look-up in a dictionary built by a loop: %s" % ir.show(eqn)[:200])
            return r
        return list(old) + [KRep(f, b, kf, vsubst(val, env), member)]
    l.summary = summary
    return True


def fixed_keys(l, normal):
    """the same keys after the iteration? -> something learnt"""
    for _, _, vals, _ in normal:
        segs = vals[l.key]
        if len(segs) != len(l.old) or not all(isinstance(s, KV) and isinstance(s.k, str) and s.k == t.k for s, t in zip(segs, l.old)):
            l.changed = None
            return True
    new = {s.k for _, _, vals, _ in normal for s, t in zip(vals[l.key], l.old) if s.v is not t.v and s.k not in l.changed}
    l.changed |= new
    return bool(new)


def final_value(l, res, lp, j, n):
    """value after the loop of a location that is overwritten in each iteration"""
    normal = [r for r in res if r[1] == "ok"]
    if l.changed is not None:
        return [KV(s.k, Poison("assigned in a loop")) if s.k in l.changed else s for s in l.old]
    if isinstance(l.obj, (PySeq, PyDict)):
        raise Unsupported("update of a container in a loop: %s" % l.note)
    try:
        v = merged(l, normal, lp.start)
    except Unsupported as e:
        if isinstance(l.obj, Store):
            raise
        return Poison(str(e))
    if isinstance(v, (PySeq, PyDict, Obj)) or v is UNDEF:
        return Poison("assigned in a loop")
    if isinstance(v, Poison):
        return v
    if isinstance(l.obj, Store):
        if l.name != "body":
            raise Unsupported("update of an array in a loop")
        if not isinstance(v, T) or uses_own(v, lp, True):
            raise Unsupported("update of an array in a loop: %s" % l.note)
    elif val_uses_acc(v, lp) or (lp.own - {j}) & vsyms(v):
        if l.kind == "attr" and not isinstance(l.obj, Obj):
            raise Unsupported("update in a loop")
        return Poison("value carried through a loop")
    if ctx().entailed(ir.lt(ir.ZERO, n)) is not True:
        if isinstance(l.obj, Store) or l.kind == "attr":
            if not isinstance(v, (T, int, Arr)):
                raise Unsupported("last value of a loop that may be empty")
            return vite(ir.lt(ir.ZERO, n), vsubst(v, {j: ir.sub(n, ir.ONE)}), l.old)
        return Poison("last value of a loop that may be empty", (vsubst(v, {j: ir.sub(n, ir.ONE)}), n, l.old))
    return vsubst(v, {j: ir.sub(n, ir.ONE)})


# ------------------------------------------------------------------ families

def fam_changed(f, log):
    """did this journal segment change an object of the family (as opposed to
    only creating its description)?"""
    first = None
    for obj, field, old in log:
        if obj is f and field == "dirty":
            return True
        if obj is f and first is None and field == "cells":
            first = old
    before = {(k, id(v)): None for k, v, _ in (first or ())}
    prev = {k: (v, sig) for k, v, sig in (first or ())}
    for k, v, sig in f.cells:
        if k in prev and prev[k][0] is v:
            # changed in place since the beginning of the segment?
            if sig is None or sig != signature(v):
                if ("chk", k) in before:
                    pass
                if _changed_in(log, v):
                    return True
            continue
        if sig is None or sig != signature(v):
            return True
    return False


def _changed_in(log, v):
    stores = set()
    collect(v, stores)
    return any(id(o) in stores for o, _, _ in log)


def collect(v, out):
    if isinstance(v, Arr):
        out.add(id(v.store))
    elif isinstance(v, (PySeq, PyDict)):
        out.add(id(v))
    elif isinstance(v, Obj):
        out.add(id(v))
        for x in v.attrs.values():
            collect(x, out)


class FamLoop:
    """objects of a family changed by a loop body"""

    def __init__(self, fam, lp):
        self.fam = fam
        self.lp = lp
        self.key = ("fam", id(fam), "")
        self.entries = []          # (attr, Dirty) per iteration, over lp.sym
        self.known = None
        self.over = set()          # attributes each iteration sets for the same objects

    def install(self):
        """earlier changes become entries, live references are cut"""
        f = self.fam
        h = ctx().heap
        d = list(f.dirty)
        for (a, ix), v, sig in f.cells:
            if sig is None or sig != signature(v):
                d.append((a, Dirty((), ir.TRUE, ix, core.vclone(v))))
            cut(v)
        d.extend((a, Dirty(None, ir.TRUE, None, Poison("set by an earlier iteration"))) for a in sorted(self.over))
        h.put(f, "dirty", tuple(d))
        h.put(f, "cells", ())
        h.put(f, "reads", ())
        self.n0 = len(d)

    def changes(self, j):
        """(attr, idx, value, binders, guard) written by this iteration"""
        out = []
        f = self.fam
        for a, d in f.dirty[self.n0:]:
            out.append((a, d.idx, d.val, d.binders, d.guard))
        for (a, ix), v, sig in f.cells:
            if sig is None or sig != signature(v):
                out.append((a, ix, core.vclone(v), (), ir.TRUE))
        return out, f.reads

    def update(self, paths, j, n):
        entries = []
        wattrs = {}
        for g, ch in paths:
            if ch is None:
                continue
            for a, ix, v, binders, guard in ch[0]:
                if not any(core.single_sym(p) is j for p in ix):
                    if j in frozenset().union(*[ir.syms(p) for p in ix], ir.syms(guard), *[ir.syms(b) for _, b in binders]) or len(paths) > 1:
                        raise Unsupported("a loop writes the same object of a family in several iterations")
                    if a not in self.over:
                        # once more, with nothing left over from other iterations
                        self.over.add(a)
                        return True
                elif a in self.over:
                    raise Unsupported("a loop writes the same object of a family in several iterations")
                if val_uses_acc(v, self.lp):
                    raise Unsupported("family value carried through a loop")
                wattrs.setdefault(a, []).append((ix, binders))
                entries.append((a, Dirty(((j, n),) + tuple(binders), guard if len(paths) == 1 else ir.band(g, guard), ix, v)))
        for g, ch in paths:
            if ch is None:
                continue
            for a, ix in ch[1]:
                if a in wattrs and a not in self.over:
                    for wix, binders in wattrs[a]:
                        if not same_pattern(ix, wix, j, binders):
                            raise Unsupported("an iteration reads what another one may have written")
        sig = tuple((a, d.idx, d.guard, signature(d.val)) for a, d in entries)
        if sig == self.known:
            return False
        self.known = sig
        self.entries = entries
        return False

    def finish(self, bound):
        f = self.fam
        h = ctx().heap
        reads = f.reads
        over, self.over = self.over, set()
        self.install()
        self.over = over
        h.put(f, "reads", reads)
        new = []
        for a, d in self.entries:
            (j, n), rest = d.binders[0], d.binders[1:]
            core.freeze(d.val, -1)
            if a in over:
                b = ir.as_int(ir.lift(bound))
                new.append((a, Dirty(rest, ir.band(ir.subst(d.guard, {j: ir.sub(b, ir.ONE)}), ir.lt(ir.ZERO, b)), d.idx, vsubst(d.val, {j: ir.sub(b, ir.ONE)}))))
                continue
            new.append((a, Dirty(((j, ir.as_int(ir.lift(bound))),) + rest, d.guard, d.idx, d.val)))
        h.put(f, "dirty", f.dirty + tuple(new))


def same_pattern(ix, wix, j, binders):
    """two iterations cannot touch each other's objects"""
    return any(core.single_sym(p) is j and core.single_sym(q) is j for p, q in zip(ix, wix))


def cut(v):
    """references held elsewhere must not be written any more"""
    if isinstance(v, Arr):
        v.store.frozen = True
    elif isinstance(v, (PySeq, PyDict)):
        v.frozen = True
    elif isinstance(v, Obj):
        v.frozen = True
        for x in v.attrs.values():
            cut(x)


def branches(fn, own):
    """run fn() for arbitrary values of the symbols own: [(guard, value)]"""
    c = ctx()
    lp = Loop(sorted(own, key=lambda s: s.name)[0] if own else ir.fresh("z", "I"), ir.ONE)
    lp.own = set(own)
    lp.own.add(lp.sym)
    base = c.heap.mark()
    start = c.tick()
    pc0, set0 = list(c.pc), set(c.pcset)
    res = []
    stack = [[]]
    while stack:
        lp.script = stack.pop()
        lp.pos, lp.forks, lp.guard = 0, [], []
        c.pc[:] = pc0
        c.pcset.clear()
        c.pcset.update(set0)
        for f in list(lp.outer):
            c.assume(f)
        mark = c.heap.mark()
        c.loops.append(lp)
        c.frames.append(ir.poly(lp.sym))
        try:
            v = fn()
        except Infeasible:
            v = UNDEF
        except Raised as e:
            raise Unsupported("exception %s in an element-wise function" % e.cls.__name__)
        finally:
            c.loops.pop()
            c.frames.pop()
        stack.extend(lp.forks)
        if written(c.heap.log[mark:], start):
            raise Unsupported("side effect in an element-wise function")
        if v is not UNDEF:
            res.append((ir.band(*lp.guard), v))
        if len(res) > 64:
            raise Unsupported("too many paths")
    c.pc[:] = pc0
    c.pcset.clear()
    c.pcset.update(set0)
    for f in list(lp.outer):
        c.assume(f)
    return res


def merge_branches(res):
    v = None
    for g, x in reversed(res):
        v = x if v is None else vite(g, x, v)
    return v
