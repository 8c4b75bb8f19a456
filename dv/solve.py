"""Back ends: z3 (and cvc5 on what z3 leaves open).

Terms arrive in canonical form; polynomials are expanded over atoms, atoms the
solvers do not know (sums, applications) become uninterpreted functions with
the instances of the axioms listed in axioms().
"""
import sys
import time
from fractions import Fraction

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402

from . import ir  # noqa: E402
from .ir import Unsupported  # noqa: E402

S = z3.DeclareSort("S")
_sorts = {"I": z3.IntSort(), "R": z3.RealSort(), "S": S, "B": z3.BoolSort()}


def zsort(s):
    if s in _sorts:
        return _sorts[s]
    _sorts[s] = z3.DeclareSort("U_" + s)
    return _sorts[s]


class Enc:
    """one query"""

    def __init__(self):
        self.cache = {}
        self.syms = {}
        self.sums = {}
        self.sqrts = {}
        self.invs = {}
        self.apps = {}
        self.strs = {}

    def enc(self, t, bound=()):
        key = t if not bound else (t, bound)
        if not bound or not any(s in ir.syms(t) for s, _ in bound):
            bound = ()
            key = t
        r = self.cache.get(key)
        if r is None:
            r = self._enc(t, bound)
            self.cache[key] = r
        return r

    def sym(self, s, bound):
        for b, z in bound:
            if b is s:
                return z
        z = self.syms.get(s)
        if z is None:
            z = self.syms[s] = z3.Const(s.name, zsort(s.sort))
        return z

    def real(self, z):
        return z3.ToReal(z) if z.sort() == z3.IntSort() else z

    def _enc(self, t, bound):
        if isinstance(t, ir.Poly):
            terms = []
            isint = t.sort == "I"
            for m, c in t.items:
                fs = []
                for a, e in m:
                    if isinstance(a, ir.Br):
                        continue
                    z = self.atom(a, e, bound)
                    fs.append(z)
                if isint and all(f.sort() == z3.IntSort() for f in fs) and c.denominator == 1:
                    p = z3.IntVal(int(c))
                    for f in fs:
                        p = f if (p.eq(z3.IntVal(1))) else p * f
                else:
                    p = None
                    for f in fs:
                        f = self.real(f)
                        p = f if p is None else p * f
                    if p is None:
                        p = z3.RealVal(str(c))
                    elif c != 1:
                        p = z3.RealVal(str(c)) * p
                bs = [self.enc(a.cond, bound) for a, e in m if isinstance(a, ir.Br)]
                if bs:
                    zero = z3.IntVal(0) if p.sort() == z3.IntSort() else z3.RealVal(0)
                    p = z3.If(z3.And(*bs) if len(bs) > 1 else bs[0], p, zero)
                terms.append(p)
            if not terms:
                return z3.IntVal(0) if isint else z3.RealVal(0)
            if isint and not all(x.sort() == z3.IntSort() for x in terms):
                r = z3.ToInt(z3.Sum(*[self.real(x) for x in terms])) if len(terms) > 1 else z3.ToInt(terms[0])
                return r
            if not isint:
                terms = [self.real(x) for x in terms]
            return terms[0] if len(terms) == 1 else z3.Sum(*terms)
        if isinstance(t, ir.Sym):
            return self.sym(t, bound)
        if isinstance(t, (ir.App, ir.Sum)):
            return self.atom(t, 1, bound)
        if isinstance(t, ir.Br):
            return z3.If(self.enc(t.cond, bound), z3.IntVal(1), z3.IntVal(0))
        if isinstance(t, ir.PA):
            return self.enc(t.poly, bound)
        if isinstance(t, ir.Cmp):
            p = self.enc(t.p, bound)
            zero = z3.IntVal(0) if p.sort() == z3.IntSort() else z3.RealVal(0)
            return {"lt": p < zero, "le": p <= zero, "eq": p == zero}[t.op]
        if isinstance(t, ir.Bop):
            a = [self.enc(x, bound) for x in t.args]
            return z3.Not(a[0]) if t.op == "not" else (z3.And(*a) if t.op == "and" else z3.Or(*a))
        if isinstance(t, ir.EqU):
            return self.enc(t.a, bound) == self.enc(t.b, bound)
        if isinstance(t, ir.BConst):
            return z3.BoolVal(t.v)
        if isinstance(t, ir.Str):
            z = self.strs.get(t.v)
            if z is None:
                z = self.strs[t.v] = z3.Const("str:" + t.v, S)
            return z
        if isinstance(t, ir.Quant):
            bs = []
            zs = []
            b2 = tuple(bound)
            rng = []
            for v, n in t.binders:
                z = z3.Const("%s@%d" % (v.name, len(b2)), zsort(v.sort))
                nz = self.enc(n, b2)
                b2 = b2 + ((v, z),)
                rng += [z >= 0, z < nz]
                zs.append(z)
            body = self.enc(t.body, b2)
            if t.q == "forall":
                return z3.ForAll(zs, z3.Implies(z3.And(*rng), body))
            return z3.Exists(zs, z3.And(*(rng + [body])))
        if isinstance(t, ir.Lam):
            bs = [s for s in sorted(ir.syms(t), key=lambda s: s.name) if any(b is s for b, _ in bound)]
            name = "lam%d" % t.id
            if bs:
                return z3.Function(name, *([zsort(s.sort) for s in bs] + [zsort("L")]))(*[self.sym(s, bound) for s in bs])
            return z3.Const(name, zsort("L"))
        raise Unsupported("encoding of %s" % type(t).__name__)

    def atom(self, a, e, bound):
        if isinstance(a, ir.Br):
            return z3.If(self.enc(a.cond, bound), z3.IntVal(1), z3.IntVal(0))
        if e < 0:
            base = self.atom(a, 1, bound) if not isinstance(a, ir.PA) else self.enc(a.poly, bound)
            base = self.real(base)
            inv = z3.Function("inv", z3.RealSort(), z3.RealSort())
            z = inv(base)
            if not bound:
                self.invs[a] = (base, z)
            r = z
            for _ in range(-e - 1):
                r = r * z
            return r
        if isinstance(a, ir.Sym):
            z = self.sym(a, bound)
        elif isinstance(a, ir.App):
            if a.f == "ite":
                z = z3.If(self.enc(a.args[0], bound), self.enc(a.args[1], bound), self.enc(a.args[2], bound))
            elif a.f == "idiv":
                z = self.enc(a.args[0], bound) / self.enc(a.args[1], bound)
            elif a.f == "imod":
                z = self.enc(a.args[0], bound) % self.enc(a.args[1], bound)
            else:
                args = [self.enc(x, bound) for x in a.args]
                if not args:
                    z = z3.Const(a.f, zsort(a.sort))
                else:
                    # integer arguments of real functions are promoted so that f(1) and f(1.0) agree
                    if a.f in ("sqrt", "log", "rint"):
                        args = [self.real(x) for x in args]
                    f = z3.Function(a.f + ":" + "".join(str(x.sort())[0] for x in args), *([x.sort() for x in args] + [zsort(a.sort)]))
                    z = f(*args)
                if not bound:
                    self.apps[a] = z
                if a.f == "sqrt" and not bound:
                    self.sqrts[a] = (args[0], z)
        elif isinstance(a, ir.Sum):
            fs = sorted(ir.syms(a), key=lambda s: s.name)
            bs = [s for s in fs if any(b is s for b, _ in bound)]
            name = "sum%d" % a.id
            srt = z3.IntSort() if a.sort == "I" else z3.RealSort()
            if bs:
                z = z3.Function(name, *([zsort(s.sort) for s in bs] + [srt]))(*[self.sym(s, bound) for s in bs])
            else:
                z = z3.Const(name, srt)
                self.sums[a] = z
        elif isinstance(a, ir.PA):
            z = self.enc(a.poly, bound)
        else:
            raise Unsupported("atom %s" % type(a).__name__)
        r = z
        for _ in range(e - 1):
            r = r * z
        return r


def pos_atom(a, e, pos=None):
    """atom**e is known to be >= 0"""
    if e % 2 == 0:
        return True
    if isinstance(a, (ir.Br,)):
        return True
    if isinstance(a, ir.App) and a.f in ("sqrt", "exp", "absf"):
        return True
    return ir.nonneg_atom(a, e)


def quants_at_zero(goal):
    """the goal is about a first element"""
    r = _at_zero.get(goal)
    if r is None:
        r = False
        seen, stack = set(), [goal]
        while stack and not r:
            x = stack.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if isinstance(x, ir.App) and any(ir.const(ir.lift(y)) == 0 for y in x.args if isinstance(y, ir.T) and y.sort == "I"):
                r = True
            stack.extend(ir.children(x))
        _at_zero[goal] = r
    return r


_at_zero = {}


class Solver:
    def __init__(self, quick_ms=250, axioms=()):
        self.quick_ms = quick_ms
        self.memo = {}
        self.nquick = 0
        self.tquick = 0.0
        self.limit = float("inf")
        self.axioms = list(axioms)     # fn(list of atoms) -> ir facts

    # ------------------------------------------------------------ encoding
    def build(self, pc, neg_goal, depth=0):
        e = Enc()
        fs = [e.enc(ir.tobool(p)) for p in pc]
        fs.append(e.enc(ir.tobool(neg_goal)))
        # closure: ranges, axioms about atoms met
        done = set()
        for _ in range(3):
            add = []
            grew = False
            for s in list(e.syms):
                if s in ir._lower and ("l", s) not in done:
                    done.add(("l", s))
                    fs.append(e.sym(s, ()) >= ir._lower[s])
                if s in ir._ranges and ("r", s) not in done:
                    done.add(("r", s))
                    fs += [e.sym(s, ()) >= 0, e.sym(s, ()) < e.enc(ir._ranges[s])]
                    grew = True
            for a in list(e.sums):
                if ("s", a) in done:
                    continue
                done.add(("s", a))
                if self.mono_nonneg(pc, a, depth):
                    fs.append(e.atom(a, 1, ()) >= 0)
                elif depth == 0 and self.mono_nonneg(pc, a, depth, True):
                    fs.append(e.atom(a, 1, ()) <= 0)
            for a in list(e.apps):
                if a.f in ir.APPLOWER and ("a", a) not in done:
                    done.add(("a", a))
                    fs.append(e.apps[a] >= ir.APPLOWER[a.f])
                if a.f == "rint" and ("rint", a) not in done:
                    done.add(("rint", a))
                    x, z = e.real(e.enc(a.args[0])), e.apps[a]
                    fs.append(z3.And(2 * (z - x) <= 1, 2 * (x - z) <= 1, z3.Implies(x >= 0, z >= 0), z3.Implies(x <= 0, z <= 0)))
                if a.f == "log" and ("log", a) not in done:
                    # log t <= t - 1 and log t >= 1 - 1/t, equality at t = 1 only
                    done.add(("log", a))
                    x, z = e.real(e.enc(a.args[0])), e.apps[a]
                    fs.append(z3.Implies(x > 0, z3.And(z <= x - 1, z3.Implies(z == x - 1, x == 1), x * z >= x - 1, z3.Implies(x * z == x - 1, x == 1),
                                                       z3.Implies(x == 1, z == 0))))
                if a.f in ir.INVERSE and ("inv", a) not in done:
                    done.add(("inv", a))
                    srt = "".join(str(e.enc(x).sort())[0] for x in a.args[:-1])
                    z = e.apps[a]
                    g = z3.Function(a.f + ".pos:" + srt + str(z.sort())[0], *([e.enc(x).sort() for x in a.args[:-1]] + [z.sort(), z3.IntSort()]))
                    fs.append(g(*([e.enc(x) for x in a.args[:-1]] + [z])) == e.enc(a.args[-1]))
                    b, i = e.enc(ir.lift(ir.INVERSE[a.f][1](*a.args[:-1]))), e.enc(a.args[-1])
                    g = z3.Function(a.f + ".has:" + srt + str(z.sort())[0], *([e.enc(x).sort() for x in a.args[:-1]] + [z.sort(), z3.BoolSort()]))
                    fs.append(g(*([e.enc(x) for x in a.args[:-1]] + [z])) == z3.And(0 <= i, i < b))
                if a.f.endswith(".has") and a.f[:-4] in ir.INVERSE and ("inv", a) not in done:
                    done.add(("inv", a))
                    f = a.f[:-4]
                    srt, bound = ir.INVERSE[f]
                    i = ir.inv_pos(f, *a.args)
                    v = ir.app(f, a.args[:-1] + (i,), srt)
                    add.append(ir.implies(a, ir.band(ir.le(ir.ZERO, i), ir.lt(i, bound(*a.args[:-1])), ir.eq(v, a.args[-1]))))
            quants = [q for q in pc if isinstance(q, ir.Quant) and q.q == "forall"]
            for q in quants:
                v, n = q.binders[0]
                if ("all", q, 0) not in done and quants_at_zero(neg_goal):
                    done.add(("all", q, 0))
                    b = ir.subst(q.body if len(q.binders) == 1 else ir.mkquant("forall", list(q.binders[1:]), q.body), {v: ir.ZERO})
                    if isinstance(b, ir.Quant):
                        quants.append(b)
                    else:
                        add.append(ir.implies(ir.lt(ir.ZERO, ir.as_int(n)), b))
                for s in sorted(set(e.syms) | set(ir.syms(neg_goal)), key=lambda s: s.name):
                    same = s in ir._ranges and ir.as_int(ir._ranges[s]) is ir.as_int(n)
                    if same or s in ir._ranges and ir.const(ir.as_int(ir._ranges[s])) is not None and s in ir.syms(neg_goal):
                        b = ir.subst(q.body if len(q.binders) == 1 else ir.mkquant("forall", list(q.binders[1:]), q.body), {v: ir.poly(s)})
                        if isinstance(b, ir.Quant):
                            quants.append(b)
                        elif ("all", q, s) not in done:
                            done.add(("all", q, s))
                            add.append(b if same else ir.implies(ir.lt(ir.poly(s), ir.as_int(n)), b))
            add.extend(prefix_sums(e, done, self, pc, depth))
            for ax in self.axioms:
                add.extend(x for x in ax(e, done))
            if not add and not grew and not (set(e.sqrts) | set(e.invs)) - done:
                break
            for x in add:
                fs.append(e.enc(x))
            for a, (arg, z) in list(e.sqrts.items()):
                if a not in done:
                    done.add(a)
                    fs.append(z3.Implies(arg >= 0, z3.And(z >= 0, z * z == arg)))
            for a, (b, z) in list(e.invs.items()):
                if ("i", a) not in done:
                    done.add(("i", a))
                    done.add(a)
                    fs.append(z3.Implies(b != 0, b * z == 1))
        if len(e.strs) > 1:
            fs.append(z3.Distinct(*e.strs.values()))
        return e, fs

    def mono_nonneg(self, pc, a, depth, neg=False):
        if not neg and all(pos_atom(x, k) for x, k in a.mono):
            return True
        if depth > 0:
            return False
        # prove it for arbitrary indices, from the simple facts
        env = {}
        pc = [p for p in pc if small(p)]
        facts = list(pc)
        for v, n in a.binders:
            f = ir.fresh("s", "I", hi=ir.subst(n, env))
            env[v] = ir.poly(f)
            facts.append(ir.le(ir.ZERO, env[v]))
            facts.append(ir.lt(env[v], ir.subst(n, env)))
        key = ("mono", a, neg, frozenset(pc))
        r = self.memo.get(key)
        if r is None:
            m = [(x, k) for x, k in a.mono if not pos_atom(x, k)]
            rest = [x for x, k in a.mono if isinstance(x, ir.Br)]
            p = ir.mkpoly({tuple(m): Fraction(1)}, "R")
            facts += [ir.subst(b.cond, env) for b in rest]
            p = ir.subst(p, env)
            goal = ir.le(p, ir.ZERO) if neg else ir.le(ir.ZERO, p)
            if goal is ir.FALSE:
                r = False
            else:
                r = goal is ir.TRUE or self.check(facts, ir.bnot(goal), self.quick_ms, 1) == z3.unsat
            self.memo[key] = r
        return r

    def check(self, pc, neg_goal, ms, depth=0):
        if time.time() > self.limit:
            return z3.unknown
        try:
            e, fs = self.build(pc, neg_goal, depth)
        except (z3.Z3Exception, Unsupported):
            return z3.unknown
        s = z3.Solver()
        s.set("timeout", int(ms))
        s.add(*fs)
        t0 = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.tquick += time.time() - t0
        self.last = s
        return r

    # -------------------------------------------------------------- queries
    def quick(self, pc, cond):
        cond = ir.tobool(cond)
        if cond is ir.TRUE:
            return True
        if aligned(cond) is ir.TRUE:
            return True
        rel = relevant(pc, cond)
        key = (frozenset(rel), cond)
        r = self.memo.get(key)
        if r is None:
            self.nquick += 1
            r = self.check(rel, ir.bnot(cond), self.quick_ms) == z3.unsat
            self.memo[key] = r
        return r

    def prove(self, pc, goal, ms=4000, depth=0):
        """-> (status, backend); status: proved / sat / unknown"""
        goal = ir.tobool(goal)
        if goal is ir.TRUE:
            return "proved", "normal form"
        if goal in pc:
            return "proved", "normal form"
        if isinstance(goal, ir.Bop) and goal.op == "and":
            bk = set()
            for g in goal.args:
                st, b = self.prove(pc, g, ms, depth)
                if st != "proved":
                    return st, b
                bk.add(b)
            return "proved", "+".join(sorted(bk))
        if isinstance(goal, ir.Quant) and goal.q == "forall":
            env = {}
            facts = list(pc)
            for v, n in goal.binders:
                f = ir.fresh("g", "I", hi=ir.subst(n, env))
                env[v] = ir.poly(f)
                facts.append(ir.lt(env[v], ir.subst(n, env)))
            return self.prove(facts, ir.subst(goal.body, env), ms, depth)
        if isinstance(goal, ir.Bop) and goal.op == "or":
            # move all but one disjunct into the assumptions
            lits = list(goal.args)
            qs = [x for x in lits if isinstance(x, ir.Quant) and x.q == "forall"]
            if len(qs) == 1:
                rest = [ir.bnot(x) for x in lits if x is not qs[0]]
                return self.prove(list(pc) + rest, qs[0], ms, depth)
        if ir.has_def(goal) and not getattr(self, "opaque", False):
            if napps(goal) <= 4:
                g = ir.unfold(goal)
                if g is ir.TRUE:
                    return "proved", "unfolding"
            self.opaque = True
            try:
                st, b = self.prove(pc, goal, ms, depth)
            finally:
                self.opaque = False
            if st == "proved":
                return st, b
            return self.prove([ir.unfold(p) for p in pc], ir.unfold(goal), ms, depth)
        if aligned(goal) is ir.TRUE:
            return "proved", "normal form"
        rel = relevant(pc, goal)
        core = strict(rel, goal)
        r = self.check(core, ir.bnot(goal), min(ms, 400))
        if r == z3.unsat:
            return "proved", "z3"
        if len(core) != len(rel):
            r = self.check(rel, ir.bnot(goal), min(ms, 400))
            if r == z3.unsat:
                return "proved", "z3"
        if isinstance(goal, ir.Cmp) and goal.op == "eq" and depth < 4:
            st = self.structural(list(pc), goal, ms, depth)
            if st is not None:
                return "proved", st
        if isinstance(goal, ir.Cmp) and goal.op == "le" and depth < 4 and self.nonneg_terms(list(pc), goal, ms, depth):
            return "proved", "sum of non-negative terms"
        if isinstance(goal, ir.Cmp) and brackets(goal.p):
            self.budget = time.time() + 2 * ms / 1000.0
            if self.cases(list(pc), goal, 0):
                return "proved", "case split+z3"
        r = self.check(rel, ir.bnot(goal), min(ms, 2000))
        if r == z3.unsat:
            return "proved", "z3"
        if len(rel) != len(pc):
            r = self.check(pc, ir.bnot(goal), ms)
            if r == z3.unsat:
                return "proved", "z3"
        st = "sat" if r == z3.sat else "unknown"
        if st == "unknown":
            try:
                if cvc5_unsat(self.last, ms):
                    return "proved", "cvc5"
            except Exception:
                pass
        return st, "z3"

    def structural(self, pc, goal, ms, depth):
        """equal arguments make equal applications; sums over the same range
        are equal if their terms are"""
        p = goal.p
        t0 = time.time()
        # congruence
        atoms = []
        for m, _ in p.items:
            for a, e in m:
                if isinstance(a, (ir.App, ir.PA)) and a not in atoms:
                    atoms.append(a)
        env = {}
        for i, a in enumerate(atoms):
            for b in atoms[:i]:
                if b in env or type(a) is not type(b):
                    continue
                if time.time() - t0 > ms / 1000.0 * 4:
                    break
                if isinstance(a, ir.App):
                    if a.f != b.f or len(a.args) != len(b.args) or any(x.sort != y.sort for x, y in zip(a.args, b.args)):
                        continue
                    eqs = [same(x, y) for x, y in zip(a.args, b.args)]
                else:
                    eqs = [ir.eq(a.poly, b.poly)]
                if any(x is ir.FALSE for x in eqs):
                    continue
                if all(self.prove(pc, x, min(ms, 1500), depth + 1)[0] == "proved" for x in eqs):
                    env[a] = b
                    break
        how = []
        if env:
            how.append("congruence")
            d = {}
            for m, c in p.items:
                dm = {}
                for a, e in m:
                    a = env.get(a, a)
                    dm[a] = dm.get(a, 0) + e
                k = tuple(sorted(((a, e) for a, e in dm.items() if e), key=lambda ae: ae[0].id))
                d[k] = d.get(k, 0) + c
            p = ir.mkpoly({m: c for m, c in d.items() if c}, p.sort)
            if not p.items:
                return "congruence+z3"
        # sums
        rest, groups = self.groups(p)
        if groups:
            ok = True
            if rest and ir.mkpoly(rest, p.sort).items:
                g = ir.cmp0("eq", ir.mkpoly(rest, p.sort))
                ok = g is ir.TRUE or self.prove(pc, g, min(ms, 1500), depth + 1)[0] == "proved"
            for key, ms_ in groups.items():
                if not ok:
                    break
                facts, q = self.pointwise(pc, key, ms_)
                g = ir.cmp0("eq", q)
                ok = g is ir.TRUE or (g is not ir.FALSE and self.prove(facts, g, min(ms, 2000), depth + 1)[0] == "proved")
            if ok:
                return "sum extensionality+z3"
        if env:
            g = ir.cmp0("eq", p)
            st, b = self.prove(pc, g, min(ms, 2000), depth + 1)
            if st == "proved":
                return "congruence+" + b
        return None

    def groups(self, p):
        """(terms without sums, [(ranges, terms with a sum over these ranges)])"""
        rest, groups = {}, {}
        for m, c in p.items:
            ss = [(a, e) for a, e in m if isinstance(a, ir.Sum)]
            if len(ss) == 1 and ss[0][1] == 1:
                a = ss[0][0]
                env_ = {}
                key = []
                for i, (b, n) in enumerate(a.binders):
                    key.append(ir.as_int(ir.subst(n, env_)))
                    env_[b] = ir.poly(ir.sym("#%d" % i, "I"))
                groups.setdefault(tuple(key), []).append((m, c, a))
            else:
                rest[m] = c
        return rest, groups

    def pointwise(self, pc, key, terms):
        """facts and the sum of the terms at arbitrary indices"""
        fs, env_ = [], {}
        facts = list(pc)
        for i, n in enumerate(key):
            n = ir.subst(n, env_)
            fs.append(ir.fresh("t", "I", hi=n))
            env_[ir.sym("#%d" % i, "I")] = ir.poly(fs[-1])
            facts.append(ir.lt(ir.poly(fs[-1]), n))
        q = ir.ZERO
        for m, c, a in terms:
            k = ir.mkpoly({tuple((x, e) for x, e in m if x is not a): c}, "R")
            body = ir.mkpoly({a.mono: Fraction(1)}, a.sort)
            q = ir.add(q, ir.mul(k, ir.subst(body, {s: ir.poly(f) for (s, _), f in zip(a.binders, fs)})))
        return facts, q

    def nonneg_terms(self, pc, goal, ms, depth):
        """p <= 0: every group of sums over the same range has terms <= 0"""
        rest, groups = self.groups(goal.p)
        if rest and ir.mkpoly(rest, "R").items:
            g = ir.cmp0("le", ir.mkpoly(rest, "R"))
            if not (g is ir.TRUE or (groups and self.prove(pc, g, min(ms, 1500), depth + 1)[0] == "proved")):
                return False
        elif not groups:
            return False
        for key, terms in groups.items():
            facts, q = self.pointwise(pc, key, terms)
            g = ir.cmp0("le", q)
            if g is ir.TRUE:
                continue
            self.budget = time.time() + 2 * ms / 1000.0
            if g is ir.FALSE or not (self.cases(facts, g, 0) or self.prove(facts, g, min(ms, 2000), depth + 1)[0] == "proved"):
                return False
        return True

    def cases(self, pc, goal, depth):
        """split over the conditions of the brackets in a comparison"""
        if goal is ir.TRUE or goal in pc:
            return True
        bs = brackets(goal.p) if isinstance(goal, ir.Cmp) else []
        if not bs and isinstance(goal, ir.Cmp) and goal.op == "le" and ir.is_square(ir.neg(goal.p)):
            return True
        if not bs or depth > 12:
            if time.time() > self.budget:
                return False
            rel = relevant(pc, goal)
            core = strict(rel, goal)
            return (len(core) != len(rel) and self.check(core, ir.bnot(goal), 500) == z3.unsat) or \
                self.check(rel, ir.bnot(goal), 1000) == z3.unsat
        if time.time() > self.budget:
            return False
        b = bs[0]
        for v in (True, False):
            c = b.cond if v else ir.bnot(b.cond)
            if c in pc:
                facts = pc
            elif ir.bnot(c) in pc or self.quick(pc, ir.bnot(c)):
                continue
            else:
                facts = pc + [c]
            p = assign(goal.p, b, v)
            if v or isinstance(c, ir.Cmp):
                e = solved(tight(c))
                if e is not None:
                    p = ir.subst(p, e)
                    facts = facts + [f for f in (ir.subst(f, e) for f in pc) if f not in facts]
            if not self.cases(facts, ir.cmp0(goal.op, p), depth + 1):
                return False
        return True

    def satisfiable(self, pc, ms=2000):
        """False: contradictory; True: a model exists; None: open"""
        r = self.check(pc, ir.TRUE, ms)
        return False if r == z3.unsat else True if r == z3.sat else None


def prefix_sums(e, done, solver, pc, depth):
    """sums of the same non-negative terms over different ranges"""
    out = []
    ss = [a for a in e.sums if len(a.binders) == 1]
    for i, a in enumerate(ss):
        for b in ss[:i]:
            if ("p", a, b) in done:
                continue
            done.add(("p", a, b))
            done.add(("p", b, a))
            v, n = a.binders[0]
            w, m = b.binders[0]
            f = ir.mkpoly({a.mono: Fraction(1)}, a.sort)
            g = ir.mkpoly({b.mono: Fraction(1)}, b.sort)
            if ir.subst(f, {v: ir.poly(w)}) is not g or not solver.mono_nonneg(pc, a, depth):
                continue
            A, B = ir.mkpoly({((a, 1),): Fraction(1)}, a.sort), ir.mkpoly({((b, 1),): Fraction(1)}, b.sort)
            for X, Y, x, y in ((A, B, n, m), (B, A, m, n)):
                out.append(ir.implies(ir.le(x, y), ir.le(X, Y)))
                out.append(ir.implies(ir.band(ir.le(ir.ZERO, x), ir.lt(x, y)), ir.le(ir.add(X, ir.subst(f, {v: x})), Y)))
    return out


def aligned(c):
    """sums of the same terms whose bounds differ by a constant, taken apart"""
    if not isinstance(c, ir.Cmp):
        return c
    p = c.p
    ss = []
    for m, _ in p.items:
        for a, e in m:
            if isinstance(a, ir.Sum) and len(a.binders) == 1 and a not in ss:
                ss.append(a)
    env = {}
    for a in ss:
        v, n = a.binders[0]
        for b in ss:
            w, k = b.binders[0]
            d = ir.const(ir.sub(n, k))
            if b is a or d is None or not 1 <= d <= 4 or not ir.nonneg(k):
                continue
            f = ir.fresh("s", "I", hi=k)
            t = ir.subst(ir.mkpoly({a.mono: Fraction(1)}, a.sort), {v: ir.poly(f)})
            r = ir.ssum(f, k, t)
            for i in range(int(d)):
                r = ir.add(r, ir.subst(t, {f: ir.as_int(ir.add(k, ir.num(i)))}))
            env[a] = r
            break
    if not env:
        return c
    out = ir.ZERO
    for m, k in p.items:
        t = ir.mkpoly({tuple((a, e) for a, e in m if a not in env): k}, p.sort)
        for a, e in m:
            if a in env:
                t = ir.mul(t, ir.power(env[a], e))
        out = ir.add(out, t)
    return ir.cmp0(c.op, out)


def tight(c):
    """p <= 0 where p is never negative: p == 0"""
    if isinstance(c, ir.Cmp) and c.op in ("le", "lt") and ir.is_int(c.p):
        q = ir.add(c.p, ir.ONE) if c.op == "lt" else c.p
        lo = ir._sign(q)[0]
        if lo is not None and lo >= 0:
            return ir.cmp0("eq", q)
    return c


def solved(c):
    """{symbol: term} for an equation that determines a symbol"""
    if isinstance(c, ir.Cmp) and c.op == "eq":
        for m, k in sorted(reversed(c.p.items), key=lambda mk: len(mk[0]) == 1 and mk[0][0][0] in ir._ranges):
            if len(m) == 1 and isinstance(m[0][0], ir.Sym) and m[0][1] == 1 and abs(k) == 1:
                v = m[0][0]
                lin = ir.linear_in(c.p, v)
                if lin is not None:
                    t = ir.scale(lin[1], Fraction(-1) / lin[0])
                    if v.sort == "R" or ir.is_int(t):
                        return {v: ir.as_int(t) if v.sort == "I" else t}
    return None


def same(x, y):
    """sufficient condition for equal arguments"""
    if isinstance(x, ir.Lam) and isinstance(y, ir.Lam) and x is not y:
        if [n for _, n in x.binders] != [n for _, n in y.binders] or len(x.binders) > 3:
            return ir.FALSE
        if any(set(s for s, _ in x.binders) & ir.syms(n) for _, n in x.binders):
            return ir.FALSE
        vs = [ir.fresh("c", "I", hi=n) for _, n in x.binders]
        return ir.eq(ir.beta(x, *map(ir.poly, vs)), ir.beta(y, *map(ir.poly, vs)))
    return ir.eq(x, y)


def napps(t):
    n = 0
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, ir.App):
            n += x.f in ir.DEFS
        for c in ir.children(x):
            st.append(c)
    return n


def brackets(p):
    out = []
    for m, _ in p.items:
        for a, e in m:
            if isinstance(a, ir.Br) and a not in out:
                out.append(a)
    return out


def assign(p, b, v):
    d = {}
    for m, c in p.items:
        if any(a is b for a, _ in m):
            if not v:
                continue
            m = tuple((a, e) for a, e in m if a is not b)
        d[m] = d.get(m, 0) + c
    return ir.mkpoly({m: c for m, c in d.items() if c}, p.sort)


_small = {}


def small(t, limit=40):
    r = _small.get(t)
    if r is None:
        seen = {t}
        st = [t]
        while st and len(seen) <= limit:
            for c in ir.children(st.pop()):
                if c not in seen:
                    seen.add(c)
                    st.append(c)
        r = _small[t] = len(seen) <= limit
    return r


def strict(pc, goal):
    """facts over the goal's own symbols"""
    known = set(ir.syms(goal))
    for s in list(known):
        if s in ir._ranges:
            known |= ir.syms(ir._ranges[s])
    return [p for p in pc if ir.syms(p) <= known]


def relevant(pc, goal):
    """facts connected to the goal by shared symbols or function names"""
    from .genloop import app_names
    seen_s = set(ir.syms(goal))
    seen_f = set(app_names(goal))
    rest = list(pc)
    out = []
    for _ in range(4):
        nxt = []
        grew = False
        for p in rest:
            s, f = ir.syms(p), app_names(p)
            if s & seen_s or f & seen_f:
                out.append(p)
                if not (s <= seen_s and f <= seen_f):
                    grew = True
                seen_s |= s
                seen_f |= f
            else:
                nxt.append(p)
        rest = nxt
        for x in list(seen_s):
            if x in ir._ranges:
                seen_s |= ir.syms(ir._ranges[x])
                seen_f |= app_names(ir._ranges[x])
        if not grew:
            break
    return out


def cvc5_unsat(zsolver, ms):
    import cvc5
    txt = zsolver.to_smt2()
    tm = cvc5.TermManager()
    sol = cvc5.Solver(tm)
    sol.setOption("tlimit-per", str(int(ms)))
    sol.setLogic("ALL")
    parser = cvc5.InputParser(sol)
    parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
    sm = parser.getSymbolManager()
    while True:
        cmd = parser.nextCommand()
        if cmd.isNull():
            break
        out = cmd.invoke(sol, sm)
        if "unsat" in str(out):
            return True
    return False
