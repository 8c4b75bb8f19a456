"""Counterexamples for obligations that are not discharged.

All sizes are fixed to small numbers, which turns sums and quantifiers over
index ranges into finite ones; z3 then looks for values that satisfy the path
condition and falsify the claim, and the claim is evaluated again in floating
point with the library functions' actual meaning.  Only what survives both is
called refuted.
"""
import itertools
import math
import time
from fractions import Fraction

import numpy as np
import z3

from . import ir
from .ir import Unsupported
from .solve import Enc


def numeric(z, model):
    v = model.eval(z, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return str(v)


class Inexact(Exception):
    pass


class Eval:
    """floating point evaluation of a closed term in a model"""

    def __init__(self, enc, model):
        self.enc, self.model, self.memo, self.used = enc, model, {}, {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev(t)
        return r

    def leaf(self, t):
        z = self.enc.enc(t)
        v = numeric(z, self.model)
        self.used[ir.show(t)] = v
        return v

    def ev(self, t):
        if isinstance(t, ir.Poly):
            r = 0
            for m, c in t.items:
                if any(isinstance(a, ir.Br) and not self(a.cond) for a, _ in m):
                    continue
                p = int(c) if c.denominator == 1 else float(c)
                for a, e in m:
                    if not isinstance(a, ir.Br):
                        p = p * self(a) ** e
                r += p
            return r
        if isinstance(t, ir.Sym):
            return self.leaf(t)
        if isinstance(t, ir.Br):
            return 1 if self(t.cond) else 0
        if isinstance(t, ir.PA):
            return float(self(t.poly))
        if isinstance(t, ir.App):
            f = t.f
            if f == "ite":
                return self(t.args[1] if self(t.args[0]) else t.args[2])
            if f == "sqrt":
                return math.sqrt(self(t.args[0]))
            if f == "log":
                return math.log(self(t.args[0]))
            if f == "exp":
                return math.exp(self(t.args[0]))
            if f == "idiv":
                return self(t.args[0]) // self(t.args[1])
            if f == "imod":
                return self(t.args[0]) % self(t.args[1])
            if f == "matinv":
                return float(np.linalg.inv(self.matrix(t.args[0]))[int(self(t.args[1]))][int(self(t.args[2]))])
            if any(isinstance(a, ir.Lam) for a in t.args):
                raise Inexact(f)
            return self.leaf(t)
        if isinstance(t, ir.Cmp):
            v = self(t.p)
            # values at rounding distance do not decide
            s = sum(abs(self(ir.mkpoly({m: c}, "R"))) for m, c in t.p.items)
            if t.p.sort == "R" and v != 0 and abs(v) <= 1e-7 * s:
                if t.op == "eq":
                    return True
                raise Inexact("close")
            return {"lt": v < 0, "le": v <= 0, "eq": v == 0}[t.op]
        if isinstance(t, ir.Bop):
            if t.op == "not":
                return not self(t.args[0])
            vs = (self(x) for x in t.args)
            return all(vs) if t.op == "and" else any(vs)
        if isinstance(t, ir.EqU):
            if t.a.sort == "L" or t.b.sort == "L":
                raise Inexact("functions")
            return self(t.a) == self(t.b)
        if isinstance(t, ir.BConst):
            return t.v
        if isinstance(t, ir.Str):
            return self.leaf(t)
        if isinstance(t, ir.Quant):
            raise Inexact("quantifier")
        raise Inexact(type(t).__name__)

    def matrix(self, l):
        n = [int(self(b)) for _, b in l.binders]
        return np.array([[self(ir.beta(l, i, j)) for j in range(n[1])] for i in range(n[0])], dtype=float)


def sizes(terms):
    out = []
    for t in terms:
        for s in ir.syms(t):
            if s.sort == "I" and s not in ir._ranges and s not in out:
                out.append(s)
    # bounds of index symbols mention sizes too
    for t in terms:
        for s in ir.syms(t):
            if s in ir._ranges:
                for q in ir.syms(ir._ranges[s]):
                    if q.sort == "I" and q not in ir._ranges and q not in out:
                        out.append(q)
    return sorted(out, key=lambda s: s.name)


def leftovers(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return False
    seen.add(t)
    if isinstance(t, (ir.Sum, ir.Quant)):
        return True
    return any(leftovers(c, seen) for c in ir.children(t))


def instances(ss):
    vals = [range(max(0, ir._lower.get(s, 0)), max(0, ir._lower.get(s, 0)) + 3) for s in ss]
    if len(ss) > 6:
        yield tuple(v[1] for v in vals)
        yield tuple(v[-1] for v in vals)
        yield tuple(v[0] for v in vals)
        return
    all_ = sorted(itertools.product(*vals), key=lambda c: (abs(sum(c) - 2 * len(c)), c))
    yield from all_[:60]


def refute(solver, o, axioms, seconds=12.0):
    """-> None or a dict describing a counterexample"""
    t0 = time.time()
    pc0 = [ir.unfold(p) for p in o.pc]
    goal0 = ir.unfold(o.goal)
    ss = sizes(list(pc0) + [goal0])
    tried = 0
    for vals in instances(ss):
        if time.time() - t0 > seconds:
            break
        env = {s: ir.num(v) for s, v in zip(ss, vals)}
        saved = {}
        ir.deadline[0] = time.time() + seconds / 3
        ir._excluded.clear()      # the ranges of the symbols are narrowed
        try:
            r = attempt(solver, pc0, goal0, env, axioms, saved)
        except (Unsupported, Inexact, z3.Z3Exception, OverflowError, ValueError, ZeroDivisionError, TypeError, np.linalg.LinAlgError, RecursionError):
            r = None
        finally:
            ir.deadline[0] = None
            ir._excluded.clear()
            for s, n in saved.items():
                ir._ranges[s] = n
        tried += 1
        if r is not None:
            r["sizes"] = {s.name: v for s, v in zip(ss, vals)}
            return r
    return None


def attempt(solver, pc0, goal0, env, axioms, saved):
    from .solve import Solver
    idx = [s for t in list(pc0) + [goal0] for s in ir.syms(t) if s in ir._ranges]
    for s in idx:
        if s not in saved:
            saved[s] = ir._ranges[s]
            ir._ranges[s] = ir.as_int(ir.subst(saved[s], env))
    for s in idx:
        c = ir.const(ir._ranges[s])
        if c is not None and c <= 0:
            return None
    pc = [ir.subst(p, env) for p in pc0]
    goal = ir.subst(goal0, env)
    if goal is ir.TRUE or any(p is ir.FALSE for p in pc):
        return None
    # index symbols with constant range: let the search pick, but sums must be gone
    keep = [p for p in pc if not leftovers(p)]
    if leftovers(goal) or len(keep) != len(pc):
        return None
    sv = Solver(axioms=[(lambda e, done, ax=ax: [ir.subst(ir.unfold(ir.tobool(x)), env) for x in ax(e, done)]) for ax in axioms])
    # register the elements of whole-array arguments
    extra = []
    for t in list(pc) + [goal]:
        for l in lams(t):
            ns = [ir.const(n) for _, n in l.binders]
            if any(n is None or n > 9 for n in ns):
                continue
            for i in itertools.product(*[range(int(n)) for n in ns]):
                extra.append(ir.poly(ir.beta(l, *i)) if l.body.sort != "B" else None)
    e, fs = sv.build(pc, ir.bnot(goal), 0)
    for x in extra:
        if x is not None:
            e.enc(x)
    done = set()
    for _ in range(2):
        for ax in sv.axioms:
            for x in ax(e, done):
                fs.append(e.enc(x))
    for a, (arg, z) in list(e.sqrts.items()):
        fs.append(z3.Implies(arg >= 0, z3.And(z >= 0, z * z == arg)))
    # definedness: reciprocals are taken of numbers that are not zero
    for a, (b, z) in list(e.invs.items()):
        fs += [b != 0, b * z == 1]
    s = z3.Solver()
    s.set("timeout", 1500)
    s.add(*fs)
    if s.check() != z3.sat:
        return None
    m = s.model()
    ev = Eval(e, m)
    for p in pc:
        if not ev(p):
            return None
    if ev(goal):
        return None
    ins = {k: (v if not isinstance(v, float) else round(v, 9)) for k, v in sorted(ev.used.items())}
    return dict(values={k: ins[k] for k in list(ins)[:60]})


def lams(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    if isinstance(t, ir.Lam):
        yield t
    for c in ir.children(t):
        yield from lams(c, seen)
