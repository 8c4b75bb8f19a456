"""Term language of the verifier.

Arithmetic terms are kept in a canonical form: Laurent polynomials over atoms,
where finite sums over index ranges are themselves atoms with a single
monomial under their binders, and case distinctions are 0/1 brackets.  Every
constructor below is an identity of exact real/integer arithmetic (finite sums
commute with addition and with each other, a sum over i of [i==e]*f(i) is f(e)
when e is in range, ...).  x * x**-1 == 1 needs x != 0: the interpreter emits
a definedness obligation at every division it executes.
"""
import time
from fractions import Fraction
from itertools import permutations, product
from math import isqrt

_intern = {}


class Unsupported(Exception):
    """The code uses something outside the verifier's subset."""


class T:
    __slots__ = ("key", "id", "_syms", "_h")
    sort = None

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise Unsupported("truth value of a symbolic term taken by the host: %s" % show(self))

    # operators: for contracts written with ordinary syntax
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return neg(self)
    def __pow__(self, n): return power(self, n)
    def __lt__(self, o): return lt(self, lift(o))
    def __le__(self, o): return le(self, lift(o))
    def __gt__(self, o): return lt(lift(o), self)
    def __ge__(self, o): return le(lift(o), self)


def mk(cls, key, **attrs):
    k = (cls, key)
    t = _intern.get(k)
    if t is None:
        t = cls()
        t.key = key
        t.id = len(_intern)
        t._syms = None
        for a, v in attrs.items():
            setattr(t, a, v)
        _intern[k] = t
    return t


class Sym(T):
    __slots__ = ("name", "sort")


class App(T):
    __slots__ = ("f", "args", "sort")


class Sum(T):
    """sum over binders ((sym, bound), ...) of a monomial"""
    __slots__ = ("binders", "mono")
    sort = "R"


class Br(T):
    """Iverson bracket"""
    __slots__ = ("cond",)
    sort = "I"


class PA(T):
    """a polynomial used as an atom (only with negative exponent)"""
    __slots__ = ("poly",)
    sort = "R"


class Poly(T):
    __slots__ = ("items", "sort")     # items: tuple of (mono, coef); mono: tuple of (atom, exp)


class Cmp(T):
    """op in lt, le, eq : poly op 0"""
    __slots__ = ("op", "p")
    sort = "B"


class Bop(T):
    """op in and, or, not"""
    __slots__ = ("op", "args")
    sort = "B"


class EqU(T):
    """equality of strings / uninterpreted values"""
    __slots__ = ("a", "b")
    sort = "B"


class Quant(T):
    __slots__ = ("q", "binders", "body")
    sort = "B"


class Lam(T):
    """function of indices (argument of library operations on whole arrays)"""
    __slots__ = ("binders", "body")
    sort = "L"


class BConst(T):
    __slots__ = ("v",)
    sort = "B"

    def __bool__(self):
        return self.v


class Str(T):
    """string constant"""
    __slots__ = ("v",)
    sort = "S"


TRUE = mk(BConst, True, v=True)
FALSE = mk(BConst, False, v=False)


def boolc(b):
    return TRUE if b else FALSE


_ranges = {}      # Sym -> bound (index symbols range over [0, bound))
_lower = {}       # Sym -> constant lower bound, part of the symbol's meaning
_fresh = [0]


def sym(name, sort="R"):
    return mk(Sym, (name, sort), name=name, sort=sort)


def fresh(prefix, sort="R", hi=None):
    _fresh[0] += 1
    s = sym("%s!%d" % (prefix, _fresh[0]), sort)
    if hi is not None:
        _ranges[s] = lift(hi)
    return s


def strc(v):
    return mk(Str, v, v=v)


def _akey(a):
    return a.id


def mkpoly(d, sort):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0),
                         key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    if sort == "I":
        for m, c in items:
            if c.denominator != 1:
                sort = "R"
                break
    return mk(Poly, (items, sort), items=items, sort=sort)


def num(x, sort=None):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        f, s = Fraction(x), "I"
    elif isinstance(x, Fraction):
        f, s = x, ("I" if x.denominator == 1 else "R")
    elif isinstance(x, float):
        f, s = Fraction(repr(x)), "R"
    else:
        raise Unsupported("number %r" % (x,))
    return mkpoly({(): f} if f else {}, sort or s)


ZERO = num(0)
ONE = num(1)


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return boolc(x)
    if isinstance(x, (int, float, Fraction)):
        return num(x)
    if isinstance(x, str):
        return strc(x)
    raise Unsupported("cannot lift %r" % (type(x),))


def poly(t):
    """view a numeric term as a Poly"""
    if isinstance(t, Poly):
        return t
    if isinstance(t, T):
        if t.sort == "B":
            return br(t)
        if t.sort in ("I", "R"):
            return mkpoly({((t, 1),): Fraction(1)}, t.sort)
        raise Unsupported("arithmetic on %s" % t.sort)
    return poly(lift(t))


def const(t):
    """Fraction value if t is a numeric constant, else None"""
    t = poly(t)
    if not t.items:
        return Fraction(0)
    if len(t.items) == 1 and t.items[0][0] == ():
        return t.items[0][1]
    return None


def as_int(t):
    t = poly(t)
    return t if t.sort == "I" else mkpoly(dict(t.items), "I")


def as_real(t):
    t = poly(t)
    return t if t.sort == "R" else mk(Poly, (t.items, "R"), items=t.items, sort="R")


def _js(a, b):
    return "I" if a.sort == "I" and b.sort == "I" else "R"


def add(a, b):
    a, b = poly(a), poly(b)
    d = dict(a.items)
    for m, c in b.items:
        d[m] = d.get(m, 0) + c
    return mkpoly(d, _js(a, b))


def addn(ts):
    d = {}
    s = "I"
    for t in ts:
        t = poly(t)
        if t.sort == "R":
            s = "R"
        for m, c in t.items:
            d[m] = d.get(m, 0) + c
    return mkpoly(d, s)


def scale(a, c):
    a = poly(a)
    return mkpoly({m: k * c for m, k in a.items}, a.sort if c.denominator == 1 else "R")


def neg(a):
    return scale(a, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def mono_mul(m1, m2):
    """-> (mono, extra) where extra is a list of Polys to multiply in"""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return norm_mono(d)


def norm_mono(d):
    extra = []
    out = {}
    for a, e in d.items():
        if e == 0:
            continue
        if isinstance(a, Br):
            e = 1
        elif isinstance(a, App) and a.f == "sqrt" and abs(e) >= 2:
            k = abs(e) // 2
            inner = as_real(a.args[0])
            for _ in range(k):
                extra.append(inner if e > 0 else inverse(inner))
            e = (abs(e) % 2) * (1 if e > 0 else -1)
            if e == 0:
                continue
        elif isinstance(a, PA) and e > 0:
            for _ in range(e):
                extra.append(a.poly)
            continue
        out[a] = e
    m = tuple(sorted(out.items(), key=lambda ae: ae[0].id))
    return m, extra


def _contradict(m):
    """cheap contradiction between brackets in one monomial"""
    cs = {a.cond for a, e in m if isinstance(a, Br)}
    if not cs:
        return False
    for c in cs:
        if isinstance(c, Cmp) and c.op == "eq" and len(c.p.items) == 1 and len(c.p.items[0][0]) == 1:
            z, _ = c.p.items[0][0][0]
            if any(a is z and e > 0 for a, e in m):
                return True
    if len(cs) < 2:
        return False
    for c in cs:
        if isinstance(c, Cmp):
            for o in excluded_by(c):
                if o in cs:
                    return True
    return False


_excluded = {}


def excluded_by(c):
    r = _excluded.get(c)
    if r is None:
        p = c.p
        r = (lt(p, ZERO), lt(ZERO, p)) if c.op == "eq" else (lt(ZERO, p),) if c.op == "lt" else ()
        _excluded[c] = r
    return r


deadline = [None]        # for speculative work only


def mul(a, b):
    a, b = poly(a), poly(b)
    ca, cb = const(a), const(b)
    s = _js(a, b)
    if ca is not None:
        r = scale(b, ca)
        return r if s == r.sort else as_real(r)
    if cb is not None:
        r = scale(a, cb)
        return r if s == r.sort else as_real(r)
    d = {}
    extras = []
    if deadline[0] is not None and time.time() > deadline[0]:
        raise Unsupported("out of time")
    for m1, c1 in a.items:
        for m2, c2 in b.items:
            m, ex = mono_mul(m1, m2)
            if _contradict(m):
                continue
            if ex:
                extras.append((m, c1 * c2, ex))
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = mkpoly(d, s)
    for m, c, ex in extras:
        t = mkpoly({m: c}, "R")
        for e in ex:
            t = mul(t, e)
        r = add(r, t)
    return r


def power(a, n):
    if isinstance(n, T):
        c = const(n)
        if c is None:
            raise Unsupported("symbolic exponent")
        n = c
    if isinstance(n, float):
        n = Fraction(repr(n))
    if isinstance(n, Fraction):
        if n == Fraction(1, 2):
            return sqrt(a)
        if n == Fraction(-1, 2):
            return inverse(sqrt(a))
        if n.denominator != 1:
            raise Unsupported("exponent %s" % n)
        r = power(a, int(n))
        return as_real(r)
    if n < 0:
        return inverse(power(a, -n))
    r = ONE if poly(a).sort == "I" else as_real(ONE)
    for _ in range(n):
        r = mul(r, a)
    return r


def inverse(a):
    a = as_real(a)
    c = const(a)
    if c is not None:
        if c == 0:
            return app("undef_inv0", (), "R")
        return as_real(num(1 / c))
    if len(a.items) == 1:
        m, c = a.items[0]
        if not any(isinstance(x, Br) for x, _ in m):
            d, extra = norm_mono({x: -e for x, e in m})
            r = mkpoly({d: 1 / c}, "R")
            for e in extra:
                r = mul(r, e)
            return as_real(r)
    brs = {x for m, _ in a.items for x, e in m if isinstance(x, Br)}
    if len(brs) == 1:
        # one case distinction with simple cases: 1/ite(c, u, v) = ite(c, 1/u, 1/v)
        b = brs.pop()
        u, v = {}, {}
        for m, c in a.items:
            k = tuple(xe for xe in m if xe[0] is not b)
            u[k] = u.get(k, 0) + c
            if len(k) == len(m):
                v[k] = v.get(k, 0) + c
        u, v = [as_real(mkpoly({m: c for m, c in w.items() if c}, a.sort)) for w in (u, v)]
        if len(u.items) == 1 and len(v.items) == 1:
            b = mkpoly({((b, 1),): Fraction(1)}, "R")
            return add(mul(b, inverse(u)), mul(sub(as_real(ONE), b), inverse(v)))
    # factor out common content so that c*P and P share their inverse atom
    lead = a.items[0][1]
    common = None
    for m, _ in a.items:
        dm = {x: e for x, e in m if not isinstance(x, Br)}
        if common is None:
            common = dm
        else:
            common = {x: min(e, dm[x]) for x, e in common.items() if x in dm and e * dm[x] > 0
                      and min(abs(e), abs(dm[x])) == abs(e) or (x in dm and dm[x] == e)}
    common = {x: e for x, e in (common or {}).items() if all(dict(m).get(x, 0) == e for m, _ in a.items)}
    if common:
        inv_c, ex = norm_mono({x: -e for x, e in common.items()})
        rest = mul(a, mkpoly({inv_c: Fraction(1)}, "R"))
        for e in ex:
            rest = mul(rest, e)
        if len(rest.items) > 1:
            r = mul(mkpoly({inv_c: Fraction(1)}, "R"), inverse(rest))
            for e in ex:
                r = mul(r, e)
            return r
    prim = as_real(scale(a, 1 / lead))
    at = mk(PA, prim, poly=prim)
    return mkpoly({((at, -1),): 1 / lead}, "R")


def div(a, b):
    return as_real(mul(as_real(a), inverse(b)))


_SIGS = {}


def app(f, args, sort="R", asorts=None):
    args = tuple(args)
    fixed = []
    for i, a in enumerate(args):
        a = lift(a)
        if asorts:
            if asorts[i] == "I":
                a = as_int(a)
            elif asorts[i] == "R":
                a = as_real(a)
        elif a.sort in ("I", "R"):
            a = poly(a)
        fixed.append(a)
    t = mk(App, (f, tuple(fixed), sort), f=f, args=tuple(fixed), sort=sort)
    return poly(t) if sort in ("I", "R") else t


def sqrt(a):
    a = as_real(a)
    c = const(a)
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return as_real(num(Fraction(n, d)))
    if len(a.items) == 1:
        # pull the perfect-square rational content out
        import math
        m, c = a.items[0]
        if c > 0 and c != 1:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return as_real(scale(sqrt(mkpoly({m: Fraction(1)}, "R")), Fraction(n, d)))
        if c == 1 and len(m) == 1 and isinstance(m[0][0], Br):
            return a
    return app("sqrt", (a,), "R", "R")


def log(a):
    a = as_real(a)
    if const(a) == 1:
        return as_real(ZERO)
    if len(a.items) > 1:
        # 1 + (x - q)/q = x/q: the definedness obligation of the division makes q != 0
        for q in {x for m, _ in a.items for x, e in m if isinstance(x, PA) and e == -1}:
            n, rest = ZERO, ZERO
            for m, c in a.items:
                t = {(x, e) for x, e in m}
                if (q, -1) in t:
                    n = add(n, mkpoly({tuple(xe for xe in m if xe != (q, -1)): c}, "R"))
                else:
                    rest = add(rest, mkpoly({m: c}, "R"))
            n = add(n, mul(rest, q.poly))
            if n.items and len(n.items) < len(a.items):
                a = mul(n, mkpoly({((q, -1),): Fraction(1)}, "R"))
                break
    if len(a.items) == 1 and a.items[0][0]:
        # log(1/m) = -log(m): one orientation only
        m, c = a.items[0]
        pas = [e for x, e in m if isinstance(x, PA)]
        if pas:
            flip = max(pas) < 0
        else:
            # by name only: the order of terms changes with renaming
            ks = [(type(x).__name__, x.f if isinstance(x, App) else x.name.split("!")[0] if isinstance(x, Sym) and x.name[:1] != "%" else "", e) for x, e in m]
            k0 = min(k[:2] for k in ks)
            flip = all(e < 0 for a_, b_, e in ks if (a_, b_) == k0)
        if flip:
            return neg(log(inverse(a)))
    return app("log", (a,), "R", "R")


def is_square(p):
    """p is the square of a polynomial (found by trying signs)"""
    roots = []
    for m, c in p.items:
        n, d = isqrt(c.numerator) if c > 0 else 0, isqrt(c.denominator)
        if c > 0 and n * n == c.numerator and d * d == c.denominator and all(e % 2 == 0 for _, e in m):
            roots.append(mkpoly({tuple((a, e // 2) for a, e in m): Fraction(n, d)}, "R"))
    if not roots or len(roots) > 5 or len(p.items) > 15:
        return False
    for signs in product((1, -1), repeat=len(roots) - 1):
        q = roots[0]
        for s, r in zip(signs, roots[1:]):
            q = add(q, scale(r, Fraction(s)))
        if as_real(mul(q, q)) is as_real(p):
            return True
    return False


def absval(a):
    a = poly(a)
    c = const(a)
    if c is not None:
        return num(abs(c), a.sort)
    if a.items[0][1] < 0:
        a = neg(a)
    return sub(a, scale(mul(br(lt(a, ZERO)), a), Fraction(2)))


# ---------------------------------------------------------------- booleans

def _canon_scale(p, both):
    """scale so that the leading coefficient is +-1 (both: +1)"""
    lead = p.items[0][1]
    if both:
        return mkpoly({m: c / lead for m, c in p.items}, p.sort if all((c / lead).denominator == 1 for _, c in p.items) else "R"), lead
    l = abs(lead)
    return mkpoly({m: c / l for m, c in p.items}, p.sort if all((c / l).denominator == 1 for _, c in p.items) else "R"), l


def is_int(p):
    """integer valued: all atoms integer and integer coefficients"""
    for m, c in p.items:
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or a.sort != "I":
                return False
    return True


def nonneg_atom(a, e):
    if e % 2 == 0 or isinstance(a, Br):
        return True
    if isinstance(a, Sym):
        return a in _ranges or _lower.get(a, -1) >= 0 or (a.sort == "I" and a.name[0] == "%")
    if isinstance(a, App):
        if a.f == "imod":
            return positive(a.args[1])
        if a.f == "idiv":
            return positive(a.args[1]) and nonneg(a.args[0])
        return a.f in NONNEG or APPLOWER.get(a.f, -1) >= 0
    if isinstance(a, Sum):
        return all(nonneg_atom(x, k) for x, k in a.mono)
    if isinstance(a, PA):
        return nonneg(a.poly)
    return False


NONNEG = {"sqrt", "exp", "absf"}
APPLOWER = {}          # function name -> constant lower bound of its values, part of its meaning


def lower_bound(p):
    """a constant below p, or None"""
    r = Fraction(0)
    for m, c in p.items:
        if m == ():
            r += c
        elif all(nonneg_atom(a, e) for a, e in m):
            if c < 0:
                if all(isinstance(a, Br) for a, _ in m):
                    r += c
                    continue
                return None
            b = c
            for a, e in m:
                lo = atom_lower(a) if e > 0 else 0
                b *= lo ** e if lo else 0
            r += b
        else:
            return None
    return r


def atom_lower(a):
    """a constant >= 0 below an atom that is not negative"""
    if isinstance(a, Sym):
        return _lower.get(a, 0)
    if isinstance(a, App):
        return APPLOWER.get(a.f, 0)
    if isinstance(a, Sum):
        r = lower_bound(mkpoly({a.mono: Fraction(1)}, a.sort))
        for _, n in a.binders:
            if not r or r < 0:
                return 0
            b = lower_bound(poly(n))
            r = r * b if b is not None and b > 0 else 0
        return r
    return 0


def nonneg(p):
    b = lower_bound(poly(p))
    return b is not None and b >= 0


def positive(p):
    b = lower_bound(poly(p))
    return b is not None and b > 0


def _sign(p, depth=0):
    """(lower, upper) constant bounds of p or None, using symbol ranges"""
    lo = lower_bound(p)
    up = lower_bound(neg(p))
    if depth < 3 and (lo is None or lo <= 0) and (up is None or up <= 0):
        # an index symbol occurring linearly takes its extreme values
        for m, c in p.items:
            for a, e in m:
                if e == 1 and isinstance(a, Sym) and a in _ranges and a.sort == "I":
                    lin = _linear_poly(p, a)
                    if lin is None:
                        continue
                    k, rest = lin
                    top = as_int(sub(_ranges[a], ONE))
                    kl, ku = _sign(k, depth + 1)
                    if kl is not None and kl >= 0:
                        ql, qu = _sign(rest, depth + 1)[0], _sign(add(mul(k, top), rest), depth + 1)[1]
                    elif ku is not None and ku >= 0 and lower_bound(neg(k)) is not None:
                        ql, qu = _sign(add(mul(k, top), rest), depth + 1)[0], _sign(rest, depth + 1)[1]
                    else:
                        continue
                    if lo is None or (ql is not None and ql > lo):
                        lo = ql
                    if up is None or (qu is not None and qu > up):
                        up = qu
                    if (lo is not None and lo > 0) or (up is not None and up > 0):
                        return lo, up
    return lo, up


def _linear_poly(p, v):
    """p = k*v + rest, k and rest polynomials free of v"""
    k, rest = {}, {}
    for m, c in p.items:
        if any(v in syms(a) for a, _ in m):
            if [e for a, e in m if a is v] != [1] or any(a is not v and v in syms(a) for a, _ in m):
                return None
            k[tuple((a, e) for a, e in m if a is not v)] = c
        else:
            rest[m] = c
    return mkpoly(k, p.sort), mkpoly(rest, p.sort)


def decide_sign(op, p):
    """truth of p op 0 from the signs of its parts, or None"""
    lo, up = _sign(p)            # p >= lo, -p >= up
    if lo is not None:
        if op == "lt" and lo >= 0:
            return FALSE
        if op == "le" and lo > 0:
            return FALSE
        if op == "eq" and lo > 0:
            return FALSE
    if up is not None:
        if op == "le" and up >= 0:
            return TRUE
        if op == "lt" and up > 0:
            return TRUE
        if op == "eq" and up > 0:
            return FALSE
    return None


def cmp0(op, p):
    p = poly(p)
    c = const(p)
    if c is not None:
        return boolc({"lt": c < 0, "le": c <= 0, "eq": c == 0}[op])
    r = decide_sign(op, p)
    if r is not None:
        return r
    if is_int(p):
        p = as_int(p)
        from math import gcd
        if op == "lt":
            p = add(p, ONE)
            op = "le"
        # divide by gcd of nonconstant coefficients
        g = 0
        for m, k in p.items:
            if m != ():
                g = gcd(g, abs(k.numerator))
        if g > 1:
            k0 = dict(p.items).get((), Fraction(0))
            if op == "eq" and k0.numerator % g:
                return FALSE
            d = {m: (k / g if m != () else Fraction(-((-k0.numerator) // g))) for m, k in p.items}
            if op == "le":    # g*q + k0 <= 0  <=>  q <= floor(-k0/g)
                d[()] = Fraction(-((-k0.numerator) // g))
            p = mkpoly(d, "I")
        if op == "eq" and p.items[0][1] < 0 or (op == "eq" and p.items[0][0] == () and len(p.items) > 1 and p.items[1][1] < 0):
            p = neg(p)
    else:
        p = as_real(p)
        p, _ = _canon_scale(p, op == "eq")
        p = as_real(p)
    return mk(Cmp, (op, p), op=op, p=p)


def lt(a, b): return cmp0("lt", sub(a, b))
def le(a, b): return cmp0("le", sub(a, b))


_INJ = set()      # injective, range-disjoint constructors of sort S


INVERSE = {}         # injective (in the last argument) function -> bound of that argument, fn(*prefix)


def single_sym(p):
    if isinstance(p, Poly) and len(p.items) == 1 and p.items[0][1] == 1:
        m = p.items[0][0]
        if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], Sym):
            return m[0][0]
    return None


def single_app(x):
    if isinstance(x, App):
        return x
    if isinstance(x, Poly) and len(x.items) == 1 and x.items[0][1] == 1:
        m = x.items[0][0]
        if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], App):
            return m[0][0]
    return None


_is_value = set()


TOTAL = set()      # integer functions that are injective on all integers


def injective(f, sort, bound):
    """declare f(*prefix, i) injective in i; f.has(*prefix, x): x is a value for
    0 <= i < bound(*prefix); f.pos(*prefix, x): the i"""
    INVERSE[f] = (sort, bound)

    def has(*a):
        x = single_app(a[-1])
        if x is not None and x.f == f and x.args[:-1] == tuple(a[:-1]):
            i = x.args[-1]
            return band(le(ZERO, i), lt(i, bound(*a[:-1])))
        return mk(App, (f + ".has", tuple(a), "B"), f=f + ".has", args=tuple(a), sort="B")

    def pos(*a):
        x = single_app(a[-1])
        if x is not None and x.f == f and x.args[:-1] == tuple(a[:-1]):
            return x.args[-1]
        return poly(mk(App, (f + ".pos", tuple(a), "I"), f=f + ".pos", args=tuple(a), sort="I"))
    def value(*a):
        x = single_app(a[-1])
        if x is not None and x.f == f + ".pos" and x.args[:-1] == tuple(a[:-1]) and (f, x.args) in _is_value:
            return x.args[-1]
        return app(f, a, sort)
    _REBUILD[f] = value
    _REBUILD[f + ".has"] = has
    _REBUILD[f + ".pos"] = pos


def inv_has(f, *a):
    return _REBUILD[f + ".has"](*[poly(x) if lift(x).sort in "IR" else lift(x) for x in a])


def inv_pos(f, *a):
    return _REBUILD[f + ".pos"](*[poly(x) if lift(x).sort in "IR" else lift(x) for x in a])


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.sort == "B" and b.sort == "B":
        return bor(band(a, b), band(bnot(a), bnot(b)))
    if a.sort in ("I", "R", "B") and b.sort in ("I", "R", "B"):
        if TOTAL and a.sort == "I" and b.sort == "I":
            x, y = single_app(poly(a)), single_app(poly(b))
            if x is not None and y is not None and x.f == y.f and x.f in TOTAL and x.args[:-1] == y.args[:-1]:
                return eq(x.args[-1], y.args[-1])
        return cmp0("eq", sub(a, b))
    if a.sort != b.sort:
        return FALSE
    if isinstance(a, Str) and isinstance(b, Str):
        return boolc(a.v == b.v)
    if isinstance(a, App) and isinstance(b, App) and a.f == b.f and a.f in _INJ:
        return band(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if isinstance(a, App) and isinstance(b, App) and a.f == b.f and a.f in INVERSE and a.args[:-1] == b.args[:-1]:
        return eq(a.args[-1], b.args[-1])
    if a.sort == "S":
        r = text_eq(a, b)
        if r is not None:
            return r
    if a.id > b.id:
        a, b = b, a
    return mk(EqU, (a, b), a=a, b=b)


def text_eq(a, b):
    """decide equality of texts from their ends, drop common ends (None: nothing to do)"""
    parts = lambda t: list(t.args) if isinstance(t, App) and t.f == "cat" else [t]
    A, B = parts(a), parts(b)
    if len(A) == 1 and len(B) == 1:
        return None
    if any(isinstance(t, Str) and t.v == "" for t in A + B):
        return None
    digits = lambda t: isinstance(t, App) and t.f == "str" and t.args[0].sort == "I"
    for end in (0, -1):
        x, y = A[end], B[end]
        if isinstance(x, Str) and isinstance(y, Str):
            n = min(len(x.v), len(y.v))
            if (x.v[:n] != y.v[:n]) if end == 0 else (x.v[-n:] != y.v[-n:]):
                return FALSE
        for x, y in ((x, y), (y, x)):
            # an integer ends in a digit and begins with one, or a sign
            if digits(x) and isinstance(y, Str) and not (y.v[end].isdigit() or end == 0 and y.v[0] == "-"):
                return FALSE
    changed = False
    while A and B and A[-1] is B[-1]:
        A.pop()
        B.pop()
        changed = True
    while A and B and A[0] is B[0]:
        A.pop(0)
        B.pop(0)
        changed = True
    if not changed:
        return None
    join = lambda P: strc("") if not P else P[0] if len(P) == 1 else mk(App, ("cat", tuple(P), "S"), f="cat", args=tuple(P), sort="S")
    return eq(join(A), join(B))


def ne(a, b): return bnot(eq(a, b))


def bnot(a):
    a = tobool(a)
    if isinstance(a, BConst):
        return boolc(not a.v)
    if isinstance(a, Cmp):
        if a.op == "lt":
            return cmp0("le", neg(a.p))
        if a.op == "le":
            return cmp0("lt", neg(a.p))
    if isinstance(a, Bop):
        if a.op == "not":
            return a.args[0]
        if a.op == "and":
            return bor(*[bnot(x) for x in a.args])
        if a.op == "or":
            return band(*[bnot(x) for x in a.args])
    if isinstance(a, Quant):
        return mkquant("exists" if a.q == "forall" else "forall", a.binders, bnot(a.body))
    return mk(Bop, ("not", (a,)), op="not", args=(a,))


def tobool(a):
    a = lift(a)
    if a.sort == "B":
        return a
    if a.sort in ("I", "R"):
        return ne(a, ZERO)
    raise Unsupported("bool of %s" % a.sort)


def _flat(op, args):
    out = []
    for a in args:
        a = tobool(a)
        if isinstance(a, Bop) and a.op == op:
            out.extend(a.args)
        else:
            out.append(a)
    return out


def band(*args):
    s = []
    for a in _flat("and", args):
        if a is FALSE:
            return FALSE
        if a is TRUE or a in s:
            continue
        s.append(a)
    for a in s:
        if isinstance(a, (Cmp, EqU)) or (isinstance(a, Bop) and a.op == "not"):
            if bnot(a) in s:
                return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s = tuple(sorted(s, key=_akey))
    return mk(Bop, ("and", s), op="and", args=s)


def bor(*args):
    s = []
    for a in _flat("or", args):
        if a is TRUE:
            return TRUE
        if a is FALSE or a in s:
            continue
        s.append(a)
    for a in s:
        if isinstance(a, (Cmp, EqU)) or (isinstance(a, Bop) and a.op == "not"):
            if bnot(a) in s:
                return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s = tuple(sorted(s, key=_akey))
    return mk(Bop, ("or", s), op="or", args=s)


def implies(a, b): return bor(bnot(a), b)


def br(c):
    """Iverson bracket as a polynomial"""
    c = tobool(c)
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if isinstance(c, Bop):
        if c.op == "and":
            r = ONE
            for x in c.args:
                r = mul(r, br(x))
            return r
        if c.op == "or":
            r = ONE
            for x in c.args:
                r = mul(r, sub(ONE, br(x)))
            return sub(ONE, r)
        if c.op == "not":
            return sub(ONE, br(c.args[0]))
    if isinstance(c, Cmp) and c.op in ("lt", "le"):
        n = bnot(c)
        if isinstance(n, Cmp) and n.id < c.id:
            return sub(ONE, mkpoly({((mk(Br, n, cond=n), 1),): Fraction(1)}, "I"))
    return mkpoly({((mk(Br, c, cond=c), 1),): Fraction(1)}, "I")


def ite(c, a, b):
    c = tobool(c)
    if c is TRUE:
        return lift(a)
    if c is FALSE:
        return lift(b)
    a, b = lift(a), lift(b)
    if a is b:
        return a
    if a.sort == "B" and b.sort == "B":
        return bor(band(c, a), band(bnot(c), b))
    if a.sort in ("I", "R", "B") and b.sort in ("I", "R", "B"):
        g = br(c)
        return add(mul(g, a), mul(sub(ONE, g), b))
    return mk(App, ("ite", (c, a, b), a.sort), f="ite", args=(c, a, b), sort=a.sort)


# ------------------------------------------------------------ symbols, subst

def syms(t):
    """free symbols (bound % names excluded by their binders)"""
    if t._syms is not None:
        return t._syms
    if isinstance(t, Sym):
        s = frozenset((t,))
    elif isinstance(t, App):
        s = frozenset().union(*[syms(a) for a in t.args]) if t.args else frozenset()
    elif isinstance(t, Poly):
        s = frozenset().union(*[syms(a) for m, _ in t.items for a, _ in m]) if t.items else frozenset()
    elif isinstance(t, Sum):
        s = frozenset().union(*[syms(a) for a, _ in t.mono]) if t.mono else frozenset()
        for v, n in t.binders:
            s = s | syms(n)
        s = s - frozenset(v for v, _ in t.binders)
    elif isinstance(t, Br):
        s = syms(t.cond)
    elif isinstance(t, PA):
        s = syms(t.poly)
    elif isinstance(t, Cmp):
        s = syms(t.p)
    elif isinstance(t, Bop):
        s = frozenset().union(*[syms(a) for a in t.args])
    elif isinstance(t, EqU):
        s = syms(t.a) | syms(t.b)
    elif isinstance(t, (Quant, Lam)):
        s = syms(t.body)
        for v, n in t.binders:
            s = s | syms(n)
        s = s - frozenset(v for v, _ in t.binders)
    else:
        s = frozenset()
    t._syms = s
    return s


def subst(t, env, cache=None):
    """replace free symbols (keys: Sym) by terms"""
    if not isinstance(t, T):
        return t
    if not (syms(t) & env.keys()) and not (_unfolding[0] and has_def(t)):
        return t
    if cache is None:
        cache = {}
    r = cache.get(t)
    if r is not None:
        return r
    if isinstance(t, Sym):
        r = env.get(t, t)
        if isinstance(r, T) and r.sort in ("I", "R") and not isinstance(r, Poly):
            r = poly(r)
    elif isinstance(t, App):
        r = rebuild_app(t, [subst(a, env, cache) for a in t.args])
    elif isinstance(t, Poly):
        parts = []
        for m, c in t.items:
            p = mkpoly({(): c}, t.sort if c.denominator == 1 else "R")
            keep = {}
            for a, e in m:
                if syms(a) & env.keys() or (_unfolding[0] and has_def(a)):
                    q = poly(subst(a, env, cache))
                    p = mul(p, power(q, e) if e > 0 else inverse(power(q, -e)))
                else:
                    keep[a] = e
            if keep:
                km, ex = norm_mono(keep)
                p = mul(p, mkpoly({km: Fraction(1)}, "I" if all(x.sort == "I" and e > 0 for x, e in km) else "R"))
                for e in ex:
                    p = mul(p, e)
            parts.append(p)
        r = addn(parts)
        if t.sort == "R":
            r = as_real(r)
    elif isinstance(t, Sum):
        vs = [fresh("b", "I") for _ in t.binders]
        e2 = {v: poly(nv) for (v, _), nv in zip(t.binders, vs)}
        e3 = {k: v for k, v in env.items() if k not in e2}
        e3.update(e2)
        body = subst(mkpoly({t.mono: Fraction(1)}, "R"), e3)
        bs = []
        for (v, n), nv in zip(t.binders, vs):
            bs.append((nv, poly(subst(n, e3))))
        r = msum(bs, body)
        if t.sort == "I":
            r = as_int(r)
    elif isinstance(t, Br):
        r = br(subst(t.cond, env, cache))
    elif isinstance(t, PA):
        r = subst(t.poly, env, cache)
    elif isinstance(t, Cmp):
        r = cmp0(t.op, subst(t.p, env, cache))
    elif isinstance(t, Bop):
        a = [subst(x, env, cache) for x in t.args]
        r = bnot(a[0]) if t.op == "not" else (band(*a) if t.op == "and" else bor(*a))
    elif isinstance(t, EqU):
        r = eq(subst(t.a, env, cache), subst(t.b, env, cache))
    elif isinstance(t, (Quant, Lam)):
        vs = [fresh("q", v.sort) for v, _ in t.binders]
        e3 = {k: v for k, v in env.items() if k not in [b for b, _ in t.binders]}
        for (v, _), nv in zip(t.binders, vs):
            e3[v] = poly(nv)
        nb = [(nv, poly(subst(n, e3))) for (v, n), nv in zip(t.binders, vs)]
        for nv, n in nb:
            _ranges[nv] = n
        r = mklam(nb, subst(t.body, e3)) if isinstance(t, Lam) else mkquant(t.q, nb, subst(t.body, e3))
    else:
        r = t
    cache[t] = r
    return r


_REBUILD = {}

# defined functions: name -> fn(*args) giving the meaning.  Applications stay
# opaque in normal forms; the solver unfolds them when it needs the meaning.
DEFS = {}
_unfolding = [False]
_hasdef = {}


def has_def(t):
    """a defined function is applied somewhere in t"""
    r = _hasdef.get(t)
    if r is not None:
        return r
    if isinstance(t, App):
        r = t.f in DEFS or any(has_def(a) for a in t.args)
    elif isinstance(t, Poly):
        r = any(has_def(a) for m, _ in t.items for a, _ in m)
    elif isinstance(t, Sum):
        r = any(has_def(a) for a, _ in t.mono) or any(has_def(n) for _, n in t.binders)
    elif isinstance(t, Br):
        r = has_def(t.cond)
    elif isinstance(t, PA):
        r = has_def(t.poly)
    elif isinstance(t, Cmp):
        r = has_def(t.p)
    elif isinstance(t, Bop):
        r = any(has_def(a) for a in t.args)
    elif isinstance(t, EqU):
        r = has_def(t.a) or has_def(t.b)
    elif isinstance(t, (Quant, Lam)):
        r = has_def(t.body) or any(has_def(n) for _, n in t.binders)
    else:
        r = False
    _hasdef[t] = r
    return r


def children(x):
    if isinstance(x, App):
        return x.args
    if isinstance(x, Poly):
        return [a for m, _ in x.items for a, _ in m]
    if isinstance(x, Sum):
        return [a for a, _ in x.mono] + [n for _, n in x.binders]
    if isinstance(x, Br):
        return (x.cond,)
    if isinstance(x, PA):
        return (x.poly,)
    if isinstance(x, Cmp):
        return (x.p,)
    if isinstance(x, Bop):
        return x.args
    if isinstance(x, EqU):
        return (x.a, x.b)
    if isinstance(x, (Quant, Lam)):
        return [x.body] + [n for _, n in x.binders]
    return ()


def unfold(t):
    """replace defined functions by their definitions"""
    if not has_def(t):
        return t
    _unfolding[0] = True
    try:
        return subst(t, {})
    finally:
        _unfolding[0] = False


def unfold_again(r):
    return subst(r, {}) if has_def(r) else r


def beta(l, *idx):
    """apply a Lam to index terms"""
    u, _unfolding[0] = _unfolding[0], False
    try:
        return subst(l.body, {v: as_int(lift(i)) for (v, _), i in zip(l.binders, idx)})
    finally:
        _unfolding[0] = u


def rebuild_app(t, args):
    if _unfolding[0] and t.f in DEFS:
        _unfolding[0] = False
        try:
            r = DEFS[t.f](*args)
        finally:
            _unfolding[0] = True
        return unfold_again(r)
    h = _REBUILD.get(t.f)
    if h is not None:
        return h(*args)
    if t.f == "sqrt":
        return sqrt(args[0])
    if t.f == "log":
        return log(args[0])
    if t.f == "ite":
        return ite(*args)
    if t.f == "idiv":
        return idiv(*args)
    if t.f == "imod":
        return imod(*args)
    r = mk(App, (t.f, tuple(args), t.sort), f=t.f, args=tuple(args), sort=t.sort)
    return poly(r) if t.sort in ("I", "R") else r


def in_range_syntactic(r, d):
    """r is known to lie in [0, d)"""
    r, d = poly(r), poly(d)
    cr, cd = const(r), const(d)
    if cr is not None and cd is not None:
        return 0 <= cr < cd
    if len(r.items) == 1 and r.items[0][1] == 1 and len(r.items[0][0]) == 1 and r.items[0][0][0][1] == 1:
        a = r.items[0][0][0][0]
        if isinstance(a, Sym) and a in _ranges and poly(_ranges[a]) is as_int(d):
            return True
        if isinstance(a, App) and a.f == "imod" and as_int(a.args[1]) is as_int(d):
            return True
    return cr == 0 if cr is not None else False


def _divide(p, d):
    """p = q*d + r with q, r polynomials; r collects monomials not divisible by d"""
    p, d = as_int(p), as_int(d)
    cd = const(d)
    q, r = {}, {}
    if cd is not None:
        if cd == 0:
            return None
        for m, c in p.items:
            if c.numerator % cd.numerator == 0:
                q[m] = c / cd
            else:
                r[m] = c
        return mkpoly(q, "I"), mkpoly(r, "I")
    if len(d.items) != 1 or d.items[0][1] != 1:
        if p is d:
            return ONE, ZERO
        # long division by the leading monomial
        order = lambda mc: (sum(e for _, e in mc[0]), tuple((a.id, e) for a, e in mc[0]))
        if any(e < 0 for m, _ in p.items + d.items for _, e in m):
            return None
        lead, lc = max(d.items, key=order)
        q, rest = ZERO, p
        for _ in range(20):
            for m, c in sorted(rest.items, key=order, reverse=True):
                mm = dict(m)
                if all(mm.get(a, 0) >= e for a, e in lead) and c % lc == 0:
                    for a, e in lead:
                        mm[a] -= e
                    t = mkpoly({norm_mono(mm)[0]: c / lc}, "I")
                    q, rest = add(q, t), as_int(sub(rest, mul(t, d)))
                    break
            else:
                return as_int(q), rest
            if not rest.items:
                return as_int(q), ZERO
        return None
    dm = dict(d.items[0][0])
    for m, c in p.items:
        mm = dict(m)
        if all(mm.get(a, 0) >= e for a, e in dm.items()):
            for a, e in dm.items():
                mm[a] -= e
            q[norm_mono(mm)[0]] = c
        else:
            r[m] = c
    return mkpoly(q, "I"), mkpoly(r, "I")


def idiv(p, d):
    p, d = as_int(p), as_int(d)
    cp, cd = const(p), const(d)
    if cp is not None and cd is not None and cd != 0:
        return num(int(cp) // int(cd))
    if cd == 1:
        return p
    qr = _divide(p, d)
    if qr is not None and in_range_syntactic(qr[1], d):
        return qr[0]
    return app("idiv", (p, d), "I", "II")


def imod(p, d):
    p, d = as_int(p), as_int(d)
    cp, cd = const(p), const(d)
    if cp is not None and cd is not None and cd != 0:
        return num(int(cp) % int(cd))
    if cd == 1:
        return ZERO
    qr = _divide(p, d)
    if qr is not None and in_range_syntactic(qr[1], d):
        return qr[1]
    return app("imod", (p, d), "I", "II")


def locate(l, x):
    """the j < n with sum_{i<j} L(i) <= x < sum_{i<=j} L(i), for l = lam j < n. L(j)"""
    (v, n), = l.binders
    x = as_int(x)
    size = lambda b: as_int(subst(l.body, {v: as_int(lift(b))}))
    cx, cn = const(x), const(n)
    if cx is not None and cn is not None:
        t = 0
        for j in range(int(cn)):
            k = const(size(j))
            if k is None:
                break
            t += k
            if cx < t:
                return num(j)
    cand = [ZERO]
    for m, c in x.items:
        for a, e in m:
            if isinstance(a, Sum) and len(a.binders) == 1:
                b = as_int(a.binders[0][1])
                cand += [y for y in (b, as_int(add(b, ONE))) if y not in cand]
    for b in cand:
        r = sub(x, start_of(l, b))
        if any(isinstance(a, Sum) for m, _ in r.items for a, _ in m):
            continue
        lo, up = _sign(r)[0], _sign(sub(sub(size(b), r), ONE))[0]
        if lo is not None and lo >= 0 and up is not None and up >= 0:
            return b
    return app("locate", (l, x), "I")


def start_of(l, b):
    """sum_{i<b} L(i)"""
    (v, n), = l.binders
    f = fresh("b", "I", hi=b)
    return as_int(ssum(f, as_int(lift(b)), subst(l.body, {v: poly(f)})))


_REBUILD["locate"] = lambda l, x: locate(l, x)

# --------------------------------------------------------------------- sums

EXPAND_LIMIT = 64


def linear_in(p, v):
    """p = c*v + rest with c a nonzero constant, rest free of v -> (c, rest) or None"""
    p = poly(p)
    c = None
    rest = {}
    for m, k in p.items:
        if any(v in syms(a) for a, _ in m):
            if len(m) == 1 and m[0][0] is v and m[0][1] == 1 and c is None:
                c = k
            else:
                return None
        else:
            rest[m] = k
    if c is None:
        return None
    return c, mkpoly(rest, p.sort)


def msum(binders, body):
    """sum over several binders (outermost first; bounds of later ones may
    depend on earlier ones)"""
    r = body
    for v, n in reversed(binders):
        r = ssum(v, n, r)
    return r


def _bracket_in_range(cond, v, n):
    """decide a bracket condition for all v in [0, n): True, False or None"""
    if not isinstance(cond, Cmp):
        return None
    lin = linear_in(cond.p, v)
    if lin is None:
        return None
    lo = subst(cond.p, {v: ZERO})
    hi = subst(cond.p, {v: sub(n, ONE)})
    clo, chi = const(lo), const(hi)
    c = lin[0]
    mx, mn = (chi, clo) if c > 0 else (clo, chi)
    if cond.op == "le":
        if mx is not None and mx <= 0:
            return True
        if mn is not None and mn > 0:
            return False
    elif cond.op == "lt":
        if mx is not None and mx < 0:
            return True
        if mn is not None and mn >= 0:
            return False
    else:
        if (mn is not None and mn > 0) or (mx is not None and mx < 0):
            return False
    return None


def ssum(v, n, body):
    """sum_{v=0}^{n-1} body, canonical"""
    n = as_int(n)
    body = poly(body)
    cn = const(n)
    if cn is not None:
        if cn <= 0:
            return as_real(ZERO) if body.sort == "R" else ZERO
        if cn <= EXPAND_LIMIT:
            r = addn([subst(body, {v: num(i)}) for i in range(int(cn))])
            return as_real(r) if body.sort == "R" else r
    d = _split_divisor(v, n, body)
    if d is not None:
        q = fresh("q", "I", hi=d[1])
        r = fresh("r", "I", hi=d[0])
        e = {v: add(mul(poly(q), d[0]), poly(r))}
        x = ssum(q, d[1], ssum(r, d[0], subst(body, e)))
        return as_real(x) if body.sort == "R" else x
    if cn is None and n.items and v in syms(body):
        k = dict(n.items).get((), 0)
        if k >= 1 and nonneg(sub(n, ONE)):
            last = as_int(sub(n, ONE))
            r = add(ssum(v, last, body), subst(body, {v: last}))
            return as_real(r) if body.sort == "R" else r
    parts = []
    for m, c in body.items:
        parts.append(scale(_sum_mono(v, n, m), c))
    r = addn(parts) if parts else ZERO
    return as_real(r) if body.sort == "R" else r


def _split_divisor(v, n, body):
    """body uses v div d or v mod d, and n = q*d: (d, q).  (d > 0 wherever the
    sum is not empty, since v div d was computed with 0 <= v < n)"""
    stack = [body]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen or v not in syms(x):
            continue
        seen.add(x)
        if isinstance(x, App):
            if x.f in ("idiv", "imod") and len(x.args) == 2 and v in syms(x.args[0]) and v not in syms(x.args[1]):
                lin = linear_in(x.args[0], v)
                if lin is not None and lin[0] == 1 and const(lin[1]) == 0:
                    qr = _divide(n, x.args[1])
                    if qr is not None and const(qr[1]) == 0:
                        return as_int(x.args[1]), qr[0]
            stack.extend(x.args)
        elif isinstance(x, Poly):
            for m, _ in x.items:
                stack.extend(a for a, _ in m)
        elif isinstance(x, Sum):
            stack.extend(a for a, _ in x.mono)
            stack.extend(k for _, k in x.binders)
        elif isinstance(x, Br):
            stack.append(x.cond)
        elif isinstance(x, PA):
            stack.append(x.poly)
        elif isinstance(x, Cmp):
            stack.append(x.p)
        elif isinstance(x, Bop):
            stack.extend(x.args)
        elif isinstance(x, EqU):
            stack.extend((x.a, x.b))
        elif isinstance(x, (Quant, Lam)):
            stack.append(x.body)
    return None


def _injection(c, v, n):
    """c says f(pre, v) == x for an injective f whose arguments are 0 <= v < n: (f, pre, x)"""
    if isinstance(c, EqU):
        for a, b in ((c.a, c.b), (c.b, c.a)):
            if isinstance(a, App) and a.f in INVERSE and single_sym(a.args[-1]) is v and v not in syms(b):
                pre = a.args[:-1]
                if not any(v in syms(p) for p in pre) and as_int(lift(INVERSE[a.f][1](*pre))) is n:
                    return a.f, tuple(pre), b
    elif isinstance(c, Cmp) and c.op == "eq":
        for m, k in c.p.items:
            if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and isinstance(m[0][0], App):
                a = m[0][0]
                if a.f in INVERSE and single_sym(a.args[-1]) is v:
                    pre = a.args[:-1]
                    rest = scale(sub(c.p, mkpoly({m: k}, c.p.sort)), Fraction(-1) / k)
                    if v not in syms(rest) and not any(v in syms(p) for p in pre) and is_int(rest) and \
                            as_int(lift(INVERSE[a.f][1](*pre))) is n:
                        return a.f, tuple(pre), as_int(rest)
    return None


def _sum_mono(v, n, m):
    dep = [(a, e) for a, e in m if v in syms(a)]
    free = {a: e for a, e in m if v not in syms(a)}
    fm, _ = norm_mono(free)
    free_p = mkpoly({fm: Fraction(1)}, "I" if all(a.sort == "I" and e > 0 for a, e in fm) else "R")
    if not dep:
        return mul(free_p, n)
    # brackets decided by the range; delta rule
    for i, (a, e) in enumerate(dep):
        if isinstance(a, Br):
            d = _bracket_in_range(a.cond, v, n)
            if d is False:
                return ZERO
            if d is True:
                rest = dep[:i] + dep[i + 1:]
                return mul(free_p, _sum_mono(v, n, tuple(sorted(rest, key=lambda ae: ae[0].id))))
            inj = _injection(a.cond, v, n)
            if inj is not None:
                f, pre, x = inj
                rest = dep[:i] + dep[i + 1:]
                rp = mkpoly({norm_mono(dict(rest))[0]: Fraction(1)}, "R" if any(x.sort != "I" or e < 0 for x, e in rest) else "I")
                key = f, pre + (x,)
                new = key not in _is_value
                _is_value.add(key)
                try:
                    val = subst(rp, {v: inv_pos(f, *(pre + (x,)))})     # under the guard, f(pos(x)) is x
                finally:
                    if new:
                        _is_value.discard(key)
                return mul(mul(free_p, br(inv_has(f, *(pre + (x,))))), val)
            if isinstance(a.cond, Cmp) and a.cond.op == "eq":
                lin = linear_in(a.cond.p, v)
                if lin is not None and abs(lin[0]) == 1:
                    ev = scale(lin[1], Fraction(-1) / lin[0])
                    if is_int(ev):
                        ev = as_int(ev)
                        rest = dep[:i] + dep[i + 1:]
                        rp = mkpoly({norm_mono(dict(rest))[0]: Fraction(1)}, "R" if any(x.sort != "I" or e < 0 for x, e in rest) else "I")
                        val = subst(rp, {v: ev})
                        guard = mul(br(le(ZERO, ev)), br(lt(ev, n)))
                        return mul(free_p, mul(guard, val))
    # product of (possibly several) sums: make it one prenex sum
    binders = [(v, n)]
    atoms = {}
    for a, e in dep:
        if isinstance(a, Sum) and e > 0:
            for _ in range(e):
                env = {}
                nb = []
                for (bv, bn) in a.binders:
                    f = fresh("b", "I")
                    nb.append((f, as_int(subst(bn, env))))
                    env[bv] = poly(f)
                binders.extend(nb)
                sub_m = subst(mkpoly({a.mono: Fraction(1)}, "R"), env)
                if len(sub_m.items) != 1 or sub_m.items[0][1] != 1:
                    # substitution normalised further: sum it generically
                    inner = mkpoly({norm_mono({x: k for x, k in dep if x is not a})[0]: Fraction(1)}, "R")
                    tot = mul(inner, power(poly(a), e - 1)) if e > 1 else inner
                    return mul(free_p, msum(binders[:1] + nb, mul(tot, sub_m))) if len(binders) == 1 + len(nb) else _opaque_sum(free_p, v, n, dep)
                for x, k in sub_m.items[0][0]:
                    atoms[x] = atoms.get(x, 0) + k
        else:
            atoms[a] = atoms.get(a, 0) + e
    if len(binders) > 1:
        mm, ex = norm_mono(atoms)
        # newly combined brackets may decide / delta: recurse only if they can fire
        if not ex:
            for bv, bn in binders:
                for a, e in mm:
                    if isinstance(a, Br) and bv in syms(a):
                        if isinstance(a.cond, Cmp) and (_bracket_in_range(a.cond, bv, bn) is not None or
                                                        (a.cond.op == "eq" and linear_in(a.cond.p, bv) and abs(linear_in(a.cond.p, bv)[0]) == 1)):
                            if not any(bv in syms(on) for ov, on in binders if ov is not bv):
                                inner = _sum_mono(bv, bn, mm)
                                rest = [(ov, on) for ov, on in binders if ov is not bv]
                                return mul(free_p, msum(rest, inner))
            # binder not used any more?
            for bv, bn in binders:
                if not any(bv in syms(a) for a, _ in mm) and not any(bv in syms(on) for ov, on in binders if ov is not bv):
                    rest = [(ov, on) for ov, on in binders if ov is not bv]
                    return mul(free_p, msum(rest, mul(bn, mkpoly({mm: Fraction(1)}, "R"))))
    else:
        mm, ex = norm_mono(atoms)
    r = _canon_sum(binders, mm)
    return mul(free_p, r)


def _opaque_sum(free_p, v, n, dep):
    mm, _ = norm_mono(dict(dep))
    return mul(free_p, _canon_sum([(v, n)], mm, nofl=True))


def _height(t):
    """max % index occurring in t (free or bound)"""
    best = 0
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, Sym):
            if x.name.startswith("%"):
                best = max(best, int(x.name[1:]))
        elif isinstance(x, App):
            stack.extend(x.args)
        elif isinstance(x, Poly):
            for m, _ in x.items:
                stack.extend(a for a, _ in m)
        elif isinstance(x, Sum):
            for a, _ in x.mono:
                stack.append(a)
            for bv, bn in x.binders:
                stack.append(bv)
                stack.append(bn)
        elif isinstance(x, Br):
            stack.append(x.cond)
        elif isinstance(x, PA):
            stack.append(x.poly)
        elif isinstance(x, Cmp):
            stack.append(x.p)
        elif isinstance(x, Bop):
            stack.extend(x.args)
        elif isinstance(x, EqU):
            stack.extend((x.a, x.b))
        elif isinstance(x, (Quant, Lam)):
            stack.append(x.body)
            for bv, bn in x.binders:
                stack.append(bv)
                stack.append(bn)
    return best


def _canon_sum(binders, mono, nofl=False):
    h = 0
    for a, _ in mono:
        h = max(h, _height(a))
    for _, n in binders:
        h = max(h, _height(n))
    best = None
    idx = list(range(len(binders)))
    perms = permutations(idx) if len(binders) <= 4 else [tuple(idx)]
    for pm in perms:
        # bounds may only use earlier binders
        ok = True
        seen = set()
        for i in pm:
            if (syms(binders[i][1]) & {b for b, _ in binders}) - seen:
                ok = False
                break
            seen.add(binders[i][0])
        if not ok:
            continue
        env = {}
        nb = []
        for pos, i in enumerate(pm):
            c = sym("%%%d" % (h + 1 + pos), "I")
            nb.append((c, as_int(subst(binders[i][1], env))))
            env[binders[i][0]] = poly(c)
        d = {}
        bad = False
        for a, e in mono:
            q = poly(subst(a, env))
            if len(q.items) == 1 and q.items[0][1] == 1 and len(q.items[0][0]) == 1 and q.items[0][0][0][1] == 1:
                d[q.items[0][0][0][0]] = d.get(q.items[0][0][0][0], 0) + e
            elif e < 0 and isinstance(a, PA):
                q2 = inverse(q)
                if len(q2.items) == 1 and q2.items[0][1] == 1:
                    for x, k in q2.items[0][0]:
                        d[x] = d.get(x, 0) + k * (-e)
                else:
                    bad = True
                    break
            else:
                bad = True
                break
        if bad:
            # renaming changed the normal form (bracket orientation, scaling): re-sum generically
            body = ONE
            for a, e in mono:
                q = poly(subst(a, env))
                body = mul(body, power(q, e) if e > 0 else inverse(power(q, -e)))
            if len(body.items) == 1 and body.items[0][1] == 1:
                m2 = body.items[0][0]
            else:
                outs = []
                for m3, c3 in body.items:
                    outs.append(scale(_raw_sum(tuple(nb), m3), c3))
                return addn(outs)
        else:
            m2, _ = norm_mono(d)
        key = (tuple((b.name, n.id) for b, n in nb), tuple((a.id, e) for a, e in m2))
        if best is None or key < best[0]:
            best = (key, tuple(nb), m2)
    return _raw_sum(best[1], best[2])


def _raw_sum(nb, m):
    t = mk(Sum, (nb, m), binders=nb, mono=m)
    s = mkpoly({((t, 1),): Fraction(1)}, "R")
    # integer valued sums
    if all(a.sort == "I" and e > 0 for a, e in m) or (all((a.sort == "I" or isinstance(a, Sum)) and e > 0 for a, e in m) and m and all(is_int_atom(a) for a, _ in m)):
        ti = mk(SumI, (nb, m), binders=nb, mono=m)
        return mkpoly({((ti, 1),): Fraction(1)}, "I")
    return s


def is_int_atom(a):
    return a.sort == "I"


class SumI(Sum):
    __slots__ = ()
    sort = "I"


def mkquant(q, binders, body):
    body = tobool(body)
    if isinstance(body, BConst):
        if body.v == (q == "forall"):
            return body
        # decided by the emptiness of the ranges
        if any(set(v for v, _ in binders) & syms(n) for _, n in binders):
            raise Unsupported("quantifier over dependent ranges")
        return bor(*[le(n, ZERO) for _, n in binders]) if q == "forall" else band(*[lt(ZERO, n) for _, n in binders])
    used = [(v, n) for v, n in binders if v in syms(body)]
    # ranges of unused binders matter only for emptiness; keep them when not obviously nonempty
    bs = tuple(binders)
    for v, n in bs:
        c = const(n)
        if c is not None and c <= 0:
            return TRUE if q == "forall" else FALSE
    if len(bs) == 1:
        c = const(bs[0][1])
        if c is not None and c <= EXPAND_LIMIT:
            parts = [subst(body, {bs[0][0]: num(i)}) for i in range(int(c))]
            return band(*parts) if q == "forall" else bor(*parts)
    h = _height(body)
    for _, n in bs:
        h = max(h, _height(n))
    env = {}
    nb = []
    for i, (v, n) in enumerate(bs):
        c = sym("%%%d" % (h + 1 + i), v.sort)
        nb.append((c, poly(subst(n, env))))
        env[v] = poly(c)
    body = subst(body, env)
    nb = tuple(nb)
    return mk(Quant, (q, nb, body), q=q, binders=nb, body=body)


def mklam(binders, body):
    """body is a numeric term over the binder symbols"""
    h = _height(body)
    for _, n in binders:
        h = max(h, _height(n))
    env = {}
    nb = []
    for i, (v, n) in enumerate(binders):
        c = sym("%%%d" % (h + 1 + i), v.sort)
        nb.append((c, poly(subst(n, env))))
        env[v] = poly(c)
    body = subst(body, env)
    nb = tuple(nb)
    return mk(Lam, (nb, body), binders=nb, body=body)


def lam(shape, fn):
    vs = [fresh("l", "I", hi=n) for n in shape]
    return mklam([(v, as_int(lift(n))) for v, n in zip(vs, shape)], fn(*[poly(v) for v in vs]))


def forall(n, fn, name="i"):
    v = fresh(name, "I", hi=n)
    return mkquant("forall", [(v, as_int(lift(n)))], fn(poly(v)))


def exists(n, fn, name="i"):
    v = fresh(name, "I", hi=n)
    return mkquant("exists", [(v, as_int(lift(n)))], fn(poly(v)))


def summ(n, fn, name="i"):
    v = fresh(name, "I", hi=n)
    return ssum(v, lift(n), fn(poly(v)))


# ----------------------------------------------------------------- printing

def show(t, depth=0):
    if isinstance(t, Sym):
        return t.name
    if isinstance(t, App):
        return "%s(%s)" % (t.f, ", ".join(show(a) for a in t.args)) if t.args else t.f
    if isinstance(t, Str):
        return repr(t.v)
    if isinstance(t, BConst):
        return str(t.v)
    if isinstance(t, Poly):
        if not t.items:
            return "0"
        out = []
        for m, c in t.items:
            fs = [(show(a) if e == 1 else "%s^%d" % (show(a), e)) for a, e in m]
            if c == 1 and fs:
                s = "*".join(fs)
            elif c == -1 and fs:
                s = "-" + "*".join(fs)
            else:
                s = "*".join([str(c)] + fs)
            out.append(s)
        r = " + ".join(out)
        return "(%s)" % r if len(out) > 1 else r
    if isinstance(t, Sum):
        return "SUM[%s](%s)" % (", ".join("%s<%s" % (b.name, show(n)) for b, n in t.binders),
                                "*".join((show(a) if e == 1 else "%s^%d" % (show(a), e)) for a, e in t.mono))
    if isinstance(t, Br):
        return "[%s]" % show(t.cond)
    if isinstance(t, PA):
        return "<%s>" % show(t.poly)
    if isinstance(t, Cmp):
        return "%s %s 0" % (show(t.p), {"lt": "<", "le": "<=", "eq": "=="}[t.op])
    if isinstance(t, Bop):
        if t.op == "not":
            return "not(%s)" % show(t.args[0])
        return "(%s)" % ((" %s " % t.op).join(show(a) for a in t.args))
    if isinstance(t, EqU):
        return "%s == %s" % (show(t.a), show(t.b))
    if isinstance(t, Lam):
        return "lam[%s](%s)" % (", ".join("%s<%s" % (b.name, show(n)) for b, n in t.binders), show(t.body))
    if isinstance(t, Quant):
        return "%s[%s](%s)" % (t.q, ", ".join("%s<%s" % (b.name, show(n)) for b, n in t.binders), show(t.body))
    return object.__repr__(t)


# --------------------------------------------------------------- evaluation

def evaluate(t, env):
    """numeric evaluation under env: Sym name -> value, function name ->
    callable; used to cross-check the extraction against CPython"""
    import math
    if isinstance(t, Poly):
        r = 0.0 if t.sort == "R" else 0
        for m, c in t.items:
            p = float(c) if t.sort == "R" or c.denominator != 1 else int(c)
            zero = False
            for a, e in m:
                if isinstance(a, Br):
                    if not evaluate(a.cond, env):
                        zero = True
                        break
            if zero:
                continue
            for a, e in m:
                if isinstance(a, Br):
                    continue
                p = p * evaluate(a, env) ** e
            r += p
        return r
    if isinstance(t, Sym):
        return env[t.name]
    if isinstance(t, Br):
        return 1 if evaluate(t.cond, env) else 0
    if isinstance(t, PA):
        return evaluate(t.poly, env)
    if isinstance(t, Sum):
        return _eval_sum(t.binders, t.mono, env)
    if isinstance(t, App):
        if t.f == "ite":
            return evaluate(t.args[1] if evaluate(t.args[0], env) else t.args[2], env)
        if t.f == "locate":
            (v, n), = t.args[0].binders
            x, tot = evaluate(t.args[1], env), 0
            for j in range(int(evaluate(n, env))):
                tot += evaluate(t.args[0].body, dict(env, **{v.name: j}))
                if x < tot:
                    return j
            raise Unsupported("position outside all blocks")
        a = [evaluate(x, env) for x in t.args]
        if t.f == "sqrt":
            return math.sqrt(a[0])
        if t.f == "log":
            return math.log(a[0])
        if t.f == "idiv":
            return a[0] // a[1]
        if t.f == "imod":
            return a[0] % a[1]
        return env[t.f](*a)
    if isinstance(t, Cmp):
        v = evaluate(t.p, env)
        return {"lt": v < 0, "le": v <= 0, "eq": v == 0}[t.op]
    if isinstance(t, Bop):
        if t.op == "not":
            return not evaluate(t.args[0], env)
        if t.op == "and":
            return all(evaluate(x, env) for x in t.args)
        return any(evaluate(x, env) for x in t.args)
    if isinstance(t, EqU):
        return evaluate(t.a, env) == evaluate(t.b, env)
    if isinstance(t, BConst):
        return t.v
    if isinstance(t, Str):
        return t.v
    if isinstance(t, Quant):
        return _eval_q(t.q, t.binders, t.body, env)
    raise Unsupported("evaluate %r" % t)


def _eval_sum(binders, mono, env):
    if not binders:
        return evaluate(mkpoly({mono: Fraction(1)}, "R"), env)
    (v, n), rest = binders[0], binders[1:]
    r = 0.0
    for i in range(int(evaluate(n, env))):
        e = dict(env)
        e[v.name] = i
        r += _eval_sum(rest, mono, e)
    return r


def _eval_q(q, binders, body, env):
    if not binders:
        return evaluate(body, env)
    (v, n), rest = binders[0], binders[1:]
    for i in range(int(evaluate(n, env))):
        e = dict(env)
        e[v.name] = i
        r = _eval_q(q, rest, body, e)
        if r != (q == "forall"):
            return r
    return q == "forall"
