"""utility.py, stats.py, the Parameters container: C12, C14, C19, C20"""
import numpy as np
from dv.api import *
from templatefitter import utility as U, stats, nll
from templatefitter.minimizer import Parameters


# ------------------------------------------------------------------ C20

@contract("C20", targets=["utility.cov2corr", "utility.corr2cov"])
def conversion(h):
    n = h.int("n", lo=1)
    cov = h.array("cov", n, n, fact=lambda i, j, v: ir.implies(eq(i, j), lt(0, v)))
    h.fact("cov", lambda i, j: le(cov.get(i, j) * cov.get(i, j), cov.get(i, i) * cov.get(j, j)))
    kc = h.snapshot(cov)
    r = h.call(U.cov2corr, cov)
    h.elements("correlation", r, (n, n), lambda i, j: cov.get(i, j) / (sqrt(cov.get(i, i)) * sqrt(cov.get(j, j))))
    k = h.index("k", n)
    h.ensure("unit diagonal", eq(r.get(k, k), 1))
    h.unchanged("covariance", kc)
    kr = h.snapshot(r)
    var = mkarr((n,), lambda i: cov.get(i, i))
    kv = h.snapshot(var)
    back = h.call(U.corr2cov, r, var)
    h.elements("round trip", back, (n, n), cov.get)
    h.unchanged("correlation", kr)
    h.unchanged("variances", kv)
    h.unchanged("covariance", kc)
    h.distinct_storage("separate results", cov, r, var, back)
    h.reachable()


@contract("C20", targets=["utility.corr2cov"])
def corr2cov(h):
    n = h.int("n", lo=1)
    corr = h.array("corr", n, n)
    var = h.array("var", n, fact=lambda i, v: le(0, v))
    keep = h.snapshot(corr), h.snapshot(var)
    r = h.call(U.corr2cov, corr, var)
    h.elements("covariance", r, (n, n), lambda i, j: corr.get(i, j) * sqrt(var.get(i)) * sqrt(var.get(j)))
    for s in keep:
        h.unchanged("input", s)
    h.reachable()


def split(last):
    def f(h):
        n, k = h.int("n", lo=0), h.int("k", lo=0)
        a = h.array("a", n)
        keep = h.snapshot(a)
        size = h.ints("size", 0)
        sizes = PySeq([core.many(k, lambda i: size(i))] + ([One(None)] if last else []))
        r = npmodel.list_of(h.call(U.array_split_into, a, sizes))
        h.ensure("number of pieces", eq(r.length(), k + (1 if last else 0)))
        j = h.index("j", k)
        start = summ(j, lambda i: size(i))
        if ctx().decide(lt(ir.ZERO, k)):
            p = core.seq_at(r, j)
            sz = size(j)
            rest = ite(lt(n, start), 0, n - start)
            ln = ite(lt(sz, rest), sz, rest)
            h.elements("piece", p, (ln,), lambda i: a.get(start + i))
        if last:
            p = core.seq_at(r, k)
            start = summ(k, lambda i: size(i))
            h.elements("remainder", p, (ite(lt(n, start), 0, n - start),), lambda i: a.get(start + i))
        h.unchanged("input", keep)
        h.reachable()
    f.__name__ = "split_with_rest" if last else "split"
    return f


contract("C20", targets=["utility.array_split_into"])(split(False))
contract("C20", targets=["utility.array_split_into"])(split(True))


# ------------------------------------------------------- names and indices

def name_list(h):
    n = h.int("n", lo=1)
    nm = h.names("name", n)
    return n, nm, PySeq([core.many(n, nm)])


def lookups(h, n, nm, call, claim):
    """every kind of identifier; claim(outcome, position or None)"""
    kind = ctx().decide(ir.sym("by name", "B"))
    if kind:
        if ctx().decide(ir.sym("a listed name", "B")):
            k = h.index("k", n)
            claim("listed name", call(nm(k)), k)
        else:
            x = h.text("x")
            h.require(bnot(ir.inv_has("name#", x)))
            claim("unknown name", call(x), None)
    elif ctx().decide(ir.sym("by index", "B")):
        i = ir.poly(ir.sym("i", "I"))
        ok = band(le(0, i), lt(i, n))
        if ctx().decide(ok):
            claim("valid index", call(i), i)
        else:
            claim("index out of range", call(i), None)
    else:
        for v in (None, 1.5, (0,), h.real("r")):
            claim("identifier of type %s" % type(v).__name__, call(v), None)


@contract("C20", "C14", targets=["utility.id_to_index"])
def id_to_index(h):
    n, nm, names = name_list(h)
    keep = h.snapshot(names)

    def claim(what, r, k):
        if k is None:
            h.ensure("%s is rejected" % what, r[0] == "raised" and issubclass(r[1], ValueError))
        elif r[0] != "ok":
            h.fail("%s is accepted" % what)
        else:
            h.scalar("%s gives its position" % what, r[1], k)
    lookups(h, n, nm, lambda x: h.attempt(U.id_to_index, names, x), claim)
    h.unchanged("names", keep)
    h.reachable()


# ------------------------------------------------------------------ C14

def build(h):
    n, nm, names = name_list(h)
    p = h.call(Parameters, names)
    return n, nm, names, p


@contract("C14", targets=["minimizer.Parameters.__init__"])
def fresh_parameters(h):
    n, nm, names, p = build(h)
    q = h.call(Parameters, names)
    for a in ("values", "errors"):
        h.elements("fresh " + a, h.get(p, a), (n,), lambda i: 0)
    for a in ("covariance", "correlation"):
        h.elements("fresh " + a, h.get(p, a), (n, n), lambda i, j: 0)
    h.scalar("number of parameters", h.get(p, "num_params"), n)
    ns = npmodel.list_of(h.get(p, "names"))
    h.ensure("number of names", eq(ns.length(), n))
    k = h.index("k", n)
    h.ensure("names", eq(lift(core.seq_at(ns, k)), nm(k)))
    h.distinct_storage("nothing shared", *[h.get(x, a) for x in (p, q) for a in ("values", "errors", "covariance", "correlation")])
    h.reachable()


@contract("C14", targets=["minimizer.Parameters.__getitem__", "minimizer.Parameters.get_param_value", "minimizer.Parameters.get_param_error",
                          "minimizer.Parameters.param_id_to_index"])
def parameter_lookup(h):
    n, nm, names, p = build(h)
    v, e = h.array("v", n), h.array("e", n)
    h.set(p, "values", v)
    h.set(p, "errors", e)
    keep = h.snapshot(p)

    def call(x):
        return [h.attempt(getattr_(p, "__getitem__"), x)] + [h.attempt(getattr_(p, m), x)
                                                             for m in ("get_param_value", "get_param_error", "param_id_to_index")]

    def claim(what, rs, k):
        if k is None:
            for r in rs:
                h.ensure("%s is rejected" % what, r[0] == "raised" and issubclass(r[1], ValueError))
            return
        if any(r[0] != "ok" for r in rs):
            h.fail("%s is accepted" % what)
            return
        pair = rs[0][1]
        if not isinstance(pair, tuple) or len(pair) != 2:
            h.fail("%s gives value and error" % what)
            return
        for got, want, t in ((pair[0], v.get(k), "value"), (pair[1], e.get(k), "error"), (rs[1][1], v.get(k), "value"), (rs[2][1], e.get(k), "error"),
                             (rs[3][1], k, "index")):
            h.scalar("%s: %s" % (what, t), got, want)
    lookups(h, n, nm, call, claim)
    h.unchanged("result", keep)
    h.reachable()


@contract("C14", targets=["minimizer.Parameters.values", "minimizer.Parameters.errors"])
def parameter_assignment(h):
    n, nm, names, p = build(h)
    v0, e0 = h.array("v0", n), h.array("e0", n)
    h.set(p, "values", v0)
    h.set(p, "errors", e0)
    which = "values" if ctx().decide(ir.sym("assign values", "B")) else "errors"
    other = "errors" if which == "values" else "values"
    m = h.int("m", lo=0)
    x = h.array("x", m)
    keep = h.snapshot(p)
    ok = ctx().decide(eq(m, n))
    r = attempt_set(h, p, which, x)
    if ok:
        h.ensure("right length is accepted", r[0] == "ok")
        h.elements("assigned " + which, h.get(p, which), (n,), x.get)
        h.elements(other + " unchanged", h.get(p, other), (n,), (e0 if which == "values" else v0).get)
    else:
        h.ensure("wrong length is rejected", r[0] == "raised" and issubclass(r[1], ValueError))
        h.unchanged("nothing changed", keep)
    h.reachable()


def attempt_set(h, obj, name, v):
    try:
        h.set(obj, name, v)
        return "ok", None
    except Raised as e:
        return "raised", e.cls


@contract("C14", targets=["minimizer.Parameters.covariance", "minimizer.Parameters.correlation"])
def parameter_matrices(h):
    n, nm, names, p = build(h)
    keep = {a: h.get(p, a) for a in ("values", "errors", "covariance", "correlation")}
    for a in ("covariance", "correlation"):
        m = h.array("m_" + a, n, n)
        h.set(p, a, m)
        h.elements(a, h.get(p, a), (n, n), m.get)
    for a in ("values", "errors"):
        h.elements(a + " unchanged", h.get(p, a), (n,), lambda i: 0)
    h.reachable()


# ------------------------------------------------------------ C12, C19

TINY = ir.num(1e-100)


@contract("C12", targets=["utility.xlogyx"])
def xlogyx(h):
    n = h.int("n", lo=1)
    # no count is below the smallest weight the function distinguishes from zero
    x = h.array("x", n, fact=lambda i, v: bor(eq(v, 0), le(TINY, v)))
    y = h.array("y", n, fact=lambda i, v: lt(0, v))
    keep = h.snapshot(x), h.snapshot(y)
    r = h.call(U.xlogyx, x, y)

    def want(i):
        return ite(eq(x.get(i), 0), 0, x.get(i) * ir.log(y.get(i) / x.get(i)))
    h.elements("x*log(y/x)", r, (n,), want)
    k = h.index("k", n)
    s = h.call(U.xlogyx, x.get(k), y.get(k))
    h.scalar("numbers and arrays agree", s, r.get(k))
    z = h.call(U.xlogyx, 0.0, y.get(k))
    h.scalar("zero for empty x", z, 0)
    for a in keep:
        h.unchanged("argument", a)
    h.reachable()


@contract("C12", targets=["utility.xlogyx"])
def poisson_minimum(h):
    d, e = h.real("d"), h.real("e")
    h.require(bor(eq(d, 0), le(TINY, d)))
    h.require(lt(0, e))
    p = e - d - lift(h.call(U.xlogyx, d, e))
    h.ensure("not negative", le(0, p))
    h.ensure("zero where they agree", ir.implies(eq(d, e), eq(p, 0)))
    h.ensure("zero only where they agree", ir.implies(eq(p, 0), eq(d, e)))
    h.ensure("the expectation for empty bins", ir.implies(eq(d, 0), eq(p, e)))
    h.reachable()


def gof_inputs(h):
    n = h.int("n", lo=1)
    d = h.array("d", n, fact=lambda i, v: le(0, v))
    e = h.array("e", n, fact=lambda i, v: lt(0, v))
    return n, d, e, h.int("dof", lo=1)


def gof(name, fn, term):
    def f(h):
        n, d, e, dof = gof_inputs(h)
        keep = h.snapshot(d), h.snapshot(e)
        r = h.call(fn, d, e, dof)
        if not isinstance(r, tuple) or len(r) != 3:
            h.fail("three results")
            return
        s = summ(n, lambda i: term(d.get(i), e.get(i)))
        h.scalar("statistic", r[0], s)
        h.scalar("statistic per degree of freedom", r[1], s / dof)
        h.scalar("probability to exceed", r[2], app("chi2sf", [ir.as_real(s), ir.as_real(dof)], "R"))
        k = h.index("k", n)
        h.sum_lemma(n, lambda i: term(d.get(i), e.get(i)), k)
        h.ensure("not negative", le(0, s))
        h.ensure("zero only for data equal to expectation", ir.implies(eq(s, 0), eq(d.get(k), e.get(k))))
        h.ensure("zero for data equal to expectation", eq(term(e.get(k), e.get(k)), 0))
        for a in keep:
            h.unchanged("input", a)
        h.reachable()
    f.__name__ = name
    return contract("C19", targets=["stats." + fn.__name__])(f)


gof("pearson", stats.pearson_chi2_test, lambda d, e: (d - e) * (d - e) / e)
gof("likelihood_ratio", stats.cowan_binned_likelihood_gof, lambda d, e: 2 * (ite(eq(d, 0), 0, d * ir.log(d / e)) + e - d))


@contract("C19", targets=["stats.default_chi2_test"])
def default_chi2(h):
    n, d, e, dof = gof_inputs(h)
    u = h.array("u", n, fact=lambda i, v: lt(0, v))
    keep = [h.snapshot(x) for x in (d, e, u)]
    r = h.call(stats.default_chi2_test, d, e, u, dof)
    s = summ(n, lambda i: (d.get(i) - e.get(i)) * (d.get(i) - e.get(i)) / (u.get(i) * u.get(i)))
    h.scalar("statistic", r[0], s)
    h.scalar("statistic per degree of freedom", r[1], s / dof)
    h.scalar("probability to exceed", r[2], app("chi2sf", [ir.as_real(s), ir.as_real(dof)], "R"))
    for a in keep:
        h.unchanged("input", a)
    h.reachable()
