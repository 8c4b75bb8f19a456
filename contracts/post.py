"""Post-fit uncertainties: C22"""
from contracts import client
from contracts.model import *
from templatefitter.minimizer import Parameters


def result(h, n):
    """a fit result with n parameters"""
    nm = h.names("name", n)
    r = h.call(Parameters, PySeq([core.many(n, nm)]))
    h.set(r, "values", h.array("value", n))
    h.set(r, "errors", h.array("error", n))
    r.write("_covariance", h.array("C", n, n))
    return r


def propagated(dim):
    def f(h):
        c = Chan(h, dim)
        npar = ir.as_int(c.K + c.K * c.n)
        r = result(h, npar)
        cov, val = h.get(r, "covariance"), h.get(r, "values")
        keep = h.snapshot(c.obj), h.snapshot(r)
        m = h.method(c.obj, "propagate_parameter_uncertainties", r)
        es = npmodel.events("jacobian")
        if not es:
            raise ir.Unsupported("the derivative is not computed by nd.Jacobian")
        e = es[-1]
        # the derivative is the one of the expectation, at the fitted values
        p = e["p"]
        th = lambda k, j: p.get(c.K + k * c.n + j)
        want = lambda i: c.expected(i, p.get, th)
        if e["value"].ndim:
            h.elements("differentiates the expectation", e["value"], (c.n,), want)
        else:
            h.ensure("differentiates the expectation of every bin", eq(c.n, 1))
            h.scalar("differentiates the expectation", e["value"], want(ir.ZERO))
        h.elements("at the fitted values", e["point"], (npar,), val.get)
        J = e["d"]
        prop = lambda C: lambda i, j: summ(npar, lambda a: summ(npar, lambda b: J(i, a) * C(a, b) * J(j, b)))
        h.elements("J C J^T", m, (c.n, c.n), prop(cov.get))
        # C is positive semidefinite: v C v >= 0 for the rows of the derivatives taken
        for q in range(1, 4):
            row = lambda i, a: app("d!%d" % q, [lift(i), lift(a)], "R")
            h.require(forall(c.n, lambda i: le(0, summ(npar, lambda a: summ(npar, lambda b: row(i, a) * cov.get(a, b) * row(i, b))))))
        s = h.method(c.obj, "get_post_fit_bin_uncertainty", r)
        e2 = npmodel.events("jacobian")[-1]
        h.elements("at the fitted values", e2["point"], (npar,), val.get)
        J2 = e2["d"]
        d = lambda i: summ(npar, lambda a: summ(npar, lambda b: J2(i, a) * cov.get(a, b) * J2(i, b)))
        h.elements("square roots of the diagonal", s, (c.n,), lambda i: sqrt(d(i)))
        for x in keep:
            h.unchanged("nothing changed", x)
        c.untouched(h, "templates unchanged")
        h.reachable()
    f.__name__ = "propagated%dd" % dim
    return f


for _d in (1, 2):
    contract("C22", targets=["channel.Channel.propagate_parameter_uncertainties", "channel.Channel.get_post_fit_bin_uncertainty"])(propagated(_d))


def linear(h):
    """what follows for J C J^T, J and C arbitrary"""
    n, m = h.int("n", lo=1), h.int("m", lo=1)
    # (any symmetric matrix is the symmetric part S of some C)
    J = lambda i, a: app("J", [lift(i), lift(a)], "R")
    C = lambda a, b: app("C", [ir.lift(a), ir.lift(b)], "R")
    S = lambda a, b: (C(a, b) + C(b, a)) / 2
    prop = lambda C: lambda i, j: summ(m, lambda a: summ(m, lambda b: J(i, a) * C(a, b) * J(j, b)))
    i, j, s = h.index("i", n), h.index("j", n), h.real("s")
    h.ensure("symmetric", eq(prop(S)(i, j), prop(S)(j, i)))
    h.ensure("zero for zero covariance", eq(prop(lambda a, b: ir.ZERO)(i, j), 0))
    h.ensure("linear", eq(prop(lambda a, b: s * C(a, b))(i, j), s * prop(C)(i, j)))
    h.reachable()


contract("C22", targets=["channel.Channel.propagate_parameter_uncertainties"])(linear)
