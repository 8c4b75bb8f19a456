"""The Poisson part of the likelihood: C12"""
from contracts import client
from contracts.data import *
from templatefitter import utility as U
from templatefitter import nll as L


def elementwise(fn, name):
    def f(h):
        n, m = h.int("n", lo=0), h.int("m", lo=0)
        what = lambda x, y: ite(le(TINY, x), x * ir.log(y / x), 0)
        x, y = h.real("x"), h.real("y")
        h.require(lt(0, y))
        h.scalar("of numbers", h.call(fn, x, y), what(x, y))
        pos = lambda *a: lt(0, a[-1])
        a, b = h.array("a", n), h.array("b", n, fact=pos)
        keep = h.snapshot(a), h.snapshot(b)
        h.elements("of arrays", h.call(fn, a, b), (n,), lambda i: what(a.get(i), b.get(i)))
        a2, b2 = h.array("a2", n, m), h.array("b2", n, m, fact=pos)
        h.elements("of tables", h.call(fn, a2, b2), (n, m), lambda i, j: what(a2.get(i, j), b2.get(i, j)))
        h.elements("of array and number", h.call(fn, a, y), (n,), lambda i: what(a.get(i), y))
        for s in keep:
            h.unchanged("arguments unchanged", s)
        h.reachable()
    f.__name__ = name
    return f


contract("C12", targets=["utility.xlogyx"])(elementwise(U.xlogyx, "xlogyx_of_arrays"))

# ------------------------------------------------------------------ lemmas
#
# The contracts of nll_contribution and NegLogLikelihood.__call__ (model.py)
# say that the likelihood of a channel is the sum of poisson_part over its bins
# plus half the quadratic form of the nuisance parameters.  What follows is
# about these right-hand sides; expectations and contents are arbitrary.

def values(h, name, fact):
    h.fact(name, lambda *i: fact(app(name, list(i), "R")))
    return lambda *i: app(name, [lift(x) for x in i], "R")


def possible(d):
    return bor(eq(d, 0), le(TINY, d))


def bin_term(h):
    """one bin"""
    e, d = h.real("e"), h.real("d")
    h.require(lt(0, e))
    h.require(possible(d))
    p = poisson_part(e, d)
    h.ensure("not negative", le(0, p))
    h.ensure("zero at the data", ir.implies(eq(e, d), eq(p, 0)))
    h.ensure("zero only at the data", ir.implies(eq(p, 0), eq(e, d)))
    h.ensure("empty bin: the expectation", ir.implies(eq(d, 0), eq(p, e)))
    h.reachable()


contract("C12", targets=["channel.Channel.nll_contribution"])(bin_term)


def minimum(h):
    """a model of C channels: data equal to the expectation at x0, where the
    nuisance parameters are zero; quad(c) is the quadratic form elsewhere"""
    C = h.int("C", lo=1)
    n = h.ints("n", 1)
    quad = values(h, "quad", lambda q: le(0, q))
    e = values(h, "e", lambda e: lt(0, e))
    d = values(h, "d", lambda d: le(TINY, d))
    at_x = summ(C, lambda c: summ(n(c), lambda i: poisson_part(e(c, i), d(c, i))) + quad(c) / 2)
    at_x0 = summ(C, lambda c: summ(n(c), lambda i: poisson_part(d(c, i), d(c, i))) + ir.ZERO / 2)
    h.ensure("zero at the generating parameters", eq(at_x0, 0))
    h.ensure("nowhere below", le(at_x0, at_x))
    h.reachable()


contract("C12", targets=["multi_channel_template.NegLogLikelihood.__call__"])(minimum)


def asimov_is_expectation(dim):
    """Asimov data are the expectation at the parameters of the templates"""
    def f(h):
        c = Chan(h, dim)
        ref = h.call(client.first_template, c.obj)
        h.require(h.call(client.same_geometry, c.obj, ref))
        y, t, th = vectors(h, c)
        h.require(everywhere(c, lambda i: le(0, c.expected(i, y.get, th))))
        h.method(c.obj, "update_parameters", y, t)
        h.call(client.add_data, c.obj, h.method(c.obj, "generate_asimov_dataset"))
        h.elements("data in use", h.get(c.obj, "data_bin_counts"), c.nb, lambda *i: c.expected(c.flat(*i), y.get, th))
        h.reachable()
    f.__name__ = "asimov_is_expectation%dd" % dim
    return f


for _d in (1, 2):
    contract("C12", targets=["channel.Channel.update_parameters", "channel.Channel.generate_asimov_dataset", "channel.Channel.add_data"])(asimov_is_expectation(_d))


def model_asimov_is_expectation(dim):
    def f(h):
        m = Model(h, dim)
        x = h.array("x", m.size)

        def ok(c):
            d = m.at(c)
            return everywhere(d, lambda i: le(0, d.expected(i, m.yields(x.get, c), m.theta(x.get, c))))
        h.require(forall(m.C, ok))
        h.method(m.obj, "update_parameters", x)
        r = h.method(m.obj, "generate_asimov_dataset")
        c = h.index("c", m.C)
        d = m.at(c)
        hist = h.call(client.item, r, m.chn(c))
        h.elements("Asimov data", h.get(hist, "bin_counts"), d.nb, lambda *i: d.expected(d.flat(*i), m.yields(x.get, c), m.theta(x.get, c)))
        h.reachable()
    f.__name__ = "model_asimov_is_expectation%dd" % dim
    return f


for _d in (1, 2):
    contract("C12", targets=["multi_channel_template.MultiChannelTemplate.generate_asimov_dataset", "multi_channel_template.MultiChannelTemplate.update_parameters"])(model_asimov_is_expectation(_d))
