"""Generated data sets: C11"""
from contracts import client
from contracts.model import *


def current(d):
    """current prediction of bin i of a channel"""
    def total(i):
        return summ(d.K, lambda k: d.par(k, 0) * d.frac(k, i, lambda j: d.par(k, j + 1)))
    return total


def is_data(h, name, d, hist, want, signed=False):
    """hist is a histogram of the channel's shape with these contents, and fits the channel"""
    ref = h.call(client.first_template, d.obj_)
    h.elements(name + ": contents", h.get(hist, "bin_counts"), d.nb, lambda *i: want(d.flat(*i)))
    if not signed:
        h.elements(name + ": squared errors", h.get(hist, "bin_errors_sq"), d.nb, lambda *i: want(d.flat(*i)))
        h.elements(name + ": errors", h.get(hist, "bin_errors"), d.nb, lambda *i: sqrt(want(d.flat(*i))))
    mine, other = h.get(hist, "bin_edges"), h.get(ref, "bin_edges")
    if d.dim == 1:
        h.elements(name + ": edges", mine, (d.nb[0] + 1,), lambda i: other.get(i))
    else:
        for a in range(2):
            e = h.call(client.item, other, a)
            h.elements(name + ": edges", h.call(client.item, mine, a), (d.nb[a] + 1,), lambda i: e.get(i))
    h.ensure(name + ": kind", h.call(client.kind, hist) is (Hist1d if d.dim == 1 else Hist2d))


def everywhere(d, fn):
    """fn(i) for every bin i"""
    if d.dim == 1:
        return forall(d.nb[0], fn)
    return forall(d.nb[0], lambda x: forall(d.nb[1], lambda y: fn(d.flat(x, y))))


def rounded(x):
    return app("rint", [ir.as_real(lift(x))], "R")


def asimov(dim, integer, signed=False):
    """signed: the predictions may be negative, the contents of the data are still these"""
    def f(h):
        c = Chan(h, dim, data=True)
        c.obj_ = c.obj
        now = current(c)
        if not signed:
            h.require(everywhere(c, lambda i: le(0, now(i))))
        keep = h.snapshot(c.obj)
        r = h.method(c.obj, "generate_asimov_dataset", integer)
        is_data(h, "Asimov data", c, r, (lambda i: rounded(now(i))) if integer else now, signed)
        h.unchanged("data in use unchanged", keep)
        c.untouched(h, "templates unchanged")
        h.reachable()
    f.__name__ = "asimov%dd%s%s" % (dim, "_integer" if integer else "", "_signed" if signed else "")
    return f


for _d in (1, 2):
    for _i in (False, True):
        contract("C11", targets=["channel.Channel.generate_asimov_dataset"])(asimov(_d, _i))
        contract("C11", targets=["channel.Channel.generate_asimov_dataset"])(asimov(_d, _i, True))


def drawn(h, n, mean):
    """the result of the n-th call of poisson.rvs"""
    return lambda *i: app("poisson!%d.ge0" % n, [ir.as_real(lift(mean(*i)))] + [lift(x) for x in i], "I")


def toy(dim):
    def f(h):
        c = Chan(h, dim, data=True)
        c.obj_ = c.obj
        now = current(c)
        h.require(everywhere(c, lambda i: le(0, now(i))))
        keep = h.snapshot(c.obj)
        r = h.method(c.obj, "generate_toy_dataset")
        r2 = h.method(c.obj, "generate_toy_dataset")
        for n, x in ((1, r), (2, r2)):
            d = drawn(h, n, lambda *i: now(c.flat(*i)))
            is_data(h, "toy data", c, x, lambda i: d(*c.unflat(i)))
        h.unchanged("data in use unchanged", keep)
        c.untouched(h, "templates unchanged")
        h.reachable()
    f.__name__ = "toy%dd" % dim
    return f


for _d in (1, 2):
    contract("C11", targets=["channel.Channel.generate_toy_dataset"])(toy(_d))


def model_data(dim, kind):
    def f(h):
        m = Model(h, dim, data=True)
        h.require(forall(m.C, lambda c: everywhere(m.at(c), lambda i: le(0, current(m.at(c))(i)))))
        keep = h.snapshot(m.obj)
        if kind == "toy":
            r = h.method(m.obj, "generate_toy_dataset")
        else:
            r = h.method(m.obj, "generate_asimov_dataset", kind == "integer")
        c = h.index("c", m.C)
        d = m.at(c)
        d.obj_ = m.cf.at(c)
        now = current(d)
        h.scalar("one histogram per channel", h.call(client.length, r), m.C)
        h.text_is("under its name", h.call(client.item, h.call(client.keys, r), c), m.chn(c))
        hist = h.call(client.item, r, m.chn(c))
        if kind == "toy":
            draw = lambda *i: app("poisson!1.ge0", [c, ir.as_real(lift(now(d.flat(*i))))] + [lift(x) for x in i], "I")
            is_data(h, "toy data", d, hist, lambda i: draw(*d.unflat(i)))
        else:
            is_data(h, "Asimov data", d, hist, (lambda i: rounded(now(i))) if kind == "integer" else now)
        h.unchanged("data in use unchanged", keep)
        d.untouched(h, "templates unchanged")
        h.reachable()
    f.__name__ = "model_%s%dd" % (kind, dim)
    return f


for _d in (1, 2):
    for _k in ("asimov", "integer", "toy"):
        contract("C11", targets=["multi_channel_template.MultiChannelTemplate.generate_%s_dataset" % ("toy" if _k == "toy" else "asimov")])(model_data(_d, _k))


def usable(dim):
    """generated data fits the channel"""
    def f(h):
        c = Chan(h, dim)
        c.obj_ = c.obj
        now = current(c)
        h.require(everywhere(c, lambda i: le(0, now(i))))
        ref = h.call(client.first_template, c.obj)
        h.require(h.call(client.same_geometry, c.obj, ref))
        r = h.method(c.obj, "generate_asimov_dataset")
        h.call(client.add_data, c.obj, r)
        h.elements("data in use", h.get(c.obj, "data_bin_counts"), c.nb, lambda *i: now(c.flat(*i)))
        r = h.method(c.obj, "generate_toy_dataset")
        h.call(client.add_data, c.obj, r)
        d = drawn(h, 1, lambda *i: now(c.flat(*i)))
        h.elements("data in use", h.get(c.obj, "data_bin_counts"), c.nb, d)
        h.reachable()
    f.__name__ = "usable%dd" % dim
    return f


for _d in (1, 2):
    contract("C11", targets=["channel.Channel.generate_asimov_dataset", "channel.Channel.add_data"])(usable(_d))
