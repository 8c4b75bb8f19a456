"""templates/channel.py, templates/multi_channel_template.py: C07 - C13, C22, C23

An arbitrary model: C channels (symbolic), channel c with K(c) templates of
n(c) bins each (all sizes symbolic, at least one), processes in any order and
any subset per channel, arbitrary template states.  The objects are built by
the real constructors for an arbitrary index and generalised over it.
"""
from fractions import Fraction
import numpy as np
from contracts import client
from dv.api import *
from contracts.hists import hist1, hist2
from templatefitter.templates import Template1d, Template2d, Channel
from templatefitter.templates.multi_channel_template import MultiChannelTemplate, NegLogLikelihood
from templatefitter.histograms import Hist1d, Hist2d


def family(name, obj, syms):
    """objects like obj for all values of its index symbols"""
    ctors = {}
    for a, v in obj.attrs.items():
        ctors[a] = lambda *idx, v=v: core.vclone(vsubst(v, dict(zip(syms, [ir.poly(lift(i)) for i in idx]))))
    f = Family(name, obj.cls, ctors)
    f.birth = ctx().tick()
    return f


def keyed(n, key, val):
    """dictionary {key(i): val(i) for i < n} with distinct keys"""
    s = fresh("e", "I", hi=n)
    kf = key(poly(s))

    def member(k):
        if not isinstance(k, (str, T)):
            return None
        e = eq(kf, lift(k))
        return None if e is ir.FALSE else interp.solve_index(e, s, lift(n))
    return core.KRep(s, n, kf, val(poly(s)), member)


def poisson_part(e, d):
    """what a bin with expectation e and content d adds to the likelihood"""
    return e - d + ite(eq(d, 0), 0, d * ir.log(d / e))


class Chan:
    """the templates of a channel (of channel c if pre = (c,)) and the channel itself"""

    def __init__(self, h, dim=1, pre=(), data=False, proc=None, geo=None, labels=None):
        # labels: the templates have names and labels ("own") or only names ("names")
        self.labels = labels
        # geo: name of the edges that all templates and the data have in common
        self.geo = geo
        self.h, self.dim, self.pre = h, dim, tuple(pre)
        pre = self.pre
        self.csyms = [ir.single_sym(c) for c in pre]
        if pre:
            self.K_ = h.ints("K", 1)
            self.ns_ = [h.ints("nb%d" % d, 1) for d in range(dim)]
        else:
            K = h.int("K", lo=1)
            ns = [h.int("nb%d" % d, lo=1) for d in range(dim)]
            self.K_ = lambda: K
            self.ns_ = [lambda n=n: n for n in ns]
        self.K = self.K_(*pre)
        self.nb = tuple(n(*pre) for n in self.ns_)
        self.n = ir.as_int(self.nb[0] if dim == 1 else self.nb[0] * self.nb[1])
        self.proc = proc or h.names("cproc", lambda *c: self.K_(*c))
        k = fresh("k", "I", hi=self.K)
        self.ksym = k
        idx = pre + (poly(k),)
        t = self.template(h, idx)
        self.tf = family("template", t, self.csyms + [k])
        self.eff = lambda *i: app("eff", [lift(x) for x in i], "R")
        lo, hi = [[app(x + str(d), list(pre), "R") for d in range(dim)] for x in ("low", "high")]
        ch = h.call(Channel, "channel", self.nb if dim == 2 else self.nb[0],
                    tuple(zip(lo, hi)) if dim == 2 else (lo[0], hi[0]))
        self.obj = ch
        one = (lambda k: self.tf.at(*(pre + (k,))))
        ch.write("_template_dict", PyDict([keyed(self.K, lambda k: self.proc(*pre, k), one)], ch.read("_template_dict").cls))
        ch.write("_efficiency_dict", PyDict([keyed(self.K, lambda k: self.proc(*pre, k), lambda k: self.eff(*pre, k))], ch.read("_efficiency_dict").cls))
        ch.write("_processes", PySeq([core.many(self.K, lambda k: self.proc(*pre, k))], "tuple"))
        ch.write("_dim", dim)
        ch.write("_template_type", Template1d if dim == 1 else Template2d)
        ch.write("_htype", Hist1d if dim == 1 else Hist2d)
        if data:
            d, _, _ = self.histogram(h, "data", pre)
            ch.write("_hdata", d)

    def _of(self, base, csym, c):
        """the description of base (of channel csym) for channel c"""
        self.__dict__.update(base.__dict__)
        self.pre = (ir.poly(lift(c)),)
        self.K = base.K_(*self.pre)
        self.nb = tuple(n(*self.pre) for n in base.ns_)
        self.n = ir.as_int(self.nb[0] if self.dim == 1 else self.nb[0] * self.nb[1])
        return self

    def histogram(self, h, name, idx):
        if self.dim == 1:
            o, e, nb = hist1(h, name, self.nb[0], args=list(idx), geo=self.geo)
            return o, (e,), (nb,)
        return hist2(h, name, nb=self.nb, args=list(idx), geo=self.geo)

    def template(self, h, idx):
        hist, self.edges, _ = self.histogram(h, "hist", idx)
        name, more = "name", {}
        if self.labels:
            name = app("template.name", [lift(x) for x in idx], "S")
            more["color"] = app("template.color", [lift(x) for x in idx], "S")
            if self.labels == "own":
                more["pretty_label"] = app("template.label", [lift(x) for x in idx], "S")
        t = h.call(Template1d, name, "x", hist, **more) if self.dim == 1 else h.call(Template2d, name, ("x", "y"), hist, **more)
        idx = list(idx)
        t.write("_params", h.array("tpar", self.n + 1, args=idx))
        t.write("_relative_errors", h.array("rel", self.n, args=idx))
        t.write("_inv_corr", h.array("inv", self.n, self.n, args=idx))
        t.write("_cov", h.array("cov", self.n, self.n, args=idx))
        t.write("_corr", h.array("corr", self.n, self.n, args=idx))
        return t

    # ------------------------------------------------- what the model means
    def unflat(self, i):
        return npmodel.unflatten(i, self.nb) if self.dim == 2 else [i]

    def flat(self, *i):
        return i[0] if self.dim == 1 else npmodel.flat_index(i, self.nb)

    def count(self, k, i):
        return app("hist.counts", list(self.pre) + [lift(k)] + list(self.unflat(lift(i))), "R")

    def data(self, i):
        return app("data.counts", list(self.pre) + list(self.unflat(lift(i))), "R")

    def rel(self, k, i):
        return app("rel", list(self.pre) + [lift(k), lift(i)], "R")

    def par(self, k, i):
        """parameter i of template k before the call"""
        return app("tpar", list(self.pre) + [lift(k), lift(i)], "R")

    def inv(self, k, i, j):
        return app("inv", list(self.pre) + [lift(k), lift(i), lift(j)], "R")

    def frac(self, k, i, theta):
        """fraction of template k in bin i with nuisance parameters theta(j)"""
        w = lambda j: self.count(k, j) * (1 + theta(j) * self.rel(k, j))
        s = summ(self.n, w)
        return ite(eq(s, 0), 0, w(i) / s)

    def expected(self, i, y, theta):
        """y(k): yield of process k, theta(k, j)"""
        return summ(self.K, lambda k: y(k) * self.eff(*self.pre, k) * self.frac(k, i, lambda j: theta(k, j)))

    def nll(self, y, theta, d):
        quad = summ(self.K, lambda k: summ(self.n, lambda i: summ(self.n, lambda j: theta(k, i) * self.inv(k, i, j) * theta(k, j))))
        return summ(self.n, lambda i: poisson_part(self.expected(i, y, theta), d(i))) + quad / 2

    def untouched(self, h, name, but=()):
        """no template differs from what it was, except in these attributes"""
        for a, d in core.all_dirty(self.tf):
            if a not in but:
                h.fail("%s: %s of a template is changed" % (name, a))
        h.ensure(name, ir.TRUE)


# ------------------------------------------------------------------- C08

def vectors(h, c):
    y = h.array("y", c.K)
    t = h.array("theta", c.K * c.n)
    return y, t, (lambda k, j: t.get(k * c.n + j))


def expectation(dim):
    def f(h):
        c = Chan(h, dim)
        y, t, th = vectors(h, c)
        keep = h.snapshot(y), h.snapshot(t), h.snapshot(c.obj)
        par = mkarr((c.K + c.K * c.n,), lambda i: ite(lt(i, c.K), y.get(i), t.get(i - c.K)))
        r = h.method(c.obj, "_expected_evts_per_bin", y, t)
        h.elements("expectation", r, (c.n,), lambda i: c.expected(i, y.get, th))
        r2 = h.method(c.obj, "bin_counts_from_param_values", par)
        h.elements("expectation of a parameter vector", r2, (c.n,), lambda i: c.expected(i, y.get, th))
        for s in keep:
            h.unchanged("nothing changed", s)
        c.untouched(h, "templates unchanged")
        h.reachable()
    f.__name__ = "expectation%dd" % dim
    return f


contract("C08", targets=["channel.Channel._expected_evts_per_bin", "channel.Channel._fractions", "channel.Channel.bin_counts_from_param_values"])(expectation(1))
contract("C08", targets=["channel.Channel._expected_evts_per_bin", "channel.Channel._fractions", "channel.Channel.bin_counts_from_param_values"])(expectation(2))


def updated(dim):
    def f(h):
        c = Chan(h, dim)
        y, t, th = vectors(h, c)
        keep = h.snapshot(y), h.snapshot(t), h.snapshot(c.obj)
        h.method(c.obj, "update_parameters", y, t)
        k, i = h.index("k", c.K), h.index("i", c.n)
        tm = c.tf.at(k)
        h.elements("own parameters", h.get(tm, "params"), (c.n + 1,), lambda i: ite(eq(i, 0), y.get(k) * c.eff(k), th(k, i - 1)))
        tot = h.call(client.total_prediction, c.obj)
        h.elements("predictions add up to the expectation", tot, c.nb, lambda *i: c.expected(c.flat(*i), y.get, th))
        for s in keep:
            h.unchanged("nothing else changed", s)
        c.untouched(h, "rest of the templates unchanged", ("_params",))
        h.reachable()
    f.__name__ = "updated%dd" % dim
    return f


for _d in (1, 2):
    contract("C08", targets=["channel.Channel.update_parameters"])(updated(_d))


# ------------------------------------------------------------ whole models

class Model:
    """a MultiChannelTemplate of C channels and P processes; template k of
    channel c belongs to process pidx(c, k) (any subset, in any order)"""

    def __init__(self, h, dim=1, data=False):
        self.h, self.dim = h, dim
        self.P = h.int("P", lo=1)
        self.C = h.int("C", lo=1)
        self.proc = h.names("proc", self.P)
        self.chn = h.names("chn", self.C)
        K = h.ints("K", 1)
        self.pidx = h.names("pidx", lambda *c: K(*c), sort="I")
        h.fact("pidx#", lambda c, k: band(le(0, app("pidx#", [c, k], "I")), lt(app("pidx#", [c, k], "I"), self.P)))
        c = fresh("c", "I", hi=lift(self.C))
        self.chan = Chan(h, dim, (poly(c),), data, proc=lambda c, k: self.proc(self.pidx(c, k)))
        self.cf = family("channel", self.chan.obj, [c])
        self.csym = c
        self.K_ = self.chan.K_
        self.n_ = lambda c: ir.as_int(self.chan.ns_[0](c) if dim == 1 else self.chan.ns_[0](c) * self.chan.ns_[1](c))
        m = h.call(MultiChannelTemplate)
        m.write("_channel_dict", PyDict([keyed(self.C, self.chn, lambda c: self.cf.at(c))], m.read("_channel_dict").cls))
        m.write("_processes", PySeq([core.many(self.P, self.proc)], "tuple"))
        self.obj = m
        self.nui = summ(self.C, lambda c: ir.as_int(self.K_(c) * self.n_(c)))
        self.size = ir.as_int(self.P + self.nui)

    def constraints(self, h):
        """R Gaussian constraints on the yields of different processes"""
        self.R = h.int("R", lo=0)
        self.cidx = h.names("cidx", self.R, sort="I")
        h.fact("cidx#", lambda r: band(le(0, app("cidx#", [r], "I")), lt(app("cidx#", [r], "I"), self.P)))
        h.fact("cerr", lambda r: lt(0, app("cerr", [r], "R")))
        self.cval = lambda r: app("cval", [lift(r)], "R")
        self.cerr = lambda r: app("cerr", [lift(r)], "R")
        name = lambda r: self.proc(self.cidx(r))
        m = self.obj
        m.write("_constrained_yields", PySeq([core.many(self.R, name)], "tuple"))
        m.write("_constrained_yield_values", PyDict([keyed(self.R, name, self.cval)], m.read("_constrained_yield_values").cls))
        m.write("_constrained_yield_errors", PyDict([keyed(self.R, name, self.cerr)], m.read("_constrained_yield_errors").cls))

    def penalty(self, x):
        return summ(self.R, lambda r: (x(self.cidx(r)) - self.cval(r)) ** 2 / self.cerr(r) ** 2 / 2)

    def nll(self, x):
        def one(c):
            d = self.at(c)
            return d.nll(self.yields(x, c), self.theta(x, c), d.data)
        return summ(self.C, one)

    def at(self, c):
        """the channel's description for this index"""
        return Chan.__new__(Chan)._of(self.chan, self.csym, c)

    def offset(self, c):
        return summ(c, lambda d: ir.as_int(self.K_(d) * self.n_(d)))

    def yields(self, x, c):
        return lambda k: x(self.pidx(c, k))

    def theta(self, x, c):
        return lambda k, j: x(self.P + self.offset(c) + k * self.n_(c) + j)


# ------------------------------------------------------------------- C09

def layout(dim):
    def f(h):
        m = Model(h, dim)
        x = h.array("x", m.size)
        keep = h.snapshot(x), h.snapshot(m.obj)
        ys, ts = h.method(m.obj, "generate_per_channel_parameters", x)
        c = h.index("c", m.C)
        d = m.at(c)
        h.elements("yields of the channel", call(client.item, (ys, c)), (d.K,), m.yields(x.get, c))
        th = m.theta(x.get, c)
        h.elements("nuisance parameters of the channel", call(client.item, (ts, c)), (d.K * d.n,), lambda i: x.get(m.P + m.offset(c) + i))
        h.scalar("one part per channel", call(client.length, (ys,)), m.C)
        h.scalar("one part per channel", call(client.length, (ts,)), m.C)
        for s in keep:
            h.unchanged("nothing changed", s)
        h.reachable()
    f.__name__ = "layout%dd" % dim
    return f


contract("C09", targets=["multi_channel_template.MultiChannelTemplate.generate_per_channel_parameters", "channel.Channel.process_indices"])(layout(1))
contract("C09", targets=["multi_channel_template.MultiChannelTemplate.generate_per_channel_parameters", "channel.Channel.process_indices"])(layout(2))


def has(m, c, p):
    """channel c contains process p"""
    return ir.inv_has("pidx#", lift(c), lift(p))


def pos(m, c, p):
    return ir.inv_pos("pidx#", lift(c), lift(p))


def start_yield(m, p):
    return summ(m.C, lambda c: ite(has(m, c, p), app("tpar", [c, pos(m, c, p), ir.ZERO], "R"), 0))


def accessors(h):
    m = Model(h)
    y = h.get(m.obj, "process_yields")
    h.elements("yields", y, (m.P,), lambda p: start_yield(m, p))


contract("C13", targets=["multi_channel_template.MultiChannelTemplate.process_yields"])(accessors)


def start(h):
    m = Model(h)
    t = h.get(m.obj, "nui_params")
    if h.is_array("nuisance parameters", t, (m.nui,)):
        c = h.index("c", m.C)
        k = h.index("k", m.K_(c))
        i = h.index("i", m.n_(c))
        h.ensure("nuisance parameters", eq(t.get(m.offset(c) + k * m.n_(c) + i), app("tpar", [c, k, i + 1], "R")))


contract("C09", targets=["multi_channel_template.MultiChannelTemplate.nui_params"])(start)


def start_vector(m, c, k, i):
    return app("tpar", [c, k, lift(i) + 1], "R")


def names_and_start(dim):
    def f(h):
        m = Model(h, dim)
        keep = h.snapshot(m.obj)
        nll = h.method(m.obj, "create_nll")
        names = h.get(nll, "param_names")
        x0 = h.get(nll, "x0")
        h.scalar("one name per parameter", call(client.length, (names,)), m.size)
        p = h.index("p", m.P)
        c = h.index("c", m.C)
        k = h.index("k", m.K_(c))
        i = h.index("i", m.n_(c))
        at = m.P + m.offset(c) + k * m.n_(c) + i
        h.text_is("yield names", call(client.item, (names, p)), call(client.yield_name, (m.proc(p),)))
        h.text_is("nuisance parameter names", call(client.item, (names, at)),
                  call(client.nuisance_name, (m.chn(c), m.proc(m.pidx(c, k)), i)))
        if h.is_array("start vector", x0, (m.size,)):
            h.ensure("start yields", eq(x0.get(p), start_yield(m, p)))
            h.ensure("start nuisance parameters", eq(x0.get(at), start_vector(m, c, k, i)))
        h.unchanged("nothing changed", keep)
        h.reachable()
    f.__name__ = "names_and_start%dd" % dim
    return f


for _d in (1, 2):
    contract("C09", targets=["multi_channel_template.NegLogLikelihood.x0", "multi_channel_template.NegLogLikelihood.param_names"])(names_and_start(_d))


def model_updated(dim):
    def f(h):
        m = Model(h, dim)
        x = h.array("x", m.size)
        keep = h.snapshot(x), h.snapshot(m.obj)
        h.method(m.obj, "update_parameters", x)
        c = h.index("c", m.C)
        d = m.at(c)
        k, i = h.index("k", d.K), h.index("i", d.n)
        tm = d.tf.at(c, k)
        y, th = m.yields(x.get, c), m.theta(x.get, c)
        h.elements("own parameters", h.get(tm, "params"), (d.n + 1,), lambda i: ite(eq(i, 0), y(k) * d.eff(c, k), th(k, i - 1)))
        tot = h.call(client.total_prediction, m.cf.at(c))
        h.elements("predictions add up to the expectation", tot, d.nb, lambda *i: d.expected(d.flat(*i), y, th))
        back = h.get(m.obj, "nui_params")
        if h.is_array("nuisance parameters read back", back, (m.nui,)):
            at = m.offset(c) + k * d.n + i
            h.ensure("nuisance parameters read back", eq(back.get(at), x.get(m.P + at)))
        for s in keep:
            h.unchanged("nothing else changed", s)
        d.untouched(h, "rest of the templates unchanged", ("_params",))
        h.reachable()
    f.__name__ = "model_updated%dd" % dim
    return f


for _d in (1, 2):
    contract("C08", "C09", targets=["multi_channel_template.MultiChannelTemplate.update_parameters"])(model_updated(_d))


# ------------------------------------------------------------------- C10

TINY = ir.num(Fraction(1, 10 ** 100))      # xlogyx takes counts below for none


def data_fact(h, dim):
    """counts are not negative"""
    h.fact("data.counts", lambda *i: bor(eq(app("data.counts", list(i), "R"), 0), le(TINY, app("data.counts", list(i), "R"))))


def possible_data(h, name):
    h.fact(name, lambda *i: bor(eq(app(name, list(i), "R"), 0), le(TINY, app(name, list(i), "R"))))


def rejected(h, name, out, *excs):
    """the call ended with one of these errors"""
    h.ensure(name, out[0] == "raised" and isinstance(out[1], type) and issubclass(out[1], excs))


def positive(h, n, fn):
    """precondition: the expectation of every bin is positive"""
    h.require(forall(n, lambda i: lt(0, fn(i))))


def contribution(dim):
    def f(h):
        c = Chan(h, dim, data=True)
        data_fact(h, dim)
        y, t, th = vectors(h, c)
        keep = h.snapshot(y), h.snapshot(t), h.snapshot(c.obj)
        positive(h, c.n, lambda i: c.expected(i, y.get, th))
        r = h.method(c.obj, "nll_contribution", y, t)
        h.scalar("likelihood of the channel", r, c.nll(y.get, th, c.data))
        for s in keep:
            h.unchanged("nothing changed", s)
        c.untouched(h, "templates unchanged")
        h.reachable()
    f.__name__ = "contribution%dd" % dim
    return f


for _d in (1, 2):
    contract("C10", "C12", targets=["channel.Channel.nll_contribution", "channel.Channel._gauss_term"])(contribution(_d))


def expectation_positive(h, m, x):
    def one(c):
        d = m.at(c)
        return forall(d.n, lambda i: lt(0, d.expected(i, m.yields(x, c), m.theta(x, c))))
    h.require(forall(m.C, one))


def likelihood(dim):
    def f(h):
        m = Model(h, dim, data=True)
        m.constraints(h)
        data_fact(h, dim)
        x = h.array("x", m.size)
        expectation_positive(h, m, x.get)
        nll = h.method(m.obj, "create_nll")
        keep = h.snapshot(x), h.snapshot(m.obj)
        r = h.call(nll, x)
        h.scalar("sum over the channels and the constraints", r, m.nll(x.get) + m.penalty(x.get))
        for s in keep:
            h.unchanged("nothing changed", s)
        m.at(h.index("c", m.C)).untouched(h, "templates unchanged")
        h.reachable()
    f.__name__ = "likelihood%dd" % dim
    return f


for _d in (1, 2):
    contract("C10", "C12", targets=["multi_channel_template.NegLogLikelihood.__call__"])(likelihood(_d))


def constrain(h):
    m = Model(h)
    m.constraints(h)
    p = h.index("p", m.P)
    v, s = h.real("value"), h.real("error")
    h.require(lt(0, s))
    x = h.array("x", m.P)
    h.method(m.obj, "add_gaussian_constraint_on_yield", m.proc(p), v, s)
    old = summ(m.R, lambda r: ite(eq(m.cidx(r), p), 0, (x.get(m.cidx(r)) - m.cval(r)) ** 2 / m.cerr(r) ** 2 / 2))
    h.scalar("the constraint counts once, with the last value", h.call(client.penalty, m.obj, x), old + (x.get(p) - v) ** 2 / s ** 2 / 2)
    h.reachable()


contract("C10", targets=["multi_channel_template.MultiChannelTemplate.add_gaussian_constraint_on_yield"])(constrain)


def constrain_undefined(h):
    m = Model(h)
    m.constraints(h)
    q = h.text("undefined")
    h.require(forall(m.P, lambda p: bnot(eq(m.proc(p), q))))
    keep = h.snapshot(m.obj)
    out = h.attempt(client.constrain, m.obj, q, h.real("value"), h.real("error"))
    rejected(h, "undefined process rejected", out, RuntimeError)
    h.unchanged("nothing changed", keep)
    h.reachable()


contract("C10", targets=["multi_channel_template.MultiChannelTemplate.add_gaussian_constraint_on_yield"])(constrain_undefined)
