"""templates/channel.py, templates/multi_channel_template.py: C07 and the part of
C08 and C10 about changes after an evaluation"""
from contracts import client
from contracts.hists import hist1, hist2
from contracts.model import *


def newcomer(h, dim, nb=None):
    """an arbitrary further template and its edges"""
    if dim == 1:
        hist, e, n = hist1(h, "new", nb[0] if nb else None)
        edges, nb = (e,), (n,)
        t = h.call(Template1d, "new", "x", hist)
    else:
        hist, edges, nb = hist2(h, "new", nb=nb)
        t = h.call(Template2d, "new", ("x", "y"), hist)
    n = ir.as_int(nb[0] if dim == 1 else nb[0] * nb[1])
    t.write("_params", h.array("new.par", n + 1))
    t.write("_relative_errors", h.array("new.rel", n))
    t.write("_inv_corr", h.array("new.inv", n, n))
    t.write("_cov", h.array("new.cov", n, n))
    t.write("_corr", h.array("new.corr", n, n))
    return t, edges, nb


def fits(c, edges, nb):
    """binning and range of the channel"""
    lo, hi = [[app(x + str(d), list(c.pre), "R") for d in range(c.dim)] for x in ("low", "high")]
    return band(*[band(eq(c.nb[d], nb[d]), eq(edges[d].get(ir.ZERO), lo[d]), eq(edges[d].get(nb[d]), hi[d])) for d in range(c.dim)])


def known(c, q):
    return ir.inv_has("cproc#", *(list(c.pre) + [q]))


def add_template(dim):
    def f(h):
        c = Chan(h, dim)
        t, edges, nb = newcomer(h, dim)
        q, eff = h.text("process"), h.real("efficiency")
        keep = h.snapshot(t), h.snapshot(c.obj)
        ok = band(fits(c, edges, nb), bnot(known(c, q)))
        out = h.attempt(client.add_template, c.obj, q, t, eff)
        if out[0] == "raised":
            h.reachable()
            rejected(h, "error", out, RuntimeError)
            h.ensure("only what does not fit is rejected", bnot(ok))
            for s in keep:
                h.unchanged("nothing changed", s)
        else:
            h.reachable()
            h.ensure("only what fits is accepted", ok)
            h.unchanged("template unchanged", keep[0])
            in_order(h, c, q, t, eff)
        c.untouched(h, "templates unchanged")
    f.__name__ = "add_template%dd" % dim
    return f


def in_order(h, c, q, t, eff):
    """the old templates followed by the new one"""
    ps = h.get(c.obj, "processes")
    h.scalar("number of processes", h.call(client.length, ps), c.K + 1)
    h.scalar("number of templates", h.get(c.obj, "num_templates"), c.K + 1)
    h.scalar("number of nuisance parameters", h.get(c.obj, "num_nui_params"), (c.K + 1) * c.n)
    k = h.index("k", c.K)
    h.text_is("order of the processes", h.call(client.item, ps, k), c.proc(k))
    h.text_is("order of the processes", h.call(client.item, ps, c.K), q)
    ts = h.call(client.values, h.get(c.obj, "templates"))
    h.ensure("order of the templates", h.call(client.item, ts, k) is not t)
    h.ensure("order of the templates", h.call(client.item, ts, c.K) is t)
    h.ensure("look-up", h.call(client.item, c.obj, q) is t)
    es = h.call(client.values, h.get(c.obj, "efficiencies"))
    h.scalar("efficiencies", h.call(client.item, es, k), c.eff(k))
    h.scalar("efficiencies", h.call(client.item, es, c.K), eff)


for _d in (1, 2):
    contract("C07", targets=["channel.Channel.add_template", "channel.Channel._add_template", "channel.Channel._check_template"])(add_template(_d))


def first_template(dim):
    def f(h):
        t, edges, nb = newcomer(h, dim)
        lo, hi = [[app(x + str(d), [], "R") for d in range(dim)] for x in ("low", "high")]
        n = [h.int("channel.bins%d" % d, lo=1) for d in range(dim)]
        ch = h.call(Channel, "channel", n[0] if dim == 1 else tuple(n), (lo[0], hi[0]) if dim == 1 else tuple(zip(lo, hi)))
        q, eff = h.text("process"), h.real("efficiency")
        ok = band(*[band(eq(n[d], nb[d]), eq(edges[d].get(ir.ZERO), lo[d]), eq(edges[d].get(nb[d]), hi[d])) for d in range(dim)])
        out = h.attempt(client.add_template, ch, q, t, eff)
        if out[0] == "raised":
            h.reachable()
            rejected(h, "error", out, RuntimeError)
            h.ensure("only what does not fit is rejected", bnot(ok))
            h.scalar("nothing added", h.get(ch, "num_templates"), 0)
        else:
            h.reachable()
            h.ensure("only what fits is accepted", ok)
            h.scalar("number of templates", h.get(ch, "num_templates"), 1)
            h.ensure("look-up", h.call(client.item, ch, q) is t)
            h.scalar("efficiency", h.call(client.item, h.get(ch, "efficiencies"), q), eff)
            h.text_is("process", h.call(client.item, h.get(ch, "processes"), 0), q)
    f.__name__ = "first_template%dd" % dim
    return f


for _d in (1, 2):
    contract("C07", targets=["channel.Channel.__init__", "channel.Channel.add_template"])(first_template(_d))


def wrong_kind(dim):
    def f(h):
        """a two-dimensional template in a one-dimensional channel and vice versa"""
        c = Chan(h, dim)
        t, _, _ = newcomer(h, 3 - dim)
        hist = hist1(h, "d")[0] if dim == 2 else hist2(h, "d")[0]
        keep = h.snapshot(c.obj)
        rejected(h, "other kind of template", h.attempt(client.add_template, c.obj, h.text("process"), t, h.real("efficiency")), RuntimeError)
        rejected(h, "other kind of data", h.attempt(client.add_data, c.obj, hist), RuntimeError)
        h.unchanged("nothing changed", keep)
        h.reachable()
    f.__name__ = "wrong_kind%dd" % dim
    return f


for _d in (1, 2):
    contract("C07", targets=["channel.Channel.add_template", "channel.Channel.add_data"])(wrong_kind(_d))


def channel_data(dim):
    def f(h):
        c = Chan(h, dim, data=True)
        hist, edges, nb = hist1(h, "d") if dim == 1 else hist2(h, "d")
        edges, nb = (edges, (nb,)) if dim == 2 else ((edges,), (nb,))
        nb = nb if dim == 1 else nb[0]
        keep = h.snapshot(hist), h.snapshot(c.obj)
        ok = fits(c, edges, nb)
        out = h.attempt(client.add_data, c.obj, hist)
        if out[0] == "raised":
            h.reachable()
            rejected(h, "error", out, RuntimeError)
            h.ensure("only what does not fit is rejected", bnot(ok))
            h.unchanged("nothing changed", keep[1])
        else:
            h.reachable()
            h.ensure("only what fits is accepted", ok)
            h.ensure("data in use", h.get(c.obj, "has_data") is True)
            h.elements("data in use", h.get(c.obj, "data_bin_counts"), nb, lambda *i: app("d.counts", list(i), "R"))
        h.unchanged("data unchanged", keep[0])
        c.untouched(h, "templates unchanged")
    f.__name__ = "channel_data%dd" % dim
    return f


for _d in (1, 2):
    contract("C07", targets=["channel.Channel.add_data", "channel.Channel._check_hist"])(channel_data(_d))


def no_data(h):
    c = Chan(h)
    h.ensure("no data", h.get(c.obj, "has_data") is False)
    rejected(h, "no data", h.attempt(client.data_counts, c.obj), RuntimeError)


contract("C07", targets=["channel.Channel.has_data", "channel.Channel.data_bin_counts"])(no_data)


# ------------------------------------------------------------- whole model

def define_process(h):
    m = Model(h)
    q = h.text("process")
    keep = h.snapshot(m.obj)
    out = h.attempt(client.define_process, m.obj, q)
    new = bnot(ir.inv_has("proc#", q))
    if out[0] == "raised":
        h.reachable()
        rejected(h, "error", out, RuntimeError)
        h.ensure("only a defined process is rejected", bnot(new))
        h.unchanged("nothing changed", keep)
    else:
        h.ensure("a process can be defined once", new)
        ps = h.get(m.obj, "processes")
        p = h.index("p", m.P)
        h.scalar("number of processes", h.get(m.obj, "num_processes"), m.P + 1)
        h.text_is("order", h.call(client.item, ps, p), m.proc(p))
        h.text_is("order", h.call(client.item, ps, m.P), q)
    m.at(h.index("c", m.C)).untouched(h, "templates unchanged")


contract("C07", targets=["multi_channel_template.MultiChannelTemplate.define_process"])(define_process)


def define_channel(dim):
    def f(h):
        m = Model(h, dim)
        q = h.text("channel")
        h.require(bnot(ir.inv_has("chn#", q)))
        n = [h.int("new.bins%d" % d, lo=1) for d in range(dim)]
        lo, hi = [[h.real(x + str(d)) for d in range(dim)] for x in ("new.low", "new.high")]
        bins, rng = (n[0], (lo[0], hi[0])) if dim == 1 else (tuple(n), tuple(zip(lo, hi)))
        h.method(m.obj, "define_channel", q, bins, rng)
        h.scalar("number of channels", h.get(m.obj, "num_channels"), m.C + 1)
        ks = h.call(client.keys, h.get(m.obj, "channels"))
        c = h.index("c", m.C)
        h.text_is("order", h.call(client.item, ks, c), m.chn(c))
        h.text_is("order", h.call(client.item, ks, m.C), q)
        ch = h.call(client.item, h.get(m.obj, "channels"), q)
        h.scalar("no templates", h.get(ch, "num_templates"), 0)
        for d in range(dim):
            h.scalar("bins", h.call(client.item, h.get(ch, "bins"), d), n[d])
        h.scalar("total number of bins", h.get(ch, "num_bins"), n[0] if dim == 1 else n[0] * n[1])
        h.scalar("nuisance parameters", h.get(m.obj, "num_nui_params"), m.nui)
        m.at(c).untouched(h, "templates unchanged")
        h.reachable()
    f.__name__ = "define_channel%dd" % dim
    return f


for _d in (1, 2):
    contract("C07", targets=["multi_channel_template.MultiChannelTemplate.define_channel"])(define_channel(_d))


def counts_reported(h):
    m = Model(h)
    h.scalar("processes", h.get(m.obj, "num_processes"), m.P)
    h.scalar("channels", h.get(m.obj, "num_channels"), m.C)
    h.scalar("nuisance parameters", h.get(m.obj, "num_nui_params"), m.nui)
    c = h.index("c", m.C)
    d = m.at(c)
    ch = m.cf.at(c)
    h.scalar("templates", h.get(ch, "num_templates"), d.K)
    h.scalar("bins", h.get(ch, "num_bins"), d.n)
    h.scalar("nuisance parameters of a channel", h.get(ch, "num_nui_params"), d.K * d.n)
    h.reachable()


contract("C07", targets=["multi_channel_template.MultiChannelTemplate.num_nui_params"])(counts_reported)


def model_add_template(dim):
    def f(h):
        m = Model(h, dim)
        t, edges, nb = newcomer(h, dim)
        c = h.index("c", m.C)
        d = m.at(c)
        q, name, eff = h.text("process"), h.text("channel"), h.real("efficiency")
        keep = h.snapshot(m.obj)
        out = h.attempt(client.add_template_to, m.obj, name, q, t, eff)
        defined = band(ir.inv_has("chn#", name), ir.inv_has("proc#", q))
        e = m.at(ir.inv_pos("chn#", name))
        ok = band(defined, fits(e, edges, nb), bnot(has(m, ir.inv_pos("chn#", name), ir.inv_pos("proc#", q))))
        if out[0] == "raised":
            h.reachable()
            rejected(h, "error", out, RuntimeError)
            h.ensure("only what does not fit is rejected", bnot(ok))
            h.unchanged("nothing changed", keep)
        else:
            h.reachable()
            h.ensure("only what fits is accepted", ok)
            ch = h.call(client.item, h.get(m.obj, "channels"), name)
            h.scalar("added to this channel", h.get(ch, "num_templates"), e.K + 1)
            h.ensure("look-up", h.call(client.item, ch, q) is t)
            h.scalar("efficiency", h.call(client.item, h.get(ch, "efficiencies"), q), eff)
        d.untouched(h, "templates unchanged")
    f.__name__ = "model_add_template%dd" % dim
    return f


for _d in (1, 2):
    contract("C07", targets=["multi_channel_template.MultiChannelTemplate.add_template"])(model_add_template(_d))


def model_add_data(dim):
    def f(h):
        m = Model(h, dim, data=True)
        hist, edges, nb = hist1(h, "d") if dim == 1 else hist2(h, "d")
        edges, nb = (edges, nb) if dim == 2 else ((edges,), (nb,))
        name = lift("somewhere")
        keep = h.snapshot(m.obj), h.snapshot(hist)
        out = h.attempt(client.add_data_somewhere, m.obj, hist)
        c = ir.inv_pos("chn#", name)
        e = m.at(c)
        ok = band(ir.inv_has("chn#", name), fits(e, edges, nb))
        h.reachable()
        if out[0] == "raised":
            rejected(h, "error", out, RuntimeError)
            h.ensure("only what does not fit is rejected", bnot(ok))
            h.unchanged("nothing changed", keep[0])
        else:
            h.ensure("only what fits is accepted", ok)
            got = h.get(h.call(client.item, h.get(m.obj, "channels"), "somewhere"), "data_bin_counts")
            h.elements("data in use", got, nb, lambda *i: app("d.counts", list(i), "R"))
            c2 = h.index("c", m.C)
            h.require(bnot(eq(c2, c)))
            o = m.at(c2)
            h.elements("data of other channels", h.get(m.cf.at(c2), "data_bin_counts"), o.nb, lambda *i: o.data(o.flat(*i)))
        h.unchanged("data unchanged", keep[1])
        m.at(h.index("c", m.C)).untouched(h, "templates unchanged")
    f.__name__ = "model_add_data%dd" % dim
    return f


for _d in (1, 2):
    contract("C07", targets=["multi_channel_template.MultiChannelTemplate.add_data"])(model_add_data(_d))


# ------------------------------------------- changes after an evaluation

class Grown:
    """channel with one more template, added after the likelihood was evaluated"""

    def __init__(self, h, dim):
        c = self.c = Chan(h, dim, data=True)
        data_fact(h, dim)
        y, t, th = vectors(h, c)
        positive(h, c.n, lambda i: c.expected(i, y.get, th))
        h.method(c.obj, "_expected_evts_per_bin", y, t)
        h.method(c.obj, "nll_contribution", y, t)
        h.call(client.total_prediction, c.obj)
        new, edges, nb = newcomer(h, dim, c.nb)
        q, self.eff = h.text("process"), h.real("efficiency")
        h.require(fits(c, edges, nb))
        h.require(bnot(known(c, q)))
        h.call(client.add_template, c.obj, q, new, self.eff)
        self.y = h.array("y2", c.K + 1)
        self.t = h.array("theta2", (c.K + 1) * c.n)
        self.th = lambda k, j: self.t.get(k * c.n + j)

    def frac(self, i):
        c = self.c
        w = lambda j: app("new.counts", list(c.unflat(lift(j))), "R") * (1 + self.th(c.K, j) * app("new.rel", [lift(j)], "R"))
        s = summ(c.n, w)
        return ite(eq(s, 0), 0, w(i) / s)

    def expected(self, i):
        c = self.c
        return c.expected(i, self.y.get, self.th) + self.y.get(c.K) * self.eff * self.frac(i)

    def nll(self):
        c = self.c

        def p(i):
            e, d = self.expected(i), c.data(i)
            return e - d + ite(eq(d, 0), 0, d * ir.log(d / e))
        th = self.th
        quad = summ(c.K, lambda k: summ(c.n, lambda i: summ(c.n, lambda j: th(k, i) * c.inv(k, i, j) * th(k, j)))) + \
            summ(c.n, lambda i: summ(c.n, lambda j: th(c.K, i) * app("new.inv", [lift(i), lift(j)], "R") * th(c.K, j)))
        return summ(c.n, p) + quad / 2


def grown(dim):
    def f(h):
        g = Grown(h, dim)
        r = h.method(g.c.obj, "_expected_evts_per_bin", g.y, g.t)
        h.elements("expectation with the new template", r, (g.c.n,), g.expected)
        h.reachable()
    f.__name__ = "grown%dd" % dim
    return f


def grown_likelihood(dim):
    def f(h):
        g = Grown(h, dim)
        positive(h, g.c.n, g.expected)
        r = h.method(g.c.obj, "nll_contribution", g.y, g.t)
        h.scalar("likelihood with the new template", r, g.nll())
        h.reachable()
    f.__name__ = "grown_likelihood%dd" % dim
    return f


for _d in (1, 2):
    contract("C08", targets=["channel.Channel._expected_evts_per_bin", "channel.Channel.add_template"])(grown(_d))
    contract("C10", targets=["channel.Channel.nll_contribution", "channel.Channel.add_template"])(grown_likelihood(_d))


def varied(dim):
    """a template that gets more uncertainties after an evaluation"""
    def f(h):
        c = Chan(h, dim)
        y, t, th = vectors(h, c)
        h.method(c.obj, "_expected_evts_per_bin", y, t)
        h.call(client.total_prediction, c.obj)
        k0 = h.index("k", c.K)
        tm = c.tf.at(k0)
        h.fact("cov", lambda k, i, j: ir.implies(eq(i, j), lt(0, app("cov", [k, i, j], "R"))))
        h.method(tm, "_add_cov_mat", h.array("later", c.n, c.n, fact=lambda i, j, v: ir.implies(eq(i, j), le(0, v))))
        rel = tm.read("_relative_errors")
        old = c.rel
        c.rel = lambda k, i: ite(eq(k, k0), rel.get(i), old(k, i))
        h.elements("expectation with the new errors", h.method(c.obj, "_expected_evts_per_bin", y, t), (c.n,), lambda i: c.expected(i, y.get, th))
        h.reachable()
    f.__name__ = "varied%dd" % dim
    return f


for _d in (1, 2):
    contract("C08", targets=["channel.Channel._expected_evts_per_bin"])(varied(_d))
