"""templates/multi_channel_template.py, yields and their errors: C13"""
from contracts import client
from contracts.model import *
from contracts.model import start_yield


def unknown_process(h):
    m = Model(h)
    q = h.text("undefined")
    h.require(bnot(ir.inv_has("proc#", q)))
    keep = h.snapshot(m.obj)
    for name, fn, args in (("set_yield", client.set_yield, (m.obj, q, h.real("value"))), ("get_yield", client.get_yield, (m.obj, q))):
        rejected(h, name, h.attempt(fn, *args), RuntimeError)
        h.unchanged("nothing changed", keep)
    m.at(h.index("c", m.C)).untouched(h, "templates unchanged")
    h.reachable()


contract("C13", targets=["multi_channel_template.MultiChannelTemplate.set_yield", "multi_channel_template.MultiChannelTemplate.get_yield"])(unknown_process)


def yield_read(h):
    m = Model(h)
    p = h.index("p", m.P)
    h.scalar("yield of a process", h.call(client.get_yield, m.obj, m.proc(p)), start_yield(m, p))
    m.at(h.index("c", m.C)).untouched(h, "templates unchanged")
    h.reachable()


contract("C13", targets=["multi_channel_template.MultiChannelTemplate.get_yield"])(yield_read)


def yield_set(dim):
    def f(h):
        m = Model(h, dim)
        p, v = h.index("p", m.P), h.real("value")
        keep = h.snapshot(m.obj)
        h.call(client.set_yield, m.obj, m.proc(p), v)
        c = h.index("c", m.C)
        d = m.at(c)
        k = h.index("k", d.K)
        t = m.cf.at(c)
        tm = d.tf.at(c, k)
        h.scalar("yield of a template", h.get(tm, "yield_param"),
                 ite(eq(m.pidx(c, k), p), v * d.eff(c, k), d.par(k, 0)))
        i = h.index("i", d.n)
        h.elements("nuisance parameters", h.get(tm, "nui_params"), (d.n,), lambda i: d.par(k, i + 1))
        h.unchanged("model unchanged", keep)
        d.untouched(h, "nothing else changed", ("_params",))
        h.reachable()
    f.__name__ = "yield_set%dd" % dim
    return f


for _d in (1, 2):
    contract("C13", targets=["multi_channel_template.MultiChannelTemplate.set_yield"])(yield_set(_d))


def sigma(d, k, i):
    """predicted error of bin i of template k of channel d"""
    return d.rel(k, i) * d.par(k, 0) * d.frac(k, i, lambda j: d.par(k, j + 1))


def yield_errors(dim):
    def f(h):
        m = Model(h, dim)
        keep = h.snapshot(m.obj)

        def err2(p):
            def one(c):
                d = m.at(c)
                k = pos(m, c, p)
                return ite(has(m, c, p), summ(d.n, lambda i: sigma(d, k, i) ** 2), 0)
            return summ(m.C, one)
        h.elements("errors of the yields", h.get(m.obj, "process_yield_errors"), (m.P,), lambda p: sqrt(err2(p)))
        h.unchanged("model unchanged", keep)
        m.at(h.index("c", m.C)).untouched(h, "templates unchanged")
        h.reachable()
    f.__name__ = "yield_errors%dd" % dim
    return f


for _d in (1, 2):
    contract("C13", targets=["multi_channel_template.MultiChannelTemplate.process_yield_errors"])(yield_errors(_d))


def restored(dim):
    def f(h):
        m = Model(h, dim)
        keep = h.snapshot(m.obj)
        h.method(m.obj, "reset_parameters")
        c = h.index("c", m.C)
        d = m.at(c)
        k = h.index("k", d.K)
        tm = d.tf.at(c, k)
        total = summ(d.n, lambda i: d.count(k, i))
        h.elements("original parameters", h.get(tm, "params"), (d.n + 1,), lambda i: ite(eq(i, 0), total, 0))
        h.unchanged("model unchanged", keep)
        d.untouched(h, "nothing else changed", ("_params",))
        h.reachable()
    f.__name__ = "restored%dd" % dim
    return f


for _d in (1, 2):
    contract("C13", targets=["multi_channel_template.MultiChannelTemplate.reset_parameters", "channel.Channel.reset"])(restored(_d))
