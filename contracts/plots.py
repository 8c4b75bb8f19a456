"""What is drawn: C23.  The axis is a recorder of the calls made on it."""
from contracts import client
from contracts.data import *
from contracts.model import rejected
from contracts.post import result


def drawn(ax, name):
    return [e for e in npmodel.events("draw") if e["axes"] is ax and e["name"] == name]


def argument(e, name, k=None, default=None):
    """an argument of a drawing call by name or position"""
    if name in e["kwargs"]:
        return e["kwargs"][name]
    if k is not None and k < len(e["args"]):
        return e["args"][k]
    return default


def one(h, ax, name):
    es = drawn(ax, name)
    if len(es) != 1:
        raise ir.Unsupported("%d calls of %s on the axis" % (len(es), name))
    return es[0]


def labelled(h, what, c, label, k):
    """the label of template k: its own one, its name if it has none"""
    want = app("template.label" if c.labels == "own" else "template.name", [lift(k)], "S")
    if label is None:
        h.fail(what + ": label")
    else:
        h.text_is(what + ": label", label, want)


def in_bins(h, name, x, edges, n):
    """element j of x lies in bin j"""
    if h.is_array(name, x, (n,)):
        j = h.index("j", n)
        h.ensure(name, band(le(edges(j), x.get(j)), lt(x.get(j), edges(j + 1))))


def is_histogram(h, what, ax, n, edges, contents, chan, which=None):
    """contents: list of functions, or (K, function of the number and the bin)"""
    e = one(h, ax, "hist")
    for k in ("density", "cumulative", "log"):
        if argument(e, k, default=False) not in (False, None):
            h.fail("%s: %s" % (what, k))
    x, b, w = argument(e, "x", 0), argument(e, "bins", 1), argument(e, "weights", 4)
    h.elements(what + ": bins", npmodel.to_arr(b), (n + 1,), edges)
    if isinstance(contents, tuple):
        K, value = contents
        l = argument(e, "label")
        if l is None:
            h.fail(what + ": labels")
        else:
            l = npmodel.list_of(l)
            h.ensure(what + ": number of labels", eq(l.length(), K))
            k = h.index("k", K)
            labelled(h, what, chan, core.seq_at(l, k), k)
        h.ensure(what + ": stacked", argument(e, "stacked", 13) is True)
        x, w = npmodel.list_of(x), npmodel.list_of(w)
        h.ensure(what + ": number of histograms", band(eq(x.length(), K), eq(w.length(), K)))
        k = h.index("k", K)
        x, w = core.seq_at(x, k), core.seq_at(w, k)
        contents = lambda i: value(k, i)
    else:
        labelled(h, what, chan, argument(e, "label"), which)
    in_bins(h, what + ": entries lie in their bins", x, edges, n)
    h.elements(what + ": contents", w, (n,), contents)


def is_band(h, what, ax, n, edges, value, error):
    e = one(h, ax, "bar")
    x, ht, wd, b = [argument(e, s, k) for k, s in enumerate(("x", "height", "width", "bottom"))]
    al = argument(e, "align", default="center")
    if al not in ("center", "edge"):
        raise ir.Unsupported("alignment of bars")
    wd = npmodel.to_arr(wd)
    width = (lambda i: wd.get(i)) if wd.ndim else (lambda i: wd.get())
    h.elements(what + ": band from left edges", x, (n,), lambda i: edges(i) + (width(i) / 2 if al == "center" else 0))
    i = h.index("i", n)
    h.ensure(what + ": band to right edges", eq(width(i), edges(i + 1) - edges(i)))
    h.elements(what + ": band from below", b, (n,), lambda i: value(i) - error(i))
    h.elements(what + ": height of the band", ht, (n,), lambda i: 2 * error(i))


def is_points(h, what, ax, n, edges, value, err2):
    e = one(h, ax, "errorbar")
    x, y, ye = argument(e, "x", 0), argument(e, "y", 1), argument(e, "yerr", 2)
    h.elements(what + ": position", x, (n,), lambda i: (edges(i) + edges(i + 1)) / 2)
    h.elements(what + ": contents", y, (n,), value)
    h.elements(what + ": errors", ye, (n,), lambda i: sqrt(err2(i)))


def edges_of(h, c):
    """edges of the channel's bins"""
    e = h.get(h.call(client.first_template, c.obj), "bin_edges")
    return e.get if c.dim == 1 else [h.call(client.item, e, a).get for a in range(2)]


def now(c, k):
    return lambda i: c.par(k, 0) * c.frac(k, i, lambda j: c.par(k, j + 1))


def stacked(data):
    def f(h):
        c = Chan(h, 1, data=data, geo="bins", labels="own" if data else "names")
        ax = npmodel.axes()
        keep = h.snapshot(c.obj)
        h.method(c.obj, "plot_stacked_on", ax)
        ed = edges_of(h, c)
        total = lambda i: summ(c.K, lambda k: now(c, k)(i))
        err2 = lambda i: summ(c.K, lambda k: (c.rel(k, i) * now(c, k)(i)) ** 2)
        is_histogram(h, "stack", ax, c.n, ed, (c.K, lambda k, i: now(c, k)(i)), c)
        is_band(h, "stack", ax, c.n, ed, total, lambda i: sqrt(err2(i)))
        if data:
            is_points(h, "data", ax, c.n, ed, c.data, lambda i: app("data.err2", [i], "R"))
        else:
            h.ensure("no data: none drawn", not drawn(ax, "errorbar"))
        h.unchanged("channel unchanged", keep)
        c.untouched(h, "templates unchanged")
        h.reachable()
    f.__name__ = "stacked_%s" % ("data" if data else "without_data")
    return f


for _x in (True, False):
    contract("C23", targets=["channel.Channel.plot_stacked_on"])(stacked(_x))


def post_fit(how, data):
    def f(h):
        c = Chan(h, 1, data=data, geo="bins", labels="names" if data else "own")
        ax = npmodel.axes()
        npar = ir.as_int(c.K + c.K * c.n)
        r = result(h, npar)
        keep = h.snapshot(c.obj), h.snapshot(r)
        cov = h.get(r, "covariance")
        row = lambda i, a: app("d!0", [lift(i), lift(a)], "R")
        var = lambda i: summ(npar, lambda a: summ(npar, lambda b: row(i, a) * cov.get(a, b) * row(i, b)))
        h.require(forall(c.n, lambda i: le(0, var(i))))
        if how:
            h.method(c.obj, "plot_post_fit_stacked_on", ax, r, how)
        else:
            h.method(c.obj, "plot_post_fit_stacked_on", ax, r)
        ed = edges_of(h, c)
        total = lambda i: summ(c.K, lambda k: now(c, k)(i))
        if how == "scale":
            er = h.get(r, "errors")
            err = lambda i: sqrt(summ(c.K, lambda k: (er.get(c.K + k * c.n + i) * c.rel(k, i) * now(c, k)(i)) ** 2))
        else:
            err = lambda i: sqrt(var(i))
        is_histogram(h, "stack", ax, c.n, ed, (c.K, lambda k, i: now(c, k)(i)), c)
        is_band(h, "stack", ax, c.n, ed, total, err)
        if data:
            is_points(h, "data", ax, c.n, ed, c.data, lambda i: app("data.err2", [i], "R"))
        else:
            h.ensure("no data: none drawn", not drawn(ax, "errorbar"))
        for s in keep:
            h.unchanged("nothing changed", s)
        c.untouched(h, "templates unchanged")
        h.reachable()
    f.__name__ = "post_fit_%s_%s" % (how or "default", "data" if data else "without_data")
    return f


for _h in (None, "propagate", "scale"):
    for _x in (True, False):
        contract("C23", targets=["channel.Channel.plot_post_fit_stacked_on"])(post_fit(_h, _x))


def refused(h):
    c = Chan(h, 2, data=True, geo="bins")
    ax = npmodel.axes()
    r = result(h, ir.as_int(c.K + c.K * c.n))
    for out in (h.attempt(client.plot_stacked, c.obj, ax), h.attempt(client.plot_post_fit, c.obj, ax, r)):
        rejected(h, "refused", out, NotImplementedError)
    h.ensure("nothing drawn", not npmodel.events("draw"))
    c.untouched(h, "templates unchanged")
    h.reachable()


contract("C23", targets=["channel.Channel.plot_stacked_on", "channel.Channel.plot_post_fit_stacked_on"])(refused)


def template_plot(h, labels="own"):
    c = Chan(h, 1, geo="bins", labels=labels)
    k = h.index("k", c.K)
    t = c.tf.at(k)
    ax = npmodel.axes()
    h.method(t, "plot_on", ax)
    ed = edges_of(h, c)
    is_histogram(h, "template", ax, c.n, ed, now(c, k), c, k)
    is_band(h, "template", ax, c.n, ed, now(c, k), lambda i: c.rel(k, i) * now(c, k)(i))
    c.untouched(h, "template unchanged")
    h.reachable()


def template_plot_without_label(h):
    template_plot(h, "names")


contract("C23", targets=["template1d.Template1d.plot_on"])(template_plot)
contract("C23", targets=["template1d.Template1d.plot_on"])(template_plot_without_label)


def projection_plot(axis):
    def f(h):
        c = Chan(h, 2, geo="bins", labels=("own", "names")[axis])
        k = h.index("k", c.K)
        t = c.tf.at(k)
        ax = npmodel.axes()
        h.method(t, "plot_%s_projection_on" % "xy"[axis], ax)
        ed = edges_of(h, c)[axis]
        n, m = c.nb[axis], c.nb[1 - axis]
        at = (lambda i, j: c.flat(i, j)) if axis == 0 else (lambda i, j: c.flat(j, i))
        value = lambda i: summ(m, lambda j: now(c, k)(at(i, j)))
        err2 = lambda i: summ(m, lambda j: (c.rel(k, at(i, j)) * now(c, k)(at(i, j))) ** 2)
        is_histogram(h, "projection", ax, n, ed, value, c, k)
        is_band(h, "projection", ax, n, ed, value, lambda i: sqrt(err2(i)))
        c.untouched(h, "template unchanged")
        h.reachable()
    f.__name__ = "%s_projection_plot" % "xy"[axis]
    return f


for _a in (0, 1):
    contract("C23", targets=["template2d.Template2d.plot_%s_projection_on" % "xy"[_a]])(projection_plot(_a))


def plot2d(h):
    c = Chan(h, 2, geo="bins")
    k = h.index("k", c.K)
    t = c.tf.at(k)
    fig, ax = npmodel.axes(), npmodel.axes()
    h.method(t, "plot_on", fig, ax)
    e = one(h, ax, "hist2d")
    x, y, b, w = argument(e, "x", 0), argument(e, "y", 1), argument(e, "bins", 2), argument(e, "weights", 5)
    ed = edges_of(h, c)
    for a in range(2):
        h.elements("bins", npmodel.to_arr(h.call(client.item, b, a)), (c.nb[a] + 1,), ed[a])
    n = ir.as_int(c.nb[0] * c.nb[1])
    if all([h.is_array("entries", v, (n,)) for v in (x, y, w)]):
        i, j = h.index("i", c.nb[0]), h.index("j", c.nb[1])
        f = c.flat(i, j)
        h.ensure("entry in its bin", band(le(ed[0](i), x.get(f)), lt(x.get(f), ed[0](i + 1)), le(ed[1](j), y.get(f)), lt(y.get(f), ed[1](j + 1))))
        h.ensure("contents", eq(w.get(f), now(c, k)(f)))
    c.untouched(h, "template unchanged")
    h.reachable()


contract("C23", targets=["template2d.Template2d.plot_on"])(plot2d)
