"""histograms/: C01, C02"""
from dv.api import *
from templatefitter.histograms import Hist1d, Hist2d, bin_mids, bin_widths, get_bin_range


def edges(h, name, nb, args=()):
    """arbitrary strictly increasing bin edges of nb bins; args: indices of the object they belong to"""
    e = h.array(name, nb + 1, args=args)
    gen = [ir.single_sym(a) for a in args]

    def fact(*x):
        i, env = x[-1], dict(zip(gen, x[:-1]))
        n = ir.subst(lift(nb), env)
        v = lambda j: app(name, list(x[:-1]) + [j], "R")
        return band(ir.implies(band(le(ir.ZERO, i), lt(i, n)), lt(v(i), v(i + 1))), ir.implies(band(lt(ir.ZERO, i), le(i, n)), lt(v(i - 1), v(i))))
    h.fact(name, fact)
    return e


def inside(x, e, i, nb):
    """entry x lies in bin i"""
    return band(le(e.get(i), x), bor(lt(x, e.get(i + 1)), band(eq(i, nb - 1), eq(x, e.get(nb)))))


def entries(h, x, w, e, nb, sq=False):
    """content of bin i due to entries x (arrays) with weights w"""
    def f(*i):
        def term(k):
            c = band(*[inside(a.get(k), b, j, m) for a, b, j, m in zip(x, e, i, nb)])
            v = w.get(k) if w is not None else ir.ONE
            return br(c) * (v * v if sq else v)
        return summ(x[0].shape[0], term)
    return f


def weights(h, kind, name, n):
    """-> (argument, array of weights or None)"""
    if kind == "none":
        return None, None
    w = h.array(name, n)
    if kind == "list":
        return PySeq([Rep(s, n, [One(w.get(poly(s)))]) for s in [fresh("e", "I", hi=n)]]), w
    return w, w


def hist1(h, name="h", nb=None, filled=True, args=(), geo=None):
    """arbitrary one-dimensional histogram: edges, contents and errors"""
    nb = h.int(name + ".bins", lo=1) if nb is None else nb
    e = edges(h, name + ".edges", nb, args) if geo is None else edges(h, geo + ".edges", nb)
    o = h.call(Hist1d, e)
    if filled:
        o.write("_bin_counts", h.array(name + ".counts", nb, args=args))
        o.write("_bin_errors_sq", h.array(name + ".err2", nb, fact=lambda *x: le(0, x[-1]), args=args))
        o.write("_is_empty", False)
    return o, e, nb


def hist2(h, name="h", filled=True, nb=None, args=(), geo=None):
    nx, ny = nb or (h.int(name + ".nx", lo=1), h.int(name + ".ny", lo=1))
    g, ga = (name, args) if geo is None else (geo, ())
    ex, ey = edges(h, g + ".xedges", nx, ga), edges(h, g + ".yedges", ny, ga)
    o = h.call(Hist2d, (ex, ey))
    if filled:
        o.write("_bin_counts", h.array(name + ".counts", nx, ny, args=args))
        o.write("_bin_errors_sq", h.array(name + ".err2", nx, ny, fact=lambda *x: le(0, x[-1]), args=args))
        o.write("_is_empty", False)
    return o, (ex, ey), (nx, ny)


def fill1d(kind):
    def f(h):
        o, e, nb = hist1(h)
        n = h.int("entries", lo=0)
        x = h.array("x", n)
        arg, w = weights(h, kind, "w", n)
        c0, q0 = [h.get(o, a) for a in ("bin_counts", "bin_errors_sq")]
        c0, q0 = h.snapshot(c0).val[2], h.snapshot(q0).val[2]
        keep = [h.snapshot(a) for a in (x, w, e) if a is not None]
        h.method(o, "fill", x, arg) if kind != "none" else h.method(o, "fill", x)
        new, new2 = entries(h, [x], w, [e], [nb]), entries(h, [x], w, [e], [nb], True)
        h.elements("contents", h.get(o, "bin_counts"), (nb,), lambda i: c0.get(i) + new(i))
        h.elements("squared errors", h.get(o, "bin_errors_sq"), (nb,), lambda i: q0.get(i) + new2(i))
        h.elements("errors", h.get(o, "bin_errors"), (nb,), lambda i: sqrt(q0.get(i) + new2(i)))
        h.ensure("not empty any more", h.get(o, "is_empty") is False)
        for s in keep:
            h.unchanged("argument", s)
        h.reachable()
    f.__name__ = "fill1d_%s_weights" % kind
    return f


def fill2d(kind):
    def f(h):
        o, e, nb = hist2(h)
        n = h.int("entries", lo=0)
        x = [h.array("x", n), h.array("y", n)]
        arg, w = weights(h, kind, "w", n)
        c0, q0 = [h.snapshot(h.get(o, a)).val[2] for a in ("bin_counts", "bin_errors_sq")]
        keep = [h.snapshot(a) for a in x + [w] + list(e) if a is not None]
        data = tuple(x)
        h.method(o, "fill", data, arg) if kind != "none" else h.method(o, "fill", data)
        new, new2 = entries(h, x, w, e, nb), entries(h, x, w, e, nb, True)
        h.elements("contents", h.get(o, "bin_counts"), nb, lambda i, j: c0.get(i, j) + new(i, j))
        h.elements("squared errors", h.get(o, "bin_errors_sq"), nb, lambda i, j: q0.get(i, j) + new2(i, j))
        h.ensure("not empty any more", h.get(o, "is_empty") is False)
        for s in keep:
            h.unchanged("argument", s)
        h.reachable()
    f.__name__ = "fill2d_%s_weights" % kind
    return f


for _k in ("none", "array", "list"):
    contract("C01", targets=["histograms.hist1d.Hist1d.fill"])(fill1d(_k))
    contract("C01", targets=["histograms.hist2d.Hist2d.fill"])(fill2d(_k))


@contract("C01", targets=["histograms.hist2d.Hist2d.fill"])
def fill2d_array_data(h):
    """data given as one array of shape (2, N)"""
    o, e, nb = hist2(h, filled=False)
    n = h.int("entries", lo=0)
    x = h.array("x", 2, n)
    rows = [mkarr((n,), lambda k, r=r: x.get(r, k)) for r in (0, 1)]
    w = h.array("w", n)
    keep = h.snapshot(x)
    h.method(o, "fill", x, w)
    h.elements("contents", h.get(o, "bin_counts"), nb, entries(h, rows, w, e, nb))
    h.unchanged("argument", keep)
    h.reachable()


@contract("C01", targets=["histograms.hist1d.Hist1d.__init__"])
def new1d_with_data(h):
    """constructor data is the first fill; a histogram without data is empty"""
    nb = h.int("bins", lo=1)
    e = edges(h, "edges", nb)
    n = h.int("entries", lo=0)
    x, w = h.array("x", n), h.array("w", n)
    a = h.call(Hist1d, e)
    h.ensure("empty", h.get(a, "is_empty") is True)
    h.elements("no contents", h.get(a, "bin_counts"), (nb,), lambda i: 0)
    h.elements("no errors", h.get(a, "bin_errors_sq"), (nb,), lambda i: 0)
    b = h.call(Hist1d, e, None, x, w)
    h.elements("contents", h.get(b, "bin_counts"), (nb,), entries(h, [x], w, [e], [nb]))
    h.elements("squared errors", h.get(b, "bin_errors_sq"), (nb,), entries(h, [x], w, [e], [nb], True))
    c = h.call(Hist1d, e, data=x)
    h.elements("contents without weights", h.get(c, "bin_counts"), (nb,), entries(h, [x], None, [e], [nb]))
    h.distinct_storage("separate contents", *[h.get(o, "bin_counts") for o in (a, b, c)], *[h.get(o, "bin_errors_sq") for o in (a, b, c)])
    h.reachable()


@contract("C01", targets=["histograms.hist2d.Hist2d.__init__"])
def new2d_with_data(h):
    nx, ny = h.int("nx", lo=1), h.int("ny", lo=1)
    e = (edges(h, "ex", nx), edges(h, "ey", ny))
    n = h.int("entries", lo=0)
    x, w = [h.array("x", n), h.array("y", n)], h.array("w", n)
    a = h.call(Hist2d, e)
    h.ensure("empty", h.get(a, "is_empty") is True)
    h.elements("no contents", h.get(a, "bin_counts"), (nx, ny), lambda i, j: 0)
    h.elements("no errors", h.get(a, "bin_errors_sq"), (nx, ny), lambda i, j: 0)
    b = h.call(Hist2d, e, None, tuple(x), w)
    h.elements("contents", h.get(b, "bin_counts"), (nx, ny), entries(h, x, w, e, (nx, ny)))
    h.elements("squared errors", h.get(b, "bin_errors_sq"), (nx, ny), entries(h, x, w, e, (nx, ny), True))
    h.distinct_storage("separate contents", h.get(a, "bin_counts"), h.get(b, "bin_counts"), h.get(a, "bin_errors_sq"), h.get(b, "bin_errors_sq"))
    h.reachable()


@contract("C01", targets=["histograms.hist1d.Hist1d.fill"])
def division_into_fills(h):
    """two fills are one fill of all entries; the order does not matter"""
    nb = h.int("bins", lo=1)
    e = edges(h, "edges", nb)
    n, m = h.int("n", lo=0), h.int("m", lo=0)
    x, y, v, w = h.array("x", n), h.array("y", m), h.array("v", n), h.array("w", m)

    def joined(a, b):
        return mkarr((n + m,), lambda k: ite(lt(k, n), a.get(k), b.get(k - n)))
    one, two, back, ctor = h.call(Hist1d, e), h.call(Hist1d, e), h.call(Hist1d, e), h.call(Hist1d, e, None, x, v)
    h.method(two, "fill", x, v)
    h.method(two, "fill", y, w)
    h.method(back, "fill", y, w)
    h.method(back, "fill", x, v)
    h.method(ctor, "fill", y, w)
    for a in ("bin_counts", "bin_errors_sq"):
        ref = h.get(two, a)
        h.same_array("order: " + a, h.get(back, a), ref)
        h.same_array("constructor: " + a, h.get(ctor, a), ref)
    for a, s in (("bin_counts", False), ("bin_errors_sq", True)):
        f, g = entries(h, [x], v, [e], [nb], s), entries(h, [y], w, [e], [nb], s)
        h.elements("sum of both: " + a, h.get(two, a), (nb,), lambda i: f(i) + g(i))
    h.reachable()


# ------------------------------------------------------------------- geometry

def geometry1(h, o, e, nb):
    h.scalar("number of bins", h.get(o, "num_bins"), nb)
    s = h.get(o, "shape")
    h.ensure("shape", isinstance(s, tuple) and len(s) == 1 and eq(interp.num(s[0]), nb))
    h.elements("edges", h.get(o, "bin_edges"), (nb + 1,), e)
    h.elements("bin mids", h.get(o, "bin_mids"), (nb,), lambda i: (e(i) + e(i + 1)) / 2)
    h.elements("bin widths", h.get(o, "bin_widths"), (nb,), lambda i: e(i + 1) - e(i))
    r = h.get(o, "range")
    h.ensure("range", isinstance(r, tuple) and len(r) == 2 and band(eq(interp.num(r[0]), e(ir.ZERO)), eq(interp.num(r[1]), e(nb))))


@contract("C02", targets=["histograms.hist1d.Hist1d._init_bin_edges"])
def geometry1d_bins_range(h):
    for form in ("int", "tuple"):
        nb, lo, hi = h.int("nb", lo=1), h.real("lo"), h.real("hi")
        h.require(lt(lo, hi))
        h.prefix = form + ": "
        o = h.call(Hist1d, nb if form == "int" else (nb,), (lo, hi))
        geometry1(h, o, lambda i: lo + (hi - lo) * i / nb, nb)
        k = h.index("k", nb)
        e = h.get(o, "bin_edges")
        h.ensure("equal widths", eq(e.get(k + 1) - e.get(k), (hi - lo) / nb))
        h.ensure("covers the range", band(eq(e.get(0), lo), eq(e.get(nb), hi)))
        h.elements("starts empty", h.get(o, "bin_counts"), (nb,), lambda i: 0)
    h.reachable()


@contract("C02", targets=["histograms.hist1d.Hist1d._init_bin_edges", "histograms.hist_utils.get_bin_range"])
def geometry1d_edges(h):
    nb = h.int("nb", lo=1)
    e = edges(h, "edges", nb)
    keep = h.snapshot(e)
    o = h.call(Hist1d, e)
    geometry1(h, o, e.get, nb)
    h.unchanged("argument", keep)
    h.reachable()


def geometry2(h, o, es, nbs):
    nb, sh = h.get(o, "num_bins"), h.get(o, "shape")
    h.ensure("number of bins", len(nb) == 2 and band(*[eq(interp.num(a), b) for a, b in zip(nb, nbs)]))
    h.ensure("shape", len(sh) == 2 and band(*[eq(interp.num(a), b) for a, b in zip(sh, nbs)]))
    r = h.get(o, "range")
    axes = [interp.getitem(h.get(o, "bin_edges"), k) for k in (0, 1)]
    mids, widths = [[interp.getitem(h.get(o, a), k) for k in (0, 1)] for a in ("bin_mids", "bin_widths")]
    for k, (e, n) in enumerate(zip(es, nbs)):
        h.elements("edges %d" % k, axes[k], (n + 1,), e)
        h.elements("bin mids %d" % k, mids[k], (n,), lambda i: (e(i) + e(i + 1)) / 2)
        h.elements("bin widths %d" % k, widths[k], (n,), lambda i: e(i + 1) - e(i))
        rk = interp.getitem(r, k)
        h.ensure("range %d" % k, band(eq(interp.num(interp.getitem(rk, 0)), e(ir.ZERO)), eq(interp.num(interp.getitem(rk, 1)), e(n))))
    h.same_array("x edges", h.get(o, "x_edges"), axes[0])
    h.same_array("y edges", h.get(o, "y_edges"), axes[1])


@contract("C02", targets=["histograms.hist2d.Hist2d._init_bin_edges"])
def geometry2d_bins_range(h):
    nx, ny = h.int("nx", lo=1), h.int("ny", lo=1)
    lim = [(h.real("xlo"), h.real("xhi")), (h.real("ylo"), h.real("yhi"))]
    for a, b in lim:
        h.require(lt(a, b))
    o = h.call(Hist2d, (nx, ny), tuple(lim))
    geometry2(h, o, [lambda i, l=l, n=n: l[0] + (l[1] - l[0]) * i / n for l, n in zip(lim, (nx, ny))], (nx, ny))
    h.elements("starts empty", h.get(o, "bin_counts"), (nx, ny), lambda i, j: 0)
    h.reachable()


@contract("C02", targets=["histograms.hist2d.Hist2d._init_bin_edges"])
def geometry2d_edges(h):
    for form in ("tuple", "list"):
        h.prefix = form + ": "
        nx, ny = h.int("nx", lo=1), h.int("ny", lo=1)
        e = (edges(h, "ex", nx), edges(h, "ey", ny))
        o = h.call(Hist2d, e if form == "tuple" else PySeq.of(e))
        geometry2(h, o, [a.get for a in e], (nx, ny))
    h.reachable()


def binned(dim, errors, aslist=False):
    def f(h):
        ns = [h.int(n, lo=1) for n in ("nx", "ny")[:dim]]
        es = [edges(h, n, k) for n, k in zip(("ex", "ey"), ns)]
        dt = h.array("counts", *ns, fact=lambda *a: le(0, a[-1]))
        err = h.array("errors", *ns) if errors else None
        cls = Hist1d if dim == 1 else Hist2d
        e = es[0] if dim == 1 else tuple(es)
        keep = [h.snapshot(a) for a in [dt] + es + ([err] if errors else [])]
        o = h.call(getattr_(cls, "from_binned_data"), dt, e, err) if errors else h.call(getattr_(cls, "from_binned_data"), dt, e)
        (geometry1(h, o, es[0].get, ns[0]) if dim == 1 else geometry2(h, o, [a.get for a in es], ns))
        h.elements("counts", h.get(o, "bin_counts"), ns, dt.get)
        h.elements("squared errors", h.get(o, "bin_errors_sq"), ns, (lambda *i: err.get(*i) ** 2) if errors else dt.get)
        h.ensure("not empty", h.get(o, "is_empty") is False)
        arrays = [dt, h.get(o, "bin_counts"), h.get(o, "bin_errors_sq")]
        h.distinct_storage("no shared storage", *arrays)
        for s in keep:
            h.unchanged("argument", s)
        # later changes of either side stay there
        n = h.int("entries", lo=0)
        x = [h.array("x", n), h.array("y", n)][:dim]
        w = h.array("w", n)
        c0 = h.snapshot(dt)
        h.method(o, "fill", x[0] if dim == 1 else tuple(x), w)
        h.unchanged("fill leaves the given counts alone", c0)
        h.reachable()
    f.__name__ = "binned%dd_%s" % (dim, "errors" if errors else "poisson")
    return f


for _d in (1, 2):
    for _e in (False, True):
        contract("C02", targets=["histograms.hist%dd.Hist%dd.from_binned_data" % (_d, _d)])(binned(_d, _e))


@contract("C02", targets=["histograms.hist2d.Hist2d.x_projection", "histograms.hist2d.Hist2d.y_projection"])
def projections(h):
    o, e, (nx, ny) = hist2(h)
    c, q = h.get(o, "bin_counts"), h.get(o, "bin_errors_sq")
    keep = [h.snapshot(a) for a in (c, q) + e]
    px = h.method(o, "x_projection")
    py = h.method(o, "y_projection")
    h.prefix = "x: "
    geometry1(h, px, e[0].get, nx)
    h.elements("counts", h.get(px, "bin_counts"), (nx,), lambda i: summ(ny, lambda j: c.get(i, j)))
    h.elements("squared errors", h.get(px, "bin_errors_sq"), (nx,), lambda i: summ(ny, lambda j: q.get(i, j)))
    h.elements("errors", h.get(px, "bin_errors"), (nx,), lambda i: sqrt(summ(ny, lambda j: q.get(i, j))))
    h.prefix = "y: "
    geometry1(h, py, e[1].get, ny)
    h.elements("counts", h.get(py, "bin_counts"), (ny,), lambda j: summ(nx, lambda i: c.get(i, j)))
    h.elements("squared errors", h.get(py, "bin_errors_sq"), (ny,), lambda j: summ(nx, lambda i: q.get(i, j)))
    h.elements("errors", h.get(py, "bin_errors"), (ny,), lambda j: sqrt(summ(nx, lambda i: q.get(i, j))))
    h.prefix = ""
    for s in keep:
        h.unchanged("histogram", s)
    h.distinct_storage("own storage", c, q, *[h.get(p, a) for p in (px, py) for a in ("bin_counts", "bin_errors_sq")])
    h.reachable()


@contract("C02", targets=["histograms.hist_utils.bin_mids", "histograms.hist_utils.bin_widths", "histograms.hist_utils.get_bin_range"])
def edge_helpers(h):
    nb = h.int("nb", lo=1)
    e = edges(h, "edges", nb)
    h.elements("mids", h.call(bin_mids, e), (nb,), lambda i: (e.get(i) + e.get(i + 1)) / 2)
    h.elements("widths", h.call(bin_widths, e), (nb,), lambda i: e.get(i + 1) - e.get(i))
    r = h.call(get_bin_range, e)
    h.ensure("range", len(r) == 2 and band(eq(r[0], e.get(0)), eq(r[1], e.get(nb))))
    h.reachable()
