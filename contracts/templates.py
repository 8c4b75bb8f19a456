"""templates/abstract_template.py, template1d.py, template2d.py: C03 - C06"""
import numpy as np
from dv.api import *
from contracts.hists import hist1, hist2, entries, edges
from templatefitter.templates import Template1d, Template2d
from templatefitter import utility as U


class Tpl:
    """arbitrary template in a state the class invariant allows"""

    def __init__(self, h, dim, name="t", mats=True, fresh_=False):
        self.dim = dim
        if dim == 1:
            self.hist, e, nb = hist1(h, name + ".h")
            self.edges, self.nb = (e,), (nb,)
            self.obj = h.call(Template1d, name, "var", self.hist)
        else:
            self.hist, self.edges, self.nb = hist2(h, name + ".h")
            self.obj = h.call(Template2d, name, ("x", "y"), self.hist)
        self.counts2 = h.get(self.hist, "bin_counts")
        self.err2_ = h.get(self.hist, "bin_errors_sq")
        n = ir.ONE
        for b in self.nb:
            n = n * b
        self.n = ir.as_int(n)
        if fresh_:
            return
        o = self.obj
        self.p = h.array(name + ".params", self.n + 1)
        o.write("_params", self.p)
        if mats:
            k = self.k = h.int(name + ".added", lo=0)
            m = self.m = lambda r, i, j: app(name + ".M", [r, i, j])
            s = fresh("e", "I", hi=k)
            st = self.stat
            segs = [One(mkarr((self.n, self.n), lambda i, j: br(eq(i, j)) * st(i))),
                    Rep(s, k, [One(mkarr((self.n, self.n), lambda i, j: m(poly(s), i, j)))])]
            o.write("_cov_mats", PySeq(segs))
            self.cov = lambda i, j: br(eq(i, j)) * st(i) + summ(k, lambda r: m(r, i, j))
            self.corr = lambda i, j: self.cov(i, j) / (sqrt(self.cov(i, i)) * sqrt(self.cov(j, j)))
            o.write("_cov", mkarr((self.n, self.n), self.cov))
            o.write("_corr", mkarr((self.n, self.n), self.corr))
            o.write("_inv_corr", h.array(name + ".inv", self.n, self.n))
            # covariance matrices have non-negative diagonals
            h.fact(name + ".M", lambda r, i, j: ir.implies(eq(i, j), le(0, m(r, i, j))))
        self.rel = h.array(name + ".rel", self.n)
        o.write("_relative_errors", self.rel)

    def unflat(self, i):
        return npmodel.unflatten(i, self.nb) if self.dim == 2 else [i]

    def flat(self, *i):
        return i[0] if self.dim == 1 else npmodel.flat_index(i, self.nb)

    def count(self, i):
        """histogram count of flat bin i"""
        return self.counts2.get(*self.unflat(i))

    def err2(self, i):
        return self.err2_.get(*self.unflat(i))

    def stat(self, i):
        q = self.err2(i)
        return ite(eq(q, 0), ir.num(1e-14), q)

    def total(self):
        return summ(self.n, self.count)


def raw(t, theta, rel):
    return lambda i: t.count(i) * (1 + theta(i) * rel(i))


def prediction(dim):
    def f(h):
        t = Tpl(h, dim, mats=False)
        o, p, e = t.obj, t.p, t.rel.get
        keep = h.snapshot(o)
        theta = h.array("theta", t.n)
        kt = h.snapshot(theta)
        w = raw(t, theta.get, e)
        s = summ(t.n, w)
        fr = h.method(o, "fractions", theta)
        if ctx().decide(eq(s, 0)):
            h.elements("fractions of an empty template are zero", fr, (t.n,), lambda i: 0)
        else:
            h.elements("fractions", fr, (t.n,), lambda i: w(i) / s)
            h.ensure("fractions add up to one", eq(summ(t.n, lambda i: fr.get(i)), 1))
        h.unchanged("given nuisance parameters", kt)
        h.unchanged("template", keep)
        # current prediction
        w2 = raw(t, lambda i: p.get(i + 1), e)
        s2 = summ(t.n, w2)
        vals, errs = h.get(o, "values"), h.get(o, "errors")
        empty = ctx().decide(eq(s2, 0))

        def v(*i):
            k = t.flat(*i)
            return ir.ZERO if empty else p.get(0) * w2(k) / s2
        h.elements("predicted contents", vals, t.nb, v)
        h.elements("predicted errors", errs, t.nb, lambda *i: e(t.flat(*i)) * v(*i))
        h.unchanged("template", keep)
        h.distinct_storage("separate result", vals, errs, fr, theta, p, t.rel, t.counts2)
        h.reachable()
    f.__name__ = "prediction%dd" % dim
    return f


def pristine(dim):
    def f(h):
        t = Tpl(h, dim, fresh_=True)
        o = t.obj
        tot = t.total()
        # also after arbitrary parameters and a reset
        if ctx().decide(ir.sym("after a reset", "B")):
            o.write("_params", h.array("params", t.n + 1))
            h.method(o, "reset")
        h.scalar("yield is the sum of the counts", h.get(o, "yield_param"), tot)
        h.elements("nuisance parameters are zero", h.get(o, "nui_params"), (t.n,), lambda i: 0)
        h.is_array("parameters", h.get(o, "params"), (t.n + 1,))
        h.require(ne(tot, 0))
        hist_c, hist_q = t.counts2, t.err2_
        h.elements("prediction is the histogram", h.get(o, "values"), t.nb, hist_c.get)
        k = [h.index("k", b) for b in t.nb]
        h.ensure("errors are the histogram's", ir.implies(band(ne(hist_c.get(*k), 0), ne(hist_q.get(*k), 0)),
                                                        eq(h.get(o, "errors").get(*k), sqrt(hist_q.get(*k)))))
        h.reachable()
    f.__name__ = "pristine%dd" % dim
    return f


def built(dim):
    """constructor establishes the invariant"""
    def f(h):
        t = Tpl(h, dim, fresh_=True)
        o = t.obj
        n = t.n
        h.scalar("number of bins", h.get(o, "num_bins"), n)
        sh = h.get(o, "shape")
        h.ensure("shape", len(sh) == dim and band(*[eq(interp.num(a), b) for a, b in zip(sh, t.nb)]))
        h.elements("covariance", h.get(o, "cov_mat"), (n, n), lambda i, j: br(eq(i, j)) * t.stat(i))
        mats = h.get(o, "cov_mats")
        h.scalar("one contribution", mats.length(), 1)
        h.elements("statistical contribution", core.seq_at(mats, 0), (n, n), lambda i, j: br(eq(i, j)) * t.stat(i))
        h.elements("correlation", h.get(o, "corr"), (n, n), lambda i, j: br(eq(i, j)))
        h.elements("inverse correlation", h.get(o, "inv_corr_mat"), (n, n), lambda i, j: br(eq(i, j)))
        h.elements("relative errors", o.read("_relative_errors"), (n,),
                   lambda i: ite(eq(t.count(i), 0), ir.num(1e-7), sqrt(t.stat(i)) / t.count(i)))
        h.distinct_storage("separate storage", h.get(o, "cov_mat"), core.seq_at(mats, 0), h.get(o, "corr"), h.get(o, "inv_corr_mat"),
                           t.counts2, t.err2_, o.read("_flat_bin_counts"), o.read("_flat_bin_errors_sq"), o.read("_relative_errors"), o.read("_params"))
        # another template of the same histogram shares nothing
        u = h.call(Template1d, "u", "var", t.hist) if dim == 1 else h.call(Template2d, "u", ("x", "y"), t.hist)
        h.distinct_storage("templates do not share", *[x.read(a) for x in (o, u) for a in ("_cov", "_params", "_relative_errors", "_corr", "_inv_corr")],
                           core.seq_at(mats, 0), core.seq_at(u.read("_cov_mats"), 0))
        h.ensure("own list of contributions", u.read("_cov_mats") is not o.read("_cov_mats"))
        h.reachable()
    f.__name__ = "template_built%dd" % dim
    return f


def ledger(h, t, new, arr, label=""):
    """the invariant after the contribution new(i, j) was added"""
    o, n = t.obj, t.n
    cov = lambda i, j: t.cov(i, j) + new(i, j)
    h.elements(label + "covariance", h.get(o, "cov_mat"), (n, n), cov)
    mats = h.get(o, "cov_mats")
    h.scalar(label + "number of contributions", mats.length(), t.k + 2)
    if len(mats.segs) != 3:
        raise Unsupported("structure of the list of contributions")
    h.elements(label + "statistical contribution", core.seq_at(mats, 0), (n, n), lambda i, j: br(eq(i, j)) * t.stat(i))
    r = h.index("r", t.k)
    h.elements(label + "earlier contributions", core.seq_at(mats, r + 1), (n, n), lambda i, j: t.m(r, i, j))
    last = core.seq_at(mats, -1)
    h.elements(label + "new contribution", last, (n, n), new)
    corr = lambda i, j: cov(i, j) / (sqrt(cov(i, i)) * sqrt(cov(j, j)))
    h.elements(label + "correlation", h.get(o, "corr"), (n, n), corr)
    inv = npmodel.m_inv((mkarr((n, n), corr),), {})
    h.elements(label + "inverse correlation", h.get(o, "inv_corr_mat"), (n, n), inv.get)
    h.elements(label + "relative errors", o.read("_relative_errors"), (n,),
               lambda i: ite(eq(t.count(i), 0), ir.num(1e-7), sqrt(cov(i, i)) / t.count(i)))
    others = [last, h.get(o, "corr"), h.get(o, "inv_corr_mat"), o.read("_relative_errors"), o.read("_flat_bin_counts"), t.counts2]
    h.distinct_storage(label + "separate storage", h.get(o, "cov_mat"), *(others + ([arr] if arr is not None else [])))


def positive_cov(h, t):
    """the statistical part keeps the diagonal positive"""
    k = h.index("k", t.n)
    h.ensure("diagonal stays positive", lt(0, t.cov(k, k)))


def added(h):
    t = Tpl(h, 1)
    o, n = t.obj, t.n
    m = h.array("new", n, n, fact=lambda i, j, v: ir.implies(eq(i, j), le(0, v)))
    keep = h.snapshot(m)
    kp = h.snapshot(o.read("_params"))
    h.method(o, "add_cov_mat", m)
    ledger(h, t, m.get, m)
    h.unchanged("given matrix", keep)
    h.unchanged("parameters", kp)
    h.reachable()


def rejected(h):
    t = Tpl(h, 1)
    o, n = t.obj, t.n
    a, b = h.int("rows", lo=0), h.int("cols", lo=0)
    h.require(bor(ne(a, n), ne(b, n)))
    keep = h.snapshot(o)
    r = h.attempt(getattr_(o, "add_cov_mat"), h.array("bad", a, b))
    h.ensure("wrong shape is rejected", r[0] == "raised" and issubclass(r[1], Exception))
    h.unchanged("template", keep)
    r = h.attempt(getattr_(o, "add_cov_mat"), h.array("bad1", n))
    h.ensure("one dimension is rejected", r[0] == "raised")
    h.unchanged("template", keep)
    h.reachable()


contract("C04", targets=["templates.template1d.Template1d.add_cov_mat", "templates.abstract_template.AbstractTemplate._add_cov_mat"])(added)
contract("C04", targets=["templates.template1d.Template1d.add_cov_mat"])(rejected)
for _d in (1, 2):
    contract("C03", targets=["templates.abstract_template.AbstractTemplate.values", "templates.abstract_template.AbstractTemplate.errors",
                             "templates.abstract_template.AbstractTemplate.fractions", "templates.abstract_template.bin_fractions"])(prediction(_d))
    contract("C03", "C06", targets=["templates.abstract_template.AbstractTemplate._init_params", "templates.abstract_template.AbstractTemplate.reset"])(pristine(_d))
    contract("C04", targets=["templates.abstract_template.AbstractTemplate._init_errors", "templates.template%dd.Template%dd.__init__" % (_d, _d)])(built(_d))


def half_diff(up, down, nom):
    def d(i):
        return ite(lt(up(i), down(i)), -1, 1) * (ir.absval(nom(i) - up(i)) + ir.absval(nom(i) - down(i))) / 2
    return d


def variation(dim):
    def f(h):
        t = Tpl(h, dim)
        o, n = t.obj, t.n
        ne_ = h.int("entries", lo=0)
        x = [h.array("x", ne_), h.array("y", ne_)][:dim]
        up, down = h.array("up", ne_), h.array("down", ne_)
        keep = [h.snapshot(a) for a in x + [up, down] + list(t.edges)]
        kh = h.snapshot(t.hist)
        h.method(o, "add_variation", x[0] if dim == 1 else tuple(x), up, down)
        fu, fd = [npmodel.hist_sum(x, w, list(t.edges)).get for w in (up, down)]
        d = half_diff(lambda i: fu(*t.unflat(i)), lambda i: fd(*t.unflat(i)), t.count)
        mats = h.get(o, "cov_mats")
        h.elements("added matrix", core.seq_at(mats, -1), (n, n), lambda i, j: d(i) * d(j))
        h.scalar("one contribution more", mats.length(), t.k + 2)
        h.elements("covariance", h.get(o, "cov_mat"), (n, n), lambda i, j: t.cov(i, j) + d(i) * d(j))
        r = h.index("r", t.k)
        h.elements("earlier contributions", core.seq_at(mats, r + 1), (n, n), lambda i, j: t.m(r, i, j))
        for s in keep:
            h.unchanged("argument", s)
        h.unchanged("histogram", kh)
        h.reachable()
    f.__name__ = "variation%dd" % dim
    return f


for _d in (1, 2):
    contract("C05", targets=["templates.template%dd.Template%dd.add_variation" % (_d, _d), "utility.get_systematic_cov_mat"])(variation(_d))


@contract("C05", targets=["utility.get_systematic_cov_mat"])
def exchange(h):
    n = h.int("n", lo=1)
    nom, up = h.array("nom", n), h.array("up", n)
    down = h.array("down", n, fact=lambda i, v: ne(v, up.get(i)))
    a, b = h.call(U.get_systematic_cov_mat, nom, up, down), h.call(U.get_systematic_cov_mat, nom, down, up)
    h.same_array("exchange of up and down", a, b)
    h.elements("symmetric", a, (n, n), lambda i, j: a.get(j, i))
    v = h.array("v", n)
    h.ensure("positive semidefinite", le(0, summ(n, lambda i: summ(n, lambda j: v.get(i) * a.get(i, j) * v.get(j)))))
    h.reachable()


# ------------------------------------------------------------------ parameters

def setters(dim):
    def f(h):
        t = Tpl(h, dim, mats=False)
        o, n = t.obj, t.n
        old = t.p
        old0, oldk = old.get(0), lambda i: t0.get(i + 1)
        t0 = h.snapshot(old).val[2]
        rest = {k: v for k, v in o.attrs.items() if k != "_params"}

        def check(label, y, nui):
            h.scalar(label + ": yield", h.get(o, "yield_param"), y)
            h.elements(label + ": nuisance parameters", h.get(o, "nui_params"), (n,), nui)
            h.elements(label + ": parameters", h.get(o, "params"), (n + 1,), lambda i: ite(eq(i, 0), y, nui(i - 1)))
            h.ensure(label + ": nothing else", all(o.attrs.get(k) is v for k, v in rest.items()) and set(o.attrs) == set(rest) | {"_params"})
        # yield
        y = h.real("y")
        for label, v in (("real yield", y), ("integer yield", h.int("yi"))):
            h.set(o, "yield_param", v)
            check(label, v, lambda i: t0.get(i + 1))
        a1 = h.array("one", 1)
        h.set(o, "yield_param", a1)
        check("yield from an array of one element", a1.get(0), lambda i: t0.get(i + 1))
        # nuisance parameters
        nu = h.array("nu", n)
        h.set(o, "nui_params", nu)
        check("nuisance parameters", a1.get(0), nu.get)
        nu0 = h.snapshot(nu).val[2]
        core.write(nu, lambda i: app("later", [i]))
        check("later change of the given array", a1.get(0), nu0.get)
        # all
        full = h.array("full", n + 1)
        f0 = h.snapshot(full).val[2]
        h.set(o, "params", full)
        check("parameters", f0.get(0), lambda i: f0.get(i + 1))
        core.write(full, lambda i: app("later", [i]))
        check("later change of the given parameters", f0.get(0), lambda i: f0.get(i + 1))
        h.set(o, "yield_param", y)
        h.elements("given array", full, (n + 1,), lambda i: app("later", [i]))
        # integers
        whole = h.array("whole", n + 1, dtype="i")
        h.set(o, "params", whole)
        h.set(o, "yield_param", y)
        check("integer parameters, real yield", y, lambda i: whole.get(i + 1))
        h.reachable()
    f.__name__ = "setters%dd" % dim
    return f


def bad_setters(dim):
    def f(h):
        t = Tpl(h, dim, mats=False)
        o, n = t.obj, t.n
        keep = h.snapshot(o)
        m = h.int("m", lo=0)

        def refuse(label, name, v):
            try:
                h.set(o, name, v)
            except Raised as e:
                h.ensure(label + ": error", issubclass(e.cls, Exception))
            else:
                h.fail(label + ": is rejected")
            h.unchanged(label + ": template", keep)
        if ctx().decide(ne(m, n + 1)):
            refuse("parameters of another length", "params", h.array("a", m))
        if ctx().decide(ne(m, n)):
            refuse("nuisance parameters of another length", "nui_params", h.array("b", m))
        refuse("nuisance parameters in two dimensions", "nui_params", h.array("b2", n, 1))
        refuse("parameters in two dimensions", "params", h.array("c", n + 1, 1))
        refuse("list as parameters", "params", PySeq.of([1, 2]))
        refuse("list as nuisance parameters", "nui_params", PySeq.of([1, 2]))
        refuse("number as parameters", "params", h.real("r"))
        refuse("no nuisance parameters", "nui_params", None)
        refuse("text as yield", "yield_param", "ten")
        refuse("no yield", "yield_param", None)
        refuse("list as yield", "yield_param", PySeq.of([1]))
        refuse("tuple as yield", "yield_param", (1,))
        q = h.int("q", lo=2)
        refuse("several yields", "yield_param", h.array("d", q))
        h.reachable()
    f.__name__ = "bad_setters%dd" % dim
    return f


for _d in (1, 2):
    contract("C06", targets=["templates.abstract_template.AbstractTemplate.%s" % s for s in ("params", "yield_param", "nui_params")])(setters(_d))
    contract("C06", targets=["templates.abstract_template.AbstractTemplate.%s" % s for s in ("params", "yield_param", "nui_params")])(bad_setters(_d))


@contract("C06", targets=["templates.abstract_template.AbstractTemplate.params"])
def two_templates(h):
    """two templates given the same array stay independent"""
    a, b = Tpl(h, 1, "a", mats=False), Tpl(h, 1, "b", mats=False)
    h.require(eq(a.n, b.n))
    p = h.array("p", a.n + 1)
    h.set(a.obj, "params", p)
    h.set(b.obj, "params", h.get(a.obj, "params"))
    h.set(b.obj, "yield_param", h.real("y"))
    h.set(b.obj, "nui_params", h.array("nu", b.n))
    h.elements("first template", h.get(a.obj, "params"), (a.n + 1,), p.get)
    h.set(a.obj, "nui_params", h.get(b.obj, "nui_params"))
    h.method(a.obj, "reset")
    h.elements("second template", h.get(b.obj, "nui_params"), (b.n,), lambda i: app("nu", [i]))
    h.reachable()
