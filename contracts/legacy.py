"""templates_legacy.py, nll.py, histogram_legacy.py: C21

An arbitrary stack: K templates (symbolic) of n bins (symbolic) in arbitrary
states, built by the real constructors for an arbitrary index.
"""
from contracts import client
from contracts.model import family, keyed, poisson_part, rejected, TINY, possible_data
from dv.api import *
from templatefitter.templates_legacy import Template, StackedTemplate
from templatefitter.histogram_legacy import Hist1d

SMALL = ir.num(1e-14)


class One_:
    """the limits and bins all templates have in common"""

    def __init__(self, h):
        self.n = h.int("n", lo=1)
        self.lo, self.hi = h.real("lower"), h.real("upper")
        h.require(lt(self.lo, self.hi))
        self.limits = (self.lo, self.hi)

    def edge(self, i):
        return self.lo + (self.hi - self.lo) * lift(i) / self.n


def contents(g, x, w, sq=False):
    """of half-open bins; the last one has the entries at the upper limit too"""
    v = lambda k: w.get(k) ** 2 if sq else w.get(k)
    at = lambda c: summ(x.shape[0], lambda k: br(c(x.get(k))) * v(k))
    return lambda i: at(lambda y: band(le(g.edge(i), y), lt(y, g.edge(lift(i) + 1)))) + br(eq(lift(i), g.n - 1)) * at(lambda y: eq(y, g.hi))


def blank(h, g, name="t", variable="x"):
    """by the real constructor, from a table without rows"""
    none = mkarr((ir.ZERO,), lambda k: ir.ZERO)
    return h.call(Template, name, variable, g.n, g.limits, h.call(client.table, none, none))


def arbitrary(h, g, idx=(), name="t"):
    """template in an arbitrary state"""
    t = blank(h, g, name)
    a = list(idx)
    n = g.n
    hist = t.read("_hist")
    hist.write("_bin_counts", h.array("counts", n, args=a))
    hist.write("_bin_errors_sq", h.array("err2", n, args=a, fact=lambda *x: le(0, x[-1])))
    t.write("_relative_errors", h.array("rel", n, args=a))
    for m in ("cov", "corr", "inv"):
        t.write("_" + m if m != "inv" else "_inv_corr", h.array(m, n, n, args=a))
    y, u = t.read("_param_yield"), t.read("_param_nui")
    num_ = lambda s: app(s, a, "R") if a else h.real(s)
    y.write("value", num_("yield"))
    y.write("error", num_("yield_error"))
    y.write("_original_value", num_("yield0"))
    y.write("_original_error", num_("yield_error0"))
    u.write("value", h.array("theta", n, args=a))
    u.write("error", h.array("theta_error", n, args=a))
    return t


class State:
    """what the attributes of template (k) were"""

    def __init__(self, g, *idx):
        self.g, self.idx = g, [lift(i) for i in idx]

    def of(self, name):
        return lambda *i: app(name, self.idx + [lift(x) for x in i], "R")

    def sum_(self, theta):
        c, e = self.of("counts"), self.of("rel")
        return summ(self.g.n, lambda j: c(j) * (1 + theta(j) * e(j)))

    def shape(self, theta):
        """normalised shape"""
        c, e = self.of("counts"), self.of("rel")
        s = self.sum_(theta)
        return lambda i: c(i) * (1 + theta(i) * e(i)) / s


# ---------------------------------------------------------------- templates

def built(h):
    g = One_(h)
    n = g.n
    N = h.int("entries", lo=0)
    x, w = h.array("x", N), h.array("w", N)
    t = h.call(Template, "t", "x", n, g.limits, h.call(client.table, x, w))
    c, q = contents(g, x, w), contents(g, x, w, True)
    st = lambda i: ite(eq(q(i), 0), SMALL, q(i))
    h.elements("edges", h.get(t, "bin_edges"), (n + 1,), g.edge)
    h.scalar("number of bins", h.get(t, "num_bins"), n)
    h.scalar("yield", h.get(t, "yield_param_values"), summ(n, c))
    h.scalar("yield error", h.get(t, "yield_param_errors"), sqrt(summ(n, q)))
    h.elements("nuisance parameters", h.get(t, "nui_param_values"), (n,), lambda i: 0)
    h.elements("errors of the nuisance parameters", h.get(t, "nui_params_errors"), (n,), lambda i: 1)
    h.elements("covariance", h.get(t, "cov_mat"), (n, n), lambda i, j: br(eq(i, j)) * st(i))
    h.elements("correlation", h.get(t, "corr_mat"), (n, n), lambda i, j: br(eq(i, j)))
    h.elements("inverse correlation", h.get(t, "inv_corr_mat"), (n, n), lambda i, j: br(eq(i, j)))
    h.require(ne(summ(n, c), 0))
    h.elements("prediction of a new template", h.method(t, "values"), (n,), c)
    k = h.index("k", n)
    h.ensure("errors of a new template", ir.implies(lt(0, c(k)), eq(h.method(t, "errors").get(k), sqrt(st(k)))))
    h.reachable()


contract("C21", targets=["templates_legacy.Template.__init__", "templates_legacy.Template._init_errors"])(built)


def prediction(h):
    g = One_(h)
    t, s = arbitrary(h, g), State(g)
    y, th, e = h.real("yield"), s.of("theta"), s.of("rel")
    v = h.array("given", g.n)
    h.require(ne(s.sum_(v.get), 0))
    h.require(ne(s.sum_(th), 0))
    keep = h.snapshot(t), h.snapshot(v)
    f = h.method(t, "fractions", v)
    h.elements("normalised shape", f, (g.n,), s.shape(v.get))
    h.ensure("shape adds up to one", eq(summ(g.n, s.shape(v.get)), 1))
    h.elements("prediction", h.method(t, "values"), (g.n,), lambda i: y * s.shape(th)(i))
    h.elements("errors", h.method(t, "errors"), (g.n,), lambda i: e(i) * y * s.shape(th)(i))
    for x in keep:
        h.unchanged("nothing changed", x)
    h.reachable()


contract("C21", targets=["templates_legacy.Template.values", "templates_legacy.Template.errors", "templates_legacy.Template.fractions"])(prediction)


def consistent(h, g, t, cov):
    """correlation and relative errors are those of the covariance"""
    n, s = g.n, State(g)
    c = s.of("counts")
    h.elements("covariance", h.get(t, "cov_mat"), (n, n), cov)
    corr = lambda i, j: cov(i, j) / (sqrt(cov(i, i)) * sqrt(cov(j, j)))
    h.elements("correlation", h.get(t, "corr_mat"), (n, n), corr)
    inv = npmodel.m_inv((mkarr((n, n), corr),), {})
    h.elements("inverse correlation", h.get(t, "inv_corr_mat"), (n, n), inv.get)
    h.elements("relative errors", t.read("_relative_errors"), (n,), lambda i: ite(eq(c(i), 0), ir.num(1e-7), sqrt(cov(i, i)) / c(i)))


def added(h):
    g = One_(h)
    n = g.n
    t = arbitrary(h, g)
    old = State(g).of("cov")
    h.fact("cov", lambda i, j: ir.implies(eq(i, j), lt(0, app("cov", [i, j], "R"))))
    pos = lambda i, j, v: ir.implies(eq(i, j), le(0, v))
    a, b = h.array("first", n, n, fact=pos), h.array("second", n, n, fact=pos)
    keep = h.snapshot(a), h.snapshot(b)
    rest = [h.snapshot(t.read(x)) for x in ("_hist", "_param_yield", "_param_nui")]
    h.method(t, "add_covariance_matrix", a)
    consistent(h, g, t, lambda i, j: old(i, j) + a.get(i, j))
    h.method(t, "add_covariance_matrix", b)
    consistent(h, g, t, lambda i, j: old(i, j) + a.get(i, j) + b.get(i, j))
    for x in keep:
        h.unchanged("given matrices unchanged", x)
    for x in rest:
        h.unchanged("histogram and parameters unchanged", x)
    h.distinct_storage("the template does not keep the given matrices", a, b, h.get(t, "cov_mat"), h.get(t, "corr_mat"), h.get(t, "inv_corr_mat"))
    h.reachable()


contract("C21", targets=["templates_legacy.Template.add_covariance_matrix"])(added)


# -------------------------------------------------------------------- stacks

class Stack:
    def __init__(self, h):
        self.h = h
        self.g = g = One_(h)
        self.n = g.n
        self.K = h.int("K", lo=1)
        self.name = h.names("name", self.K)
        k = fresh("k", "I", hi=self.K)
        t = arbitrary(h, g, (poly(k),))
        t.write("_name", self.name(poly(k)))
        self.tf = family("template", t, [k])
        self.obj = h.call(StackedTemplate, "stack", "x", g.n, g.limits)
        d = self.obj.read("_template_dict")
        self.obj.write("_template_dict", PyDict([keyed(self.K, self.name, lambda k: self.tf.at(k))], d.cls))
        self.size = ir.as_int(self.K + self.K * self.n)

    def state(self, k):
        return State(self.g, k)

    def now(self, k):
        """current prediction of template k"""
        s = self.state(k)
        return lambda i: s.of("yield")() * s.shape(s.of("theta"))(i)

    def ok(self, theta=None):
        """precondition: no template is empty"""
        th = theta or (lambda k, j: self.state(k).of("theta")(j))
        self.h.require(forall(self.K, lambda k: ne(self.state(k).sum_(lambda j: th(k, j)), 0)))

    def untouched(self, name, but=()):
        for a, d in core.all_dirty(self.tf):
            if a not in but:
                self.h.fail("%s: %s of a template is changed" % (name, a))
        self.h.ensure(name, ir.TRUE)

    def vector(self, name="x"):
        x = self.h.array(name, self.size)
        return x, (lambda k: x.get(k)), (lambda k, j: x.get(self.K + k * self.n + j))

    def expected(self, i, y, th):
        return summ(self.K, lambda k: y(k) * self.state(k).shape(lambda j: th(k, j))(i))

    def nll(self, y, th, d):
        quad = summ(self.K, lambda k: summ(self.n, lambda i: summ(self.n, lambda j: th(k, i) * self.state(k).of("inv")(i, j) * th(k, j))))
        return summ(self.n, lambda i: poisson_part(self.expected(i, y, th), d(i))) + quad / 2


def stack_prediction(h):
    s = Stack(h)
    s.ok()
    keep = h.snapshot(s.obj)
    h.elements("edges", h.get(s.obj, "bin_edges"), (s.n + 1,), s.g.edge)
    h.elements("sum of the predictions", h.method(s.obj, "values"), (s.n,), lambda i: summ(s.K, lambda k: s.now(k)(i)))
    err = lambda k, i: s.state(k).of("rel")(i) * s.now(k)(i)
    h.elements("errors in quadrature", h.method(s.obj, "errors"), (s.n,), lambda i: sqrt(summ(s.K, lambda k: err(k, i) ** 2)))
    h.unchanged("nothing changed", keep)
    s.untouched("templates unchanged")
    h.reachable()


contract("C21", targets=["templates_legacy.StackedTemplate.values", "templates_legacy.StackedTemplate.errors"])(stack_prediction)


def likelihood(h):
    s = Stack(h)
    x, y, th = s.vector()
    d = h.array("data", s.n)
    possible_data(h, "data")
    hist = h.call(client.binned, h.get(s.obj, "bin_edges"), d)
    s.ok(th)
    h.require(forall(s.n, lambda i: lt(0, s.expected(i, y, th))))
    keep = h.snapshot(s.obj), h.snapshot(x), h.snapshot(d)
    nll = h.method(s.obj, "create_nll", hist)
    want = s.nll(y, th, d.get)
    h.scalar("likelihood", h.call(nll, x), want)
    h.scalar("second evaluation", h.call(nll, x), want)
    for z in keep:
        h.unchanged("nothing changed", z)
    s.untouched("templates unchanged")
    h.reachable()


contract("C21", targets=["nll.StackedTemplateNegLogLikelihood.__call__", "nll.xlogyx", "templates_legacy.StackedTemplate.fractions"])(likelihood)


def layout(h):
    s = Stack(h)
    hist = h.call(client.binned, h.get(s.obj, "bin_edges"), h.array("data", s.n, fact=lambda i, v: le(0, v)))
    nll = h.method(s.obj, "create_nll", hist)
    names, x0 = h.get(nll, "param_names"), h.get(nll, "x0")
    h.scalar("one name per parameter", h.call(client.length, names), s.size)
    k, i = h.index("k", s.K), h.index("i", s.n)
    at = s.K + k * s.n + i
    h.text_is("yield names", h.call(client.item, names, k), h.call(client.yield_name, s.name(k)))
    h.text_is("nuisance parameter names", h.call(client.item, names, at), h.call(client.nuisance_name_of, s.name(k), i))
    if h.is_array("starting values", x0, (s.size,)):
        h.ensure("starting yields", eq(x0.get(k), s.state(k).of("yield")()))
        h.ensure("starting nuisance parameters", eq(x0.get(at), s.state(k).of("theta")(i)))
    s.untouched("templates unchanged")
    h.reachable()


contract("C21", targets=["nll.StackedTemplateNegLogLikelihood.x0", "nll.StackedTemplateNegLogLikelihood.param_names"])(layout)


def updated(h):
    s = Stack(h)
    x, y, th = s.vector()
    e, ye, te = s.vector("e")
    keep = h.snapshot(s.obj), h.snapshot(x), h.snapshot(e)
    h.method(s.obj, "update_parameters", x, e)
    k, i = h.index("k", s.K), h.index("i", s.n)
    t = s.tf.at(k)
    h.scalar("own yield", h.get(t, "yield_param_values"), y(k))
    h.scalar("own yield error", h.get(t, "yield_param_errors"), ye(k))
    h.elements("own nuisance parameters", h.get(t, "nui_param_values"), (s.n,), lambda i: th(k, i))
    h.elements("errors of own nuisance parameters", h.get(t, "nui_params_errors"), (s.n,), lambda i: te(k, i))
    h.elements("yields of the stack", h.get(s.obj, "yield_param_values"), (s.K,), y)
    h.elements("nuisance parameters of the stack", h.get(s.obj, "nui_param_values"), (s.K, s.n), th)
    h.elements("yield errors of the stack", h.get(s.obj, "yield_param_errors"), (s.K,), ye)
    h.elements("errors of the nuisance parameters of the stack", h.get(s.obj, "nui_param_errors"), (s.K, s.n), te)
    s.ok(th)
    h.elements("prediction is the expectation", h.method(s.obj, "values"), (s.n,), lambda i: s.expected(i, y, th))
    for z in keep:
        h.unchanged("nothing else changed", z)
    s.untouched("rest of the templates unchanged", ("_param_yield", "_param_nui"))
    h.reachable()


contract("C21", targets=["templates_legacy.StackedTemplate.update_parameters"])(updated)


def reset(h):
    """the original values are those of the constructor, whatever happened since"""
    s = Stack(h)
    o = s.state
    x, e = s.vector()[0], s.vector("e")[0]
    if ctx().decide(ir.sym("after an update", "B")):
        h.method(s.obj, "update_parameters", x, e)
    h.method(s.obj, "reset_parameters")
    k = h.index("k", s.K)
    t = s.tf.at(k)
    h.scalar("yield", h.get(t, "yield_param_values"), o(k).of("yield0")())
    h.scalar("yield error", h.get(t, "yield_param_errors"), o(k).of("yield_error0")())
    h.elements("nuisance parameters", h.get(t, "nui_param_values"), (s.n,), lambda i: 0)
    h.elements("errors of the nuisance parameters", h.get(t, "nui_params_errors"), (s.n,), lambda i: 1)
    s.untouched("rest of the templates unchanged", ("_param_yield", "_param_nui"))
    h.reachable()


contract("C21", targets=["templates_legacy.StackedTemplate.reset_parameters", "templates_legacy.Template.reset_parameters", "templates_legacy.TemplateParameter.reset"])(reset)


def refused(h):
    s = Stack(h)
    m = h.int("m", lo=1)
    lo, hi = h.real("lo2"), h.real("hi2")
    h.require(lt(lo, hi))
    v = h.text("variable")
    none = mkarr((ir.ZERO,), lambda k: ir.ZERO)
    table = PyDict([core.KV(v, h.call(client.Column, none)), core.KV("weight", h.call(client.Column, none))])
    h.require(bnot(eq(v, lift("weight"))))
    t = h.call(Template, "new", v, m, (lo, hi), table)
    nm = h.text("newname")
    h.require(forall(s.K, lambda k: bnot(eq(s.name(k), nm))))
    fits = band(eq(m, s.n), eq(lo, s.g.lo), eq(hi, s.g.hi), eq(v, lift("x")))
    keep = h.snapshot(s.obj)
    out = h.attempt(client.add_to_stack, s.obj, nm, t)
    if ctx().decide(fits):
        h.ensure("accepted", out[0] == "ok")
        h.scalar("one more", h.get(s.obj, "num_templates"), s.K + 1)
        h.ensure("under its name", h.call(client.member, s.obj, nm) is t)
    else:
        rejected(h, "rejected", out, ValueError)
        h.unchanged("nothing changed", keep)
    s.untouched("templates unchanged")
    h.reachable()


contract("C21", targets=["templates_legacy.StackedTemplate.add_template", "templates_legacy.StackedTemplate._check_template_validity"])(refused)


def created(h):
    """templates the stack makes itself"""
    s = Stack(h)
    N = h.int("entries", lo=0)
    x, w = h.array("x", N), h.array("w", N)
    nm = h.text("newname")
    h.require(forall(s.K, lambda k: bnot(eq(s.name(k), nm))))
    h.method(s.obj, "create_template", nm, h.call(client.table, x, w))
    c = contents(s.g, x, w)
    t = h.call(client.member, s.obj, nm)
    h.scalar("one more", h.get(s.obj, "num_templates"), s.K + 1)
    h.elements("contents", t.read("_hist").read("_bin_counts"), (s.n,), c)
    h.scalar("yield", h.get(t, "yield_param_values"), summ(s.n, c))
    s.untouched("templates unchanged")
    h.reachable()


contract("C21", targets=["templates_legacy.StackedTemplate.create_template"])(created)


def asimov(h):
    s = Stack(h)
    s.ok()
    now = lambda i: summ(s.K, lambda k: s.now(k)(i))
    h.require(forall(s.n, lambda i: le(0, now(i))))
    r = h.method(s.obj, "generate_asimov_dataset")
    h.elements("contents", h.get(r, "bin_counts"), (s.n,), now)
    h.elements("errors", h.get(r, "bin_errors"), (s.n,), lambda i: sqrt(now(i)))
    h.elements("edges", h.get(r, "bin_edges"), (s.n + 1,), s.g.edge)
    s.untouched("templates unchanged")
    h.reachable()


contract("C21", targets=["templates_legacy.StackedTemplate.generate_asimov_dataset"])(asimov)
