"""toy_study.py: C18

One experiment is proved for every model, every draw and every pattern of
failures (numbers of tries 1, 2, 3); the loops over experiments and scan points
are proved for every length with the experiment used by contract.
"""
import contextlib
from contracts import client
from contracts.data import current, drawn, everywhere
from contracts.fitter import by_contract
from contracts.model import *
from dv import optim
from templatefitter.toy_study import ToyStudy

MODULE = "toy_study.ToyStudy."


def predictions(h, m):
    h.require(forall(m.C, lambda c: everywhere(m.at(c), lambda i: le(0, current(m.at(c))(i)))))


def ranges(h, m):
    """templates have the range of their channel (C12)"""
    for a in range(m.dim):
        name = "hist." + ("edges" if m.dim == 1 else "xy"[a] + "edges")
        n = m.chan.ns_[a]
        h.fact(name, lambda c, k, i, a=a, name=name, n=n: band(*[ir.implies(eq(i, at), eq(app(name, [c, k, i], "R"), app(end + str(a), [c], "R")))
                                                                for at, end in ((ir.ZERO, "low"), (n(c), "high"))]))


@contextlib.contextmanager
def watched(f):
    optim.WATCH.append(f)
    try:
        yield
    finally:
        optim.WATCH.remove(f)


def not_yet(h, study, proc):
    """there are no results before a study"""
    for name, out in (("parameters", h.attempt(client.attribute, study, "result_parameters")),
                      ("uncertainties", h.attempt(client.attribute, study, "result_uncertainties")),
                      ("results", h.attempt(client.results_of, study, proc)),
                      ("pulls", h.attempt(client.pulls_of, study, proc))):
        h.ensure("no %s before a study" % name, out[0] == "raised" and issubclass(out[1], RuntimeError))


def looking(h, m, backend):
    """called at each minimisation: the data in use are fresh draws of the
    current prediction, the start is the current parameters"""
    c, p = h.index("c", m.C), h.index("p", m.P)
    k = h.index("k", m.K_(c))
    i = h.index("i", m.n_(c))
    d = m.at(c)
    now = current(d)
    draws = []

    def look(e):
        draw = e["draw"]
        if not core.ctx().frames:
            h.ensure("new data for every fit", draw not in draws)
            draws.append(draw)
        # a function of the try, if there are many
        where = core.ctx().loop_syms()
        want = lambda *i: app("poisson!%d.ge0" % draw, where + [c, ir.as_real(lift(now(d.flat(*i))))] + [lift(x) for x in i], "I")
        h.elements("data in use", h.get(m.cf.at(c), "data_bin_counts"), d.nb, want)
        if h.is_array("start", e["x0"], (m.size,)):
            h.ensure("start yields", eq(e["x0"].get(p), start_yield(m, p)))
            h.ensure("start nuisance parameters", eq(e["x0"].get(m.P + m.offset(c) + k * m.n_(c) + i), start_vector(m, c, k, i)))
        h.text_is("back end", e["backend"], backend)
        h.ensure("with uncertainties", e["hesse"] is True)
        if core.ctx().loops:
            look.last = e
    look.c, look.p, look.last = c, p, None
    return look


def rows(name, numbers, tries, dim=1):
    """studies of these numbers of experiments, one after the other"""
    def f(h):
        m = Model(h, dim, data=True)
        predictions(h, m)
        ranges(h, m)
        backend = h.text("backend")
        look = looking(h, m, backend)
        p, d = look.p, m.at(look.c)

        with by_contract(h), watched(look):
            keep = h.snapshot(m.obj)
            study = h.call(ToyStudy, m.obj, backend)
            not_yet(h, study, m.proc(p))
            done = 0
            for n in numbers:
                out = h.attempt(client.study_again, study, PySeq([One(n)]), tries)
                es = npmodel.events("minimize")[done:]
                done += len(es)
                good, failures = [], 0
                for e in es:
                    h.ensure("no more tries than allowed", failures < tries)
                    failures = failures + 1 if e["failed"] else 0
                    if not e["failed"]:
                        good.append(e)
                h.unchanged("model", keep)
                d.untouched(h, "templates unchanged")
                if failures == tries:
                    h.ensure("an error after too many failures", out[0] == "raised" and issubclass(out[1], RuntimeError))
                    return
                if out[0] != "ok":
                    raise Raised(out[1])
                h.ensure("one fit per experiment", len(good) == n)
                h.elements("parameters", h.get(study, "result_parameters"), (n, m.size), lambda r, x: pick(good, r, x, "values"))
                h.elements("uncertainties", h.get(study, "result_uncertainties"), (n, m.size), lambda r, x: pick(good, r, x, "errors"))
            h.reachable()
    f.__name__ = name
    contract("C18", targets=[MODULE + "do_experiments", MODULE + "_experiment", MODULE + "result_parameters", MODULE + "result_uncertainties", MODULE + "_check_state", MODULE + "_reset_state"])(f)


def one_experiment(dim):
    """an experiment with any number of tries"""
    def f(h):
        m = Model(h, dim, data=True)
        predictions(h, m)
        ranges(h, m)
        backend = h.text("backend")
        T = h.int("tries", lo=1)
        look = looking(h, m, backend)
        with by_contract(h), watched(look):
            keep = h.snapshot(m.obj)
            study = h.call(ToyStudy, m.obj, backend)
            out = h.attempt(client.study_again, study, PySeq([One(1)]), T)
            es = npmodel.events("minimize")
            h.unchanged("model", keep)
            m.at(look.c).untouched(h, "templates unchanged")
            if not es:
                h.ensure("an error if nothing could be fitted", out[0] == "raised" and issubclass(out[1], RuntimeError))
                tried = look.last
                if tried is None or len(tried["at"]) != 1:
                    raise ir.Unsupported("no tries")
                h.ensure("all tries are used", forall(T, lambda t: ir.subst(tried["fails"], {ir.single_sym(tried["at"][0]): poly(t)})))
                h.reachable("given up")
                return
            if out[0] != "ok":
                raise Raised(out[1])
            h.ensure("one fit", len(es) == 1 and not es[0]["failed"])
            h.elements("parameters", h.get(study, "result_parameters"), (1, m.size), lambda r, x: es[0]["values"].get(x))
            h.elements("uncertainties", h.get(study, "result_uncertainties"), (1, m.size), lambda r, x: es[0]["errors"].get(x))
            h.reachable()
    f.__name__ = "experiment_any_tries%dd" % dim
    contract("C18", targets=[MODULE + "do_experiments", MODULE + "_experiment"])(f)


def pick(es, r, x, name):
    v = es[0][name].get(x)
    for n, e in list(enumerate(es))[1:]:
        v = ite(eq(r, n), e[name].get(x), v)
    return v


one_experiment(1)
one_experiment(2)
rows("experiment_1_try", (1,), 1)
rows("experiment_2_tries", (1,), 2)
rows("experiments_2", (2,), 2)
rows("studies_2", (2, 1), 1)


# --------------------------------------------- any number of experiments

class Experiment:
    """contract of one experiment: with the model as it is, one row is
    recorded (or an error raised, which ends the study)"""

    def __init__(self, h, m, tries=None):
        self.h, self.m = h, m
        c = self.c = h.index("chan", m.C)
        k = self.k = h.index("temp", m.K_(c))
        self.j = h.index("elem", m.n_(c) + 1)
        self.during = None

    def digest(self):
        """the parameters of an arbitrary template, now"""
        t = self.m.chan.tf.at(self.c, self.k)
        return interp.getattr_(t, "params").get(self.j)

    def __call__(self, args, kwargs):
        m = self.m
        a = list(args) + [10, True][len(args) - 1:]
        for key, v in kwargs.items():
            if key not in ("max_tries", "get_hesse"):
                raise ir.Unsupported("arguments of an experiment")
            a[1 + ("max_tries", "get_hesse").index(key)] = v
        study, tries, hesse = a
        ls = core.ctx().loop_syms()
        if self.during is not None:
            self.during(ls)
            row = lambda name: npmodel.mkarr((m.size,), lambda i: app(name, ls + [lift(i)], "R"), "f")
        else:
            now = self.digest()
            row = lambda name: npmodel.mkarr((m.size,), lambda i: app(name, ls + [now, lift(tries), lift(i)], "R"), "f")
        try:
            interp.call(client.append_row, (study, row("row"), row("unc" if hesse is True else "stale")), {})
        except Raised as e:
            raise ir.Unsupported("records of a study: %s" % e.cls.__name__)


@contextlib.contextmanager
def experiments(h, m):
    x = Experiment(h, m)
    interp.CONTRACTS[MODULE + "_experiment"] = x
    try:
        yield x
    finally:
        del interp.CONTRACTS[MODULE + "_experiment"]


def many_experiments(h):
    m = Model(h, data=True)
    N, E, T = h.int("N", lo=1), h.int("E", lo=0), h.int("tries", lo=1)
    p = h.index("p", m.P)
    with experiments(h, m) as x:
        study = h.call(ToyStudy, m.obj, h.text("backend"))
        keep = h.snapshot(m.obj)
        if core.ctx().decide(lt(0, E)):
            h.call(client.study_again, study, PySeq([One(E)]), T)
        h.call(client.study_again, study, PySeq([One(N)]), T)
        now = x.digest()
        row = lambda name: lambda e, i: app(name, [lift(e), now, lift(T), lift(i)], "R")
        h.elements("parameters", h.get(study, "result_parameters"), (N, m.size), row("row"))
        h.elements("uncertainties", h.get(study, "result_uncertainties"), (N, m.size), row("unc"))
        a, b = h.call(client.results_of, study, m.proc(p))
        h.elements("fitted yields", a, (N,), lambda e: row("row")(e, p))
        h.elements("uncertainties of yields", b, (N,), lambda e: row("unc")(e, p))
        h.unchanged("model", keep)
        m.at(h.index("c", m.C)).untouched(h, "templates unchanged")
        h.reachable()


contract("C18", targets=[MODULE + "do_experiments", MODULE + "get_toy_results", MODULE + "_reset_state"])(many_experiments)


def pulls(h):
    m = Model(h, data=True)
    N, T = h.int("N", lo=1), h.int("tries", lo=1)
    p = h.index("p", m.P)
    h.fact("unc", lambda *a: lt(0, app("unc", list(a), "R")))
    with experiments(h, m) as x:
        study = h.call(ToyStudy, m.obj, h.text("backend"))
        h.call(client.study_again, study, PySeq([One(N)]), T)
        now = x.digest()
        row = lambda name: lambda e, i: app(name, [lift(e), now, lift(T), lift(i)], "R")
        y = h.method(m.obj, "get_yield", m.proc(p))
        r = h.call(client.pulls_of, study, m.proc(p))
        h.elements("pulls", r, (N,), lambda e: (row("row")(e, p) - y) / row("unc")(e, p))
        h.reachable()


contract("C18", targets=[MODULE + "get_toy_result_pulls", MODULE + "get_toy_results"])(pulls)


def linear(kind, dim=1):
    """points of a linearity test: (mean, deviation) of the yields fitted to
    data generated with the yield of the point in otherwise reset templates"""
    def f(h):
        m = Model(h, dim, data=True)
        N = h.int("points", lo=1) if kind == "any" else kind
        E = h.int("experiments", lo=1)
        lo, hi = h.real("from"), h.real("to")
        p = h.index("p", m.P)
        point = lambda i: lo if N == 1 else lo + (hi - lo) * lift(i) / (lift(N) - 1) if isinstance(N, int) else ite(eq(N, 1), lo, lo + (hi - lo) * lift(i) / (lift(N) - 1))
        with experiments(h, m) as x:
            d = m.at(x.c)
            total = summ(d.n, lambda i: d.count(x.k, i))
            mine = eq(m.pidx(x.c, x.k), p)

            def during(ls):
                want = ite(eq(x.j, 0), ite(mine, point(ls[0]) * d.eff(x.c, x.k), total), 0)
                h.ensure("parameters of the templates while generating", eq(x.digest(), want))
            x.during = during
            study = h.call(ToyStudy, m.obj, h.text("backend"))
            pts, mean, dev = h.call(client.linearity, study, m.proc(p), (lo, hi), PyDict([KV("n_points", N), KV("n_exp", E)]))
            h.elements("points", pts, (N,), point)
            fit = lambda j, e: app("row", [lift(j), lift(e), poly(p)], "R")
            mu = lambda j: summ(E, lambda e: fit(j, e)) / E
            h.elements("means", h.call(client.as_array, mean), (N,), mu)
            h.elements("deviations", h.call(client.as_array, dev), (N,), lambda j: sqrt(summ(E, lambda e: (fit(j, e) - mu(j)) ** 2) / E))
            h.reachable()
    f.__name__ = "linearity_%s_%dd" % (kind, dim)
    contract("C18", targets=[MODULE + "do_linearity_test"])(f)


linear("any")
linear("any", 2)
