"""fitter.py: C16, C17

The minimizer is used by contract (client.Recorder): fitter.py is checked
against what contracts/fit.py proves of the real ones.
"""
import contextlib
from contracts import client
from contracts.model import *
from dv import optim
from templatefitter.fitter import TemplateFitter


@contextlib.contextmanager
def by_contract(h):
    """minimizers are replaced by their contract"""
    q = "minimizer.minimizer_factory"
    interp.CONTRACTS[q] = lambda args, kwargs: call(client.Recorder, args, kwargs)
    try:
        yield
    finally:
        del interp.CONTRACTS[q]


class Fit:
    """a fitter with arbitrary standing constraints, for an arbitrary model
    that has changed since the fitter was made"""

    def __init__(self, h, dim=1, kind="text", fixnui=False):
        self.h = h
        m = self.m = Model(h, dim, data=True)
        # the model when the fitter is made: other parameters, data, no constraints
        now = {}
        for fam, attr, old in ((m.chan.tf, "_params", lambda *i: h.array("oldpar", m.n_(i[0]) + 1, args=list(i))),
                               (m.cf, "_hdata", lambda c: m.at(c).histogram(h, "olddata", (lift(c),))[0])):
            now[fam, attr] = fam.ctors[attr]
            fam.ctors[attr] = old
        self.backend = h.text("backend")
        self.fitter = h.call(TemplateFitter, m.obj, self.backend)
        for (fam, attr), v in now.items():
            fam.ctors[attr] = v
            fam.cells = ()
        m.constraints(h)
        data_fact(h, dim)
        # standing constraints
        F, B = h.int("F", lo=0), h.int("B", lo=0)
        self.kind = kind
        if kind == "text":
            self.fid, self.bid = h.names("fid", F), h.names("bid", B)
        else:
            self.fid, self.bid = [h.names(x, y, sort="I", anything=True) for x, y in (("anyfid", F), ("anybid", B))]
            for n, ids in ((F, self.fid), (B, self.bid)):
                h.require(forall(n, lambda k: band(le(0, ids(k)), lt(ids(k), m.size))))
        self.bnd = lambda b: (app("low", [lift(b)], "R"), app("high", [lift(b)], "R"))
        h.call(client.fix_all, self.fitter, PySeq([core.many(F, self.fid)]))
        h.call(client.bound_all, self.fitter, PySeq([core.many(B, self.bid)]), PySeq([core.many(B, self.bnd)]))
        self.F, self.B = F, B
        if fixnui:
            h.method(self.fitter, "fix_nui_params")

    def is_text(self, v):
        return isinstance(v, str) or isinstance(v, T) and v.sort == "S"

    # ----------------------------------------------------------- what is fixed
    def fixed(self, e, nui, extra=()):
        """exactly the standing parameters, the nuisance parameters (nui) and
        the extra ones (tuples of identifiers of one parameter) are fixed"""
        h, m = self.h, self.m
        log = e["fixed"]

        alts = [x for alt in extra for x in alt]

        def among(v):
            c = [eq(lift(x), lift(v)) for x in alts if self.is_text(x) == self.is_text(v)]
            mine = self.is_text(v) == (self.kind == "text")
            if mine:
                c.append(interp.num(interp.seg_contains(core.many(self.F, self.fid), v)))
            if nui and not self.is_text(v):
                c.append(band(le(m.P, v), lt(v, m.size)))
            return self.settled(bor(*c), mine and not (nui and self.is_text(v)))

        def go(segs):
            for s in segs:
                if isinstance(s, One):
                    h.ensure("only requested parameters are fixed", among(s.v))
                else:
                    go(s.segs)
        go(log.segs)
        i = h.index("i", self.F)
        want = [(self.fid(i),)] + ([(m.P + h.index("i", m.nui),)] if nui else []) + list(extra)
        for alt in want:
            h.ensure("all requested parameters are fixed", bor(*[interp.num(interp.seg_contains(s, v)) for v in alt for s in log.segs if self.same_kind(s, v)]))

    def settled(self, ok, mine):
        """an identifier of another kind than those the fitter was given may
        be the translation of one of them: not refuted"""
        if not mine and not (ok is ir.TRUE or ctx().solver.quick(ctx().pc, ok)):
            raise ir.Unsupported("other kind of parameter identifier")
        return ok

    def same_kind(self, seg, v):
        while not isinstance(seg, One):
            seg = seg.segs[0]
        return self.is_text(seg.v) == self.is_text(v)

    def limits(self, e, nui=None):
        """exactly the standing bounds and those of all nuisance parameters"""
        h, m = self.h, self.m
        segs = e["bounds"].segs

        def find(v):
            """the last bounds given for parameter v: [(condition, bounds)], newest first"""
            out = []
            for s in reversed(segs):
                if isinstance(s, One):
                    if self.is_text(s.v[0]) == self.is_text(v):
                        out.append((eq(lift(s.v[0]), lift(v)), s.v[1]))
                    continue
                if len(s.segs) != 1 or not isinstance(s.segs[0], One):
                    raise ir.Unsupported("bounds")
                k, b = s.segs[0].v
                if self.is_text(k) != self.is_text(v):
                    continue
                r = interp.solve_index(eq(lift(k), lift(v)), s.sym, s.n)
                if r is None:
                    raise ir.Unsupported("bounds")
                out.append((r[0], core.vsubst(b, {s.sym: poly(r[1])})))
            return out

        def go(segs):
            for s in segs:
                if isinstance(s, One):
                    v = s.v[0]
                    c = []
                    mine = self.is_text(v) == (self.kind == "text")
                    if mine:
                        c.append(interp.num(interp.seg_contains(core.many(self.B, self.bid), v)))
                    if nui is not None and not self.is_text(v):
                        c.append(band(le(m.P, v), lt(v, m.size)))
                    h.ensure("only requested bounds", self.settled(bor(*c), mine and not (nui is not None and self.is_text(v))))
                else:
                    go(s.segs)
        go(segs)

        def given(name, v, want, unless=ir.FALSE):
            got = find(v)
            h.ensure(name + " are given", bor(unless, *[c for c, _ in got]))
            newer = []
            for c, b in got:
                now = ir.implies(band(c, bnot(unless), *[bnot(x) for x in newer]), band(eq(b[0], want[0]), eq(b[1], want[1])))
                h.ensure(name, now)
                newer.append(c)
        i = h.index("i", self.B)
        given("standing bounds", self.bid(i), self.bnd(i))
        if nui is not None:
            p = m.P + h.index("i", m.nui)
            # a parameter with both is not settled here
            both = ir.FALSE if self.kind == "text" else interp.num(interp.seg_contains(core.many(self.B, self.bid), p))
            given("limits of nuisance parameters", p, nui, both)

    def start(self, e, par="tpar"):
        """the current parameters of the templates"""
        h, m = self.h, self.m
        x0 = e["x0"]
        p, c = h.index("p", m.P), h.index("c", m.C)
        k = h.index("k", m.K_(c))
        i = h.index("i", m.n_(c))
        at = m.P + m.offset(c) + k * m.n_(c) + i
        if h.is_array("start", x0, (m.size,)):
            h.ensure("start yields", eq(x0.get(p), start_yield(m, p)))
            h.ensure("start nuisance parameters", eq(x0.get(at), start_vector(m, c, k, i)))
        h.text_is("back end", e["backend"], self.backend)
        names = h.get(h.get(e["rec"], "params"), "names")
        h.scalar("one name per parameter", call(client.length, (names,)), m.size)
        h.text_is("yield names", call(client.item, (names, p)), call(client.yield_name, (m.proc(p),)))
        h.text_is("nuisance parameter names", call(client.item, (names, at)), call(client.nuisance_name, (m.chn(c), m.proc(m.pidx(c, k)), i)))

    def objective(self, e):
        """the likelihood of the current model and data"""
        h, m = self.h, self.m
        x = h.array("x", m.size)
        now = h.method(m.obj, "create_nll")
        want = h.call(now, x)
        h.scalar("minimises the current likelihood", h.call(e["fcn"], x), want)

    def events(self):
        return npmodel.events("minimize")

    def result(self, r, e):
        h = self.h
        h.scalar("result: minimum", h.get(r, "fcn_min_val"), e["minimum"])
        p = h.get(r, "params")
        h.elements("result: values", h.get(p, "values"), (self.m.size,), e["values"].get)
        h.elements("result: errors", h.get(p, "errors"), (self.m.size,), e["errors"].get)
        s = truth_of(h.get(r, "succes"))
        h.ensure("result: success", band(ir.implies(s, e["success"]), ir.implies(e["success"], s)))


def options(**kw):
    return PyDict([KV(k, v) for k, v in kw.items()])


def fitted(name, kind, fixnui=False, nui=False, limits=False, update=None, check=False):
    def f(h):
        with by_contract(h):
            s = Fit(h, 1, kind, fixnui)
            m = s.m
            x = h.array("x", m.size)
            if check:
                expectation_positive(h, m, x.get)
            kw = {}
            if nui:
                kw["fix_nui_params"] = True
            lim = (h.real("nuilow"), h.real("nuihigh")) if limits else None
            if limits:
                kw["nui_param_limits"] = lim
            if update is not None:
                kw["update_templates"] = update
            keep = h.snapshot(m.obj)
            out = h.attempt(client.do_fit, s.fitter, options(**kw))
            es = s.events()
            h.ensure("one minimisation", len(es) == 1)
            e = es[0]
            s.fixed(e, fixnui or nui)
            s.limits(e, lim)
            s.start(e)
            if check:
                s.objective(e)
            h.unchanged("model", keep)
            c = h.index("c", m.C)
            d = m.at(c)
            if e["failed"]:
                h.ensure("a failed minimisation is reported", out[0] == "raised" and issubclass(out[1], RuntimeError))
                d.untouched(h, "templates unchanged")
                return
            if out[0] != "ok":
                raise Raised(out[1])
            s.result(out[1], e)
            if update is False:
                d.untouched(h, "templates unchanged")
            else:
                k = h.index("k", d.K)
                y, th = m.yields(e["values"].get, c), m.theta(e["values"].get, c)
                h.elements("templates hold the fitted parameters", h.get(d.tf.at(c, k), "params"), (d.n + 1,),
                           lambda i: ite(eq(i, 0), y(k) * d.eff(c, k), th(k, i - 1)))
                d.untouched(h, "rest of the templates unchanged", ("_params",))
            h.reachable()
    f.__name__ = name
    contract("C16", targets=["fitter.TemplateFitter.do_fit"])(f)


fitted("fit_by_name", "text", check=True)
fitted("fit_by_index", "index", update=True)
fitted("fit_without_update", "text", update=False)
fitted("fit_nuisance_fixed", "text", nui=True)
fitted("fit_nuisance_fixed_by_index", "index", nui=True, update=False)
fitted("fit_nuisance_fixed_always", "text", fixnui=True, update=False)
fitted("fit_nuisance_limits", "text", limits=True)
fitted("fit_nuisance_limits_by_index", "index", limits=True, fixnui=True, update=False)


def later(kind, dim):
    """options of one fit are forgotten, standing constraints are not"""
    def f(h):
        with by_contract(h):
            s = Fit(h, dim, kind)
            lim = (h.real("nuilow"), h.real("nuihigh"))
            keep = h.snapshot(s.m.obj)
            h.attempt(client.do_fit, s.fitter, options(fix_nui_params=True, nui_param_limits=lim, update_templates=False, verbose=False, get_hesse=False))
            e = s.events()[-1]
            s.fixed(e, True)
            s.limits(e, lim)
            s.start(e)
            out = h.attempt(client.do_fit, s.fitter, options(update_templates=False))
            es = s.events()
            h.ensure("one minimisation per fit", len(es) == 2)
            e = es[-1]
            s.fixed(e, False)
            s.limits(e)
            s.start(e)
            if out[0] == "ok":
                s.result(out[1], e)
            h.unchanged("model", keep)
            s.m.at(h.index("c", s.m.C)).untouched(h, "templates unchanged")
            h.reachable()
    f.__name__ = "later_fit_%s%dd" % (kind, dim)
    contract("C16", targets=["fitter.TemplateFitter.do_fit"])(f)


later("text", 1)
later("index", 2)


def again(h):
    """constraints asked for more than once, by name: the last bounds count"""
    with by_contract(h):
        s = Fit(h, 1, "text")
        i, j = h.index("i", s.F), h.index("j", s.B)
        h.method(s.fitter, "set_parameter_fixed", s.fid(i))
        new = (h.real("newlow"), h.real("newhigh"))
        h.method(s.fitter, "set_parameter_bounds", s.bid(j), new)
        old = s.bnd
        s.bnd = lambda b: tuple(ite(eq(lift(b), j), x, y) for x, y in zip(new, old(b)))
        h.attempt(client.do_fit, s.fitter, options())
        e = s.events()[-1]
        s.fixed(e, False)
        s.limits(e)
        h.reachable()


contract("C16", targets=["fitter.TemplateFitter.set_parameter_fixed", "fitter.TemplateFitter.set_parameter_bounds"])(again)


# ------------------------------------------------------------------------ C17

def minima(h):
    """precondition: a constrained minimum is not below the unconstrained one;
    errors of free parameters are positive"""
    h.fact("minimum", lambda k: le(app("minimum", [ir.ZERO], "R"), app("minimum", [k], "R")))
    h.fact("sigma", lambda k, i: lt(0, app("sigma", [k, i], "R")))


def still(h, s, keep):
    """model and standing constraints are as they were"""
    h.unchanged("model", keep)
    s.m.at(h.index("c", s.m.C)).untouched(h, "templates unchanged")
    n = len(s.events())
    h.attempt(client.do_fit, s.fitter, options(update_templates=False))
    e = s.events()[n]
    s.fixed(e, s.fixnui)
    s.limits(e)
    s.start(e)


def significant(name, kind, dim=1, fixnui=False, nui=False, check=False):
    def f(h):
        with by_contract(h):
            s = Fit(h, dim, kind, fixnui)
            s.fixnui = fixnui
            minima(h)
            m = s.m
            p = h.index("p", m.P)
            if check:
                h.require(ir.TRUE)
            keep = h.snapshot(m.obj)
            out = h.attempt(client.significance, s.fitter, m.proc(p), options(fix_nui_params=True) if nui else options(verbose=False))
            es = s.events()
            e = es[0]
            s.fixed(e, fixnui or nui)
            s.limits(e)
            s.start(e)
            if e["failed"]:
                h.ensure("a failed minimisation is reported", out[0] == "raised" and issubclass(out[1], RuntimeError))
                still(h, s, keep)
                return
            best = e["values"].get(p)
            if len(es) == 1:
                h.ensure("minimum without the process", le(best, 0))
                if out[0] != "ok":
                    raise Raised(out[1])
                h.scalar("zero without the process", out[1], 0)
                still(h, s, keep)
                h.reachable("negative")
                return
            h.ensure("two minimisations", len(es) == 2)
            e1 = es[1]
            yname = call(client.yield_name, (m.proc(p),))
            s.fixed(e1, fixnui or nui, ((yname, p),))
            s.limits(e1)
            q = h.index("q", m.size)
            if h.is_array("start", e1["x0"], (m.size,)):
                h.ensure("yield starts, and stays, at zero", eq(e1["x0"].get(p), 0))
                h.ensure("other starting values", ir.implies(ne(q, p), eq(e1["x0"].get(q), e["x0"].get(q))))
            h.text_is("back end", e1["backend"], s.backend)
            names = h.get(h.get(e1["rec"], "params"), "names")
            h.text_is("parameter names", call(client.item, (names, p)), yname)
            if check:
                s.objective(e1)
            if e1["failed"]:
                h.ensure("a failed minimisation is reported", out[0] == "raised" and issubclass(out[1], RuntimeError))
            else:
                if out[0] != "ok":
                    raise Raised(out[1])
                d = 2 * (e1["minimum"] - e["minimum"])
                h.scalar("significance", out[1], ite(lt(best, 0), 0, sqrt(d)))
            still(h, s, keep)
            h.reachable()
    f.__name__ = name
    contract("C17", targets=["fitter.TemplateFitter.get_significance"])(f)


significant("significance_by_name", "text")
significant("significance_by_index", "index", dim=2)
significant("significance_nuisance_fixed", "text", nui=True)
significant("significance_nuisance_fixed_always", "index", fixnui=True)


def profiled(name, kind, param, subtract=True, nui=False, fixnui=False, dim=1):
    def f(h):
        with by_contract(h):
            s = Fit(h, dim, kind, fixnui)
            s.fixnui = fixnui
            minima(h)
            m = s.m
            if param == "yield":
                j = h.index("p", m.P)
                pid = call(client.yield_name, (m.proc(j),))
            elif param == "index":
                pid = j = h.index("p", m.size)
            N = h.int("points", lo=1)
            w = h.real("width")
            kw = dict(num_points=N, sigma=w, num_cpu=h.int("cpus", lo=1))
            if not subtract:
                kw["subtract_min"] = False
            if nui:
                kw["fix_nui_params"] = True
            keep = h.snapshot(m.obj)
            out = h.attempt(client.profile, s.fitter, pid, options(**kw))
            es = s.events()
            e = es[0]
            s.fixed(e, nui or fixnui)
            s.limits(e)
            s.start(e)
            if e["failed"]:
                h.ensure("a failed minimisation is reported", out[0] == "raised" and issubclass(out[1], RuntimeError))
                return
            if out[0] != "ok":
                raise Raised(out[1])
            ps = npmodel.events("pool")
            if len(ps) != 1 or len(es) != 1 or not (isinstance(out[1], tuple) and len(out[1]) == 3):
                raise ir.Unsupported("points are not evaluated by a pool of processes")
            x, v, g = out[1]
            best, err = e["values"].get(j), app("sigma", [ir.ZERO, lift(j)], "R")
            off = e["minimum"] if subtract else ir.ZERO
            point = lambda i: best - w * err + ite(eq(N, 1), 0, 2 * w * err * lift(i) / (N - 1))
            h.elements("points", x, (N,), point)
            h.elements("profile", v, (N,), lambda i: ps[0]["value"](i) - off)
            h.elements("parabola", g, (N,), lambda i: (point(i) - best) ** 2 / err ** 2 / 2 + e["minimum"] - off)
            h.scalar("one task per point", ps[0]["n"], N)
            i = h.index("i", N)
            r = optim.task(ps[0], i)
            es = s.events()
            h.ensure("one minimisation per point", len(es) == 2)
            e1 = es[1]
            s.fixed(e1, nui or fixnui, ((pid, j),))
            s.limits(e1)
            q = h.index("q", m.size)
            if h.is_array("start of a point", e1["x0"], (m.size,)):
                h.ensure("the parameter is at the point", eq(e1["x0"].get(j), point(i)))
                h.ensure("others start at the best fit", ir.implies(ne(q, j), eq(e1["x0"].get(q), e["values"].get(q))))
            h.ensure("same objective", e1["fcn"] is e["fcn"])
            if e1["failed"]:
                h.ensure("a failed point is not a number", isinstance(r, float) and r != r)
            else:
                h.scalar("minimum at the point", r, e1["minimum"])
            still(h, s, keep)
            h.reachable()
    f.__name__ = name
    contract("C17", targets=["fitter.TemplateFitter.profile", "fitter.TemplateFitter._profile_helper", "fitter.TemplateFitter._get_hesse_approx"])(f)


profiled("profile_by_name", "text", "yield")
profiled("profile_by_index", "index", "index", dim=2)
profiled("profile_not_subtracted", "text", "yield", subtract=False)
profiled("profile_nuisance_fixed", "text", "yield", nui=True)
profiled("profile_nuisance_fixed_always", "index", "index", fixnui=True)
