"""minimizer.py: C15

The optimisers themselves are trusted (dv/optim.py): what they are given is
recorded, what they return is arbitrary but for what their documentation
promises.  The state of a minimizer is arbitrary: any set of fixed parameters
in any order, any bounds.
"""
from contracts import client
from dv.api import *
from dv import optim
from templatefitter.minimizer import ScipyMinimizer, IMinuitMinimizer, AbstractMinimizer, Parameters, minimizer_factory

lo = lambda q: app("low", [lift(q)], "R")
hi = lambda q: app("high", [lift(q)], "R")


def positive_definite(h):
    """precondition: the Hessian at a minimum is positive definite"""
    h.fact("minuit.inverse", lambda k, i, j: ir.implies(eq(i, j), lt(0, app("minuit.inverse", [k, i, j], "R"))))
    h.fact("matinv", lambda m, i, j: ir.implies(eq(i, j), lt(0, app("matinv", [m, i, j], "R"))))


class State:
    """a minimizer of n parameters with an arbitrary history"""

    def __init__(self, h, cls):
        self.n = h.int("n", lo=1)
        self.name = h.names("pname", self.n)
        self.fcn = optim.objective()
        self.obj = h.call(cls, self.fcn, PySeq([core.many(self.n, self.name)]))
        if cls is ScipyMinimizer:
            F = h.int("F", lo=0)
            self.fix = h.names("fix", F, sort="I")
            h.fact("fix#", lambda k: band(le(0, app("fix#", [k], "I")), lt(app("fix#", [k], "I"), self.n)))
            self.obj.write("_fixed_params", PySeq([core.many(F, self.fix)]))
            self.fixed = lambda q: ir.inv_has("fix#", lift(q))
        else:
            self.fixed = lambda q: app("isfixed", [lift(q)], "B")
            self.obj.write("_fixed_params", PySeq([core.many(self.n, self.fixed)]))
        self.obj.write("_param_bounds", PySeq([core.many(self.n, lambda q: (lo(q), hi(q)))]))
        self.lo, self.hi = lo, hi
        self.x0 = h.array("x0", self.n)
        positive_definite(h)


def run(h, s, *args, **kw):
    """minimise; -> (event, result); the outcome follows the optimiser's"""
    out = h.attempt(client.minimize, s.obj, s.x0, args, PyDict([KV(k, v) for k, v in kw.items()]))
    es = npmodel.events("optimize")
    if not es:
        if out[0] == "raised":
            raise Raised(out[1])
        raise ir.Unsupported("the optimiser is not called")
    e = es[-1]
    if out[0] == "raised":
        h.ensure("only a failed minimisation raises", issubclass(out[1], RuntimeError))
        h.ensure("only a failed minimisation raises", bnot(e["success"]))
        return e, None
    return e, out[1]


def received(h, s, e, fixed=None, lo=None, hi=None):
    """what the optimiser was given"""
    fixed, lo, hi = fixed or s.fixed, lo or s.lo, hi or s.hi
    h.ensure("the objective is minimised", e["fun"] is s.fcn)
    h.elements("start", e["x0"], (s.n,), s.x0.get)
    q = h.index("q", s.n)
    b = optim.bound(e, q)
    if b is None:
        h.fail("bounds are given")
    else:
        h.scalar("lower bound", b[0], lo(q))
        h.scalar("upper bound", b[1], hi(q))
    e["check_fixed"](h, s.n, fixed, s.x0.get)


def kept(h, s, e, r, fixed=None, lo=None, hi=None):
    """the reported point"""
    fixed, lo, hi = fixed or s.fixed, lo or s.lo, hi or s.hi
    v = h.get(h.get(r, "params"), "values")
    if not h.is_array("values", v, (s.n,)):
        return
    q = h.index("q", s.n)
    h.ensure("fixed parameters keep their starting values", ir.implies(fixed(q), eq(v.get(q), s.x0.get(q))))
    h.ensure("bounded parameters lie within their bounds", band(le(lo(q), v.get(q)), le(v.get(q), hi(q))))


def same_everywhere(h, s, r):
    """the result and the minimizer tell the same"""
    p = h.get(r, "params")
    for a, b in (("param_values", "values"), ("param_errors", "errors")):
        h.same_array("minimizer." + a, h.get(s.obj, a), h.get(p, b))
    for a, b in (("param_covariance", "covariance"), ("param_correlation", "correlation")):
        h.same_array("minimizer." + a, h.get(s.obj, a), h.get(p, b))
    h.scalar("minimizer.fcn_min_val", h.get(s.obj, "fcn_min_val"), h.get(r, "fcn_min_val"))
    q = h.index("q", s.n)
    v, e = h.call(client.item, p, q)
    h.scalar("value by index", v, h.get(p, "values").get(q))
    h.scalar("error by index", e, h.get(p, "errors").get(q))
    v, e = h.call(client.item, p, s.name(q))
    h.scalar("value by name", v, h.get(p, "values").get(q))
    h.scalar("error by name", e, h.get(p, "errors").get(q))


def normalised(h, s, p):
    """errors and correlation of a covariance matrix"""
    cov = h.get(p, "covariance")
    h.elements("errors", h.get(p, "errors"), (s.n,), lambda i: sqrt(cov.get(i, i)))
    h.elements("correlation", h.get(p, "correlation"), (s.n, s.n), lambda i, j: cov.get(i, j) / (sqrt(cov.get(i, i)) * sqrt(cov.get(j, j))))


def scipy_minimize(hesse, extra):
    def f(h):
        s = State(h, ScipyMinimizer)
        args = (h.real("a"), h.real("b")) if extra else ()
        keep = h.snapshot(s.x0)
        kw = {} if hesse else {"get_hesse": False}
        if extra:
            kw["additional_args"] = args
            kw["verbose"] = True
        e, r = run(h, s, **kw)
        received(h, s, e)
        h.unchanged("start vector unchanged", keep)
        if r is None:
            return
        h.ensure("a failed minimisation raises", e["success"])
        h.ensure("reported as success", truth_of(h.get(r, "succes")))
        kept(h, s, e, r)
        p = h.get(r, "params")
        v = h.get(p, "values")
        h.scalar("minimum is the value at the reported point", h.get(r, "fcn_min_val"), h.call(s.fcn, v, *args))
        if hesse:
            es = npmodel.events("hessian")
            if not es:
                raise ir.Unsupported("the Hessian is not computed by nd.Hessian")
            d = es[-1]
            h.ensure("Hessian of the objective", d["fun"] is s.fcn)
            h.ensure("Hessian with the arguments", len(d["args"]) == len(args) and all(a is b for a, b in zip(d["args"], args)))
            h.elements("Hessian at the reported point", d["point"], (s.n,), v.get)
            inv = npmodel.matfun("matinv", d["matrix"])
            h.elements("covariance", h.get(p, "covariance"), (s.n, s.n), inv)
            normalised(h, s, p)
            same_everywhere(h, s, r)
        h.reachable()
    f.__name__ = "scipy_minimize%s%s" % ("" if hesse else "_without_hesse", "_arguments" if extra else "")
    return f


for _h in (True, False):
    for _e in (False, True):
        contract("C15", targets=["minimizer.ScipyMinimizer.minimize", "minimizer.ScipyMinimizer._create_constraints", "minimizer.Parameters"])(scipy_minimize(_h, _e))


def minuit_minimize(h):
    s = State(h, IMinuitMinimizer)
    keep = h.snapshot(s.x0)
    e, r = run(h, s)
    if r is None:
        h.fail("no exception")
        return
    received(h, s, e)
    h.unchanged("start vector unchanged", keep)
    kept(h, s, e, r)
    names = e["names"]
    q = h.index("q", s.n)
    h.text_is("names", call(client.item, (names, q)), s.name(q))
    p = h.get(r, "params")
    v = h.get(p, "values")
    h.scalar("minimum is the value at the reported point", h.get(r, "fcn_min_val"), h.call(s.fcn, v))
    ok = truth_of(h.get(r, "succes"))
    h.ensure("a failed minimisation is no success", ir.implies(ok, e["flags"]["is_valid"]))
    h.ensure("a valid minimum is one", ir.implies(band(*[e["flags"][a] for a in ("is_valid", "has_valid_parameters", "has_covariance")]), ok))
    k = e["minuit"].f["steps"][0]
    cov, err, cor = h.get(p, "covariance"), h.get(p, "errors"), h.get(p, "correlation")
    i, j = h.index("i", s.n), h.index("j", s.n)
    both = lambda c: ir.implies(band(bnot(s.fixed(i)), bnot(s.fixed(j))), c)
    inv = lambda i, j: app("minuit.inverse", [num(k), i, j], "R")
    if h.is_array("covariance", cov, (s.n, s.n)) and h.is_array("errors", err, (s.n,)) and h.is_array("correlation", cor, (s.n, s.n)):
        h.ensure("covariance of free parameters is the inverse Hessian", both(eq(cov.get(i, j), inv(i, j))))
        h.ensure("errors of free parameters", bor(s.fixed(i), eq(err.get(i), sqrt(inv(i, i)))))
        h.ensure("correlation of free parameters", both(eq(cor.get(i, j), inv(i, j) / (sqrt(inv(i, i)) * sqrt(inv(j, j))))))
    same_everywhere(h, s, r)
    h.reachable()


contract("C15", targets=["minimizer.IMinuitMinimizer.minimize", "minimizer.Parameters"])(minuit_minimize)


# ----------------------------------------------------- histories, step by step
#
# One call from an arbitrary state; by induction every sequence of calls leads
# to the set of fixed parameters and the bounds that the calls ask for.

def point_only(h, s, e, r, fixed=None, lo=None, hi=None):
    received(h, s, e, fixed, lo, hi)
    if r is not None:
        kept(h, s, e, r, fixed, lo, hi)


def with_bounds(s, p, a, b):
    return (lambda q: ite(eq(q, p), a, s.lo(q))), (lambda q: ite(eq(q, p), b, s.hi(q)))


def quick(cls):
    return {"get_hesse": False} if cls is ScipyMinimizer else {}


def fixing(cls, byname):
    def f(h):
        s = State(h, cls)
        p = h.index("p", s.n)
        h.method(s.obj, "set_param_fixed", s.name(p) if byname else p)
        e, r = run(h, s, **quick(cls))
        point_only(h, s, e, r, fixed=lambda q: bor(s.fixed(q), eq(q, p)))
        h.reachable()
    f.__name__ = "fix_by_%s_%s" % ("name" if byname else "index", short(cls))
    return f


def short(cls):
    return "scipy" if cls is ScipyMinimizer else "minuit"


def bounding(cls, byname):
    def f(h):
        s = State(h, cls)
        p = h.index("p", s.n)
        a, b = h.real("newlow"), h.real("newhigh")
        h.method(s.obj, "set_param_bounds", s.name(p) if byname else p, (a, b))
        e, r = run(h, s, **quick(cls))
        lo, hi = with_bounds(s, p, a, b)
        point_only(h, s, e, r, lo=lo, hi=hi)
        h.reachable()
    f.__name__ = "bound_by_%s_%s" % ("name" if byname else "index", short(cls))
    return f


def releasing(cls):
    def f(h):
        s = State(h, cls)
        h.method(s.obj, "release_params")
        e, r = run(h, s, **quick(cls))
        point_only(h, s, e, r, fixed=lambda q: ir.FALSE)
        p = h.index("p", s.n)
        h.method(s.obj, "set_param_fixed", p)
        e, r = run(h, s, **quick(cls))
        point_only(h, s, e, r, fixed=lambda q: eq(q, p))
        h.reachable()
    f.__name__ = "release_%s" % short(cls)
    return f


def again(cls):
    """a minimisation leaves the constraints alone; the start value is the new one"""
    def f(h):
        s = State(h, cls)
        e, r = run(h, s, **quick(cls))
        s.x0 = h.array("x1", s.n)
        e, r = run(h, s, **quick(cls))
        h.scalar("second minimisation", len(npmodel.events("optimize")) % (1 if cls is ScipyMinimizer else 2), 0)
        point_only(h, s, e, r)
        h.reachable()
    f.__name__ = "minimize_again_%s" % short(cls)
    return f


def unknown(cls, what):
    def f(h):
        s = State(h, cls)
        if what == "name":
            p = h.text("unknown")
            h.require(forall(s.n, lambda q: bnot(eq(s.name(q), p))))
        else:
            p = h.int("unknown")
            h.require(bor(lt(p, 0), le(s.n, p)))
        for m, args in (("set_param_fixed", (p,)), ("set_param_bounds", (p, (h.real("newlow"), h.real("newhigh"))))):
            out = h.attempt(client.invoke, s.obj, m, args)
            h.ensure("unknown parameter rejected", out[0] == "raised" and issubclass(out[1], (ValueError, KeyError, IndexError)))
        out = h.attempt(client.item, h.get(s.obj, "params"), p)
        h.ensure("unknown parameter rejected", out[0] == "raised" and issubclass(out[1], (ValueError, KeyError, IndexError)))
        e, r = run(h, s, **quick(cls))
        point_only(h, s, e, r)
        h.reachable()
    f.__name__ = "unknown_%s_%s" % (what, short(cls))
    return f


def fresh_one(cls):
    def f(h):
        n = h.int("n", lo=1)
        name = h.names("pname", n)
        fcn = optim.objective()
        m = h.call(cls, fcn, PySeq([core.many(n, name)]))
        s = State.__new__(State)
        positive_definite(h)
        s.n, s.name, s.fcn, s.obj, s.x0 = n, name, fcn, m, h.array("x0", n)
        e, r = run(h, s, **quick(cls))
        h.ensure("the objective is minimised", e["fun"] is fcn)
        h.elements("start", e["x0"], (n,), s.x0.get)
        b = optim.bound(e, h.index("q", n))
        h.ensure("no bounds", b is None or (len(b) == 2 and b[0] is None and b[1] is None))
        e["check_fixed"](h, n, lambda q: ir.FALSE, s.x0.get)
        h.reachable()
    f.__name__ = "fresh_%s" % short(cls)
    return f


for _c in (ScipyMinimizer, IMinuitMinimizer):
    _t = "minimizer.%s." % _c.__name__
    for _b in (False, True):
        contract("C15", targets=[_t + "set_param_fixed", _t + "minimize"])(fixing(_c, _b))
        contract("C15", targets=["minimizer.AbstractMinimizer.set_param_bounds", _t + "minimize"])(bounding(_c, _b))
    contract("C15", targets=[_t + "release_params"])(releasing(_c))
    contract("C15", targets=[_t + "minimize"])(again(_c))
    contract("C15", targets=[_t + "set_param_fixed", "utility.id_to_index"])(unknown(_c, "name"))
    contract("C15", targets=[_t + "set_param_fixed", "utility.id_to_index"])(unknown(_c, "index"))
    contract("C15", targets=[_t + "__init__", "minimizer.AbstractMinimizer.__init__"])(fresh_one(_c))


def factory(h):
    n = h.int("n", lo=1)
    names = PySeq([core.many(n, h.names("pname", n))])
    for text, cls in (("scipy", ScipyMinimizer), ("SciPy", ScipyMinimizer), ("SCIPY", ScipyMinimizer), ("iminuit", IMinuitMinimizer),
                      ("iMinuit", IMinuitMinimizer), ("IMINUIT", IMinuitMinimizer)):
        m = h.call(minimizer_factory, text, optim.objective(), names)
        h.ensure("back end " + text, isinstance(m, Obj) and m.cls is cls)
    for text in ("", "minuit", "scipy2", "root", " scipy"):
        out = h.attempt(minimizer_factory, text, optim.objective(), names)
        h.ensure("unknown back end rejected", out[0] == "raised")
    h.reachable()


contract("C15", targets=["minimizer.minimizer_factory"])(factory)


def factory_unknown(h):
    n = h.int("n", lo=1)
    names = PySeq([core.many(n, h.names("pname", n))])
    text = h.text("backend")
    low = app("str.lower", [text], "S")
    h.require(bnot(eq(low, lift("scipy"))))
    h.require(bnot(eq(low, lift("iminuit"))))
    out = h.attempt(minimizer_factory, text, optim.objective(), names)
    h.ensure("unknown back end rejected", out[0] == "raised")
    h.reachable()


contract("C15", targets=["minimizer.minimizer_factory"])(factory_unknown)
