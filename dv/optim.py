"""Models of the optimisers and of numerical second derivatives (trusted).

scipy.optimize.minimize, iminuit.Minuit and numdifftools.Hessian are recorded
in the ghost trace; what they return is arbitrary except for what their
documentation promises.
"""
import numpy as np
from . import ir, core, interp, npmodel
from .ir import T, Unsupported, band, bor, bnot, eq, le, lt
from .core import ctx, Arr, PySeq, PyDict, One, Rep, Opaque, mkarr, Raised
from .npmodel import model, need_args, arg, to_arr, copy_arr, event, METHODS, GETITEM, ATTRS


# ------------------------------------------------------------ the objective

def objective():
    """an arbitrary function of a vector (and further arguments)"""
    return Opaque("objective")


def objective_call(o, args, kwargs):
    if kwargs:
        raise Unsupported("objective called with keywords")
    x = to_arr(args[0])
    if x.ndim != 1:
        raise Raised(ValueError, ("dimension of the argument",))
    return npmodel.matfun("objective", x, tuple(ir.as_real(interp.num(a)) for a in args[1:]))()


METHODS[("objective", "__call__")] = objective_call


def apply_fun(fun, x, args):
    """fun(x, *args) by library code; it must leave x alone"""
    y = copy_arr(x)
    before = y.body()
    r = interp.call(fun, (y,) + tuple(args), {})
    if y.store.body is None or y.body() is not before:
        raise Unsupported("function changes the vector it is given")
    return r


def argtuple(a):
    if isinstance(a, tuple):
        return a
    if isinstance(a, PySeq):
        return tuple(a.items())
    return (a,)


# ------------------------------------------------------------ scipy.minimize

BOUNDED = ("nelder-mead", "l-bfgs-b", "tnc", "slsqp", "powell", "trust-constr", "cobyla")
CONSTRAINED = ("slsqp", "trust-constr", "cobyla")


def bound(e, q):
    """bounds of parameter q as the optimiser got them, None: none given"""
    b = e["bounds"]
    if b is None:
        return None
    return npmodel.interp.getitem(b, q)


def constraint_values(cons, x):
    """[(index symbol or None, bound, kind, value at x)] for every entry"""
    out = []

    def go(segs, binders):
        for s in segs:
            if isinstance(s, One):
                kind, fun = interp.getitem(s.v, "type"), interp.getitem(s.v, "fun")
                if not isinstance(kind, str):
                    raise Unsupported("kind of a constraint")
                extra = s.v.lookup("args")
                v = interp.call(fun, (copy_arr(x),) + (argtuple(extra[0]) if extra else ()), {})
                if isinstance(v, Arr):
                    if v.ndim > 0:
                        raise Unsupported("vector of constraints")
                    v = v.get()
                out.append((tuple(binders), kind, interp.num(v)))
            elif isinstance(s, Rep):
                if ctx().decide(lt(0, s.n)):
                    go(s.segs, binders + [(s.sym, s.n)])
            else:
                raise Unsupported("constraints")
    if isinstance(cons, PyDict):
        cons = (cons,)
    go(interp.list_of(cons).segs, [])
    return out


def fulfilled(vals):
    out = []
    for binders, kind, v in vals:
        c = eq(v, 0) if kind == "eq" else le(0, v)
        for s, n in reversed(binders):
            c = ir.mkquant("forall", [(s, n)], c)
        out.append(c)
    return band(*out)


def check_constraints(cons):
    def check(h, n, fixed, x0):
        """the constraints say: x(q) = x0(q) for the fixed q, and nothing else"""
        x = mkarr((n,), lambda i: ir.app("point", [i], "R"), "f")
        vals = constraint_values(cons, x)
        # nothing else: they hold at every point that agrees
        agrees = ir.forall(n, lambda q: ir.implies(fixed(q), eq(x.get(q), x0(q))))
        for binders, kind, v in vals:
            ok = eq(v, 0) if kind == "eq" else le(0, v)
            h.ensure("nothing but the fixed parameters is constrained", ir.implies(agrees, ok))
        q = h.index("q", n)
        h.ensure("the fixed parameters are constrained", ir.implies(band(fulfilled(vals), fixed(q)), eq(x.get(q), x0(q))))
    return check


def m_minimize(args, kwargs):
    need_args("minimize", args, kwargs, ("fun", "x0", "args", "method", "bounds", "constraints", "options", "tol"))
    fun, x0 = arg(args, kwargs, 0, "fun"), to_arr(arg(args, kwargs, 1, "x0"))
    extra = argtuple(arg(args, kwargs, 2, "args", ()))
    method = arg(args, kwargs, 3, "method")
    bounds, cons = kwargs.get("bounds"), kwargs.get("constraints", ())
    if len(args) > 4:
        raise Unsupported("positional arguments of minimize")
    if x0.ndim != 1:
        raise Unsupported("start value of minimize")
    n = x0.shape[0]
    if method is None:
        raise Unsupported("default method of minimize")
    if not isinstance(method, str):
        raise Unsupported("method of minimize")
    if bounds is not None:
        bounds = npmodel.keep_value(interp.list_of(bounds))
        npmodel.contract("one pair of bounds per parameter", bounds.length(), n)
    ctx().nopt = getattr(ctx(), "nopt", 0) + 1
    k = ctx().nopt
    x = mkarr((n,), lambda i: ir.app("optimum!%d" % k, [i], "R"), "f")
    success = ir.sym("success!%d" % k, "B")
    start = copy_arr(x0)
    e = event("optimize", fun=fun, x0=start, args=extra, bounds=bounds, success=success, x=x, check_fixed=check_constraints(cons))
    c = ctx()
    if method.lower() in CONSTRAINED:
        c.assume(ir.implies(success, fulfilled(constraint_values(cons, x))))
    if method.lower() in BOUNDED and bounds is not None:
        s = ir.fresh("q", "I", hi=n)
        b = interp.getitem(bounds, ir.poly(s))
        if isinstance(b, (tuple, PySeq)):
            b = b if isinstance(b, tuple) else tuple(b.items())
            parts = []
            if b[0] is not None:
                parts.append(le(interp.num(b[0]), x.get(ir.poly(s))))
            if b[1] is not None:
                parts.append(le(x.get(ir.poly(s)), interp.num(b[1])))
            c.assume(ir.implies(success, ir.mkquant("forall", [(s, n)], band(*parts))))
    value = apply_fun(fun, x, extra)
    e["value"] = value
    status = c.new_value("status", "I")
    message = c.new_value("message", "S")
    return Opaque("optresult", x=copy_arr(x), fun=value, success=success, status=status, message=message)


GETITEM["optresult"] = lambda v, i: v.f[i] if i in v.f else npmodel._u("field of an optimisation result")

try:
    import scipy.optimize as _so
    model(_so.minimize)(m_minimize)
except ImportError:
    pass


# --------------------------------------------------------------- nd.Hessian

def m_hessian_of(args, kwargs):
    need_args("Hessian", args, kwargs, ("fun",))
    return Opaque("hessian", fn=arg(args, kwargs, 0, "fun"))


def hessian_call(j, args, kwargs):
    need_args("Hessian()", args, kwargs, ())
    x = to_arr(args[0])
    if x.ndim != 1:
        raise Unsupported("Hessian at a table")
    p = mkarr((x.shape[0],), lambda i: ir.app("near", [i], "R"), "f")
    apply_fun(j.f["fn"], p, args[1:])
    k = len(npmodel.events("hessian"))
    m = mkarr((x.shape[0], x.shape[0]), lambda a, b: ir.app("hessian!%d" % k, [a, b], "R"), "f")
    event("hessian", fun=j.f["fn"], point=copy_arr(x), args=tuple(args[1:]), matrix=copy_arr(m))
    return m


METHODS[("hessian", "__call__")] = hessian_call
try:
    import numdifftools as _nd
    model(_nd.Hessian)(m_hessian_of)
except ImportError:
    pass


# ------------------------------------------------------------------ iminuit

def truth_at(seq, q):
    return ir.tobool(interp.num(core.seq_at(seq, q)))


def check_fix(fix):
    def check(h, n, fixed, x0):
        q = h.index("q", n)
        f = ir.FALSE if fix is None else truth_at(fix, q)
        h.ensure("the fixed parameters are fixed", ir.implies(fixed(q), f))
        h.ensure("nothing but the fixed parameters is fixed", ir.implies(f, fixed(q)))
    return check


def m_from_array_func(args, kwargs):
    need_args("from_array_func", args, kwargs, ("fcn", "start", "error", "limit", "fix", "name", "errordef", "print_level", "pedantic"))
    fun, x0 = arg(args, kwargs, 0, "fcn"), to_arr(arg(args, kwargs, 1, "start"))
    if len(args) > 2:
        raise Unsupported("positional arguments of from_array_func")
    if x0.ndim != 1:
        raise Unsupported("start value")
    n = x0.shape[0]
    err = kwargs.get("error")
    if err is not None:
        err = to_arr(err)
        if err.ndim:
            npmodel.contract("one initial step per parameter", err.shape[0], n)
            err = copy_arr(err)
    seqs = {}
    for k in ("limit", "fix", "name"):
        v = kwargs.get(k)
        if v is not None:
            v = interp.list_of(v)
            npmodel.contract("one %s per parameter" % k, v.length(), n)
            v = npmodel.keep_value(v)
        seqs[k] = v
    if seqs["name"] is None:
        raise Unsupported("parameters without names")
    return Opaque("minuit", fun=fun, x0=copy_arr(x0), error=err, n=n, errordef=interp.num(kwargs.get("errordef", 1)), steps=[0], **seqs)


def m_migrad(m, args, kwargs):
    need_args("migrad", args, kwargs, ("ncall", "resume", "precision", "nsplit"))
    c = ctx()
    c.nopt = getattr(c, "nopt", 0) + 1
    k = c.nopt
    x0, n, fix, lim = m.f["x0"], m.f["n"], m.f["fix"], m.f["limit"]
    x = mkarr((n,), lambda i: ir.app("optimum!%d" % k, [i], "R"), "f")
    flags = {a: ir.sym("%s!%d" % (a, k), "B") for a in ("is_valid", "has_valid_parameters", "has_covariance", "has_accurate_covar",
                                                        "has_posdef_covar", "has_made_posdef_covar", "hesse_failed", "is_above_max_edm",
                                                        "has_reached_call_limit")}
    e = event("optimize", fun=m.f["fun"], x0=x0, args=(), bounds=lim, success=flags["is_valid"], flags=flags, x=x, names=m.f["name"],
              check_fixed=check_fix(fix), errordef=m.f["errordef"], minuit=m)
    s = ir.fresh("q", "I", hi=n)
    q = ir.poly(s)
    if fix is not None:
        c.assume(ir.mkquant("forall", [(s, n)], ir.implies(truth_at(fix, q), eq(x.get(q), x0.get(q)))))
    if lim is not None:
        b = interp.getitem(lim, q)
        if isinstance(b, (tuple, PySeq)):
            b = b if isinstance(b, tuple) else tuple(b.items())
            parts = []
            if b[0] is not None:
                parts.append(le(interp.num(b[0]), x.get(q)))
            if b[1] is not None:
                parts.append(le(x.get(q), interp.num(b[1])))
            c.assume(ir.mkquant("forall", [(s, n)], band(*parts)))
    e["value"] = apply_fun(m.f["fun"], x, ())
    m.f["steps"][0] = k
    m.f["last"] = e
    fmin = Opaque("fmin", fval=e["value"], **flags)
    m.f["fmin"] = fmin
    return (fmin, Opaque("minuitparams", m=m))


def last(m):
    e = m.f.get("last")
    if e is None:
        raise Unsupported("minuit state before migrad")
    return e, m.f["steps"][0]


def minuit_cov(m, i, j):
    """2 errordef times the inverse Hessian at the minimum"""
    e, k = last(m)
    return 2 * m.f["errordef"] * ir.app("minuit.inverse", [ir.num(k), i, j], "R")


def free_only(m):
    raise Unsupported("covariance of the free parameters only")


def m_np_matrix(m, args, kwargs):
    need_args("np_matrix", args, kwargs, ("correlation", "skip_fixed"))
    if len(args) > 0:
        raise Unsupported("positional arguments of np_matrix")
    n = m.f["n"]
    last(m)
    skip = kwargs.get("skip_fixed", True)
    corr = kwargs.get("correlation", False)
    if skip is not False and skip is not True or corr is not True and corr is not False:
        raise Unsupported("arguments of np_matrix")
    cov = lambda i, j: minuit_cov(m, i, j)
    f = m.f["fix"]
    val = (lambda i, j: cov(i, j) / (ir.sqrt(cov(i, i)) * ir.sqrt(cov(j, j)))) if corr else cov
    if not skip:
        # zero for fixed parameters
        full = val if f is None else lambda i, j: ir.ite(bor(truth_at(f, i), truth_at(f, j)), 0, val(i, j))
        return mkarr((n, n), full, "f")
    # without the fixed parameters: another size
    ctx().ncall += 1
    r = ir.app("minuit.nfree!%d" % ctx().ncall, [], "I")
    ctx().assume(band(le(0, r), le(r, n)))
    if f is None:
        return mkarr((n, n), val, "f")
    where = "minuit.free!%d" % ctx().ncall
    return mkarr((r, r), lambda i, j: val(ir.app(where, [i], "I"), ir.app(where, [j], "I")), "f")


def m_np_values(m, args, kwargs):
    e, k = last(m)
    return copy_arr(e["x"])


def m_np_errors(m, args, kwargs):
    """free parameters: root of the covariance; fixed ones: anything"""
    e, k = last(m)
    fix = m.f["fix"]

    def one(i):
        s = ir.sqrt(minuit_cov(m, i, i))
        return s if fix is None else ir.ite(truth_at(fix, ir.poly(i)), ir.app("minuit.step", [i], "R"), s)
    return mkarr((m.f["n"],), one, "f")


for _n, _f in (("migrad", m_migrad), ("np_matrix", m_np_matrix), ("np_values", m_np_values), ("np_errors", m_np_errors)):
    METHODS[("minuit", _n)] = _f


def minuit_attr(v, name):
    if ("minuit", name) in METHODS:
        return interp.Bound(("minuit", name), v)
    if name == "fval":
        return last(v)[0]["value"]
    if name == "fmin" and "fmin" in v.f:
        return v.f["fmin"]
    if name == "valid":
        return last(v)[0]["flags"]["is_valid"]
    if name == "errordef":
        return v.f["errordef"]
    raise Unsupported("attribute %s of Minuit" % name)


ATTRS["minuit"] = minuit_attr


def fmin_field(v, name):
    if name in v.f:
        return v.f[name]
    raise Unsupported("field %s of the minimum" % name)


ATTRS["fmin"] = fmin_field
GETITEM["fmin"] = fmin_field
try:
    import iminuit as _im
    npmodel.model_method(_im.Minuit, "from_array_func", m_from_array_func)
except ImportError:
    pass


# -------------------------------------------------- minimizers, by contract

WATCH = []         # called at each minimisation


def minimized(recorder, initial, get_hesse):
    raise RuntimeError("only executed by the engine")


@model(minimized)
def m_minimized(args, kwargs):
    rec, x0, hesse = args
    x0 = to_arr(x0)
    if x0.ndim != 1:
        raise Unsupported("start value")
    c = ctx()
    k = len(npmodel.events("minimize"))
    draw = c.ncall
    at = c.loop_syms()
    if at:
        # the minimisation of these iterations
        c.ncall += 1
        tag, fails = "@%d" % c.ncall, ir.lt(ir.ZERO, ir.app("fails@%d" % c.ncall, at, "R"))
    else:
        tag, at, fails = "", [ir.num(k)], ir.sym("fails!%d" % k, "B")
    f = dict(draw=draw, at=at, rec=rec, fixed=PySeq(list(rec.read("fixed").segs)), bounds=PySeq(list(rec.read("bounds").segs)),
             fcn=rec.read("fcn"), x0=copy_arr(x0), hesse=hesse, fails=fails, failed=False, backend=rec.read("backend"))
    n = x0.shape[0]
    vec = lambda name: mkarr((n,), lambda i: ir.app(name + tag, at + [i], "R"), "f")
    # without the Hessian the errors may be those of any earlier minimisation
    f["values"], f["errors"] = vec("best"), vec("sigma" if hesse is True else "stale")
    f["minimum"] = ir.app("minimum" + tag, at, "R")
    # in a loop of unknown length there is no list of what happened
    e = f if c.loops else event("minimize", **f)
    for w in WATCH:
        w(e)
    if c.decide(fails):
        e["failed"] = True
        raise Raised(RuntimeError, ("minimisation failed",))
    e["success"] = ir.sym("succes!%d" % k, "B") if not tag else ir.lt(ir.ZERO, ir.app("success" + tag, at, "R"))
    return (copy_arr(e["values"]), copy_arr(e["errors"]), e["minimum"], e["success"])


# ------------------------------------------------- several processes, progress

def pickled(v, memo=None):
    """the copy another process works on (what belongs to the model is shared:
    it must not be changed at all)"""
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, tuple):
        r = tuple(pickled(x, memo) for x in v)
        return type(v)(*r) if hasattr(v, "_fields") else r
    if isinstance(v, Arr):
        r = copy_arr(v)
    elif isinstance(v, PySeq):
        r = PySeq([One(pickled(s.v, memo)) if isinstance(s, One) else s for s in v.segs], v.kind)
    elif isinstance(v, core.Obj) and "templates" not in v.cls.__module__:
        r = core.Obj(v.cls)
        memo[id(v)] = r
        for a, x in v.attrs.items():
            r.write(a, pickled(x, memo))
        return r
    else:
        return v
    memo[id(v)] = r
    return r


def m_pool(args, kwargs):
    need_args("Pool", args, kwargs, ("processes",))
    return Opaque("pool")


def pool_map(ordered, star=False):
    def m(p, args, kwargs):
        need_args("Pool.map", args, kwargs, ("func", "iterable", "chunksize"))
        fn, it = arg(args, kwargs, 0, "func"), arg(args, kwargs, 1, "iterable")
        s = PySeq(list(interp.list_of(it).segs))
        n = s.length()
        k = len(npmodel.events("pool"))
        value = lambda i: ir.app("pool!%d" % k, [ir.lift(i)], "R")
        order = (lambda i: i) if ordered else (lambda i: ir.app("poolorder!%d" % k, [ir.lift(i)], "I"))
        frozen = PySeq([One(pickled(x.v)) if isinstance(x, One) else x for x in s.segs])
        for x in s.segs:
            if isinstance(x, Rep):
                # the elements are what they are now, not what they become
                frozen.segs[s.segs.index(x)] = Rep(x.sym, x.n, [One(pickled(y.v)) if isinstance(y, One) else npmodel._u("tasks") for y in x.segs])
        event("pool", fn=fn, args=frozen, n=n, value=value, star=star)
        return PySeq([core.many(n, lambda i: value(order(i)))])
    return m


for _n, _o, _s in (("imap", True, False), ("map", True, False), ("starmap", True, True), ("imap_unordered", False, False)):
    METHODS[("pool", _n)] = pool_map(_o, _s)
for _n in ("close", "join", "terminate"):
    METHODS[("pool", _n)] = lambda p, a, k: None


def pool_attr(v, name):
    if ("pool", name) in METHODS:
        return interp.Bound(("pool", name), v)
    raise Unsupported("%s of a pool of processes" % name)


ATTRS["pool"] = pool_attr


def task(e, i):
    """run task i of a pool event in its own process: -> value or Raised"""
    a = pickled(core.seq_at(e["args"], i))
    return interp.call(e["fn"], tuple(a) if e["star"] else (a,), {})


def m_tqdm(args, kwargs):
    if len(args) != 1:
        raise Unsupported("progress bar without a sequence")
    return args[0]


import multiprocessing as _mp  # noqa: E402
model(_mp.Pool)(m_pool)
try:
    import tqdm as _tqdm
    model(_tqdm.tqdm)(m_tqdm)
    model(_tqdm.trange)(lambda a, k: interp.call(range, a[:1] if len(a) == 1 else npmodel._u("trange"), {}))
except ImportError:
    pass
