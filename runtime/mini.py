"""C14 - C18: fit results, minimizers, fitter, toy studies"""
import logging

import numpy as np
import scipy.optimize

from .common import *
from . import model as M

BACKENDS = ["scipy", "iminuit"]


# ---------------------------------------------------------------- C14

class C14:
    @staticmethod
    def gen(rng, i):
        n = rng.size(1, 6)
        names = ["%s_yield" % chr(97 + k % 26) + ("" if k < 26 else str(k)) for k in range(n)] if rng.chance(0.5) else ["p%d" % k for k in range(n)]
        if rng.chance(0.3):
            names[-1] = rng.pick("0", "1", "", "True", "p")
            names = list(dict.fromkeys(names))
        n = len(names)
        return dict(names=names, values=rng.reals(n, -100, 100), errors=[rng.uniform(0, 5) for _ in range(n)], d=rng.pick(1, -1, 3), order=rng.pick(0, 1))

    @staticmethod
    def check(s):
        from templatefitter.minimizer import Parameters
        from templatefitter.utility import id_to_index
        names = list(s["names"])
        n = len(names)
        p = Parameters(names)
        q = Parameters(list(names))
        close("zero", p.values, np.zeros(n), what="values of a new result")
        close("zero", p.errors, np.zeros(n), what="errors of a new result")
        close("zero", p.covariance, np.zeros((n, n)), what="covariance of a new result")
        close("zero", p.correlation, np.zeros((n, n)), what="correlation of a new result")
        same("num_params", p.num_params, n, "num_params")
        same("names", list(p.names), names, "names")
        v, e = np.array(s["values"]), np.array(s["errors"])

        def look(v, e, tag):
            for i, nm in enumerate(names):
                for k in (nm, i):
                    close("lookup", p.get_param_value(k), v[i], what="value of %r %s" % (k, tag))
                    close("lookup", p.get_param_error(k), e[i], what="error of %r %s" % (k, tag))
                    a = p[k]
                    same("lookup", len(a), 2, "number of entries of p[%r]" % k)
                    close("lookup", a[0], v[i], what="p[%r][0] %s" % (k, tag))
                    close("lookup", a[1], e[i], what="p[%r][1] %s" % (k, tag))
                    same("lookup", p.param_id_to_index(k), i, "index of %r" % k)
                    same("lookup", id_to_index(names, k), i, "index of %r" % k)
            close("readback", p.values, v, what="values " + tag)
            close("readback", p.errors, e, what="errors " + tag)

        look(np.zeros(n), np.zeros(n), "of a new result")
        if s["order"]:
            p.errors = e.copy()
            p.values = v.copy()
        else:
            p.values = v.copy()
            p.errors = e.copy()
        look(v, e, "after assignment")
        bad = [n, n + 1, -1, -n, -n - 1, "no such name", None, 0.0, 1.5, names[0] + "x", (0,), [0], b"a"]
        for b in bad:
            if isinstance(b, str) and b in names:
                continue
            for what, fn in (("get_param_value", p.get_param_value), ("get_param_error", p.get_param_error), ("[]", p.__getitem__), ("param_id_to_index", p.param_id_to_index)):
                rejects("reject_id", lambda: fn(b), "%s(%r) with %d parameters" % (what, b, n))
        m = max(n + s["d"], 0)
        if m != n:
            rejects("reject_length", lambda: setattr(p, "values", np.ones(m)), "%d values for %d parameters" % (m, n))
            rejects("reject_length", lambda: setattr(p, "errors", np.ones(m)), "%d errors for %d parameters" % (m, n))
        look(v, e, "after rejected assignments")
        p.covariance = np.diag(e)
        p.correlation = np.eye(n)
        close("readback", p.covariance, np.diag(e), what="covariance")
        close("readback", p.correlation, np.eye(n), what="correlation")
        look(v, e, "after assigning matrices")
        close("independent", q.values, np.zeros(n), what="values of another result")
        close("independent", q.errors, np.zeros(n), what="errors of another result")
        close("independent", q.covariance, np.zeros((n, n)), what="covariance of another result")
        v2 = p.values
        v2[0] = 7.5
        close("independent", q.values, np.zeros(n), what="values of another result")
        w = v.copy()
        w[0] = 7.5
        close("lookup", p.get_param_value(names[0]), p.values[0], what="value by name and array entry")


# ---------------------------------------------------------------- C15

def raw_minuit(f, x0, fixed, bounds):
    """what MINUIT itself makes of the problem -> point, covariance (None without one)"""
    import iminuit
    n = len(x0)
    m = iminuit.Minuit.from_array_func(f, x0.copy(), error=0.05 * x0, errordef=0.5, fix=[j in fixed for j in range(n)], limit=[bounds.get(j) for j in range(n)])
    m.migrad()
    try:
        cov = np.asarray(m.np_matrix(correlation=False, skip_fixed=False))
    except Exception:
        cov = None
    return np.array(m.np_values()), cov


def raw_slsqp(f, x0, fixed, bounds):
    """does scipy's optimiser report success for the problem?"""
    n = len(x0)
    cons = [{"type": "eq", "fun": lambda x, j=j: x[j] - x0[j]} for j in fixed]
    return bool(scipy.optimize.minimize(f, x0.copy(), method="SLSQP", bounds=[bounds.get(j, (None, None)) for j in range(n)], constraints=cons).success)


class C15:
    @staticmethod
    def gen(rng, i):
        n = rng.pick(1, 2, 3, 3, 4, 5, rng.randint(2, 7))
        a = np.array(rng.spd(n, 1.0)) + np.eye(n) * rng.uniform(0.5, 2)
        ops = []
        for _ in range(rng.randint(1, 4)):
            k = rng.pick("fix", "fix", "fix2", "bound", "bound", "release", "run", "bad")
            j = rng.randrange(n)
            w = rng.uniform(0.2, 2)
            ops.append(dict(op=k, j=j, byname=rng.chance(0.5), bound=rng.pick([-w, w], [None, w], [-w, None], [0.0, 2 * w], [None, None])))
        ops.append(dict(op="run", j=0, byname=False, bound=None))
        return dict(backend=BACKENDS[i % 2], H=a.tolist(), c=rng.reals(n, -3, 3), k=rng.real(-10, 10), x0=[rng.pick(rng.uniform(-2, 2), 0.0, 1.0) for _ in range(n)], ops=ops, hesse=rng.chance(0.3))

    @staticmethod
    def check(s):
        from templatefitter.minimizer import minimizer_factory
        H, c, k = np.array(s["H"]), np.array(s["c"]), s["k"]
        n = len(c)
        names = ["par_%d" % i for i in range(n)]

        def f(x):
            d = np.asarray(x, dtype=float) - c
            return 0.5 * d @ H @ d + k

        name = s["backend"].upper() if s["hesse"] else s["backend"]
        mini = minimizer_factory(name, f, names)
        other = minimizer_factory(s["backend"], f, list(names))
        x0 = np.array(s["x0"])
        fixed, bounds = set(), {}
        rejects("unknown_backend", lambda: minimizer_factory("nope", f, names), "an unknown back end")
        for op in s["ops"]:
            pid = names[op["j"]] if op["byname"] else op["j"]
            if op["op"] == "fix":
                mini.set_param_fixed(pid)
                fixed.add(op["j"])
            elif op["op"] == "fix2":
                for q in {op["j"], (op["j"] + 1) % n, (op["j"] + 2) % n}:
                    mini.set_param_fixed(names[q] if op["byname"] else q)
                    fixed.add(q)
            elif op["op"] == "bound":
                b = op["bound"]
                x = x0[op["j"]]
                b = tuple(None if z is None else z + x for z in b)     # the start lies within the bounds
                if s["backend"] == "iminuit" and b[0] == x:
                    b = (x - 0.1, b[1])
                mini.set_param_bounds(pid, b)
                bounds[op["j"]] = b
            elif op["op"] == "release":
                mini.release_params()
                fixed.clear()
            elif op["op"] == "bad":
                for b in (n, "nope", -1, None):
                    rejects("unknown_param", lambda: mini.set_param_fixed(b), "fixing %r" % (b,))
                    rejects("unknown_param", lambda: mini.set_param_bounds(b, (0, 1)), "bounding %r" % (b,))
            else:
                C15.run(s, mini, f, H, c, k, x0, fixed, bounds, names)
        # nothing leaked to an independent minimizer
        C15.run(s, other, f, H, c, k, x0, set(), {}, names)

    @staticmethod
    def run(s, mini, f, H, c, k, x0, fixed, bounds, names):
        n = len(c)
        arg = x0.copy()
        kw = dict(get_hesse=s["hesse"]) if s["backend"] == "scipy" and not (s["hesse"] and n % 2) else {}
        try:
            r = mini.minimize(arg, verbose=0, **kw)
        except RuntimeError:
            if len(fixed) == n or any(j in fixed for j in bounds):
                return
            if s["backend"] == "scipy" and all(raw_slsqp(f, x0, o, bounds) for o in (sorted(fixed), sorted(fixed, reverse=True))):
                raise Violated("optimum", "no result, although the optimiser finds the minimum with parameters %s fixed and bounds %s" % (sorted(fixed), bounds))
            raise Skip()
        unchanged("start_unmodified", arg, x0, "the starting vector")
        x = np.array(r.params.values, dtype=float)
        same("shape", x.shape, (n,), "shape of the result")
        for j in fixed:
            close("fixed", x[j], x0[j], rtol=1e-7, atol=1e-7, what="fixed parameter %d" % j)
        for j, (lo, hi) in bounds.items():
            true("bounds", (lo is None or x[j] >= lo - 1e-7 * (1 + abs(lo))) and (hi is None or x[j] <= hi + 1e-7 * (1 + abs(hi))), "parameter %d is %r outside %r" % (j, x[j], (lo, hi)))
        close("min_value", r.fcn_min_val, f(x), rtol=1e-7, atol=1e-8, what="reported minimum")
        close("min_value", mini.fcn_min_val, f(x), rtol=1e-7, atol=1e-8, what="fcn_min_val of the minimizer")
        if not r.succes:
            true("success", s["backend"] != "scipy", "a minimisation without error is not reported as a success")
            raise Skip()
        # reference optimum
        free = [j for j in range(n) if j not in fixed]
        if free:
            def g(y):
                z = x0.copy()
                z[free] = y
                return f(z)

            def dg(y):
                z = x0.copy()
                z[free] = y
                return (H @ (z - c))[free]
            ref = scipy.optimize.minimize(g, x0[free], jac=dg, method="L-BFGS-B", bounds=[bounds.get(j, (None, None)) for j in free], options=dict(ftol=1e-14, gtol=1e-10))
            if not f(x) <= ref.fun + 2e-3 * (1 + abs(ref.fun)):
                if s["backend"] == "iminuit":
                    raw = raw_minuit(f, x0, fixed, bounds)[0]
                    if f(raw) > ref.fun + 1e-3 * (1 + abs(ref.fun)):
                        raise Skip()        # MINUIT itself does not find it
                raise Violated("optimum", "value %g at the reported point, optimum %g" % (f(x), ref.fun))
            nb = [j for j in range(n) if j not in bounds or bounds[j] == (None, None)]
            far = abs(f(x) - ref.fun) < 1e-3
        else:
            nb = []
        if s["backend"] == "scipy" and s["hesse"]:
            inv = np.linalg.inv(H)
            close("covariance", r.params.covariance, inv, rtol=1e-5, atol=1e-6, what="covariance")
            close("covariance", r.params.errors, np.sqrt(np.diag(inv)), rtol=1e-5, atol=1e-6, what="errors")
            d = np.sqrt(np.diag(inv))
            close("covariance", r.params.correlation, inv / np.outer(d, d), rtol=1e-5, atol=1e-6, what="correlation")
        if s["backend"] == "iminuit":
            cov = np.asarray(r.params.covariance)
            same("covariance", cov.shape, (n, n), "shape of the covariance")
            same("covariance", np.shape(r.params.correlation), (n, n), "shape of the correlation")
            if not [j for j in bounds if bounds[j] != (None, None)] and free:
                inv = np.zeros((n, n))
                inv[np.ix_(free, free)] = np.linalg.inv(H[np.ix_(free, free)])
                dd = np.sqrt(np.abs(np.diag(inv)))
                off = lambda q: np.max(np.abs(q - inv) - 1e-9 - 1e-3 * np.outer(dd, dd)) / np.max(dd) ** 2
                if off(cov) > 0.1:
                    raw = raw_minuit(f, x0, fixed, bounds)[1]
                    if raw is not None and off(raw) < 0.01:
                        raise Violated("covariance", "covariance %s, inverse Hessian %s" % (cov.tolist(), inv.tolist()))
                d = np.sqrt(np.diag(cov))
                for a in free:
                    close("covariance", r.params.errors[a], d[a], rtol=1e-4, what="error %d" % a)
                    for b in free:
                        close("covariance", r.params.correlation[a][b], cov[a][b] / d[a] / d[b], rtol=1e-4, atol=1e-6, what="correlation")
        for j, nm in enumerate(names):
            close("lookup", r.params[nm][0], x[j], what="value by name")
        close("lookup", mini.param_values, x, what="param_values")
        # results are those of this run, also on the minimizer itself
        close("lookup", mini.param_errors, r.params.errors, what="param_errors")


# ------------------------------------------------------------ small models

def gen_fit_model(rng, max_ch=2, nui_err=True):
    """models that can be fitted quickly: templates with clearly different shapes, data near the expectation"""
    np_ = rng.pick(1, 2, 2)
    procs = ["signal", "bkg"][:np_] if rng.chance(0.7) else ["bkg", "signal"][:np_]
    chans = []
    for k in range(rng.pick(1, 1, max_ch)):
        nb = rng.pick(2, 3)
        edges = rng.edges(nb)
        ts = []
        mine = procs[:]
        if rng.chance(0.3):
            mine = mine[::-1]
        if k and rng.chance(0.3):
            mine = mine[:1]
        shape = [[6.0, 3.0, 1.0], [1.0, 2.0, 7.0]]
        data = np.zeros(nb)
        for p in mine:
            sh = np.array(shape[procs.index(p)][:nb] if nb == 3 else ([7.0, 2.0], [2.0, 6.0])[procs.index(p)])
            c = sh * rng.uniform(15, 30)
            e = (c * rng.uniform(0.3, 1.0)).tolist()
            eff = rng.pick(1.0, rng.uniform(0.5, 1.0))
            ts.append(dict(proc=p, hist=dict(counts=c.tolist(), errs_sq=e), covs=[], eff=eff))
            data += c * rng.uniform(0.6, 1.4)
        chans.append(dict(name=["e", "mu"][k], geo=dict(dim=1, mode="edges", edges=edges), templates=ts,
                          data=dict(counts=[float(round(x)) for x in data], errs_sq=None)))
    s = dict(processes=procs, channels=chans, constraints=[])
    if rng.chance(0.25):
        s["constraints"] = [dict(proc=procs[0], value=rng.uniform(100, 300), error=rng.uniform(10, 60))]
    return s


def polished(m, x, fixed, bounds):
    """reference minimum of the likelihood from x, with the same constraints"""
    free = [j for j in range(len(x)) if j not in fixed]
    if not free:
        return m.nll(x), x

    def g(y):
        z = x.copy()
        z[free] = y
        e = m.expectation(z)
        if any(np.any(v <= 0) for v in e.values()):
            return 1e10
        return m.nll(z)
    r = scipy.optimize.minimize(g, x[free], method="L-BFGS-B", bounds=[bounds.get(j, (None, None)) for j in free])
    z = x.copy()
    z[free] = r.x
    if r.fun > g(x[free]):
        return m.nll(x), x
    return r.fun, z


def backend_reaches(backend, m, x0, fixed, bounds, ref):
    """does the trusted optimiser itself reach the reference minimum (without the code under test)?"""
    x0 = np.array(x0, dtype=float)
    try:
        if backend == "iminuit":
            x, _ = raw_minuit(m.mct.create_nll(), x0, fixed, bounds)
        else:
            cons = [dict(type="eq", fun=(lambda z, j=j: z[j] - x0[j])) for j in sorted(fixed)]
            r = scipy.optimize.minimize(m.mct.create_nll(), x0.copy(), method="SLSQP", bounds=[bounds.get(j, (None, None)) for j in range(len(x0))], constraints=cons)
            if not r.success:
                return False
            x = r.x
        return m.nll(x) <= ref + 5e-3
    except Exception:
        return False


def settings(rng, s, n):
    np_ = len(s["processes"])
    out = dict(fixed=[], bounds=[], fixnui=rng.chance(0.4), order=rng.chance(0.5))
    names = None
    for _ in range(rng.pick(0, 0, 1, 1, 2)):
        out["fixed"].append([rng.pick(rng.randrange(np_, n), rng.randrange(n)), rng.chance(0.5)])
    for _ in range(rng.pick(0, 0, 1, 2)):
        j = rng.randrange(n)
        w = rng.uniform(20, 100) if j < np_ else rng.uniform(0.2, 1.5)
        out["bounds"].append([j, rng.chance(0.5), rng.pick([-w, w], [None, w], [-w, None])])
    out["rebound"] = rng.chance(0.3)
    if out["fixed"] and rng.chance(0.3):
        out["fixed"].append(out["fixed"][0])
    return out


def apply_settings(fitter, m, st):
    """-> (fixed indices, bounds by index)"""
    names = m.names()
    fixed, bounds = set(), {}
    x0 = m.mct.create_nll().x0
    for j, byname in st["fixed"]:
        fitter.set_parameter_fixed(names[j] if byname else j)
        fixed.add(j)
    for j, byname, b in st["bounds"]:
        if j in fixed:
            continue
        if j in bounds:
            continue
        b = tuple(None if z is None else float(x0[j]) + z for z in b)
        if st.get("rebound"):                # the last bounds count
            fitter.set_parameter_bounds(names[j] if byname else j, (float(x0[j]) + 3.0, float(x0[j]) + 7.0))
        fitter.set_parameter_bounds(names[j] if byname else j, b)
        bounds[j] = b
    return fixed, bounds


def within(clause, x, x0, fixed, bounds):
    for j in fixed:
        close(clause, x[j], x0[j], rtol=1e-6, atol=1e-6, what="fixed parameter %d" % j)
    for j, (lo, hi) in bounds.items():
        t = 1e-6 * (1 + abs(x[j]))
        true(clause, (lo is None or x[j] >= lo - t) and (hi is None or x[j] <= hi + t), "parameter %d is %r outside %r" % (j, x[j], (lo, hi)))


# ---------------------------------------------------------------- C16

class C16:
    @staticmethod
    def gen(rng, i):
        s = gen_fit_model(rng)
        n = len(s["processes"]) + sum(len(geo_edges(c["geo"])[0]) - 1 for c in s["channels"] for t in c["templates"])
        s["backend"] = BACKENDS[i % 2]
        s["standing"] = settings(rng, s, n)
        s["fits"] = [dict(update=rng.chance(0.5), fixnui=rng.chance(0.35), limits=rng.pick(None, None, [-0.4, 0.4], [-1.0, 1.0])) for _ in range(rng.pick(1, 2, 3))]
        s["standing_nui"] = rng.chance(0.2)
        s["newdata"] = rng.uniform(0.8, 1.2)
        s["late"] = rng.pick("none", "data", "constraint", "yield")
        return s

    @staticmethod
    def check(s):
        from templatefitter import TemplateFitter
        m = M.Model(s)
        fitter = TemplateFitter(m.mct, s["backend"])
        fixed, bounds = apply_settings(fitter, m, s["standing"])
        if s["standing_nui"]:
            fitter.fix_nui_params()
        np_, n = m.nproc, m.size()
        done = 0
        for k, ft in enumerate(s["fits"]):
            if k == 1 and s["late"] == "data":
                for ci, c in enumerate(m.ref):
                    m.add_data(ci, dict(counts=[float(round(x * s["newdata"])) for x in c["data"]], errs_sq=None))
            if k == 1 and s["late"] == "constraint":
                cn = dict(proc=s["processes"][-1], value=float(m.mct.process_yields[-1]) * 0.95, error=25.0)
                m.mct.add_gaussian_constraint_on_yield(cn["proc"], cn["value"], cn["error"])
                m.s = dict(m.s, constraints=m.s["constraints"] + [cn])
            if k == 1 and s["late"] == "yield":
                m.mct.set_yield(s["processes"][0], float(m.mct.process_yields[0]) * 1.05)
            nll = m.mct.create_nll()
            x0 = np.array(nll.x0)
            fx, bd = set(fixed), dict(bounds)
            if ft["limits"] is not None:
                for j in range(np_, n):
                    if j not in bd:
                        bd[j] = tuple(ft["limits"])
            if ft["fixnui"] or s["standing_nui"]:
                fx |= set(range(np_, n))
            st = m.state()
            kw = dict(nui_param_limits=tuple(ft["limits"])) if ft["limits"] is not None else {}
            if any(not ((lo is None or x0[j] >= lo) and (hi is None or x0[j] <= hi)) for j, (lo, hi) in bd.items()):
                raise Skip()
            try:
                r = fitter.do_fit(update_templates=ft["update"], get_hesse=False, verbose=0, fix_nui_params=ft["fixnui"], **kw)
            except RuntimeError:
                same_state_ok = True
                M.same_state("unchanged_after_failure", m.state(), st)
                raise Skip()
            x = np.array(r.params.values, dtype=float)
            same("layout", list(r.params.names), m.names(), "parameter names of the result")
            if not np.all(np.isfinite(x)) or not r.succes or any(np.any(v <= 0) for v in m.expectation(x).values()):
                raise Skip()
            within("constraints", x, x0, fx, bd)
            # nothing else is held: checked by comparing with the reference optimum
            close("min_value", r.fcn_min_val, m.nll(x), rtol=1e-6, atol=1e-6, what="reported minimum")
            ref, xr = polished(m, x, fx, bd)
            if not m.nll(x) <= ref + 0.02 and not backend_reaches(s["backend"], m, x0, fx, bd, ref):
                raise Skip()
            true("minimised", m.nll(x) <= ref + 0.02, "likelihood %g at the result, %g can be reached" % (m.nll(x), ref))
            if ft["update"]:
                for c, t, sl in m.layout()[0]:
                    p = np.concatenate(([x[s["processes"].index(t["proc"])] * t["eff"]], x[sl]))
                    close("updated", t["t"].params, p, what="params of %s/%s" % (c["name"], t["proc"]))
            else:
                M.same_state("not_updated", m.state(), st)
            for c in m.ref:
                close("data_unchanged", np.asarray(m.mct.channels[c["name"]].data_bin_counts).ravel(), c["data"], what="data")
            done += 1


# ---------------------------------------------------------------- C17

class C17:
    @staticmethod
    def gen(rng, i):
        s = gen_fit_model(rng, max_ch=1 if rng.chance(0.7) else 2)
        n = len(s["processes"]) + sum(len(geo_edges(c["geo"])[0]) - 1 for c in s["channels"] for t in c["templates"])
        s["backend"] = BACKENDS[i % 2]
        s["standing"] = settings(rng, s, n)
        s["standing"]["bounds"] = [b for b in s["standing"]["bounds"] if b[0] >= len(s["processes"])]
        s["mode"] = "profile" if i % 8 == 7 else "significance"
        s["proc"] = rng.pick(*s["processes"])
        s["fixnui"] = rng.chance(0.4)
        s["standing_nui"] = rng.chance(0.25)
        s["deficit"] = rng.chance(0.15)
        s["param"] = rng.pick(rng.randrange(len(s["processes"])), rng.randrange(n))
        s["byname"] = rng.chance(0.5)
        s["points"] = rng.pick(3, 4, 2)
        s["sigma"] = rng.pick(1.0, 2.0, rng.uniform(0.5, 1.5))
        s["subtract"] = rng.chance(0.6)
        s["cpu"] = rng.pick(1, 2)
        s["small"] = rng.pick(1.0, 1.0, 0.2)
        return s

    @staticmethod
    def check(s):
        from templatefitter import TemplateFitter
        s = json.loads(json.dumps(s))
        for c in s["channels"]:
            if s["small"] != 1.0:       # small signals: significances of order one
                tot = np.zeros(len(c["data"]["counts"]))
                for t in c["templates"]:
                    h = np.array(t["hist"]["counts"])
                    tot += h * (s["small"] if t["proc"] == s["proc"] else 1.0)
                c["data"]["counts"] = [float(round(x)) for x in tot]
            if s["deficit"] and len(c["templates"]) > 1:
                tot = np.zeros(len(c["data"]["counts"]))
                for t in c["templates"]:
                    h = np.array(t["hist"]["counts"])
                    tot += h * (-0.25 if t["proc"] == s["proc"] else 1.5)
                c["data"]["counts"] = [float(max(1, round(x))) for x in tot]
        m = M.Model(s)
        fitter = TemplateFitter(m.mct, s["backend"])
        iy = s["processes"].index(s["proc"])
        s["standing"]["fixed"] = [f for f in s["standing"]["fixed"] if f[0] != iy and f[0] != s["param"]]
        s["standing"]["bounds"] = [f for f in s["standing"]["bounds"] if f[0] != s["param"]]
        fixed, bounds = apply_settings(fitter, m, s["standing"])
        if s["standing_nui"]:
            fitter.fix_nui_params()
        n, np_ = m.size(), m.nproc
        fx = set(fixed)
        if s["fixnui"] or s["standing_nui"]:
            fx |= set(range(np_, n))
        st = m.state()
        x0 = np.array(m.mct.create_nll().x0)
        if s["mode"] == "significance":
            C17.significance(s, m, fitter, iy, fx, bounds, x0)
        else:
            C17.profile(s, m, fitter, fx, bounds, x0)
        M.same_state("templates_unchanged", m.state(), st)
        close("templates_unchanged", m.mct.create_nll().x0, x0, what="x0")
        # the standing constraints are still those of before, no more and no less
        try:
            r = fitter.do_fit(update_templates=False, get_hesse=False, verbose=0)
        except RuntimeError:
            return
        x = np.array(r.params.values)
        if not r.succes or not np.all(np.isfinite(x)) or any(np.any(v <= 0) for v in m.expectation(x).values()):
            return
        f2 = set(fixed) | (set(range(np_, n)) if s["standing_nui"] else set())
        within("constraints_kept", x, x0, f2, bounds)
        ref, xr = polished(m, x, f2, bounds)
        if not m.nll(x) <= ref + 0.02 and not backend_reaches(s["backend"], m, x0, f2, bounds, ref):
            return
        true("constraints_kept", m.nll(x) <= ref + 0.02, "a later fit reaches %g, without further constraints %g" % (m.nll(x), ref))

    @staticmethod
    def significance(s, m, fitter, iy, fx, bounds, x0):
        if len(s["processes"]) < 2 or any(len(c["templates"]) < 2 for c in s["channels"]):
            raise Skip()        # expectation zero without the process
        try:
            z = fitter.get_significance(s["proc"], verbose=0, fix_nui_params=s["fixnui"])
        except RuntimeError:
            raise Skip()
        v1, x1 = polished(m, x0, fx, bounds)
        y = x0.copy()
        y[iy] = 0.0
        v0, xx0 = polished(m, y, fx | {iy}, bounds)
        if x1[iy] < -0.5:
            if not np.isfinite(z):
                raise Skip()
            close("negative_is_zero", z, 0.0, what="significance at best-fit yield %g" % x1[iy])
            return
        q = 2 * (v0 - v1)
        if x1[iy] < 0.5 or q < 0.3 or not np.isfinite(q):
            raise Skip()
        if not np.isfinite(z):
            raise Skip()        # the optimiser left the region of positive expectations
        if not abs(z * z - q) <= 0.1 + 0.01 * q and not (backend_reaches(s["backend"], m, x0, fx, bounds, v1) and backend_reaches(s["backend"], m, y, fx | {iy}, bounds, v0)):
            raise Skip()
        true("significance", abs(z * z - q) <= 0.1 + 0.01 * q, "significance %g, expected %g" % (z, np.sqrt(q)))

    @staticmethod
    def profile(s, m, fitter, fx, bounds, x0):
        j = s["param"]
        if j in fx:
            raise Skip()
        names = m.names()
        pid = names[j] if s["byname"] else j
        try:
            pts, vals, par = fitter.profile(pid, num_cpu=s["cpu"], num_points=s["points"], sigma=s["sigma"], subtract_min=s["subtract"], fix_nui_params=s["fixnui"])
        except RuntimeError:
            raise Skip()
        pts, vals, par = np.array(pts), np.array(vals), np.array(par)
        k = s["points"]
        same("points", (pts.shape, vals.shape, par.shape), ((k,), (k,), (k,)), "shapes")
        if not np.all(np.isfinite(pts)):
            raise Skip()
        vmin, xm = polished(m, x0, fx, bounds)
        if any(np.any(v <= 0) for v in m.expectation(xm).values()):
            raise Skip()
        close("points", np.diff(pts), np.full(k - 1, (pts[-1] - pts[0]) / (k - 1)), rtol=1e-6, what="spacing of the scan points")
        err = (pts[-1] - pts[0]) / 2 / s["sigma"]
        mid = (pts[-1] + pts[0]) / 2
        # at the best fit: centre and width of the scan
        if not backend_reaches(s["backend"], m, x0, fx, bounds, vmin):
            raise Skip()
        if s["backend"] == "iminuit":
            rx = raw_minuit(m.mct.create_nll(), x0, fx, bounds)[0]
            if not abs(rx[j] - xm[j]) <= 0.03 * max(err, 1e-9) + 5e-4 * abs(xm[j]):
                raise Skip()            # MINUIT itself stops somewhere else
        true("points", abs(mid - xm[j]) <= 0.05 * max(err, 1e-9) + 1e-3 * abs(xm[j]), "scan centred at %g, best fit %g" % (mid, xm[j]))
        if not bounds and s["backend"] == "scipy":
            h = C17.hesse(m, xm)
            e = np.sqrt(np.abs(np.linalg.inv(h)[j, j]))
            true("width", abs(err - e) <= 0.05 * e, "scan over +-%g standard deviations of %g, expected %g" % (s["sigma"], err, e))
        off = 0.0 if s["subtract"] else vmin
        want = 0.5 * ((pts - mid) / err) ** 2 + off
        close("parabola", par, want, rtol=1e-3, atol=5e-3, what="parabola")
        for p, v in zip(pts, vals):
            y = xm.copy()
            y[j] = p
            if any(np.any(q <= 0) for q in m.expectation(y).values()):
                continue
            r, xr = polished(m, y, fx | {j}, bounds)
            if not np.isfinite(v):
                continue          # failed minimisations are reported as nan
            lo = r - vmin + off - 0.03 - 0.01 * abs(r - vmin)
            hi = r - vmin + off + (0.05 if s["backend"] == "scipy" else 0.3) + 0.02 * abs(r - vmin)
            if v > hi and not backend_reaches(s["backend"], m, y, fx | {j}, bounds, r):
                continue
            true("profile", lo <= v <= hi, "profile value %g at %g, expected %g" % (v, p, r - vmin + off))

    @staticmethod
    def hesse(m, x):
        n = len(x)
        h = np.zeros((n, n))
        d = np.maximum(1e-3, 1e-3 * np.abs(x))
        for a in range(n):
            for b in range(a, n):
                t = 0.0
                for sa in (1, -1):
                    for sb in (1, -1):
                        y = x.copy()
                        y[a] += sa * d[a]
                        y[b] += sb * d[b]
                        t += sa * sb * m.nll(y)
                h[a, b] = h[b, a] = t / (4 * d[a] * d[b])
        return h


# ---------------------------------------------------------------- C18

class C18:
    @staticmethod
    def gen(rng, i):
        s = gen_fit_model(rng, max_ch=rng.pick(1, 2))
        s["backend"] = BACKENDS[i % 2]
        s["n"] = rng.pick(1, 2, 3, 4)
        s["tries"] = rng.pick(1, 2, 3)
        s["fail"] = sorted({rng.randrange(8) for _ in range(rng.pick(0, 0, 1, 2, 4))})
        s["second"] = rng.pick(0, 0, 1, 2)
        s["linear"] = rng.pick(None, None, dict(proc=rng.pick(*s["processes"]), limits=[rng.uniform(60, 120), rng.uniform(150, 250)], points=rng.pick(2, 3), n=rng.pick(1, 2)))
        s["seed"] = rng.randrange(10 ** 6)
        s["yscale"] = rng.pick(1.0, 1.2)
        return s

    @staticmethod
    def check(s):
        from templatefitter import ToyStudy, TemplateFitter
        m = M.Model(s)
        mct = m.mct
        if s["yscale"] != 1.0:
            mct.set_yield(s["processes"][0], float(mct.process_yields[0]) * s["yscale"])
        np.random.seed(s["seed"])
        rec = []
        fail = set(s["fail"])
        gen0, nll0 = mct.generate_toy_dataset, mct.create_nll

        def gen():
            d = gen0()
            rec.append((len(rec), {k: np.array(h.bin_counts) for k, h in d.items()}, [np.array(t["t"].params) for t in m.templates()]))
            return d

        class Failing:
            def __init__(self, nll):
                self._n = nll

            x0 = property(lambda self: self._n.x0)
            param_names = property(lambda self: self._n.param_names)

            def __call__(self, x, *a):
                if rec and rec[-1][0] in fail:
                    raise RuntimeError("planned failure")
                return self._n(x, *a)

        mct.generate_toy_dataset = gen
        mct.create_nll = lambda: Failing(nll0())
        if s["backend"] == "iminuit":
            fail.clear()        # exceptions do not pass through the library
        ts = ToyStudy(mct, s["backend"])
        for what in ("result_parameters", "result_uncertainties"):
            rejects("not_before", lambda: getattr(ts, what), what + " before the study", (RuntimeError,))
        rejects("not_before", lambda: ts.get_toy_results(s["processes"][0]), "results before the study", (RuntimeError,))
        rejects("not_before", lambda: ts.get_toy_result_pulls(s["processes"][0]), "pulls before the study", (RuntimeError,))
        params = [np.array(t["t"].params) for t in m.templates()]

        def expected(recs, tries, n, hesse=True):
            """data sets of the recorded experiments, or None if one exceeds the tries"""
            out, k, used = [], 0, 0
            for r in recs:
                used += 1
                if r[0] in fail:
                    k += 1
                    if k == tries:
                        return None, used
                    continue
                out.append(r)
                k = 0
                if len(out) == n:
                    break
            return out, used

        def refit(r, hesse=True):
            from templatefitter.histograms import Hist1d
            old = list(rec)
            for c in m.ref:
                mct.add_data(**{c["name"]: Hist1d.from_binned_data(r[1][c["name"]], geo_edges(c["geo"])[0])})
            save = set(fail)
            fail.clear()
            res = TemplateFitter(mct, s["backend"]).do_fit(update_templates=False, verbose=False, get_hesse=hesse, fix_nui_params=True)
            fail.update(save)
            return np.array(res.params.values), np.array(res.params.errors)

        for n in [s["n"]] + ([s["second"]] if s["second"] else []):
            start = len(rec)
            try:
                ts.do_experiments(n, s["tries"])
            except RuntimeError as e:
                exp, used = expected(rec[start:], s["tries"], n)
                if exp is not None and fail:
                    raise Violated("retries", "gave up although data set %d of %d tries should have been fitted: %s" % (used, s["tries"], e))
                if exp is not None:
                    raise Skip()
                return
            exp, used = expected(rec[start:], s["tries"], n)
            true("retries", exp is not None, "more failures in a row than tries, but no error")
            same("fresh_data", len(rec) - start, used, "number of data sets generated")
            same("rows", (len(ts.result_parameters), len(ts.result_uncertainties), len(exp)), (n, n, n), "number of recorded rows")
            for a, b in zip(m.templates(), params):
                close("templates_unchanged", a["t"].params, b, what="template parameters after the study")
            res, unc = np.array(ts.result_parameters), np.array(ts.result_uncertainties)
            for k, r in enumerate(exp):
                v, e = refit(r)
                close("row_is_fit", res[k], v, rtol=1e-6, atol=1e-6, what="row %d" % k)
                close("row_is_fit", unc[k], e, rtol=1e-4, atol=1e-6, what="uncertainties of row %d" % k)
            for i, p in enumerate(s["processes"]):
                a, b = ts.get_toy_results(p)
                close("results", a, res[:, i], what="results of %s" % p)
                close("results", b, unc[:, i], what="uncertainties of %s" % p)
                close("pulls", ts.get_toy_result_pulls(p), (res[:, i] - mct.get_yield(p)) / unc[:, i], what="pulls of %s" % p)
        ln = s["linear"]
        if ln and not fail:
            start = len(rec)
            try:
                pts, mean, std = ts.do_linearity_test(ln["proc"], tuple(ln["limits"]), n_points=ln["points"], n_exp=ln["n"])
            except RuntimeError:
                raise Skip()
            want = np.linspace(ln["limits"][0], ln["limits"][1], ln["points"])
            close("linearity", pts, want, what="scanned yields")
            same("linearity", len(rec) - start, ln["points"] * ln["n"], "number of experiments")
            i = s["processes"].index(ln["proc"])
            after = [np.array(t["t"].params) for t in m.templates()]
            for k, y in enumerate(want):
                vs = []
                for r in rec[start + k * ln["n"]: start + (k + 1) * ln["n"]]:
                    for t, p in zip(m.templates(), r[2]):
                        wp = np.concatenate(([y * t["eff"] if t["proc"] == ln["proc"] else t["counts"].sum()], np.zeros(len(t["counts"]))))
                        close("linearity", p, wp, what="parameters of %s while generating point %d" % (t["proc"], k))
                        t["t"].params = wp
                    vs.append(refit(r, False)[0][i])
                close("linearity", mean[k], np.mean(vs), rtol=1e-6, what="mean of the fitted yields at point %d" % k)
                close("linearity", std[k], np.std(vs), rtol=1e-5, atol=1e-6, what="deviation of the fitted yields at point %d" % k)
