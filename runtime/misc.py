"""C19, C20: statistics and utilities"""
import scipy.stats

from .common import *


class C19:
    @staticmethod
    def gen(rng, i):
        n = rng.size(1, 8, 400) if not rng.chance(0.05) else rng.randint(200, 900)
        e = [rng.pick(rng.uniform(0.1, 50), float(rng.randint(1, 20)), rng.uniform(1e-3, 1)) for _ in range(n)]
        kind = rng.pick("close", "close", "any", "equal", "zeros", "single")
        if kind == "equal":
            d = list(e)
        elif kind == "zeros":
            d = [0.0 if rng.chance(0.5) else float(rng.randint(0, 30)) for _ in e]
        elif kind == "single":
            d = list(e)
            d[rng.randrange(n)] = rng.uniform(0, 30)
        elif kind == "close":
            d = [max(0.0, float(round(x + rng.gauss(0, 1) * x ** 0.5))) for x in e]
        else:
            d = [rng.count() for _ in e]
        return dict(data=d, exp=e, dof=rng.pick(max(1, n - 1), n, rng.randint(1, 12)), shape2=rng.chance(0.15), ints=rng.chance(0.2))

    @staticmethod
    def check(s):
        from templatefitter import stats
        d, e = np.array(s["data"]), np.array(s["exp"])
        if s["ints"] and np.all(d == np.round(d)):
            d = d.astype(int)
        if s["shape2"]:
            d, e = d.reshape(1, -1), e.reshape(1, -1)
        dof = s["dof"]
        for what, fn, want in (
                ("pearson", stats.pearson_chi2_test, np.sum((d - e) ** 2 / e)),
                ("likelihood_ratio", stats.cowan_binned_likelihood_gof, 2 * np.sum(scipy.special.xlogy(d, d / e) + e - d))):
            a, b = d.copy(), e.copy()
            t, r, p = fn(a, b, dof)
            tol = 1e-9 * (1 + np.sum(np.abs(d) + e))
            true(what, abs(t - want) <= tol + 1e-9 * abs(want), "statistic %r, expected %r" % (t, want))
            close("per_dof", r, t / dof, what="statistic per degree of freedom")
            close("p_value", p, scipy.stats.chi2.sf(max(t, 0.0), dof), rtol=1e-4, atol=2e-6, what="p-value of %r with %d degrees of freedom" % (t, dof))
            true("non_negative", t >= -tol, "statistic %r" % t)
            if np.array_equal(d, e):
                true("zero_iff_equal", abs(t) <= tol, "statistic %r for data equal to expectation" % t)
            elif np.max(np.abs(d - e) / np.sqrt(e)) > 1e-2:
                true("zero_iff_equal", t > 0, "statistic %r although data and expectation differ" % t)
            unchanged("pure", a, d, "data")
            unchanged("pure", b, e, "expectation")
        u = np.sqrt(e) * (1 + np.arange(e.size).reshape(e.shape) % 3)
        v = u.copy()
        t, r, p = stats.default_chi2_test(d, e, v, dof)
        want = np.sum(((d - e) / u) ** 2)
        close("gaussian", t, want, what="statistic for given uncertainties")
        close("per_dof", r, t / dof, what="statistic per degree of freedom")
        close("p_value", p, scipy.stats.chi2.sf(t, dof), atol=1e-12, what="p-value of %r with %d degrees of freedom" % (t, dof))
        unchanged("pure", v, u, "uncertainties")


class C20:
    @staticmethod
    def gen(rng, i):
        n = rng.size(1, 6, 30)
        c = (np.array(rng.spd(n, rng.pick(1e-2, 1.0, 1e4))) + np.diag([rng.pick(1e-8, rng.uniform(1e-3, 10), 1e3) for _ in range(n)]))
        c = c * rng.pick(1.0, 1.0, 1.0, 1e-10, 1e-6, 1e8)
        m = rng.randint(0, 20)
        sizes = [rng.pick(0, 1, rng.randint(0, 6)) for _ in range(rng.randint(0, 5))]
        if rng.chance(0.4):
            sizes.insert(rng.randint(0, len(sizes)), None)
        k = rng.randint(1, 8)
        names = ["p%d" % j for j in range(k)]
        rng.shuffle(names)
        return dict(cov=c.tolist(), seq=rng.reals(m, -9, 9), sizes=sizes, kind=rng.pick("array", "list", "tuple", "generator"), names=names)

    @staticmethod
    def check(s):
        from templatefitter import utility as u
        c = np.array(s["cov"])
        d = np.diag(c)
        a = c.copy()
        r = u.cov2corr(a)
        unchanged("pure", a, c, "covariance matrix")
        close("corr", r, c / np.sqrt(np.outer(d, d)), what="correlation matrix")
        close("unit_diagonal", np.diag(r), np.ones(len(d)), what="diagonal of the correlation matrix")
        rr, v = np.array(r), d.copy()
        back = u.corr2cov(rr, v)
        u0 = float(np.max(d))
        close("roundtrip", back / u0, c / u0, rtol=1e-8, what="covariance from the correlation matrix")
        unchanged("pure", rr, r, "correlation matrix")
        unchanged("pure", v, d, "variances")
        w = d * 4.0
        close("corr2cov", u.corr2cov(r, w) / u0, 4.0 * c / u0, rtol=1e-8, what="covariance for scaled variances")
        seq, sizes = s["seq"], s["sizes"]
        arg = np.array(seq) if s["kind"] == "array" else tuple(seq) if s["kind"] == "tuple" else (x for x in seq) if s["kind"] == "generator" else list(seq)
        got = [np.asarray(x, dtype=float) for x in u.array_split_into(arg, list(sizes))]
        want, pos = [], 0
        for z in sizes:
            if z is None:
                want.append(seq[pos:])
                break
            want.append(seq[pos:pos + z])
            pos += z
        same("split", len(got), len(want), "number of pieces for sizes %s" % sizes)
        for j, (g, q) in enumerate(zip(got, want)):
            close("split", g, np.array(q, dtype=float), what="piece %d for sizes %s" % (j, sizes))
        for j, nm in enumerate(s["names"]):
            same("index", u.id_to_index(s["names"], nm), j, "index of %r" % nm)
            same("index", u.id_to_index(s["names"], j), j, "index of %r" % j)
        for bad in (len(s["names"]), -1, "q", None, 0.5):
            rejects("index", lambda: u.id_to_index(s["names"], bad), "identifier %r" % (bad,))
