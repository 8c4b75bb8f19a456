"""C03 - C06: templates"""
import numpy as np

from .common import *


def rel_errors(counts, cov):
    with np.errstate(all="ignore"):
        return np.where(counts != 0, np.sqrt(np.diag(cov)) / np.where(counts != 0, counts, 1.0), 1e-7)


def stat_cov(v):
    return np.diag(np.where(v == 0, 1e-14, v))


def fractions(counts, rel, nui):
    y = counts * (1 + nui * rel)
    t = y.sum()
    return np.zeros_like(y) if t == 0 else y / t


def well_conditioned(counts, rel, nui):
    y = counts * (1 + nui * rel)
    return not counts.any() or abs(y.sum()) > 1e-4 * np.abs(y).sum()


def gen_template(rng, dim=None, negative=False, maxbins=None, maxcovs=3):
    geo = gen_geometry(rng, dim=dim, maxbins=maxbins)
    n = int(np.prod(geo_shape(geo)))
    h = gen_hist(rng, geo, negative=negative)
    covs = []
    for _ in range(rng.pick(0, 0, 1, 2, rng.randint(0, maxcovs))):
        k = rng.randrange(4)
        sc = rng.pick(1e-3, 1.0, 100.0)
        covs.append(rng.spd(n, sc) if k < 2 else rng.psd1(n, sc ** 0.5) if k == 2 else np.diag([rng.uniform(0, 5) for _ in range(n)]).tolist())
    if "counts" in h and rng.chance(0.06):       # tiny contents: weights of order 1e-9
        h = dict(counts=[x * 1e-9 for x in h["counts"]], errs_sq=None if h["errs_sq"] is None else [x * 1e-18 for x in h["errs_sq"]])
        covs = []
    return dict(geo=geo, hist=h, covs=covs)


def cov_ok(counts, v, covs):
    """total covariance after each step well conditioned?"""
    c = stat_cov(v)
    for m in covs:
        c = c + np.array(m)
        d = np.sqrt(np.diag(c))
        if not np.all(d > 0):
            return False
        if np.linalg.cond(c / np.outer(d, d)) > 1e5:
            return False
    return True


def add_cov(t, m, dim):
    if dim == 1:
        t.add_cov_mat(m)
    else:
        fn = getattr(t, "add_cov_mat", None) or getattr(t, "_add_cov_mat", None)
        if fn is None:       # no public method for 2d templates besides add_variation
            raise Skip()
        fn(m)


def build(s, name="t", **kw):
    h = make_hist(s["geo"], s["hist"])
    t = make_template(name, s["geo"], h, **kw)
    c, v = hist_content(s["geo"], s["hist"])
    covs = []
    for m in s["covs"]:
        if cov_ok(c, v, covs + [m]):
            covs.append(m)
            add_cov(t, np.array(m), s["geo"]["dim"])
    cov = stat_cov(v) + sum([np.array(m) for m in covs], np.zeros((len(c), len(c))))
    return t, c, v, cov, covs


class C03:
    @staticmethod
    def gen(rng, i):
        s = gen_template(rng, dim=1 + i % 2, negative=rng.chance(0.3))
        n = int(np.prod(geo_shape(s["geo"])))
        s["points"] = [dict(y=rng.pick(0.0, 1.0, rng.uniform(0, 1e4), -rng.uniform(0, 10)),
                            nui=rng.pick([0.0] * n, rng.reals(n, -1, 1), rng.reals(n, -3, 3), [rng.real(-2, 2)] * n))
                       for _ in range(rng.randint(1, 3))]
        s["via"] = rng.pick("params", "parts")
        return s

    @staticmethod
    def check(s):
        t, c, v, cov, covs = build(s)
        shape = geo_shape(s["geo"])
        rel = rel_errors(c, cov)
        fresh = c.reshape(shape)
        if abs(c.sum()) > 1e-4 * np.abs(c).sum() or not c.any():
            close("fresh_reproduces", t.values, fresh, what="values of a new template")
            close("fresh_errors", t.errors, (rel * c).reshape(shape), what="errors of a new template")
        same("num_bins", t.num_bins, len(c), "num_bins")
        same("shape", tuple(t.shape), shape, "shape")
        for p in s["points"]:
            nui = np.array(p["nui"], dtype=float)
            if not well_conditioned(c, rel, nui):
                continue
            want = fractions(c, rel, nui)
            before = t.params.copy()
            arg = nui.copy()
            got = t.fractions(arg)
            close("fractions", got, want, what="fractions")
            if c.any():
                close("normalised", np.sum(got), 1.0, what="sum of fractions")
            else:
                close("empty_zero", got, np.zeros_like(c), what="fractions of an empty template")
            unchanged("pure", arg, nui, "the nuisance parameter array")
            unchanged("pure", t.params, before, "params")
            if s["via"] == "params":
                t.params = np.concatenate(([p["y"]], nui))
            else:
                t.yield_param = p["y"]
                t.nui_params = nui.copy()
            close("values", t.values, (p["y"] * want).reshape(shape), what="values")
            close("errors", t.errors, (rel * p["y"] * want).reshape(shape), what="errors")
            close("values", t.values, (p["y"] * want).reshape(shape), what="values, second evaluation")
            close("pure", t.params, np.concatenate(([p["y"]], nui)), what="params after evaluation")
            # the evaluation at other parameters does not depend on the current ones
            close("fractions", t.fractions(np.zeros(len(c))), fractions(c, rel, np.zeros(len(c))) if abs(c.sum()) > 0 else np.zeros(len(c)), what="fractions at zero")
        t.reset()
        if abs(c.sum()) > 1e-4 * np.abs(c).sum() or not c.any():
            close("reset_reproduces", t.values, fresh, what="values after reset")


class C04:
    @staticmethod
    def gen(rng, i):
        s = gen_template(rng, dim=1 + i % 2, negative=rng.chance(0.3), maxcovs=5)
        s["own"] = rng.chance(0.5)
        s["bad"] = rng.pick([1, 0], [0, 1], [1, 1], [-1, 0])
        return s

    @staticmethod
    def check(s):
        dim = s["geo"]["dim"]
        h = make_hist(s["geo"], s["hist"])
        t = make_template("t", s["geo"], h)
        other = make_template("o", s["geo"], make_hist(s["geo"], s["hist"]))
        c, v = hist_content(s["geo"], s["hist"])
        n = len(c)
        ledger = [stat_cov(v)]

        def verify(t, ledger, tag=""):
            cov = sum(ledger[1:], ledger[0].copy())
            close(tag + "cov_total", t.cov_mat, cov, what="cov_mat", rtol=1e-9, atol=1e-15)
            same(tag + "cov_parts", len(t.cov_mats), len(ledger), "number of covariance matrices")
            for a, b in zip(t.cov_mats, ledger):
                close(tag + "cov_parts", a, b, what="cov_mats entry", rtol=1e-9, atol=1e-15)
            d = np.sqrt(np.diag(cov))
            corr = cov / np.outer(d, d)
            close(tag + "corr", t.corr, corr, what="corr")
            close(tag + "inv_corr", np.asarray(t.inv_corr_mat) @ corr, np.eye(n), rtol=1e-6, atol=1e-6, what="inverse times correlation")
            rel = rel_errors(c, cov)
            if c.any() and abs(c.sum()) > 1e-4 * np.abs(c).sum():
                close(tag + "relative_errors", t.errors, (rel * t.values.ravel()).reshape(t.shape), what="errors")
                # the shape function sees the same relative errors
                for i in range(n):
                    nui = np.zeros(n)
                    nui[i] = 1.0
                    if well_conditioned(c, rel, nui):
                        close(tag + "relative_errors", t.fractions(nui), fractions(c, rel, nui), what="fractions with shifted bin %d" % i)

        verify(t, ledger, "init_")
        covs = []
        for m in s["covs"]:
            if not cov_ok(c, v, covs + [m]):
                continue
            covs.append(m)
            a = np.array(m, dtype=float)
            add_cov(t, a, dim)
            unchanged("input_unmodified", a, np.array(m, dtype=float), "the added matrix")
            ledger.append(np.array(m, dtype=float))
            if s["own"]:
                a[:] = 77.0
            verify(t, ledger)
        if dim == 1:
            bad = np.ones((max(n + s["bad"][0], 0), max(n + s["bad"][1], 0)))
            if bad.shape != (n, n):
                rejects("bad_shape", lambda: t.add_cov_mat(bad), "matrix of shape %s for %d bins" % (bad.shape, n))
                verify(t, ledger, "after_reject_")
        verify(other, [stat_cov(v)], "other_")


class C05:
    @staticmethod
    def gen(rng, i):
        mode = i % 3
        if mode == 2:
            n = rng.size(1, 6)
            hn = rng.counts(n)
            up = [rng.pick(x, x * rng.uniform(0.5, 1.5), rng.count()) for x in hn]
            dn = [rng.pick(x, u, x * rng.uniform(0.5, 1.5), rng.count()) for x, u in zip(hn, up)]
            if rng.chance(0.2):
                hn, up, dn = ([float(round(a)) for a in z] for z in (hn, up, dn))
            return dict(mode="func", hn=hn, up=up, dn=dn)
        geo = gen_geometry(rng, dim=1 + mode)
        es = geo_edges(geo)
        k = rng.randint(5, 60)
        pts = []
        for _ in range(k):
            p = []
            for e in es:
                j = rng.randrange(len(e) - 1)
                p.append(rng.pick(rng.uniform(e[j], e[j + 1]), rng.uniform(e[j], e[j + 1]), float(e[j]), e[-1] + 1.0, float(e[-1])))
            pts.append(p)
        w0 = [rng.uniform(0.5, 2) for _ in range(k)]
        return dict(mode="template", geo=geo, points=pts, w0=w0,
                    vars=[dict(up=[w * rng.pick(1.0, rng.uniform(0.5, 1.5)) for w in w0], dn=[w * rng.pick(1.0, rng.uniform(0.5, 1.5)) for w in w0])
                          for _ in range(rng.randint(1, 3))])

    @staticmethod
    def want(hn, up, dn):
        d = (np.abs(up - hn) + np.abs(dn - hn)) / 2 * np.where(up < dn, -1.0, 1.0)
        return np.outer(d, d)

    @staticmethod
    def check(s):
        if s["mode"] == "func":
            from templatefitter.utility import get_systematic_cov_mat
            a = [np.array(s[k], dtype=float) for k in ("hn", "up", "dn")]
            b = [x.copy() for x in a]
            got = get_systematic_cov_mat(*b)
            for x, y in zip(a, b):
                unchanged("inputs_unmodified", y, x)
            close("formula", got, C05.want(*a), what="covariance matrix")
            swapped = get_systematic_cov_mat(b[0], b[2], b[1])
            m = a[1] != a[2]
            close("exchange", np.asarray(swapped)[np.ix_(m, m)], np.asarray(got)[np.ix_(m, m)], what="matrix with exchanged up and down")
            return
        geo, dim = s["geo"], s["geo"]["dim"]
        a = np.array(s["points"], dtype=float).reshape(-1, dim)
        data = a[:, 0] if dim == 1 else (a[:, 0], a[:, 1])
        hist = dict(entries=s["points"], weights=s["w0"])
        t = make_template("t", geo, make_hist(geo, hist))
        hn, v = hist_content(geo, hist)
        ledger = [stat_cov(v)]
        tot = ledger[0].copy()
        for x in s["vars"]:
            up = hist_content(geo, dict(entries=s["points"], weights=x["up"]))[0]
            dn = hist_content(geo, dict(entries=s["points"], weights=x["dn"]))[0]
            # rounding: the sign is undetermined where up and down agree up to rounding
            if np.any((np.abs(up - dn) < 1e-9 * (np.abs(up) + 1)) & (np.abs(up - hn) + np.abs(dn - hn) > 1e-9)):
                continue
            m = C05.want(hn, up, dn)
            if not cov_ok(hn, v, [np.array(z) for z in ledger[1:]] + [m]):
                continue
            wu, wd = np.array(x["up"]), np.array(x["dn"])
            params = t.params.copy()
            accepts("add_variation", lambda: t.add_variation(data, wu, wd), "add_variation")
            unchanged("inputs_unmodified", wu, np.array(x["up"]), "the up weights")
            unchanged("inputs_unmodified", wd, np.array(x["dn"]), "the down weights")
            ledger.append(m)
            tot = tot + m
            same("added_once", len(t.cov_mats), len(ledger), "number of covariance matrices")
            close("variation_matrix", t.cov_mats[-1], m, what="added covariance matrix", atol=1e-9)
            close("total", t.cov_mat, tot, what="cov_mat", atol=1e-9)
            close("symmetric", t.cov_mats[-1], np.asarray(t.cov_mats[-1]).T, what="added matrix")
            unchanged("params_unmodified", t.params, params, "params")


class C06:
    @staticmethod
    def gen(rng, i):
        s = gen_template(rng, dim=1 + i % 2, negative=rng.chance(0.3), maxcovs=1)
        n = int(np.prod(geo_shape(s["geo"])))
        ops = []
        for _ in range(rng.randint(1, 8)):
            k = rng.pick("params", "yield", "nui", "reset", "bad_params", "bad_nui", "bad_yield", "int_params", "int_yield", "arr_yield", "write_yield_after", "npfloat_yield")
            ops.append(dict(op=k, y=rng.pick(rng.real(0, 100), -rng.real(0, 5), 0.0), nui=rng.reals(n), d=rng.pick(1, -1, 2), bad=rng.pick("str", "arr", "list", "none")))
        s["ops"] = ops
        return s

    @staticmethod
    def check(s):
        t, c, v, cov, covs = build(s)
        o, *_ = build(s, "o")
        n = len(c)
        p0 = np.concatenate(([c.sum()], np.zeros(n)))
        want = p0.copy()
        keep = []
        close("init", t.params, want, what="params of a new template")
        obefore = o.params.copy()
        for op in s["ops"]:
            k, y, nui = op["op"], op["y"], np.array(op["nui"], dtype=float)
            if k in ("params", "int_params"):
                a = np.concatenate(([y], nui))
                if k == "int_params":
                    a = np.round(a).astype(int)
                want = a.astype(float)
                t.params = a
                keep.append(a)
            elif k in ("yield", "write_yield_after"):
                t.yield_param = float(y)
                want[0] = y
            elif k == "npfloat_yield":
                t.yield_param = np.float64(y)
                want[0] = y
            elif k == "int_yield":
                t.yield_param = int(y)
                want[0] = int(y)
            elif k == "arr_yield":
                a = np.array([y])
                t.yield_param = a
                want[0] = y
                keep.append(a)
            elif k == "nui":
                a = nui.copy()
                t.nui_params = a
                want = np.concatenate(([want[0]], nui))
                keep.append(a)
            elif k == "reset":
                t.reset()
                want = p0.copy()
            elif k == "bad_params":
                m = max(n + 1 + op["d"], 0)
                rejects("reject_params", lambda: setattr(t, "params", np.ones(m)), "params of length %d for %d bins" % (m, n))
                rejects("reject_params", lambda: setattr(t, "params", np.ones((n + 1, 1))), "params of wrong dimension")
            elif k == "bad_nui":
                m = max(n + op["d"], 0)
                rejects("reject_nui", lambda: setattr(t, "nui_params", np.ones(m)), "nuisance parameters of length %d for %d bins" % (m, n))
                if s["geo"]["dim"] == 2 and min(geo_shape(s["geo"])) > 1:
                    rejects("reject_nui", lambda: setattr(t, "nui_params", np.ones(geo_shape(s["geo"]))), "nuisance parameters of wrong dimension")
            elif k == "bad_yield":
                b = {"str": "3", "arr": np.array([1.0, 2.0]), "list": [1.0], "none": None}[op["bad"]]
                rejects("reject_yield", lambda: setattr(t, "yield_param", b), "yield %r" % (b,))
            for a in keep:
                a += 3       # later changes of the caller's arrays
            keep = []
            close("readback", t.params, want, what="params after %s" % k)
            close("readback", t.yield_param, want[0], what="yield_param after %s" % k)
            close("readback", t.nui_params, want[1:], what="nui_params after %s" % k)
            same("shape_kept", t.params.shape, (n + 1,), "shape of params")
            unchanged("others", o.params, obefore, "params of another template")
        close("cov_untouched", t.cov_mat, cov, what="cov_mat", atol=1e-15)
