"""Run-time evaluation of the contracts on the real code (bounded part).

A scenario is a JSON value; every property module offers
  gen(rng, i)  -> scenario (i: running number, lets a generator cycle through shapes)
  check(scn)   -> list of clause names evaluated; raises Violated on a broken clause
Everything goes through the package's public interface.
"""
import contextlib
import io
import json
import os
import random
import sys
import warnings

import numpy as np


class Violated(Exception):
    def __init__(self, clause, detail=""):
        Exception.__init__(self, "%s: %s" % (clause, detail))
        self.clause = clause
        self.detail = str(detail)


class Skip(Exception):
    """scenario outside the contract's precondition"""


class Rng(random.Random):
    """generator with the value pools used by all scenario generators"""
    hints = ()

    def pick(self, *xs):
        return xs[self.randrange(len(xs))]

    def chance(self, p):
        return self.random() < p

    def hint(self, lo=None, hi=None, integer=False):
        """a constant harvested from the code under test (or next to one)"""
        c = [h for h in self.hints if (lo is None or h >= lo) and (hi is None or h <= hi)
             and (not integer or float(h).is_integer())]
        if not c:
            return None
        h = c[self.randrange(len(c))]
        if integer:
            h = int(h) + self.pick(0, 0, 1, -1)
        else:
            h = h * self.pick(1, 1, 1, 1.0000001, 0.9999999, 0.5, 2)
        if (lo is not None and h < lo) or (hi is not None and h > hi):
            return None
        return h

    def size(self, lo=1, hi=6, big=40):
        """a dimension; sometimes large, sometimes a harvested constant"""
        r = self.random()
        if r < 0.06:
            h = self.hint(lo, big, integer=True)
            if h is not None:
                return h
        if r < 0.12:
            return self.randint(lo, big)
        return self.randint(lo, hi)

    def real(self, lo=-5.0, hi=5.0):
        r = self.random()
        if r < 0.05:
            h = self.hint(lo, hi)
            if h is not None:
                return float(h)
        if r < 0.15 and lo <= 0 <= hi:
            return 0.0
        if r < 0.3:
            k = self.randint(int(np.ceil(lo)), int(np.floor(hi))) if np.floor(hi) >= np.ceil(lo) else None
            if k is not None:
                return float(k)
        return self.uniform(lo, hi)

    def count(self, zero=0.15):
        """a bin content"""
        r = self.random()
        if r < zero:
            return 0.0
        if r < zero + 0.05:
            h = self.hint(1e-9, 1e7)
            if h is not None:
                return float(h)
        if r < 0.5:
            return float(self.randint(1, 30))
        if r < 0.9:
            return self.uniform(0.2, 200.0)
        if r < 0.95:
            return self.uniform(1e-3, 1.0)
        return self.uniform(1e3, 1e5)

    def reals(self, n, lo=-5.0, hi=5.0):
        return [self.real(lo, hi) for _ in range(n)]

    def counts(self, n, zero=0.15):
        return [self.count(zero) for _ in range(n)]

    def edges(self, n):
        """n+1 strictly increasing edges"""
        style = self.randrange(5)
        if style == 0:
            lo = float(self.randint(-4, 4))
            return [lo + i for i in range(n + 1)]
        if style == 1:
            lo = self.uniform(-10, 10)
            w = self.uniform(0.1, 3)
            return [lo + w * i for i in range(n + 1)]
        if style == 2:      # very unequal
            lo = self.uniform(-3, 3)
            out = [lo]
            for _ in range(n):
                out.append(out[-1] + self.pick(0.1, 0.5, 1.0, 5.0, 20.0) * self.uniform(0.7, 1.4))
            return out
        if style == 3:      # binary fractions: sums are exact
            lo = self.randint(-8, 8) / 4
            out = [lo]
            for _ in range(n):
                out.append(out[-1] + self.pick(0.25, 0.5, 1, 2))
            return out
        lo = self.uniform(-100, 100)
        out = [lo]
        for _ in range(n):
            out.append(out[-1] + self.uniform(0.05, 2))
        return out

    def spd(self, n, scale=1.0):
        """random symmetric positive definite n x n matrix"""
        k = n + 1
        a = np.array([[self.gauss(0, 1) for _ in range(k)] for _ in range(n)])
        return (scale * (a @ a.T) / k).tolist()

    def psd1(self, n, scale=1.0):
        v = np.array([self.gauss(0, scale) for _ in range(n)])
        return np.outer(v, v).tolist()


def close(clause, got, want, rtol=1e-9, atol=1e-11, what=""):
    try:
        g = np.asarray(got, dtype=float)
    except (TypeError, ValueError):
        raise Violated(clause, "%s is %r, expected %s" % (what, type(got).__name__, short(want)))
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violated(clause, "%s has shape %s, expected %s" % (what, g.shape, w.shape))
    if g.size == 0:
        return
    scale = np.nanmax(np.abs(w)) if np.any(np.isfinite(w)) else 0.0
    with np.errstate(all="ignore"):
        ok = (np.abs(g - w) <= atol * max(1.0, scale) + rtol * np.abs(w)) | (g == w) | (np.isnan(g) & np.isnan(w))
    if not np.all(ok):
        i = tuple(int(x) for x in np.argwhere(~ok)[0]) if g.ndim else ()
        raise Violated(clause, "%s%s is %r, expected %r" % (what, list(i) if i else "", float(g[i]), float(w[i])))


def same(clause, got, want, what=""):
    if type(want) in (list, tuple) and type(got) in (list, tuple):
        ok = list(got) == list(want)
    else:
        ok = got == want
    if isinstance(ok, np.ndarray):
        ok = bool(ok.all())
    if not ok:
        raise Violated(clause, "%s is %s, expected %s" % (what, short(got), short(want)))


def true(clause, cond, detail=""):
    if not cond:
        raise Violated(clause, detail)


def unchanged(clause, arr, snap, what="input"):
    a, b = np.asarray(arr), np.asarray(snap)
    if a.shape != b.shape or a.dtype != b.dtype or not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
        raise Violated(clause, "%s was modified" % what)


def rejects(clause, fn, what="", kinds=(Exception,)):
    try:
        fn()
    except kinds:
        return
    except Exception as e:
        raise Violated(clause, "%s raised %s" % (what, type(e).__name__))
    raise Violated(clause, "%s was accepted" % what)


def accepts(clause, fn, what=""):
    try:
        return fn()
    except Exception as e:
        raise Violated(clause, "%s raised %s: %s" % (what, type(e).__name__, short(e)))


def short(x, n=120):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


@contextlib.contextmanager
def quiet():
    """swallow the progress output of the code under test"""
    so, se = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                yield
    finally:
        sys.stdout, sys.stderr = so, se


def jsonable(x):
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    return x


# ------------------------------------------------------------------ builders

def tfmod():
    import templatefitter
    return templatefitter


def flat(x):
    return np.asarray(x, dtype=float).ravel()


def edges_arrays(edges, dim):
    if dim == 1:
        return np.array(edges, dtype=float)
    return [np.array(e, dtype=float) for e in edges]


def gen_geometry(rng, dim=None, maxbins=None):
    """{dim, mode: 'n'|'edges', bins, range|edges}"""
    dim = dim or rng.pick(1, 1, 2)
    mode = rng.pick("n", "edges")
    if dim == 1:
        n = rng.size(1, maxbins or 6, 30 if not maxbins else maxbins)
        if mode == "n":
            lo = rng.pick(0.0, -1.0, rng.uniform(-10, 10))
            hi = lo + rng.pick(1.0, 2.0, rng.uniform(0.2, 30))
            return dict(dim=1, mode="n", bins=n, range=[lo, hi])
        return dict(dim=1, mode="edges", edges=rng.edges(n))
    nx, ny = rng.size(1, 4, 8 if not maxbins else maxbins), rng.size(1, 4, 8 if not maxbins else maxbins)
    if mode == "n":
        r = []
        for _ in range(2):
            lo = rng.pick(0.0, -1.0, rng.uniform(-10, 10))
            r.append([lo, lo + rng.pick(1.0, 2.0, rng.uniform(0.2, 30))])
        return dict(dim=2, mode="n", bins=[nx, ny], range=r)
    return dict(dim=2, mode="edges", edges=[rng.edges(nx), rng.edges(ny)])


def geo_edges(geo):
    """list of edge lists per axis"""
    if geo["mode"] == "n":
        if geo["dim"] == 1:
            return [np.linspace(geo["range"][0], geo["range"][1], geo["bins"] + 1)]
        return [np.linspace(r[0], r[1], n + 1) for r, n in zip(geo["range"], geo["bins"])]
    if geo["dim"] == 1:
        return [np.array(geo["edges"], dtype=float)]
    return [np.array(e, dtype=float) for e in geo["edges"]]


def geo_shape(geo):
    return tuple(len(e) - 1 for e in geo_edges(geo))


def geo_args(geo):
    """bins, range arguments of a histogram constructor"""
    if geo["mode"] == "n":
        if geo["dim"] == 1:
            return geo["bins"], tuple(geo["range"])
        return tuple(geo["bins"]), tuple(tuple(r) for r in geo["range"])
    return edges_arrays(geo["edges"], geo["dim"]), None


def geo_range(geo):
    es = geo_edges(geo)
    if geo["mode"] == "n":
        return tuple(geo["range"]) if geo["dim"] == 1 else tuple(tuple(r) for r in geo["range"])
    r = tuple((e[0], e[-1]) for e in es)
    return r[0] if geo["dim"] == 1 else r


def hist_class(dim):
    from templatefitter.histograms import Hist1d, Hist2d
    return Hist1d if dim == 1 else Hist2d


def mids(e):
    e = np.asarray(e, dtype=float)
    return (e[1:] + e[:-1]) / 2


def make_hist(geo, hist):
    """histogram of the scenario {counts, errs_sq} or {entries, weights}"""
    shape = geo_shape(geo)
    cls = hist_class(geo["dim"])
    es = geo_edges(geo)
    if "entries" in hist:
        bins, rg = geo_args(geo)
        h = cls(bins, rg)
        a = np.array(hist["entries"], dtype=float).reshape(-1, geo["dim"])
        w = np.array(hist["weights"], dtype=float)
        h.fill(a[:, 0] if geo["dim"] == 1 else (a[:, 0], a[:, 1]), w)
        return h
    c = np.array(hist["counts"], dtype=float).reshape(shape)
    err = None if hist["errs_sq"] is None else np.sqrt(np.array(hist["errs_sq"], dtype=float).reshape(shape))
    return cls.from_binned_data(c, es[0] if geo["dim"] == 1 else es, err)


def hist_content(geo, hist):
    """expected flat counts and squared errors of make_hist(geo, hist)"""
    if "entries" in hist:
        es = geo_edges(geo)
        shape = geo_shape(geo)
        c, v = np.zeros(shape), np.zeros(shape)
        for p, w in zip(hist["entries"], hist["weights"]):
            p = p if isinstance(p, list) else [p]
            idx = tuple(bin_of(e, x) for e, x in zip(es, p))
            if None not in idx:
                c[idx] += w
                v[idx] += w * w
        return c.ravel(), v.ravel()
    c = np.array(hist["counts"], dtype=float)
    v = np.array(hist["errs_sq"] if hist["errs_sq"] is not None else hist["counts"], dtype=float)
    return c, v


def bin_of(e, x):
    n = len(e) - 1
    for i in range(n):
        if e[i] <= x < e[i + 1]:
            return i
    return n - 1 if x == e[-1] else None


def gen_hist(rng, geo, zero=0.15, negative=False, fills=True):
    n = int(np.prod(geo_shape(geo)))
    if fills and rng.chance(0.2):
        es = geo_edges(geo)
        k = rng.randint(0, 25)
        ent = [[rng.uniform(e[0] - 0.2 * (e[-1] - e[0]), e[-1] + 0.2 * (e[-1] - e[0])) for e in es] for _ in range(k)]
        return dict(entries=ent, weights=[rng.uniform(0.1, 3) for _ in range(k)])
    c = rng.counts(n, zero)
    if negative and rng.chance(0.6):
        c = [x * rng.pick(1, 1, 1, -0.1, -0.5) for x in c]
    if rng.chance(0.06):
        c = [0.0] * n
    e = None
    if rng.chance(0.6) or min(c) < 0:
        e = [abs(x) * rng.uniform(0.2, 3) if x and not rng.chance(0.1) else rng.pick(0.0, 0.0, 1.5) for x in c]
    return dict(counts=c, errs_sq=e)


def make_template(name, geo, hist, **kw):
    from templatefitter.templates import Template1d, Template2d
    if geo["dim"] == 1:
        return Template1d(name, "x", hist, **kw)
    return Template2d(name, ("x", "y"), hist, **kw)
