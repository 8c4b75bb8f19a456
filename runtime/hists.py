"""C01, C02: histograms"""
import numpy as np
import pandas as pd

from .common import *
from . import common as C


# ---------------------------------------------------------------- C01

class C01:
    @staticmethod
    def gen(rng, i):
        geo = gen_geometry(rng, dim=1 + i % 2)
        es = geo_edges(geo)
        fills = []
        for _ in range(rng.pick(0, 1, 1, 2, 3)):
            n = rng.pick(0, 1, 2, rng.randint(3, 20), rng.size(1, 30, 400))
            pts = []
            for _ in range(n):
                p = []
                for e in es:
                    r = rng.random()
                    w = e[-1] - e[0]
                    if r < 0.25:
                        p.append(float(e[rng.randrange(len(e))]))
                    elif r < 0.35:
                        p.append(float(e[rng.pick(0, -1)]))
                    elif r < 0.45:
                        p.append(rng.uniform(e[0] - w, e[0] - 1e-3 * w))
                    elif r < 0.55:
                        p.append(rng.uniform(e[-1] + 1e-3 * w, e[-1] + w))
                    elif r < 0.58:
                        p.append(rng.pick(-1e9, 1e9))
                    else:
                        p.append(rng.uniform(e[0], e[-1]))
                pts.append(p)
            wm = rng.pick("none", "array", "array", "list", "int", "series", "ones", "big")
            ws = {"none": None, "ones": [1.0] * n, "int": [rng.randint(-3, 9) for _ in range(n)],
                  "big": [rng.uniform(-1e4, 1e4) for _ in range(n)]}.get(
                wm, [rng.pick(1.0, 2.0, 0.0, rng.uniform(-2, 5), rng.uniform(0, 1)) for _ in range(n)])
            dm = rng.pick("array", "array", "list", "series", "int")
            if dm == "int":
                pts = [[float(round(x)) if abs(x) < 1e6 else 0.0 for x in p] for p in pts]
            fills.append(dict(points=pts, weights=ws, wmode=wm, dmode=dm))
        return dict(geo=geo, fills=fills, ctor=rng.chance(0.5))

    @staticmethod
    def _args(f, dim):
        a = np.array(f["points"], dtype=float).reshape(-1, dim)
        cols = [a[:, k].copy() for k in range(dim)]
        if f["dmode"] == "int":
            cols = [c.astype(int) for c in cols]
        elif f["dmode"] == "list":
            cols = [c.tolist() for c in cols]
        elif f["dmode"] == "series":
            cols = [pd.Series(c) for c in cols]
        w = f["weights"]
        if w is not None:
            if f["wmode"] == "int":
                w = np.array(w, dtype=int)
            elif f["wmode"] == "list":
                w = list(w)
            elif f["wmode"] == "series":
                w = pd.Series(w, dtype=float)
            else:
                w = np.array(w, dtype=float)
        data = cols[0] if dim == 1 else (cols[0], cols[1])
        return data, w

    @staticmethod
    def check(s):
        geo, dim = s["geo"], s["geo"]["dim"]
        es, shape = geo_edges(geo), geo_shape(geo)
        cls = hist_class(dim)
        bins, rg = geo_args(geo)
        want_c, want_v = np.zeros(shape), np.zeros(shape)
        h = None
        fills = list(s["fills"])
        if not (fills and s["ctor"]):
            h = cls(bins, rg) if rg is not None else cls(bins)
            same("empty_at_start", bool(h.is_empty), True, "is_empty")
            close("empty_at_start", h.bin_counts, want_c, what="bin_counts")
        for f in fills:
            data, w = C01._args(f, dim)
            snaps = [np.array(x) for x in (([data] if dim == 1 else list(data)))] + [None if w is None else np.array(w)]
            if h is None:
                kw = dict(data=data, weights=w) if w is not None else dict(data=data)
                h = accepts("fill", lambda: cls(bins, rg, **kw), "construction with data")
            elif w is None:
                accepts("fill", lambda: h.fill(data), "fill")
            else:
                accepts("fill", lambda: h.fill(data, w), "fill")
            now = [np.array(x) for x in (([data] if dim == 1 else list(data)))] + [None if w is None else np.array(w)]
            for a, b in zip(now, snaps):
                if b is not None:
                    unchanged("inputs_unmodified", a, b, "the filled array")
            ww = f["weights"] if f["weights"] is not None else [1.0] * len(f["points"])
            for p, x in zip(f["points"], ww):
                idx = tuple(bin_of(e, v) for e, v in zip(es, p))
                if None not in idx:
                    want_c[idx] += x
                    want_v[idx] += float(x) * x
            close("counts", h.bin_counts, want_c, what="bin_counts")
            close("errors_sq", h.bin_errors_sq, want_v, what="bin_errors_sq")
            close("errors", h.bin_errors, np.sqrt(want_v), what="bin_errors")
            same("not_empty_after_fill", bool(h.is_empty), False, "is_empty")
        # same entries, all at once and in reverse order
        if len(fills) > 1:
            allp = [p for f in fills for p in f["points"]][::-1]
            allw = [x for f in fills for x in (f["weights"] if f["weights"] is not None else [1.0] * len(f["points"]))][::-1]
            if allp:
                a = np.array(allp, dtype=float).reshape(-1, dim)
                h2 = cls(bins, rg)
                h2.fill(a[:, 0] if dim == 1 else (a[:, 0], a[:, 1]), np.array(allw, dtype=float))
                close("additive", h.bin_counts, h2.bin_counts, what="bin_counts of the split filling")
                close("additive", h.bin_errors_sq, h2.bin_errors_sq, what="bin_errors_sq of the split filling")
        for a, b in zip(es, [h.bin_edges] if dim == 1 else h.bin_edges):
            close("edges_kept", b, a, what="bin_edges")
        # another histogram is not affected
        other = cls(bins, rg)
        close("independent", other.bin_counts, np.zeros(shape), what="bin_counts of a new histogram")


# ---------------------------------------------------------------- C02

class C02:
    @staticmethod
    def gen(rng, i):
        geo = gen_geometry(rng, dim=1 + i % 2)
        n = int(np.prod(geo_shape(geo)))
        counts = rng.counts(n)
        r = rng.randrange(4)
        if r == 0:
            counts = [float(round(c)) for c in counts]
        errs = rng.pick(None, [rng.pick(0.0, 1.0, rng.uniform(0, 50)) for _ in range(n)])
        return dict(geo=geo, counts=counts, errs=errs, ints=(r == 0),
                    extra=[[rng.uniform(e[0], e[-1]) for e in geo_edges(geo)] for _ in range(3)],
                    bins_as=rng.pick("plain", "tuple", "list"))

    @staticmethod
    def check(s):
        geo, dim = s["geo"], s["geo"]["dim"]
        es, shape = geo_edges(geo), geo_shape(geo)
        cls = hist_class(dim)
        bins, rg = geo_args(geo)
        if geo["mode"] == "n" and dim == 1 and s["bins_as"] == "tuple":
            bins = (bins,)
        if geo["mode"] == "edges" and dim == 2 and s["bins_as"] == "tuple":
            bins = tuple(bins)
        h = cls(bins, rg)

        def geom(h, tag):
            if dim == 1:
                same(tag + "num_bins", h.num_bins, shape[0], "num_bins")
                got, m, w, r = [h.bin_edges], [h.bin_mids], [h.bin_widths], [h.range]
                wantr = [rg if rg is not None else (es[0][0], es[0][-1])]
            else:
                same(tag + "num_bins", tuple(h.num_bins), shape, "num_bins")
                got, m, w, r = list(h.bin_edges), list(h.bin_mids), list(h.bin_widths), list(h.range)
                wantr = list(rg) if rg is not None else [(e[0], e[-1]) for e in es]
            same(tag + "shape", tuple(h.shape), shape, "shape")
            same(tag + "shape", tuple(h.bin_counts.shape), shape, "shape of bin_counts")
            same(tag + "shape", tuple(h.bin_errors_sq.shape), shape, "shape of bin_errors_sq")
            same(tag + "axes", len(got), dim, "number of axes")
            for k in range(dim):
                close(tag + "edges", got[k], es[k], what="bin_edges")
                close(tag + "mids", m[k], (es[k][1:] + es[k][:-1]) / 2, what="bin_mids")
                close(tag + "widths", w[k], es[k][1:] - es[k][:-1], what="bin_widths")
                close(tag + "range", r[k], wantr[k], what="range")

        geom(h, "")
        if dim == 2:
            close("edges", h.x_edges, es[0], what="x_edges")
            close("edges", h.y_edges, es[1], what="y_edges")
        # binned data
        c = np.array(s["counts"], dtype=int if s["ints"] else float).reshape(shape)
        err = None if s["errs"] is None else np.array(s["errs"], dtype=float).reshape(shape)
        c0 = c.copy()
        ed = es[0] if dim == 1 else es
        b = accepts("binned", lambda: cls.from_binned_data(c, ed, err) if err is not None else cls.from_binned_data(c, ed), "from_binned_data")
        rg = None
        geom(b, "binned_")
        v = c0.astype(float) if err is None else err ** 2
        close("binned_counts", b.bin_counts, c0, what="bin_counts")
        close("binned_errors", b.bin_errors_sq, v, what="bin_errors_sq")
        same("binned_not_empty", bool(b.is_empty), False, "is_empty")
        if dim == 2:
            for name, ax, e in (("x", 1, es[0]), ("y", 0, es[1])):
                p = getattr(b, name + "_projection")()
                close("proj_counts", p.bin_counts, c0.sum(axis=ax), what=name + "_projection counts")
                close("proj_errors", p.bin_errors_sq, v.sum(axis=ax), what=name + "_projection errors squared")
                close("proj_edges", p.bin_edges, e, what=name + "_projection edges")
                close("binned_counts", b.bin_counts, c0, what="bin_counts after a projection")
        # independence, both directions
        pts = np.array(s["extra"], dtype=float)
        accepts("fill_binned", lambda: b.fill(pts[:, 0] if dim == 1 else (pts[:, 0], pts[:, 1]), np.full(len(pts), 0.5)), "fill of binned data")
        unchanged("independent", c, c0, "the caller's counts")
        want = c0.astype(float)
        wv = v.copy()
        for p in s["extra"]:
            idx = tuple(bin_of(e, x) for e, x in zip(es, p))
            want[idx] += 0.5
            wv[idx] += 0.25
        close("fill_binned", b.bin_counts, want, what="bin_counts after filling")
        close("fill_binned", b.bin_errors_sq, wv, what="bin_errors_sq after filling")
        if err is not None:
            unchanged("independent", err, np.array(s["errs"], dtype=float).reshape(shape), "the caller's errors")
        if dim == 2:
            p = b.x_projection()
            close("proj_counts", p.bin_counts, want.sum(axis=1), what="x_projection counts after filling")
            p = b.y_projection()
            close("proj_counts", p.bin_counts, want.sum(axis=0), what="y_projection counts after filling")
            close("proj_errors", p.bin_errors_sq, wv.sum(axis=0), what="y_projection errors after filling")
        b2 = cls.from_binned_data(c, ed)
        c += 1
        close("independent", b2.bin_counts, c0, what="bin_counts after a change of the caller's array")
