"""C07 - C13, C22, C23: channels, multi-channel model, likelihood"""
import numpy as np

from .common import *
from . import templ
from .templ import rel_errors, stat_cov, fractions, cov_ok

NAMES = ["signal", "bkg", "c", "Remaining", "xulnu", "sig", "yield", "a_b", "p5", "p6"]
CHN = ["e", "mu", "ch3", "tau_x", "e2", "k6"]


def gen_model(rng, dims=(1, 2), max_ch=3, max_proc=4, maxbins=5, data=True, constraints=True, full=False, hist_fills=False, negative=False):
    """a model: processes, channels with their own geometry and subset of processes"""
    np_ = min(max_proc, rng.pick(1, 2, 2, 3, rng.randint(1, max_proc)))
    procs = NAMES[:]
    rng.shuffle(procs)
    procs = procs[:np_]
    if rng.chance(0.05):
        np_ = rng.randint(5, 8)
        procs = NAMES[:np_]
    names = CHN[:]
    rng.shuffle(names)
    chans = []
    for k in range(min(max_ch, rng.pick(1, 1, 2, 2, rng.randint(1, max_ch)))):
        geo = gen_geometry(rng, dim=rng.pick(*dims), maxbins=maxbins)
        n = int(np.prod(geo_shape(geo)))
        mine = procs[:]
        rng.shuffle(mine)
        if not full and rng.chance(0.4):
            mine = mine[:rng.randint(1, len(mine))]
        ts = []
        for p in mine:
            h = gen_hist(rng, geo, fills=hist_fills, negative=negative)
            covs = []
            for _ in range(rng.pick(0, 0, 1, 2)):
                covs.append(rng.spd(n, rng.pick(1e-2, 1.0, 20.0)))
            ts.append(dict(proc=p, hist=h, covs=covs, eff=rng.pick(1.0, 1.0, 1.0, rng.uniform(0.05, 1.0), rng.uniform(0.05, 1.0), rng.uniform(1, 3), rng.uniform(1, 3), 0.5, 0.5, 0.0)))
        ch = dict(name=names[k], geo=geo, templates=ts, data=None)
        if data:
            ch["data"] = dict(counts=[float(round(x)) for x in rng.counts(n, 0.2)] if rng.chance(0.6) else rng.counts(n, 0.2), errs_sq=None)
        chans.append(ch)
    s = dict(processes=procs, channels=chans, constraints=[])
    if constraints:
        for _ in range(rng.pick(0, 0, 1, 1, 2, 3)):
            s["constraints"].append(dict(proc=rng.pick(*procs), value=rng.pick(rng.uniform(0, 100), rng.uniform(0, 100), 0.0, rng.uniform(-20, 0)), error=rng.pick(1.0, rng.uniform(0.1, 20))))
    return s


class Model:
    """the real model built from a scenario, next to its reference numbers"""

    def __init__(self, s, constraints=True, data=True):
        from templatefitter.templates import MultiChannelTemplate
        self.s = s
        self.mct = MultiChannelTemplate()
        self.ref = []        # per channel: dict(name, shape, edges, temps=[dict(proc, eff, counts, cov, rel, inv, t)], data)
        for c in s["channels"]:
            geo = c["geo"]
            sh = geo_shape(geo)
            self.mct.define_channel(c["name"], sh[0] if geo["dim"] == 1 else sh, geo_range(geo))
        for p in s["processes"]:
            self.mct.define_process(p)
        for c in s["channels"]:
            self.ref.append(dict(name=c["name"], geo=c["geo"], shape=geo_shape(c["geo"]), temps=[], data=None))
        order = [(ci, ti) for ci, c in enumerate(s["channels"]) for ti in range(len(c["templates"]))]
        if s.get("interleave"):
            order.sort(key=lambda x: (x[1], x[0]))
        for ci, ti in order:
            self.add_template(ci, s["channels"][ci]["templates"][ti])
        for ci, c in enumerate(s["channels"]):
            if data and c["data"] is not None:
                self.add_data(ci, c["data"])
        if constraints:
            for k in s["constraints"]:
                self.mct.add_gaussian_constraint_on_yield(k["proc"], k["value"], k["error"])

    def add_template(self, ci, ts):
        geo = self.ref[ci]["geo"]
        t = make_template(ts["proc"] + "_t", geo, make_hist(geo, ts["hist"]))
        c, v = hist_content(geo, ts["hist"])
        r = dict(proc=ts["proc"], eff=ts["eff"], counts=c, v=v, covs=[], t=t)
        for m in ts["covs"]:
            self.add_cov(r, m, geo["dim"])
        self.update(r)
        if ts["eff"] == 1.0 and ci % 2 == 0:
            self.mct.add_template(self.ref[ci]["name"], ts["proc"], t)
        else:
            self.mct.add_template(self.ref[ci]["name"], ts["proc"], t, ts["eff"])
        self.ref[ci]["temps"].append(r)

    def add_cov(self, r, m, dim):
        if cov_ok(r["counts"], r["v"], r["covs"] + [m]):
            r["covs"].append(m)
            templ.add_cov(r["t"], np.array(m), dim)
        self.update(r)

    def update(self, r):
        n = len(r["counts"])
        r["cov"] = stat_cov(r["v"]) + sum([np.array(m) for m in r["covs"]], np.zeros((n, n)))
        r["rel"] = rel_errors(r["counts"], r["cov"])
        d = np.sqrt(np.diag(r["cov"]))
        r["inv"] = np.linalg.inv(r["cov"] / np.outer(d, d))

    def add_data(self, ci, d):
        geo = self.ref[ci]["geo"]
        h = make_hist(geo, d)
        self.mct.add_data(**{self.ref[ci]["name"]: h})
        self.ref[ci]["data"], self.ref[ci]["data_sq"] = hist_content(geo, d)
        self.ref[ci]["hdata"] = h

    # ---- reference quantities
    @property
    def nproc(self):
        return len(self.s["processes"])

    def layout(self):
        """[(channel, template)] in nuisance order with their slices"""
        out = []
        k = self.nproc
        for c in self.ref:
            for t in c["temps"]:
                n = len(t["counts"])
                out.append((c, t, slice(k, k + n)))
                k += n
        return out, k

    def size(self):
        return self.layout()[1]

    def expectation(self, x):
        """{channel name: flat expectation} at parameter vector x"""
        out = {c["name"]: np.zeros(int(np.prod(c["shape"]))) for c in self.ref}
        for c, t, sl in self.layout()[0]:
            y = x[self.s["processes"].index(t["proc"])] * t["eff"]
            out[c["name"]] = out[c["name"]] + y * fractions(t["counts"], t["rel"], x[sl])
        return out

    def conditioned(self, x):
        return all(templ.well_conditioned(t["counts"], t["rel"], x[sl]) for c, t, sl in self.layout()[0])

    def constraints(self):
        last = {}
        for k in self.s["constraints"]:
            last[k["proc"]] = (k["value"], k["error"])
        return last

    def nll(self, x, last=None):
        r = 0.0
        e = self.expectation(x)
        for c in self.ref:
            nu, n = e[c["name"]], c["data"]
            with np.errstate(all="ignore"):
                r += np.sum(nu - n + np.where(n > 0, n * np.log(np.where(n > 0, n, 1.0) / nu), 0.0))
        for c, t, sl in self.layout()[0]:
            r += 0.5 * x[sl] @ t["inv"] @ x[sl]
        for p, (v, s) in (self.constraints() if last is None else last).items():
            r += 0.5 * ((x[self.s["processes"].index(p)] - v) / s) ** 2
        return r

    def names(self):
        out = [p + "_yield" for p in self.s["processes"]]
        for c in self.ref:
            for t in c["temps"]:
                out += ["%s_%s_bin_%d" % (c["name"], t["proc"], i) for i in range(len(t["counts"]))]
        return out

    def state(self):
        """everything observable of the templates and data"""
        out = []
        for c in self.ref:
            for t in c["temps"]:
                out.append(np.array(t["t"].params))
                out.append(np.array(t["t"].cov_mat))
            if c["data"] is not None:
                out.append(np.array(self.mct.channels[c["name"]].data_bin_counts))
        return out

    def templates(self):
        return [t for c in self.ref for t in c["temps"]]


def same_state(clause, a, b):
    for x, y in zip(a, b):
        unchanged(clause, x, y, "the model's templates or data")


def gen_x(rng, s, positive=True, nui=1.0):
    out = [rng.pick(rng.uniform(1, 300), rng.uniform(0.5, 10), float(rng.randint(1, 50))) for _ in s["processes"]]
    if not positive:
        out = [rng.pick(x, x, -x * 0.1, 0.0) for x in out]
    for c in s["channels"]:
        n = int(np.prod(geo_shape(c["geo"])))
        for t in c["templates"]:
            k = rng.randrange(4)
            out += [0.0] * n if k == 0 else rng.reals(n, -nui, nui)
    return out


def nll_ok(m, x):
    """precondition of the likelihood: positive expectations, conditioned shapes"""
    if not m.conditioned(x):
        return False
    e = m.expectation(x)
    return all(np.all(e[c["name"]] > 1e-6 * max(1.0, np.max(np.abs(e[c["name"]])))) for c in m.ref)


# ---------------------------------------------------------------- C07

class C07:
    @staticmethod
    def gen(rng, i):
        s = gen_model(rng, negative=rng.chance(0.2), maxbins=4, constraints=False)
        s["interleave"] = rng.chance(0.3)
        s["wrong"] = [rng.pick("undef_channel", "undef_process", "dup_template", "bins", "range", "kind", "data_channel",
                               "data_bins", "data_range", "dup_process", "transposed", "subclass", "edges_same_range", "constraint")
                      for _ in range(rng.randint(2, 6))]
        s["at"] = rng.randrange(8)
        s["eps"] = rng.pick(1.0, 1e-3, 1e-6)
        return s

    @staticmethod
    def check(s):
        m = Model(s)
        mct = m.mct
        C07.verify(m)
        for w in s["wrong"]:
            ci = s["at"] % len(m.ref)
            c = m.ref[ci]
            geo = c["geo"]
            n = int(np.prod(c["shape"]))
            h = make_hist(geo, dict(counts=[1.0] * n, errs_sq=None))
            good = make_template("w", geo, h)
            p = c["temps"][s["at"] % len(c["temps"])]["proc"]
            free = [q for q in s["processes"] if q not in [t["proc"] for t in c["temps"]]]
            es = geo_edges(geo)
            dim = geo["dim"]
            before = m.state()
            if w == "undef_channel":
                rejects("reject_channel", lambda: mct.add_template("nope", p, good), "a template for an undefined channel")
            elif w == "undef_process":
                rejects("reject_process", lambda: mct.add_template(c["name"], "nope", good), "a template for an undefined process")
            elif w == "dup_template":
                rejects("reject_duplicate", lambda: mct.add_template(c["name"], p, good), "a second template for the same process")
            elif w in ("bins", "transposed", "range", "edges_same_range") and (free or w):
                q = free[0] if free else p
                if w == "bins":
                    e2 = [np.linspace(e[0], e[-1], len(e) + 1) for e in es]
                elif w == "range":
                    e2 = [np.array(e) for e in es]
                    e2[-1] = e2[-1].copy()
                    e2[-1][-1] += s["eps"]
                elif w == "transposed":
                    if dim == 1 or c["shape"][0] == c["shape"][1]:
                        continue
                    e2 = [np.linspace(e[0], e[-1], k + 1) for e, k in zip(es, c["shape"][::-1])]
                else:
                    continue
                sh = tuple(len(e) - 1 for e in e2)
                h2 = hist_class(dim).from_binned_data(np.ones(sh), e2[0] if dim == 1 else e2)
                t2 = make_template("w", geo, h2)
                if free:
                    rejects("reject_incompatible", lambda: mct.add_template(c["name"], q, t2), "a template with other %s" % w)
                rejects("reject_incompatible", lambda: mct.channels[c["name"]].add_template("brandnew", t2), "a template with other %s" % w)
                rejects("reject_data", lambda: mct.add_data(**{c["name"]: h2}), "data with other %s" % w)
            elif w == "kind":
                sub = type("OtherTemplate", (type(good),), {})
                t2 = (sub("w", "x", h) if dim == 1 else sub("w", ("x", "y"), h))
                if free:
                    rejects("reject_kind", lambda: mct.add_template(c["name"], free[0], t2), "a template of another kind")
                rejects("reject_kind", lambda: mct.channels[c["name"]].add_template("brandnew", t2), "a template of another kind")
            elif w == "data_channel":
                rejects("reject_data", lambda: mct.add_data(nope=h), "data for an undefined channel")
            elif w == "dup_process":
                rejects("reject_duplicate", lambda: mct.define_process(s["processes"][s["at"] % m.nproc]), "a process defined twice")
            elif w == "constraint":
                rejects("reject_process", lambda: mct.add_gaussian_constraint_on_yield("nope", 1.0, 1.0), "a constraint on an undefined process")
                same("unchanged_after_reject", tuple(mct.constrained_yields), (), "constrained yields")
            same_state("unchanged_after_reject", m.state(), before)
            C07.verify(m, "after rejecting %s: " % w)

    @staticmethod
    def verify(m, tag=""):
        s, mct = m.s, m.mct
        same("processes", list(mct.processes), s["processes"], tag + "processes")
        same("processes", mct.num_processes, len(s["processes"]), tag + "num_processes")
        same("channels", list(mct.channels.keys()), [c["name"] for c in s["channels"]], tag + "channels")
        same("channels", mct.num_channels, len(s["channels"]), tag + "num_channels")
        for i, p in enumerate(s["processes"]):
            same("processes", mct.process_to_index(p), i, tag + "process index")
        tot = 0
        for c in m.ref:
            ch = mct.channels[c["name"]]
            ps = [t["proc"] for t in c["temps"]]
            same("templates", list(ch.processes), ps, tag + "processes of the channel")
            same("templates", list(ch.templates.keys()), ps, tag + "templates of the channel")
            same("templates", ch.num_templates, len(ps), tag + "num_templates")
            for t in c["temps"]:
                true("templates", ch.templates[t["proc"]] is t["t"] and ch[t["proc"]] is t["t"], tag + "another template object")
                close("efficiencies", ch.efficiencies[t["proc"]], t["eff"], what=tag + "efficiency")
            same("efficiencies", list(ch.efficiencies.keys()), ps, tag + "order of efficiencies")
            n = int(np.prod(c["shape"]))
            same("counts", ch.num_bins, n, tag + "num_bins")
            same("counts", tuple(ch.bins), c["shape"], tag + "bins")
            same("counts", ch.num_nui_params, n * len(ps), tag + "num_nui_params of the channel")
            same("process_indices", list(ch.process_indices(list(s["processes"]))), [s["processes"].index(p) for p in ps], tag + "process indices")
            tot += n * len(ps)
            same("data", bool(ch.has_data), c["data"] is not None, tag + "has_data")
            if c["data"] is not None:
                close("data", np.asarray(ch.data_bin_counts).ravel(), c["data"], what=tag + "data")
        same("counts", mct.num_nui_params, tot, tag + "num_nui_params")


# ---------------------------------------------------------------- C08

class C08:
    @staticmethod
    def gen(rng, i):
        s = gen_model(rng, negative=rng.chance(0.2), maxbins=5, data=False, constraints=False)
        s["xs"] = [gen_x(rng, s, positive=False, nui=rng.pick(0.5, 2.0)) for _ in range(2)]
        s["late"] = rng.chance(0.5)       # evaluate before the last templates / matrices are added
        return s

    @staticmethod
    def expect(m, x, tag=""):
        if not m.conditioned(x):
            return
        e = m.expectation(x)
        for c in m.ref:
            if not c["temps"]:
                continue
            ch = m.mct.channels[c["name"]]
            ys = np.array([x[m.s["processes"].index(t["proc"])] for t in c["temps"]])
            nui = np.concatenate([x[sl] for cc, t, sl in m.layout()[0] if cc is c])
            v = np.concatenate((ys, nui))
            v0 = v.copy()
            close("expectation", ch.bin_counts_from_param_values(v), e[c["name"]], what=tag + "expected bin counts of %s" % c["name"])
            unchanged("pure", v, v0, "the parameter vector")
            st = m.state()
            close("expectation", ch.bin_counts_from_param_values(v), e[c["name"]], what=tag + "second evaluation")
            same_state("pure", m.state(), st)

    @staticmethod
    def check(s):
        late = None
        s2 = dict(s)
        if s["late"]:
            s2["channels"] = [dict(c, templates=list(c["templates"])) for c in s["channels"]]
            for c in s2["channels"]:
                if len(c["templates"]) > 1:
                    late = c["templates"].pop()
                    lc = c["name"]
                    break
        m = Model(s2)

        def sizefix(x):
            return np.array(x, dtype=float)

        if late is not None:
            ci = [c["name"] for c in m.ref].index(lc)
            x0 = np.concatenate((np.array(s["xs"][0][:m.nproc]), np.zeros(m.size() - m.nproc)))
            C08.expect(m, x0, "before adding a template: ")
            m.mct.update_parameters(x0)
            m.add_template(ci, late)
            # a matrix added after an evaluation
            r = m.ref[ci]["temps"][0]
            n = len(r["counts"])
            m.add_cov(r, (np.eye(n) * 2.0 + 0.3).tolist(), m.ref[ci]["geo"]["dim"])
        for x in s["xs"]:
            x = sizefix(x)
            C08.expect(m, x)
            if not m.conditioned(x):
                continue
            xx = x.copy()
            m.mct.update_parameters(xx)
            unchanged("pure", xx, x, "the parameter vector")
            e = m.expectation(x)
            for c, t, sl in m.layout()[0]:
                y = x[s["processes"].index(t["proc"])] * t["eff"]
                close("template_yield", t["t"].yield_param, y, what="yield of %s in %s" % (t["proc"], c["name"]))
                close("template_nui", t["t"].nui_params, x[sl], what="nuisance parameters of %s in %s" % (t["proc"], c["name"]))
            for c in m.ref:
                tot = sum(np.asarray(t["t"].values).ravel() for t in c["temps"])
                close("values_sum", tot, e[c["name"]], what="sum of template values in %s" % c["name"])
            xx += 5.0
            for c, t, sl in m.layout()[0]:
                close("template_nui", t["t"].nui_params, x[sl], what="nuisance parameters after a change of the caller's vector")


# ---------------------------------------------------------------- C09

class C09:
    @staticmethod
    def gen(rng, i):
        s = gen_model(rng, negative=rng.chance(0.2), maxbins=4, data=False, constraints=False, max_ch=4)
        s["interleave"] = rng.chance(0.3)
        s["x"] = gen_x(rng, s, positive=False)
        return s

    @staticmethod
    def check(s):
        m = Model(s)
        mct = m.mct
        nll = mct.create_nll()
        same("names", list(nll.param_names), m.names(), "parameter names")
        lay, n = m.layout()
        x = np.array(s["x"], dtype=float)
        assert len(x) == n
        same("length", len(nll.param_names), n, "number of names")
        x0 = nll.x0
        same("length", len(x0), n, "length of x0")
        want = np.zeros(n)
        for c, t, sl in lay:
            want[s["processes"].index(t["proc"])] += t["t"].yield_param
        close("x0", x0, want, what="x0")
        mct.update_parameters(x)
        want = np.zeros(n)
        for c, t, sl in lay:
            want[s["processes"].index(t["proc"])] += x[s["processes"].index(t["proc"])] * t["eff"]
            want[sl] = x[sl]
            close("update", t["t"].nui_params, x[sl], what="nuisance parameters of %s/%s" % (c["name"], t["proc"]))
            close("update", t["t"].yield_param, x[s["processes"].index(t["proc"])] * t["eff"], what="yield of %s/%s" % (c["name"], t["proc"]))
        close("roundtrip", mct.nui_params, x[m.nproc:], what="nui_params of the model")
        close("x0", nll.x0, want, what="x0 after an update")
        xx = x.copy()
        ys, ns = mct.generate_per_channel_parameters(xx)
        unchanged("pure", xx, x, "the parameter vector")
        same("split", (len(ys), len(ns)), (len(m.ref), len(m.ref)), "number of per-channel parts")
        for c, y, nu in zip(m.ref, ys, ns):
            close("split", y, [x[s["processes"].index(t["proc"])] for t in c["temps"]], what="yields of %s" % c["name"])
            close("split", nu, np.concatenate([x[sl] for cc, t, sl in lay if cc is c]), what="nuisance parameters of %s" % c["name"])
            v = np.concatenate((y, nu))
            a, b = mct.channels[c["name"]].split_parameter_array(v)
            close("split", a, y, what="split yields")
            close("split", b, nu, what="split nuisance parameters")
        # a returned starting vector is the caller's to change
        x0 = nll.x0
        x0 += 1.0
        close("x0", nll.x0, want, what="x0 after a change of a previous x0")
        # shifts of single entries reach exactly one template or process
        if n <= 40:
            e0 = {c["name"]: [np.array(t["t"].params) for t in c["temps"]] for c in m.ref}
            for j in range(n):
                xj = x.copy()
                xj[j] += 1.0
                mct.update_parameters(xj)
                for c, t, sl in lay:
                    p = np.concatenate(([xj[s["processes"].index(t["proc"])] * t["eff"]], xj[sl]))
                    close("update", t["t"].params, p, what="params of %s/%s after shifting entry %d" % (c["name"], t["proc"], j))


# ---------------------------------------------------------------- C10

class C10:
    @staticmethod
    def gen(rng, i):
        s = gen_model(rng, negative=rng.chance(0.2), maxbins=5)
        s["xs"] = [gen_x(rng, s, nui=0.8) for _ in range(rng.randint(2, 3))]
        s["steps"] = [rng.pick("eval", "cov", "constraint", "data", "update", "nll", "template") for _ in range(rng.randint(0, 5))]
        s["ncon"] = dict(proc=rng.pick(*s["processes"]), value=rng.uniform(0, 50), error=rng.uniform(0.5, 5))
        s["order"] = rng.randrange(1000)
        s["ndata"] = [[float(rng.randint(0, 20)) for _ in range(int(np.prod(geo_shape(c["geo"]))))] for c in s["channels"]]
        return s

    @staticmethod
    def check(s):
        s = dict(s, constraints=list(s["constraints"]))
        m = Model(s)
        nll = m.mct.create_nll()
        xs = [np.array(x, dtype=float) for x in s["xs"]]

        def ev(tag):
            for x in xs:
                if len(x) != m.size() or not nll_ok(m, x):
                    continue
                st = m.state()
                xx = x.copy()
                close("value", nll(xx), m.nll(x), rtol=1e-7, atol=1e-7, what=tag)
                unchanged("pure", xx, x, "the parameter vector")
                same_state("pure", m.state(), st)
            # once more in reverse order
            for x in xs[::-1]:
                if len(x) == m.size() and nll_ok(m, x):
                    close("history", nll(x), m.nll(x), rtol=1e-7, atol=1e-7, what=tag + ", evaluated again")

        ev("likelihood of the new model")
        for st in s["steps"]:
            ci = s["order"] % len(m.ref)
            c = m.ref[ci]
            r = c["temps"][s["order"] // 7 % len(c["temps"])]
            if st == "cov":
                n = len(r["counts"])
                m.add_cov(r, (np.eye(n) * 0.7 * (1 + r["counts"].max() ** 2 * 0.01) + 0.2).tolist(), c["geo"]["dim"])
            elif st == "constraint":
                k = s["ncon"]
                m.mct.add_gaussian_constraint_on_yield(k["proc"], k["value"], k["error"])
                s["constraints"].append(k)
                same("constraints", sorted(m.mct.constrained_yields), sorted(m.constraints()), "constrained yields")
            elif st == "data":
                m.add_data(ci, dict(counts=s["ndata"][ci], errs_sq=None))
            elif st == "update":
                if nll_ok(m, xs[0]):
                    m.mct.update_parameters(xs[0])
            elif st == "nll":
                nll = m.mct.create_nll()
            elif st == "template":
                free = [q for q in s["processes"] if q not in [t["proc"] for t in c["temps"]]]
                if free:
                    n = int(np.prod(c["shape"]))
                    m.add_template(ci, dict(proc=free[0], hist=dict(counts=[3.0 + i for i in range(n)], errs_sq=None), covs=[], eff=0.8))
                    lay = m.layout()[0]
                    xs = [np.concatenate((x[:m.nproc], np.full(m.size() - m.nproc, 0.25))) for x in xs]
            ev("likelihood after %s" % st)


# ---------------------------------------------------------------- C11

class C11:
    @staticmethod
    def gen(rng, i):
        s = gen_model(rng, negative=rng.chance(0.2), maxbins=5, constraints=False)
        for c in s["channels"]:
            if rng.chance(0.4):
                c["data"] = None
        s["x"] = gen_x(rng, s, nui=0.3)
        s["set"] = rng.chance(0.7)
        s["seed"] = rng.randrange(10 ** 6)
        s["half"] = rng.chance(0.3)
        return s

    @staticmethod
    def check(s):
        import scipy.stats
        m = Model(s)
        if s["set"]:
            x = np.array(s["x"], dtype=float)
            if not m.conditioned(x):
                raise Skip()
            m.mct.update_parameters(x)
        means = {c["name"]: sum(np.asarray(t["t"].values) for t in c["temps"]) for c in m.ref}
        if any(not np.all(np.isfinite(v)) for v in means.values()):
            raise Skip()
        signed = any(np.any(v < 0) for v in means.values())
        st = m.state()

        def verify(d, want, tag):
            same("one_per_channel", list(d.keys()), [c["name"] for c in m.ref], tag + ": channels")
            for c in m.ref:
                h = d[c["name"]]
                true("histogram", type(h) is hist_class(c["geo"]["dim"]), tag + ": type %s" % type(h).__name__)
                if want is not None:
                    close(tag, h.bin_counts, want[c["name"]], what=tag + " data")
                e, b = np.asarray(h.bin_errors_sq), np.asarray(h.bin_counts)
                close("errors", e[b >= 0], b[b >= 0], what="squared errors of the " + tag + " data")
                same("shape", tuple(np.shape(h.bin_counts)), c["shape"], "shape")
                for a, b in zip(geo_edges(c["geo"]), [h.bin_edges] if c["geo"]["dim"] == 1 else h.bin_edges):
                    close("edges", b, a, what="edges")

        verify(m.mct.generate_asimov_dataset(), means, "asimov")
        verify(m.mct.generate_asimov_dataset(integer_values=True), {k: np.rint(v) for k, v in means.items()}, "asimov_integer")
        for c in m.ref:
            close("asimov", m.mct.channels[c["name"]].generate_asimov_dataset().bin_counts, means[c["name"]], what="asimov data of one channel")
        same_state("pure", m.state(), st)
        if signed:
            return
        # the toy data: with the package's random generator and the same seed,
        # drawing from Poisson(means) per channel in order gives the same numbers
        np.random.seed(s["seed"])
        d = m.mct.generate_toy_dataset()
        verify(d, None, "toy")
        for c in m.ref:
            b = np.asarray(d[c["name"]].bin_counts)
            true("toy_integers", np.all(b == np.rint(b)) and np.all(b >= 0), "toy counts are not non-negative integers")
            mu = means[c["name"]]
            true("toy_poisson", np.all((mu > 0) | (b == 0)), "events where none are expected")
            dev = np.abs(b - mu) > 12 * np.sqrt(mu) + 12
            true("toy_poisson", not np.any(dev), "toy counts far from their mean")
        # statistical check with many toys, only for a cheap model
        if s["half"]:
            k = 300
            tot = {c["name"]: [] for c in m.ref}
            for _ in range(k):
                d2 = m.mct.generate_toy_dataset()
                for n in tot:
                    tot[n].append(np.asarray(d2[n].bin_counts).ravel())
            for n, v in tot.items():
                v = np.array(v)
                mu = means[n].ravel()
                dev = np.abs(v.mean(axis=0) - mu) / np.sqrt(np.maximum(mu, 1e-3) / k)
                true("toy_poisson", np.all((dev < 9) | (np.abs(v.mean(axis=0) - mu) < 0.05)), "mean of %d toys deviates by %.1f sigma" % (k, dev.max()))
                big = mu > 1
                if np.any(big):
                    ratio = v.var(axis=0)[big] / mu[big]
                    true("toy_poisson", np.all((ratio > 0.4) & (ratio < 1.9)), "variance/mean of toys is %s" % ratio)
                if len(mu) > 1:
                    # independence of bins
                    sel = np.where(mu > 1)[0]
                    if len(sel) > 1:
                        cc = np.corrcoef(v[:, sel].T)
                        off = cc[~np.eye(len(sel), dtype=bool)]
                        true("toy_poisson", np.all(np.abs(off) < 0.45), "toy bins are correlated: %.2f" % np.abs(off).max())
        same_state("pure", m.state(), st)
        # usable as data
        accepts("usable", lambda: m.mct.add_data(**d), "adding the toy data")
        for c in m.ref:
            close("usable", m.mct.channels[c["name"]].data_bin_counts, d[c["name"]].bin_counts, what="data")
        # a data set is independent of later parameter changes
        a = m.mct.generate_asimov_dataset()
        m.mct.reset_parameters()
        for t in m.templates():
            t["t"].yield_param = 0.0
        for c in m.ref:
            close("asimov", a[c["name"]].bin_counts, means[c["name"]], what="asimov data after changing the templates")


# ---------------------------------------------------------------- C12

class C12:
    @staticmethod
    def gen(rng, i):
        if i % 2:
            s = gen_model(rng, negative=rng.chance(0.2), maxbins=5, data=False, constraints=False)
            s["mode"] = "model"
            s["x"] = gen_x(rng, s, nui=0.0)
            s["ys"] = [gen_x(rng, s, nui=0.5) for _ in range(4)]
            s["keep"] = [[rng.pick(0.0, 1.0, 1.0, 2.0, 0.3) for _ in range(int(np.prod(geo_shape(c["geo"]))))] for c in s["channels"]]
            return s
        n = rng.size(1, 8)
        x = [rng.pick(0.0, rng.count(0.1), rng.count(0.0), 1e-3, 1e-120, 1e-90, 1e8, rng.uniform(0, 2)) for _ in range(n)]
        y = [rng.pick(a if a > 1e-50 else 1.0, a * (1 + rng.uniform(-1e-6, 1e-6)) if a > 1e-50 else 0.5, rng.count(0.0), rng.uniform(0.01, 1e3), a * rng.uniform(0.5, 2) if a > 1e-50 else 2.0) for a in x]
        return dict(mode="func", x=x, y=y)

    @staticmethod
    def check(s):
        if s["mode"] == "func":
            from templatefitter.utility import xlogyx
            x, y = np.array(s["x"]), np.array(s["y"])
            x0, y0 = x.copy(), y.copy()
            v = xlogyx(x, y)
            unchanged("pure", x, x0)
            unchanged("pure", y, y0)
            same("elementwise", np.shape(v), x.shape, "shape")
            with np.errstate(all="ignore"):
                want = np.where(x < 1e-100, 0.0, x * (np.log(y) - np.log(np.where(x > 0, x, 1.0))))
                slack = 2e-15 * x * (1 + np.abs(np.log(np.where(x > 0, x, 1.0))) + np.abs(np.log(y)))
            true("xlogyx", np.all(np.abs(v - want) <= 1e-9 + 1e-7 * np.abs(want) + slack), "x*log(y/x) is %s, expected %s" % (v.tolist(), want.tolist()))
            for a, b, c in zip(x, y, v):
                close("elementwise", xlogyx(float(a), float(b)), c, what="scalar evaluation")
            close("xlogyx", xlogyx(float("nan"), 1.0), 0.0, what="x undefined")
            d = y - x - v
            true("nonnegative", np.all(np.isfinite(d)) and np.all(d >= -1e-9 * (x + y)), "negative or undefined contribution %s" % d)
            eq = xlogyx(y, y)
            close("zero_at_data", y - y - eq, np.zeros_like(y), what="contribution at expectation equal to data")
            far = np.abs(x - y) > 1e-2 * (x + y)
            true("positive_elsewhere", np.all(d[far] > 0), "zero contribution away from the data")
            close("empty_bin", (y - x - v)[x < 1e-100], y[x < 1e-100], what="contribution of an empty bin")
            if len(x) >= 2:
                a, b = x.reshape(1, -1), y.reshape(1, -1)
                close("elementwise", xlogyx(a, b), v.reshape(1, -1), what="2d evaluation")
            return
        m = Model(s)
        x = np.array(s["x"], dtype=float)
        if not nll_ok(m, x):
            raise Skip()
        m.mct.update_parameters(x)
        d = m.mct.generate_asimov_dataset()
        m.mct.add_data(**d)
        nll = m.mct.create_nll()
        v0 = nll(x)
        close("zero_at_data", v0, 0.0, atol=1e-7, what="likelihood at the generating parameters")
        for y in s["ys"]:
            y = np.array(y, dtype=float)
            if nll_ok(m, y):
                v = nll(y)
                tot = sum(np.sum(e) for e in m.expectation(y).values())
                true("minimum", v >= v0 - 1e-8 * (1 + tot), "likelihood %g below its value %g at the generating parameters" % (v, v0))
        # data away from the expectation, empty in some bins
        want = 0.0
        for ci, c in enumerate(m.ref):
            e, f = np.asarray(d[c["name"]].bin_counts).ravel(), np.array(s["keep"][ci])
            m.add_data(ci, dict(counts=(e * f).tolist(), errs_sq=None))
            want += np.sum(e * (1 - f + f * np.log(np.where(f > 0, f, 1.0))))
        close("contributions", nll(x), want, what="likelihood where data are a multiple of the expectation")


# ---------------------------------------------------------------- C13

class C13:
    @staticmethod
    def gen(rng, i):
        s = gen_model(rng, negative=rng.chance(0.2), maxbins=4, data=True, constraints=False)
        s["ops"] = [rng.pick(["update", gen_x(rng, s, positive=False, nui=0.5)], ["set", rng.pick(*s["processes"]), rng.pick(rng.uniform(0, 100), 7, -2.5, 0.0)],
                             ["reset"], ["bad"], ["tset", rng.randrange(100), rng.uniform(0, 20)]) for _ in range(rng.randint(1, 5))]
        return s

    @staticmethod
    def check(s):
        m = Model(s)
        mct = m.mct
        params = {}
        for c, t, sl in m.layout()[0]:
            params[id(t)] = np.concatenate(([t["counts"].sum()], np.zeros(len(t["counts"]))))
        data = [np.array(mct.channels[c["name"]].data_bin_counts) for c in m.ref]

        def verify(tag):
            ys, es = np.zeros(m.nproc), np.zeros(m.nproc)
            ok = True
            for c, t, sl in m.layout()[0]:
                p = params[id(t)]
                close("untouched", t["t"].params, p, what="params of %s/%s %s" % (c["name"], t["proc"], tag))
                i = s["processes"].index(t["proc"])
                ys[i] += p[0]
                if not templ.well_conditioned(t["counts"], t["rel"], p[1:]):
                    ok = False
                    continue
                es[i] += np.sum((t["rel"] * p[0] * fractions(t["counts"], t["rel"], p[1:])) ** 2)
            close("process_yields", mct.process_yields, ys, what="process_yields " + tag)
            for p, y in zip(s["processes"], ys):
                close("get_yield", mct.get_yield(p), y, what="get_yield(%s) %s" % (p, tag))
            if ok:
                close("process_yield_errors", mct.process_yield_errors, np.sqrt(es), what="process_yield_errors " + tag)
            for c, d in zip(m.ref, data):
                unchanged("untouched", mct.channels[c["name"]].data_bin_counts, d, "data")

        verify("of the new model")
        for op in s["ops"]:
            if op[0] == "update":
                x = np.array(op[1], dtype=float)
                mct.update_parameters(x)
                for c, t, sl in m.layout()[0]:
                    params[id(t)] = np.concatenate(([x[s["processes"].index(t["proc"])] * t["eff"]], x[sl]))
            elif op[0] == "set":
                mct.set_yield(op[1], op[2])
                for c, t, sl in m.layout()[0]:
                    if t["proc"] == op[1]:
                        params[id(t)] = np.concatenate(([op[2] * t["eff"]], params[id(t)][1:]))
            elif op[0] == "reset":
                mct.reset_parameters()
                for c, t, sl in m.layout()[0]:
                    params[id(t)] = np.concatenate(([t["counts"].sum()], np.zeros(len(t["counts"]))))
            elif op[0] == "tset":
                t = m.templates()[op[1] % len(m.templates())]
                t["t"].yield_param = op[2]
                params[id(t)] = np.concatenate(([op[2]], params[id(t)][1:]))
            else:
                rejects("unknown_process", lambda: mct.set_yield("nope", 1.0), "set_yield of an unknown process")
                rejects("unknown_process", lambda: mct.get_yield("nope"), "get_yield of an unknown process")
            verify("after %s" % op[0])


# ---------------------------------------------------------------- C22

class C22:
    @staticmethod
    def gen(rng, i):
        s = gen_model(rng, dims=(1, 1, 2), maxbins=3, max_ch=1, max_proc=3, data=False, constraints=False)
        n = len(s["channels"][0]["templates"])
        k = n * (1 + int(np.prod(geo_shape(s["channels"][0]["geo"]))))
        s["v"] = [rng.uniform(5, 50) for _ in range(n)] + rng.reals(k - n, -0.3, 0.3)
        s["cov"] = rng.pick(rng.spd(k, 1.0), rng.spd(k, 1.0), np.zeros((k, k)).tolist(), rng.psd1(k), np.diag([rng.uniform(0, 3) for _ in range(k)]).tolist())
        return s

    @staticmethod
    def check(s):
        from templatefitter.minimizer import Parameters
        m = Model(s)
        c = m.ref[0]
        ch = m.mct.channels[c["name"]]
        v = np.array(s["v"], dtype=float)
        cov = np.array(s["cov"], dtype=float)
        nt = len(c["temps"])
        nb = int(np.prod(c["shape"]))
        J = np.zeros((nb, len(v)))
        for k, t in enumerate(c["temps"]):
            th = v[nt + k * nb: nt + (k + 1) * nb]
            if not templ.well_conditioned(t["counts"], t["rel"], th) or not t["counts"].any():
                raise Skip()
            y = t["counts"] * (1 + th * t["rel"])
            tot = y.sum()
            if tot < 0.2 * t["counts"].sum():
                raise Skip()
            J[:, k] = t["eff"] * y / tot
            d = t["counts"] * t["rel"]
            if d.max() > 0.3 * tot:
                raise Skip()     # finite differences of the reference library get imprecise
            J[:, nt + k * nb: nt + (k + 1) * nb] = v[k] * t["eff"] * (np.diag(d) / tot - np.outer(y, d) / tot ** 2)
        want = J @ cov @ J.T
        p = Parameters(["p%d" % i for i in range(len(v))])
        p.values, p.covariance, p.errors = v.copy(), cov.copy(), np.sqrt(np.diag(cov))
        st = m.state()
        got = ch.propagate_parameter_uncertainties(p)
        close("propagation", got, want, rtol=1e-5, atol=1e-6, what="post-fit covariance")
        close("symmetric", got, np.asarray(got).T, rtol=1e-7, atol=1e-8, what="post-fit covariance")
        if np.all(np.diag(want) > 1e-6 * np.abs(want).max()):
            close("uncertainty", ch.get_post_fit_bin_uncertainty(p), np.sqrt(np.diag(want)), rtol=1e-5, atol=1e-6, what="post-fit uncertainties")
        elif not want.any():
            close("uncertainty", ch.get_post_fit_bin_uncertainty(p), np.zeros(nb), atol=1e-7, what="post-fit uncertainties")
        unchanged("pure", p.values, v, "the fit result")
        unchanged("pure", p.covariance, cov, "the fit result")
        same_state("pure", m.state(), st)
        p.covariance = 4.0 * cov
        close("linear", ch.propagate_parameter_uncertainties(p), 4 * want, rtol=1e-5, atol=1e-6, what="post-fit covariance of four times the covariance")


# ---------------------------------------------------------------- C23

class Axis:
    """records what is drawn"""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            self.calls.append((name, a, k))
            return [None, None, None, None]
        return f

    def of(self, name):
        return [(a, k) for n, a, k in self.calls if n == name]


def band(clause, ax, want, err, mids_, widths, what):
    b = ax.of("bar")
    true(clause, len(b) == 1, "%s: %d uncertainty bands" % (what, len(b)))
    a, k = b[0]
    k = dict(zip(("x", "height", "width", "bottom"), a), **k)
    close(clause, np.asarray(k["bottom"]) + np.asarray(k["height"]) / 2, want, atol=1e-11 * max(1.0, float(np.max(np.abs(np.asarray(k["height"], dtype=float)), initial=0.0))), what=what + ": centre of the band")
    close(clause, np.asarray(k["height"]) / 2, err, what=what + ": half height of the band")
    close(clause, k["x"], mids_, what=what + ": position of the band")
    close(clause, np.broadcast_to(np.asarray(k["width"], dtype=float), np.shape(mids_)), widths, what=what + ": width of the band")


class C23:
    @staticmethod
    def gen(rng, i):
        s = gen_model(rng, dims=(1, 1, 2), maxbins=4, max_ch=1, max_proc=3, constraints=False)
        s["x"] = gen_x(rng, s, nui=0.3)
        d = s["channels"][0]["data"]
        if rng.chance(0.3):
            s["channels"][0]["data"] = None
        elif d is not None and rng.chance(0.5):
            d["errs_sq"] = [rng.pick(0.0, x, 2 * x, rng.uniform(0.1, 9)) for x in d["counts"]]
        n = len(s["channels"][0]["templates"])
        k = n * (1 + int(np.prod(geo_shape(s["channels"][0]["geo"]))))
        s["errs"] = [rng.uniform(0.1, 2) for _ in range(k)]
        s["labels"] = [rng.pick(None, "nice") for _ in range(n)]
        return s

    @staticmethod
    def check(s):
        from templatefitter.minimizer import Parameters
        m = Model(s)
        x = np.array(s["x"], dtype=float)
        if not m.conditioned(x):
            raise Skip()
        m.mct.update_parameters(x)
        c = m.ref[0]
        ch = m.mct.channels[c["name"]]
        dim, shape, es = c["geo"]["dim"], c["shape"], geo_edges(c["geo"])
        vals, errs = [], []
        for cc, t, sl in m.layout()[0]:
            y = x[s["processes"].index(t["proc"])] * t["eff"] * fractions(t["counts"], t["rel"], x[sl])
            vals.append(y.reshape(shape))
            errs.append((t["rel"] * y).reshape(shape))
        for t, l in zip(c["temps"], s["labels"]):
            t["t"].pretty_label = None if l is None else l + " " + t["t"].name
        labels = [t["t"].name if l is None else l + " " + t["t"].name for t, l in zip(c["temps"], s["labels"])]
        st = m.state()
        for t, v, e, l in zip(c["temps"], vals, errs, labels):
            if dim == 1:
                ax = Axis()
                t["t"].plot_on(ax)
                C23.hist(ax, es[0], [v], "template plot", [l])
                band("band", ax, v, e, mids(es[0]), np.diff(es[0]), "template plot")
            else:
                for name, k, ex in (("x", 1, es[0]), ("y", 0, es[1])):
                    ax = Axis()
                    getattr(t["t"], "plot_%s_projection_on" % name)(ax)
                    C23.hist(ax, ex, [v.sum(axis=k)], name + " projection plot", [l])
                    band("projection", ax, v.sum(axis=k), np.sqrt((e ** 2).sum(axis=k)), mids(ex), np.diff(ex), name + " projection plot")

                ax, fig = Axis(), Axis()
                t["t"].plot_on(fig, ax)
                a, k = ax.of("hist2d")[0]
                close("contents2d", np.histogram2d(np.asarray(k["x"]), np.asarray(k["y"]), bins=es, weights=np.asarray(k["weights"]))[0], v, what="2d plot")
                for b1, b2 in zip(k["bins"], es):
                    close("contents2d", b1, b2, what="2d plot bins")
        if dim == 2:
            rejects("refuse_2d", lambda: ch.plot_stacked_on(Axis()), "stacked plot of a 2d channel", (NotImplementedError,))
            same_state("pure", m.state(), st)
            return
        tot = sum(vals)
        ax = Axis()
        ch.plot_stacked_on(ax)
        C23.hist(ax, es[0], vals, "stacked plot", labels)
        band("band", ax, tot, np.sqrt(sum(e ** 2 for e in errs)), mids(es[0]), np.diff(es[0]), "stacked plot")
        C23.points(ax, c, es)
        nt, nb = len(vals), len(tot)
        p = Parameters(["p%d" % i for i in range(nt * (1 + nb))])
        v = np.concatenate([[x[s["processes"].index(t["proc"])] for t in c["temps"]]] + [x[sl] for cc, t, sl in m.layout()[0]])
        p.values, p.errors = v, np.array(s["errs"])
        p.covariance = np.diag(p.errors ** 2)
        ax = Axis()
        ch.plot_post_fit_stacked_on(ax, p, post_fit_uncertainties="scale")
        ne = p.errors[nt:].reshape(nt, nb)
        C23.hist(ax, es[0], vals, "post-fit plot", labels)
        band("post_fit", ax, tot, np.sqrt(sum((n * e) ** 2 for n, e in zip(ne, errs))), mids(es[0]), np.diff(es[0]), "post-fit plot (scaled)")
        C23.points(ax, c, es)
        ax = Axis()
        ch.plot_post_fit_stacked_on(ax, p)
        C23.hist(ax, es[0], vals, "post-fit plot", labels)
        want = ch.get_post_fit_bin_uncertainty(p)
        if np.all(np.isfinite(want)):
            band("post_fit", ax, tot, want, mids(es[0]), np.diff(es[0]), "post-fit plot")
        same_state("pure", m.state(), st)

    @staticmethod
    def hist(ax, edges, contents, what, labels):
        hs = ax.of("hist")
        true("contents", len(hs) == 1, "%s: %d histograms drawn" % (what, len(hs)))
        a, k = hs[0]
        k = dict(zip(("x",), a), **k)
        close("bins", k["bins"], edges, what=what + ": bins")
        xs, ws = k["x"], k["weights"]
        if np.ndim(xs[0]) == 0:
            xs, ws = [xs], [ws]
        same("contents", len(ws), len(contents), what + ": number of histograms")
        same("contents", len(xs), len(contents), what + ": number of histograms")
        for xx, w, v in zip(xs, ws, contents):
            close("contents", np.histogram(np.asarray(xx), bins=edges, weights=np.asarray(w))[0], v, what=what + ": contents")
        ls = k.get("label")
        same("labels", [ls] if isinstance(ls, str) else list(ls), labels, what + ": labels")
        if len(contents) > 1:
            true("contents", k.get("stacked") is True, what + ": not stacked")

    @staticmethod
    def points(ax, c, es):
        e = ax.of("errorbar")
        if c["data"] is None:
            true("data", not e, "data points drawn without data")
            return
        true("data", len(e) == 1, "%d sets of data points" % len(e))
        a, k = e[0]
        k = dict(zip(("x", "y", "yerr"), a), **k)
        close("data", k["x"], mids(es[0]), what="data positions")
        close("data", k["y"], c["data"], what="data points")
        close("data", k["yerr"], np.sqrt(c["data_sq"]), what="data errors")
