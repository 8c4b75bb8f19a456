"""C21: the older stacked-template interface"""
import pandas as pd

from .common import *
from .templ import rel_errors, stat_cov, fractions, cov_ok


class C21:
    @staticmethod
    def gen(rng, i):
        n = rng.size(1, 5, 12)
        k = rng.pick(1, 2, 2, 3, 4)
        lo = rng.pick(0.0, rng.uniform(-5, 5))
        hi = lo + rng.uniform(0.5, 10)
        ts = []
        for j in range(k):
            cnt = rng.randint(n, 40)
            ent = [rng.uniform(lo, hi) for _ in range(cnt)]
            if rng.chance(0.7):     # every bin filled
                ent += [lo + (b + 0.5) * (hi - lo) / n for b in range(n)]
            if rng.chance(0.3):
                ent += [lo - 1.0, hi + 1.0, hi, lo]
            covs = []
            for _ in range(rng.pick(0, 0, 1, 2)):
                covs.append(rng.spd(n, rng.pick(0.1, 10.0)) if rng.chance(0.5) else rng.psd1(n, 2.0))
            ts.append(dict(name="t%d" % j if rng.chance(0.7) else "t%d" % (9 - j), entries=ent, weights=[rng.pick(1.0, rng.uniform(0.1, 3)) for _ in ent], covs=covs, created=rng.chance(0.5)))
        for j, t in enumerate(ts):
            if any(t["name"] == q["name"] for q in ts[:j]):
                t["name"] += "b"
        vecs = []
        for _ in range(rng.pick(1, 2)):
            vecs.append(dict(y=[rng.uniform(5, 500) for _ in range(k)], nui=rng.reals(n * k, -0.4, 0.4), ey=rng.reals(k, 0, 5), en=rng.reals(n * k, 0, 1)))
        return dict(n=n, limits=[lo, hi], templates=ts, vecs=vecs, data=[float(rng.pick(0, rng.randint(0, 60), rng.randint(1, 60))) for _ in range(n)], late=rng.chance(0.5), seed=rng.randrange(10 ** 6))

    @staticmethod
    def check(s):
        from templatefitter.templates_legacy import Template, StackedTemplate
        from templatefitter.histogram_legacy import Hist1d
        n, lim = s["n"], tuple(s["limits"])
        st = StackedTemplate("stack", "x", n, lim)
        ref = []
        edges = np.linspace(lim[0], lim[1], n + 1)
        close("geometry", st.bin_edges, edges, what="bin edges of the stack")
        for t in s["templates"]:
            df = pd.DataFrame(dict(x=t["entries"], weight=t["weights"]))
            c, v = hist_content(dict(dim=1, mode="edges", edges=edges), dict(entries=[[e] for e in t["entries"]], weights=t["weights"]))
            if not abs(c.sum()) > 0:
                raise Skip()
            if t["created"]:
                st.create_template(t["name"], df)
            else:
                st.add_template(t["name"], Template(t["name"], "x", n, lim, df))
            o = st[t["name"]]
            covs = []
            for m in t["covs"]:
                if cov_ok(c, v, covs + [m]):
                    covs.append(m)
            cov = stat_cov(v)
            close("fresh", o.values(), c, what="values of a new template")
            for m in covs:
                arg = np.array(m)
                o.add_covariance_matrix(arg)
                unchanged("pure", arg, np.array(m), "added covariance matrix")
                cov = cov + np.array(m)
                d = np.sqrt(np.diag(cov))
                close("covariance", o.cov_mat, cov, what="covariance")
                close("covariance", o.corr_mat, cov / np.outer(d, d), what="correlation")
                close("covariance", o.inv_corr_mat @ o.corr_mat, np.eye(n), atol=1e-6, what="inverse correlation times correlation")
            close("covariance", o.cov_mat, cov, what="covariance")
            d = np.sqrt(np.diag(cov))
            inv = np.linalg.inv(cov / np.outer(d, d)) if covs else np.eye(n)
            close("errors", o.errors(), rel_errors(c, cov) * c, what="errors of a new template")
            ref.append(dict(o=o, c=c, v=v, cov=cov, rel=rel_errors(c, cov), inv=inv, y0=c.sum(), name=t["name"]))
        k = len(ref)
        # incompatible ones
        df = pd.DataFrame(dict(x=[lim[0] + 0.1], weight=[1.0]))
        for what, bad in (("another number of bins", Template("b", "x", n + 1, lim, df)), ("other limits", Template("b", "x", n, (lim[0] - 1.0, lim[1]), df)),
                          ("other limits", Template("b", "x", n, (lim[0], lim[1] + 1.0), df)), ("another variable", Template("b", "z", n, lim, df.rename(columns=dict(x="z"))))):
            rejects("incompatible", lambda: st.add_template("bad", bad), "a template with " + what)
        same("incompatible", st.num_templates, k, "number of templates")
        names = [r["name"] + "_yield" for r in ref] + [r["name"] + "_nui_%d" % b for r in ref for b in range(n)]
        data = np.array(s["data"])
        h = Hist1d.from_binned_data(edges, data.copy())
        nll = st.create_nll(h)
        same("layout", list(nll.param_names), names, "parameter names")
        close("layout", nll.x0, np.concatenate(([r["y0"] for r in ref], np.zeros(n * k))), what="starting values")

        def state(y, nui, what):
            vals, var = np.zeros(n), np.zeros(n)
            for j, r in enumerate(ref):
                fr = fractions(r["c"], r["rel"], nui[j])
                close("prediction", r["o"].values(), y[j] * fr, what="values of %s, %s" % (r["name"], what))
                close("prediction", r["o"].errors(), r["rel"] * y[j] * fr, what="errors of %s, %s" % (r["name"], what))
                close("own_part", r["o"].yield_param_values, y[j], what="yield of %s, %s" % (r["name"], what))
                close("own_part", r["o"].nui_param_values, nui[j], what="nuisance parameters of %s, %s" % (r["name"], what))
                vals += y[j] * fr
                var += (r["rel"] * y[j] * fr) ** 2
            close("stack", st.values(), vals, what="values of the stack, " + what)
            close("stack", st.errors(), np.sqrt(var), what="errors of the stack, " + what)
            return vals

        def ref_nll(y, nui):
            nu = sum(y[j] * fractions(r["c"], r["rel"], nui[j]) for j, r in enumerate(ref))
            if np.any(nu <= 1e-9):
                return None
            p = nu - data + np.where(data > 0, data * np.log(np.where(data > 0, data, 1.0) / nu), 0.0)
            return np.sum(p) + 0.5 * sum(nui[j] @ r["inv"] @ nui[j] for j, r in enumerate(ref))

        state([r["y0"] for r in ref], np.zeros((k, n)), "new")
        for z in s["vecs"]:
            y, nui = np.array(z["y"]), np.array(z["nui"]).reshape(k, n)
            if any(abs(np.sum(r["c"] * (1 + nui[j] * r["rel"]))) < 1e-3 * np.sum(np.abs(r["c"])) for j, r in enumerate(ref)):
                continue
            x = np.concatenate((y, nui.ravel()))
            e = np.concatenate((z["ey"], z["en"]))
            want = ref_nll(y, nui)
            if want is not None:
                arg = x.copy()
                close("likelihood", nll(arg), want, rtol=1e-8, atol=1e-8, what="likelihood")
                close("likelihood", nll(arg), want, rtol=1e-8, atol=1e-8, what="likelihood, second evaluation")
                unchanged("pure", arg, x, "parameter vector")
            st.update_parameters(x.copy(), e.copy())
            vals = state(y, nui, "updated")
            close("own_part", st.yield_param_values, y, what="yields of the stack")
            close("own_part", st.nui_param_values, nui, what="nuisance parameters of the stack")
            close("own_part", st.yield_param_errors, z["ey"], what="yield errors of the stack")
            close("own_part", st.nui_param_errors, np.array(z["en"]).reshape(k, n), what="nuisance parameter errors of the stack")
            for j, r in enumerate(ref):
                close("own_part", r["o"].yield_param_errors, z["ey"][j], what="yield error of a template")
                close("own_part", r["o"].nui_params_errors, np.array(z["en"]).reshape(k, n)[j], what="nuisance parameter errors of a template")
            nll2 = st.create_nll(h)
            close("layout", nll2.x0, x, what="starting values after an update")
            close("asimov", st.generate_asimov_dataset().bin_counts, vals, what="Asimov data")
            close("asimov", st.generate_asimov_dataset(integer_values=True).bin_counts, np.rint(vals), what="rounded Asimov data") if np.all(np.abs(vals - np.floor(vals) - 0.5) > 1e-6) else None
            if np.all(vals >= 0):
                np.random.seed(s["seed"])
                toy = np.asarray(st.generate_toy_dataset().bin_counts)
                same("toy", toy.shape, (n,), "shape of the toy data")
                true("toy", np.all(toy >= 0) and np.all(toy == np.round(toy)), "toy data %s" % short(toy))
                true("toy", np.all(np.abs(toy - vals) <= 12 * np.sqrt(vals) + 25), "toy data %s for means %s" % (short(toy), short(vals)))
            state(y, nui, "after generating data")
        # the correlation used is the one at creation: a new likelihood sees later covariances
        if s["late"]:
            r = ref[0]
            m = np.diag(np.arange(1.0, n + 1)) * 0.5
            r["o"].add_covariance_matrix(m)
            r["cov"] = r["cov"] + m
            d = np.sqrt(np.diag(r["cov"]))
            r["inv"] = np.linalg.inv(r["cov"] / np.outer(d, d))
            r["rel"] = rel_errors(r["c"], r["cov"])
            z = s["vecs"][0]
            y, nui = np.array(z["y"]), np.array(z["nui"]).reshape(k, n)
            if not any(abs(np.sum(q["c"] * (1 + nui[j] * q["rel"]))) < 1e-3 * np.sum(np.abs(q["c"])) for j, q in enumerate(ref)):
                want = ref_nll(y, nui)
                if want is not None:
                    close("likelihood", st.create_nll(h)(np.concatenate((y, nui.ravel()))), want, rtol=1e-7, atol=1e-7, what="likelihood after another covariance matrix")
        st.reset_parameters()
        state([r["y0"] for r in ref], np.zeros((k, n)), "reset")
        for r in ref:
            close("reset", r["o"].yield_param_errors, np.sqrt(r["v"].sum()), what="yield error after a reset")
            close("reset", r["o"].nui_params_errors, np.ones(n), what="nuisance parameter errors after a reset")
