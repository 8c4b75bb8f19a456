"""regenerates /verif/seeded/<id>: patches written against the text of the properties, with demonstrations"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, sys, warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
os.environ["MPLBACKEND"] = "Agg"
import numpy as np
from templatefitter.histograms import Hist1d, Hist2d
from templatefitter.templates import Template1d, Template2d, MultiChannelTemplate, Channel

def t1(counts, errs=None, name="t", edges=None):
    counts = np.array(counts, dtype=float)
    edges = np.linspace(0., 1., len(counts) + 1) if edges is None else edges
    return Template1d(name, "x", Hist1d.from_binned_data(counts, edges, None if errs is None else np.array(errs, dtype=float)))

def close(a, b, what):
    if not np.allclose(a, b, rtol=1e-9, atol=1e-12):
        print("FAILED:", what, a, b)
        sys.exit(1)

def ok(c, what):
    if not c:
        print("FAILED:", what)
        sys.exit(1)
'''
S = []
def seed(id, prop, file, subs, needs, breaks, demo):
    S.append((id, prop, file, subs, needs, breaks, demo))

T = "templatefitter/"
seed("c01-signed-squares", "C01", T + "histograms/hist2d.py", [("values=weights ** 2,", "values=weights * np.abs(weights),")],
     "a two-dimensional histogram filled with negative weights", "squared errors of bins with negative weights",
     '''
h = Hist2d((2, 2), ((0., 1.), (0., 1.)), data=[np.array([.1, .2, .9]), np.array([.1, .2, .9])], weights=np.array([2., -1., 3.]))
close(h.bin_errors_sq, [[5., 0.], [0., 9.]], "squared errors")
''')
seed("c02-projection-errors", "C02", T + "histograms/hist2d.py", [("np.sqrt(np.sum(self._bin_errors_sq, axis=0))", "np.sqrt(np.abs(np.sum(self._bin_counts, axis=0)))")],
     "y projection of a two-dimensional histogram whose squared errors differ from its counts", "errors of the y projection",
     '''
h = Hist2d.from_binned_data(np.array([[1., 2.], [3., 4.]]), [np.array([0., 1., 2.]), np.array([0., 1., 2.])], np.array([[1., 2.], [3., 4.]]))
close(h.y_projection().bin_errors_sq, [10., 20.], "projected errors")
''')
seed("c03-clipped-shift", "C03", T + "templates/abstract_template.py", [("per_bin_yields = bin_counts * (1. + nui_params * rel_errors)", "per_bin_yields = bin_counts * np.maximum(1. + nui_params * rel_errors, 0.)")],
     "a nuisance parameter below minus one over the relative error", "bins shifted below zero are clipped",
     '''
t = t1([4., 16.])
n = np.array([-3., 1.])
w = np.array([4. * (1 - 3 * .5), 16. * (1 + .25)])
close(t.fractions(n), w / w.sum(), "fractions")
''')
seed("c04-second-matrix", "C04", T + "templates/abstract_template.py", [("""        self._inv_corr = np.linalg.inv(self._corr)
        self._relative_errors = np.divide(
            np.sqrt(np.diag(self._cov)),""", """        self._inv_corr = np.linalg.inv(self._corr)
        self._relative_errors = np.divide(
            np.sqrt(np.diag(self._cov_mats[0] + self._cov_mats[-1])),""")],
     "two or more covariance matrices added to one template", "relative errors forget all but the last added matrix",
     '''
t = t1([10., 20.])
t.add_cov_mat(np.eye(2) * 4.)
t.add_cov_mat(np.eye(2) * 9.)
close(t.errors, np.sqrt(np.array([10., 20.]) + 13.), "errors after two matrices")
''')
seed("c05-one-sided", "C05", T + "utility.py", [("mask = hup < hdown", "mask = hup < hnom")],
     "a bin in which both variations shift the count to the same side", "sign of the covariance between such bins",
     '''
edges = np.array([0., 1., 2.])
t = t1([10., 10.], edges=edges)
n0 = t.cov_mat.copy()
data = np.array([.5, 1.5])
t.add_variation(data, np.array([12., 14.]), np.array([14., 8.]))
close(t.cov_mat - n0, np.outer([-3., 3.], [-3., 3.]), "covariance of the variation")
''')
seed("c06-half-reset", "C06", T + "templates/abstract_template.py", [("""        self._params = np.zeros(self._num_bins + 1)
        self._params[0] = np.sum(self._hist.bin_counts)""", """        if self._params is None or self._params[0] != np.sum(self._hist.bin_counts):
            self._params = np.zeros(self._num_bins + 1)
        self._params[0] = np.sum(self._hist.bin_counts)""")],
     "a reset after only nuisance parameters were changed", "nuisance parameters survive a reset",
     '''
t = t1([10., 20.])
t.nui_params = np.array([1., -1.])
t.reset()
close(t.nui_params, [0., 0.], "nuisance parameters after reset")
''')
seed("c07-range-start", "C07", T + "templates/channel.py", [("        range_cond = self._range == template.range\n", "        range_cond = self._range[0] == template.range[0]\n")],
     "a template with the right number of bins whose range agrees in the first entry only", "incompatible template accepted",
     '''
m = MultiChannelTemplate()
m.define_channel("c", 2, (0., 1.))
m.define_process("p")
try:
    m.add_template("c", "p", t1([1., 2.], edges=np.array([0., 1., 2.])))
except RuntimeError:
    sys.exit(0)
ok(False, "template of another range accepted")
''')
seed("c08-stale-efficiency", "C08", T + "templates/channel.py", [("        return np.array([eff for eff in self._efficiency_dict.values()])", """        if getattr(self, "_eff_cache", None) is None or len(self._eff_cache) < self.num_templates - 1:
            self._eff_cache = np.array([eff for eff in self._efficiency_dict.values()])
        if len(self._eff_cache) != self.num_templates:
            self._eff_cache = np.append(self._eff_cache, 1.0)
        return self._eff_cache""")],
     "an evaluation, then one more template with an efficiency other than one, then another evaluation", "efficiency of a template added after an evaluation is ignored",
     '''
m = MultiChannelTemplate()
m.define_channel("c", 2, (0., 1.))
for p in ("a", "b"):
    m.define_process(p)
m.add_template("c", "a", t1([1., 3.]), 0.5)
c = m.channels["c"]
close(c.bin_counts_from_param_values(np.array([8., 0., 0.])), [1., 3.], "one template")
m.add_template("c", "b", t1([3., 1.]), 0.25)
close(c.bin_counts_from_param_values(np.array([8., 16., 0., 0., 0., 0.])), [4., 4.], "two templates")
''')
seed("c09-process-order", "C09", T + "templates/multi_channel_template.py", [("""            for template in channel.templates.values():
                nui_params_per_channel.append(template.nui_params)""", """            for process in self.processes:
                if process in channel.templates:
                    nui_params_per_channel.append(channel[process].nui_params)""")],
     "a channel in which the templates were added in an order different from that of the processes", "starting values do not follow the layout of the parameter vector",
     '''
m = MultiChannelTemplate()
m.define_channel("c", 2, (0., 1.))
for p in ("a", "b"):
    m.define_process(p)
m.add_template("c", "b", t1([1., 0.]))
m.add_template("c", "a", t1([0., 1.]))
x = np.array([5., 7., .1, .2, .3, .4])
m.update_parameters(x)
close(m.create_nll().x0[2:], x[2:], "nuisance parameters read back")
''')
seed("c10-stale-gauss", "C10", T + "templates/channel.py", [("""        inv_corr_mats = [
            template.inv_corr_mat for template in self._template_dict.values()
        ]
        return block_diag(*inv_corr_mats)""", """        if getattr(self, "_block_cache", None) is None or len(self._block_cache) != self.num_nui_params:
            inv_corr_mats = [
                template.inv_corr_mat for template in self._template_dict.values()
            ]
            self._block_cache = block_diag(*inv_corr_mats)
        return self._block_cache""")],
     "a covariance matrix added to a template after the likelihood was evaluated", "the likelihood depends on earlier evaluations",
     '''
def build(evaluate):
    m = MultiChannelTemplate()
    m.define_channel("c", 2, (0., 1.))
    m.define_process("a")
    t = t1([10., 20.])
    m.add_template("c", "a", t)
    m.add_data(c=Hist1d.from_binned_data(np.array([9., 22.]), np.linspace(0, 1, 3)))
    x = np.array([30., .3, -.4])
    if evaluate:
        m.create_nll()(x)
    t.add_cov_mat(np.array([[4., 3.], [3., 4.]]))
    return m.create_nll()(x)
close(build(True), build(False), "likelihood with and without an earlier evaluation")
''')
seed("c11-rounded-errors", "C11", T + "templates/channel.py", [("asimov_bin_counts, self.bin_edges, np.sqrt(asimov_bin_counts)", "asimov_bin_counts, self.bin_edges, np.sqrt(template_bin_counts)")],
     "an Asimov data set with integer_values=True and non-integer expectation", "errors do not belong to the counts",
     '''
m = MultiChannelTemplate()
m.define_channel("c", 2, (0., 1.))
m.define_process("a")
m.add_template("c", "a", t1([10.4, 20.3]))
d = m.generate_asimov_dataset(integer_values=True)["c"]
close(d.bin_counts, [10., 20.], "counts")
close(d.bin_errors_sq, d.bin_counts, "squared errors")
''')
seed("c12-small-counts", "C12", T + "utility.py", [("    elif x < 1e-100:\n        return 0.0\n", "    elif x < 1e-2:\n        return 0.0\n")],
     "a data bin with a (weighted) content between 0 and 0.01", "the logarithmic term of small contents is dropped",
     '''
from templatefitter.utility import xlogyx
close(xlogyx(np.array([.005]), np.array([1.])), .005 * np.log(200.), "x*log(y/x)")
''')
seed("c13-missing-process", "C13", T + "templates/multi_channel_template.py", [("""                    yield_errors_sq[self.process_to_index(process)] += np.sum(
                        channel[process].errors ** 2
                    )
                except KeyError:
                    continue""", """                    yield_errors_sq[self.process_to_index(process)] += np.sum(
                        channel[process].errors ** 2
                    )
                except KeyError:
                    break""")],
     "a process that is missing in a channel defined before one that contains it", "yield errors lose all channels after the one without the process",
     '''
m = MultiChannelTemplate()
for c in ("c", "d"):
    m.define_channel(c, 2, (0., 1.))
for p in ("a", "b"):
    m.define_process(p)
m.add_template("c", "a", t1([10., 20.]))
m.add_template("d", "b", t1([5., 4.]))
close(m.process_yield_errors, np.sqrt([30., 9.]), "yield errors")
''')
seed("c14-negative-index", "C14", T + "utility.py", [("elif isinstance(param_id, int) and (param_id in range(len(names))):", "elif isinstance(param_id, int) and (param_id < len(names)):")],
     "a negative index", "negative indices are accepted",
     '''
from templatefitter.minimizer import Parameters
p = Parameters(["a", "b"])
try:
    p[-1]
except ValueError:
    sys.exit(0)
ok(False, "negative index accepted")
''')
seed("c15-falsy-bound", "C15", T + "minimizer.py", [("        self._param_bounds[param_index] = bounds\n", "        self._param_bounds[param_index] = tuple(b or None for b in bounds)\n")],
     "a bound equal to zero that is active at the minimum", "bounds at zero are ignored",
     '''
from templatefitter.minimizer import minimizer_factory
f = lambda x: float((x[0] + 1.) ** 2 + (x[1] - 2.) ** 2)
for k in ("scipy", "iminuit"):
    m = minimizer_factory(k, f, ["a", "b"])
    m.set_param_bounds("a", (0., 5.))
    r = m.minimize(np.array([1., 1.]), verbose=0)
    ok(r.params.values[0] >= -1e-9, "bound violated by " + k)
''')
seed("c16-limits-persist", "C16", T + "fitter.py", [("                minimizer.set_param_bounds(i, nui_param_limits)\n", "                self.set_parameter_bounds(i, nui_param_limits)\n")],
     "a fit with nui_param_limits followed by a fit without", "limits given for one fit stay in force for later ones",
     '''
from templatefitter import TemplateFitter
def model():
    m = MultiChannelTemplate()
    m.define_channel("c", 2, (0., 1.))
    m.define_process("a")
    m.add_template("c", "a", t1([50., 50.], [20., 20.]))
    m.add_data(c=Hist1d.from_binned_data(np.array([90., 20.]), np.linspace(0, 1, 3)))
    return m
f = TemplateFitter(model(), "scipy")
f.do_fit(update_templates=False, verbose=False, get_hesse=False, nui_param_limits=(-.01, .01))
a = f.do_fit(update_templates=False, verbose=False, get_hesse=False)
b = TemplateFitter(model(), "scipy").do_fit(update_templates=False, verbose=False, get_hesse=False)
ok(abs(a.fcn_min_val - b.fcn_min_val) < 1e-3, "later fit is still limited: %r %r" % (a.fcn_min_val, b.fcn_min_val))
''')
seed("c17-unbounded-null", "C17", T + "fitter.py", [("""        for param_id, bounds in self._bound_parameters.items():
            minimizer.set_param_bounds(param_id, bounds)

        minimizer.set_param_fixed(process_id + "_yield")""", """        if not fix_nui_params:
            self._bound_parameters = {k: v for k, v in self._bound_parameters.items() if k in self._fixed_parameters}

        for param_id, bounds in self._bound_parameters.items():
            minimizer.set_param_bounds(param_id, bounds)

        minimizer.set_param_fixed(process_id + "_yield")""")],
     "standing bounds that are active in the background-only fit", "the background-only minimisation ignores the bounds (and forgets them)",
     '''
from templatefitter import TemplateFitter
m = MultiChannelTemplate()
m.define_channel("c", 2, (0., 1.))
for p in ("a", "b"):
    m.define_process(p)
m.add_template("c", "a", t1([90., 10.], [1., 1.]))
m.add_template("c", "b", t1([10., 90.], [1., 1.]))
m.add_data(c=Hist1d.from_binned_data(np.array([100., 100.]), np.linspace(0, 1, 3)))
f = TemplateFitter(m, "scipy")
f.fix_nui_params()
f.set_parameter_bounds("b_yield", (0., 110.))
s = f.get_significance("a", verbose=False)
nll = m.create_nll()
lo = min(nll(np.array([0., y, 0., 0., 0., 0.])) for y in np.linspace(1., 110., 2000))
top = min(nll(np.array([x, y, 0., 0., 0., 0.])) for x in np.linspace(90., 110., 60) for y in np.linspace(90., 110., 60))
ok(abs(s - np.sqrt(2 * (lo - top))) < 1e-2, "significance with bounds: %r, expected %r" % (s, np.sqrt(2 * (lo - top))))
''')
seed("c18-mixed-uncertainties", "C18", T + "toy_study.py", [("""        self._toy_results["uncertainties"] = list()
""", """        if not self._toy_results["parameters"] is self._toy_results["uncertainties"]:
            self._toy_results["uncertainties"] = self._toy_results["uncertainties"][:0] or self._toy_results["uncertainties"]
""")],
     "a second study with the same object", "uncertainties of the first study stay in the results of the second",
     '''
from templatefitter import ToyStudy
np.random.seed(3)
m = MultiChannelTemplate()
m.define_channel("c", 2, (0., 1.))
m.define_process("a")
m.add_template("c", "a", t1([500., 300.]))
s = ToyStudy(m, "scipy")
s.do_experiments(n_exp=2)
s.do_experiments(n_exp=3)
ok(len(s.result_uncertainties) == 3 and len(s.result_parameters) == 3, "rows of the second study: %d, %d" % (len(s.result_parameters), len(s.result_uncertainties)))
''')
seed("c19-empty-bins", "C19", T + "stats.py", [("chi_sq = np.sum((data - expectation) ** 2 / expectation)", "chi_sq = np.sum(np.where(data > 0, (data - expectation) ** 2 / expectation, 0.))")],
     "an empty data bin", "empty bins do not contribute to Pearson's statistic",
     '''
from templatefitter.stats import pearson_chi2_test
close(pearson_chi2_test(np.array([0., 4.]), np.array([2., 4.]), 1)[0], 2., "chi2")
''')
seed("c20-size-zero", "C20", T + "utility.py", [("        if size is None:\n", "        if not size:\n")],
     "a size of zero in the list of sizes", "a piece of size zero swallows the rest of the sequence",
     '''
from templatefitter.utility import array_split_into
p = [list(a) for a in array_split_into([1, 2, 3], [1, 0, 2])]
ok(p == [[1], [], [2, 3]], "pieces %r" % (p,))
''')
seed("c21-error-reset", "C21", T + "templates_legacy.py", [("        self.error = self._original_error\n", "        if self.error is None:\n            self.error = self._original_error\n")],
     "a reset of a stacked template after its errors were updated", "errors are not restored by a reset",
     '''
import pandas as pd
from templatefitter.templates_legacy import Template, StackedTemplate
df = pd.DataFrame(dict(x=[.1, .2, .7], weight=[1., 1., 1.]))
s = StackedTemplate("s", "x", 2, (0., 1.))
s.create_template("a", df)
e0 = np.array(s.yield_param_errors)
s.update_parameters(np.array([5., .1, .2]), np.array([9., .5, .5]))
s.reset_parameters() if hasattr(s, "reset_parameters") else s["a"].reset_parameters()
close(s.yield_param_errors, e0, "yield errors after reset")
''')
seed("c22-uncorrelated", "C22", T + "templates/channel.py", [("        bin_by_bin_cov = jac @ result_params.covariance @ np.transpose(jac)\n", "        bin_by_bin_cov = jac @ np.diag(np.diag(result_params.covariance)) @ np.transpose(jac)\n")],
     "a fit covariance with off-diagonal elements", "correlations of the fit parameters are ignored",
     '''
from templatefitter.minimizer import Parameters
m = MultiChannelTemplate()
m.define_channel("c", 2, (0., 1.))
for p in ("a", "b"):
    m.define_process(p)
m.add_template("c", "a", t1([1., 3.]))
m.add_template("c", "b", t1([1., 1.]))
p = Parameters(list("abcdef"))
p.values = np.array([10., 10., 0., 0., 0., 0.])
cov = np.zeros((6, 6))
cov[0, 0] = cov[1, 1] = 4.
cov[0, 1] = cov[1, 0] = -4.
p.covariance = cov
got = m.channels["c"].propagate_parameter_uncertainties(p)
J = np.array([[.25, .5], [.75, .5]])
ok(np.allclose(got, J @ cov[:2, :2] @ J.T, atol=1e-6), "post-fit covariance %r" % (got,))
''')
seed("c23-linear-errors", "C23", T + "templates/template2d.py", [("""        values = np.sum(self.values, axis=0)
        errors = np.sqrt(np.sum(self.errors**2, axis=0))""", """        values = np.sum(self.values, axis=0)
        errors = np.sqrt(np.sum(self.errors, axis=0)**2)""")],
     "the y projection of a two-dimensional template", "errors are added linearly instead of in quadrature",
     '''
class Ax:
    def __getattr__(self, n):
        def f(*a, **k):
            if n == "bar":
                self.height = np.array(k["height"])
        return f
h = Hist2d.from_binned_data(np.array([[9., 16.], [16., 9.]]), [np.array([0., 1., 2.]), np.array([0., 1., 2.])])
ax = Ax()
Template2d("t", ("x", "y"), h).plot_y_projection_on(ax)
close(ax.__dict__["height"], [10., 10.], "height of the band")
''')

# ------------------------------------------------------------ second round
MODEL = '''
def model(data=True, order=("a", "b"), eff=1.):
    m = MultiChannelTemplate()
    m.define_channel("c", 2, (0., 1.))
    for p in ("a", "b"):
        m.define_process(p)
    tt = dict(a=t1([90., 10.], [1., 1.]), b=t1([10., 90.], [1., 1.]))
    for p in order:
        m.add_template("c", p, tt[p], eff)
    if data:
        m.add_data(c=Hist1d.from_binned_data(np.array([100., 100.]), np.linspace(0, 1, 3)))
    return m
'''
seed("c04-shared-matrix", "C04", T + "templates/abstract_template.py", [("        self._cov_mats.append(np.copy(cov_mat))\n\n        self._cov += cov_mat", "        self._cov_mats.append(cov_mat)\n\n        self._cov += cov_mat")],
     "the caller changes its matrix after adding it", "the recorded contributions change with the caller's array",
     '''
t = t1([10., 20.], [1., 2.])
c = np.array([[4., 1.], [1., 9.]])
t.add_cov_mat(c)
c[0, 0] = 100.
close(sum(t.cov_mats), t.cov_mat, "sum of the contributions")
''')
seed("c06-shared-params", "C06", T + "templates/abstract_template.py", [("self._params = np.array(new_values, dtype=float)", "self._params = np.asarray(new_values, dtype=float)")],
     "the same array given to two templates", "templates share their parameters",
     '''
a, b = t1([10., 20.]), t1([1., 2.])
v = np.array([5., .1, .2])
a.params = v
b.params = v
a.yield_param = 7.
close(b.yield_param, 5., "yield of the other template")
''')
seed("c09-equal-channels", "C09", T + "templates/multi_channel_template.py", [("            nui_params, np.cumsum(per_channel_num_nui_params)[:-1]", "            nui_params, np.arange(1, self.num_channels) * per_channel_num_nui_params[0]")],
     "three channels with different numbers of nuisance parameters", "nuisance parameters go to the wrong channel",
     '''
m = MultiChannelTemplate()
m.define_process("a")
m.define_channel("c", 2, (0., 1.))
m.define_channel("d", 3, (0., 1.))
m.add_template("c", "a", t1([4., 6.]))
m.add_template("d", "a", t1([1., 2., 3.]))
m.define_channel("e", 2, (0., 1.))
m.add_template("e", "a", t1([1., 2.]))
x = np.arange(8.)
y, n = m.generate_per_channel_parameters(x)
ok([len(v) for v in n] == [2, 3, 2], "sizes")
close(n[2], [6., 7.], "third channel")
''')
seed("c10-constraint-index", "C10", T + "templates/multi_channel_template.py", [("""        for process in self._mct.constrained_yields:
            yield_index = self._mct.process_to_index(process)
            process_yield = x[yield_index]""", """        for yield_index, process in enumerate(self._mct.constrained_yields):
            process_yield = x[yield_index]""")],
     "a constraint on another process than the first, or constraints added in another order", "the constraint acts on another yield",
     MODEL + '''
m = model()
nll = m.create_nll()
x = nll.x0
x[0] = 120.
v = nll(x)
m.add_gaussian_constraint_on_yield("b", 80., 4.)
close(nll(x) - v, .5 * (20. / 4.) ** 2, "constraint term")
''')
seed("c11-overflowing-integers", "C11", T + "templates/channel.py", [("            asimov_bin_counts = np.rint(template_bin_counts)\n", "            asimov_bin_counts = np.rint(np.abs(template_bin_counts))\n")],
     "a template with negative bins (weights)", "integer Asimov data have the wrong sign in bins with negative expectation",
     '''
m = MultiChannelTemplate()
m.define_channel("c", 2, (0., 1.))
m.define_process("a")
m.add_template("c", "a", t1([-3.2, 20.], [1., 1.]))
with np.errstate(all="ignore"):
    close(m.generate_asimov_dataset(integer_values=True)["c"].bin_counts, [-3., 20.], "rounded expectation")
''')
seed("c12-empty-data-bins", "C12", T + "templates/channel.py", [("        poisson_term = np.sum(exp_evts_per_bin - data - xlogyx(data, exp_evts_per_bin))", "        filled = data > 0\n        poisson_term = np.sum((exp_evts_per_bin - data)[filled]) - np.sum(xlogyx(data, exp_evts_per_bin))")],
     "an empty data bin", "the expectation of empty data bins does not enter: the likelihood is not minimal at the data",
     '''
c = Channel("c", 2, (0., 1.))
c.add_template("a", t1([50., 50.], [1., 1.]))
c.add_data(Hist1d.from_binned_data(np.array([0., 100.]), np.linspace(0, 1, 3)))
z = np.zeros(2)
ok(c.nll_contribution(np.array([110.]), z) > c.nll_contribution(np.array([100.]), z) + 0.1, "value grows with the expectation in the empty bin")
''')
seed("c13-yield-of-index", "C13", T + "templates/multi_channel_template.py", [("""                channel[process_id].yield_param = (
                    value * channel.efficiencies[process_id]
                )""", """                channel[process_id].yield_param = (
                    value * list(channel.efficiencies.values())[
                        self.process_to_index(process_id) % len(channel.efficiencies)
                    ]
                )""")],
     "templates of a channel added in another order than the processes were defined, different efficiencies", "set_yield uses the efficiency of another process",
     '''
m = MultiChannelTemplate()
m.define_channel("c", 2, (0., 1.))
for p in ("a", "b"):
    m.define_process(p)
m.add_template("c", "b", t1([5., 5.]), .5)
m.add_template("c", "a", t1([5., 5.]), .25)
m.set_yield("a", 100.)
close(m.channels["c"]["a"].yield_param, 25., "yield of a")
''')
seed("c14-short-values", "C14", T + "minimizer.py", [("        if not len(new_errors) == self.num_params:", "        if len(new_errors) > self.num_params:")],
     "an array of errors that is too short", "too short arrays of errors are accepted",
     '''
from templatefitter.minimizer import Parameters
p = Parameters(["a", "b"])
try:
    p.errors = np.array([1.])
except ValueError:
    sys.exit(0)
ok(False, "short errors accepted")
''')
seed("c15-late-binding", "C15", T + "minimizer.py", [('''                    "fun": lambda x, i=fixed_param: x[i] - initial_param_values[i],''', '''                    "fun": lambda x: x[fixed_param] - initial_param_values[fixed_param],''')],
     "two or more fixed parameters with the scipy minimizer", "only the last fixed parameter stays fixed",
     '''
from templatefitter.minimizer import minimizer_factory
f = lambda x: float((x[0] + 1.) ** 2 + (x[1] - 2.) ** 2 + (x[2] - x[0]) ** 2)
m = minimizer_factory("scipy", f, ["a", "b", "c"])
m.set_param_fixed("a")
m.set_param_fixed("b")
r = m.minimize(np.array([1., 1., 1.]), verbose=0)
close(r.params.values[:2], [1., 1.], "fixed parameters")
''')
seed("c16-sticky-flag", "C16", T + "fitter.py", [("""            self._minimizer_id, self._nll, self._nll.param_names
        )

        if fix_nui_params or self._fix_nui_params:
            for i in range(
                self._templates.num_processes,
                self._templates.num_nui_params + self._templates.num_processes,
            ):
                minimizer.set_param_fixed(i)
        
""", """            self._minimizer_id, self._nll, self._nll.param_names
        )

        self._fix_nui_params = self._fix_nui_params or fix_nui_params
        if self._fix_nui_params:
            for i in range(
                self._templates.num_processes,
                self._templates.num_nui_params + self._templates.num_processes,
            ):
                minimizer.set_param_fixed(i)
        
""")],
     "a fit with fixed nuisance parameters followed by a fit without", "nuisance parameters stay fixed in later fits",
     '''
from templatefitter import TemplateFitter
m = MultiChannelTemplate()
m.define_channel("c", 2, (0., 1.))
m.define_process("a")
m.add_template("c", "a", t1([50., 50.], [20., 20.]))
m.add_data(c=Hist1d.from_binned_data(np.array([90., 20.]), np.linspace(0, 1, 3)))
f = TemplateFitter(m, "scipy")
f.do_fit(update_templates=False, verbose=False, get_hesse=False, fix_nui_params=True)
r = f.do_fit(update_templates=False, verbose=False, get_hesse=False)
ok(np.max(np.abs(r.params.values[1:])) > .1, "nuisance parameters did not move")
''')
seed("c17-lowest-point", "C17", T + "fitter.py", [("            profile_values -= minimum\n", "            profile_values -= np.nanmin(profile_values)\n")],
     "scan points that do not contain the minimum (an even number of points)", "the profile is shifted to zero at its lowest point instead of at the minimum",
     MODEL + '''
from templatefitter import TemplateFitter
f = TemplateFitter(model(), "scipy")
f.do_fit(verbose=False, get_hesse=False, fix_nui_params=True)
p, v, h = f.profile("a_yield", num_cpu=1, num_points=4, sigma=2., fix_nui_params=True)
ok(np.min(v) > .05, "lowest point %r" % np.min(v))
''')
seed("c18-same-data-again", "C18", T + "toy_study.py", [("""        for _ in range(max_tries):
            try:

                self._templates.add_data(**self._templates.generate_toy_dataset())

""", """        self._templates.add_data(**self._templates.generate_toy_dataset())

        for _ in range(max_tries):
            try:

""")],
     "a fit that fails and is tried again", "the repeated attempt uses the data of the failed one",
     MODEL + '''
import templatefitter.toy_study as ts
seen = []
class Fake:
    def __init__(self, templates, minimizer_id):
        self.t = templates
    def do_fit(self, **k):
        seen.append(self.t.channels["c"].data_bin_counts.copy())
        if len(seen) < 6:
            raise RuntimeError("no")
        class R:
            class params:
                values = np.zeros(6)
                errors = np.ones(6)
        return R
ts.TemplateFitter = Fake
np.random.seed(1)
ts.ToyStudy(model(False), "scipy").do_experiments(n_exp=1)
ok(len({tuple(s) for s in seen}) > 1, "the same pseudo data in every attempt")
''')
seed("c19-infinite-log", "C19", T + "stats.py", [("    chi_sq = 2 * np.sum(xlogy(data, data / expectation) + expectation - data)", "    chi_sq = 2 * np.sum(data * np.log(data / expectation) + expectation - data)")],
     "an empty data bin", "the statistic is undefined with empty bins",
     '''
from templatefitter.stats import cowan_binned_likelihood_gof
with np.errstate(all="ignore"):
    close(cowan_binned_likelihood_gof(np.array([0., 4.]), np.array([2., 4.]), 1)[0], 4., "statistic")
''')
seed("c20-small-covariances", "C20", T + "utility.py", [("    return np.matmul(Dinv, np.matmul(cov, Dinv))", "    corr = np.matmul(Dinv, np.matmul(cov, Dinv))\n    corr[np.isclose(cov, 0.)] = 0.\n    return corr")],
     "covariances below 1e-8 (quantities of order 1e-4)", "small but fully correlated quantities come out as uncorrelated",
     '''
from templatefitter.utility import cov2corr, corr2cov
c = np.array([[4e-9, 3e-9], [3e-9, 9e-8]])
r = cov2corr(c)
close(r[0, 1], 3e-9 / np.sqrt(4e-9 * 9e-8), "correlation")
close(1e9 * corr2cov(r, np.diag(c)), 1e9 * c, "round trip")
''')
seed("c22-parameter-order", "C22", T + "templates/channel.py", [("        return np.sqrt(np.diag(self.propagate_parameter_uncertainties(result_params)))", "        return np.sqrt(np.abs(np.diag(self.propagate_parameter_uncertainties(result_params)[::-1])))")],
     "two or more bins", "uncertainties are taken from the wrong diagonal",
     MODEL + '''
class P:
    values = np.array([100., 100., 0., 0., 0., 0.])
    covariance = np.diag([100., 25., .01, .02, .03, .04])
m = model()
c = m.channels["c"]
m.update_parameters(P.values)
close(c.get_post_fit_bin_uncertainty(P), np.sqrt(np.diag(c.propagate_parameter_uncertainties(P))), "uncertainty")
''')
seed("c23-poisson-bars", "C23", T + "templates/channel.py", [("""        if self._hdata is None:
            return ax

        data_bin_mids = self._hdata.bin_mids
        data_bin_counts = self._hdata.bin_counts
        data_bin_errors_sq = self._hdata.bin_errors_sq

        if self.has_data:

            ax.errorbar(
                x=data_bin_mids,
                y=data_bin_counts,
                yerr=np.sqrt(data_bin_errors_sq),
                ls="",
                marker=".",
                color="black",
                label="Data",
            )

    def plot_post_fit""", """        if self._hdata is None:
            return ax

        data_bin_mids = self._hdata.bin_mids
        data_bin_counts = self._hdata.bin_counts

        if self.has_data:

            ax.errorbar(
                x=data_bin_mids,
                y=data_bin_counts,
                yerr=np.sqrt(np.abs(data_bin_counts)),
                ls="",
                marker=".",
                color="black",
                label="Data",
            )

    def plot_post_fit""")],
     "weighted data", "error bars of the data are those of unweighted data",
     '''
class Ax:
    def __getattr__(self, n):
        def f(*a, **k):
            if n == "errorbar":
                self.yerr = np.array(k["yerr"])
        return f
c = Channel("c", 2, (0., 1.))
c.add_template("a", t1([50., 50.], [1., 1.]))
c.add_data(Hist1d.from_binned_data(np.array([4., 100.]), np.linspace(0, 1, 3), np.array([3., 20.])))
ax = Ax()
c.plot_stacked_on(ax)
close(ax.__dict__["yerr"], [3., 20.], "error bars")
''')
seed("c03-negative-yield", "C03", T + "templates/abstract_template.py", [("        return self._relative_errors.reshape(self._hist.shape) * self.values", "        return self._relative_errors.reshape(self._hist.shape) * np.abs(self.values)")],
     "a template with a negative yield", "errors are not the product of relative errors and values",
     '''
t = t1([10., 30.], [1., 3.])
t.yield_param = -8.
close(t.errors, .1 * t.values, "errors")
''')
seed("c01-second-fill", "C01", T + "histograms/hist1d.py", [("        self._bin_errors_sq += binned_statistic(", "        self._bin_errors_sq[:] = binned_statistic(")],
     "a histogram filled twice", "squared errors are those of the last fill only",
     '''
h = Hist1d(2, (0., 1.))
h.fill(np.array([.1, .9]), np.array([2., 3.]))
h.fill(np.array([.1]), np.array([4.]))
close(h.bin_errors_sq, [20., 9.], "squared errors")
''')

def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main(only):
    for id, prop, file, subs, needs, breaks, demo in S:
        if only and id not in only:
            continue
        d = os.path.join(HERE, "seeded", id)
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix="seed-")
        r = os.path.join(w, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        sh(["git", "init", "-q"], r); sh(["git", "add", "-A"], r); sh(["git", "-c", "user.name=x", "-c", "user.email=x", "commit", "-qm", "x"], r)
        src = open(os.path.join(r, file)).read()
        for a, b in subs:
            n = src.count(a)
            assert n == 1, (id, n, a)
            src = src.replace(a, b)
        open(os.path.join(r, file), "w").write(src)
        open(os.path.join(d, "patch.diff"), "w").write(sh(["git", "diff"], r).stdout)
        open(os.path.join(d, "demo.py"), "w").write(PRE + demo.lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nT=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\nexport MPLCONFIGDIR="$T"\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
        bad = sh(["bash", os.path.join(d, "demo.sh")], r)
        good = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], r)
        print(id, "patched:", bad.returncode, bad.stdout.strip()[-120:], "| clean:", good.returncode, good.stdout.strip()[-150:] if good.returncode else "", "| tests:", t.stdout.strip().splitlines()[-1], flush=True)
        shutil.rmtree(w)

main(sys.argv[1:])
