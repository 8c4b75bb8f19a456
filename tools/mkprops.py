"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["templatefitter/" + f for f in files],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where="templatefitter/" + b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))


H1, H2, AH, HU = "histograms/hist1d.py", "histograms/hist2d.py", "histograms/abstract_hist.py", "histograms/hist_utils.py"
AT, T1, T2 = "templates/abstract_template.py", "templates/template1d.py", "templates/template2d.py"
CH, MC = "templates/channel.py", "templates/multi_channel_template.py"
MI, FI, TO, UT, ST, NL, TL, HL = "minimizer.py", "fitter.py", "toy_study.py", "utility.py", "stats.py", "nll.py", "templates_legacy.py", "histogram_legacy.py"

prop("C01", "Histogram contents are the weighted sums of the filled entries",
     "After any sequence of fills, the content of each bin of a one- or two-dimensional histogram is the sum of the weights of all entries lying in that bin and its squared error is the sum of their squared weights, where a bin contains its lower but not its upper edge, the last bin of an axis contains both, and entries outside the range are ignored. "
     "Entries without given weights count one. "
     "The result does not depend on how the entries are divided into fills or constructor data, and filling never alters the arrays that were passed in.",
     ["inputs", "histories"], "for every binning, every data and weight arrays (negative weights, empty data, values on edges and outside the range) and every number of fills",
     "the tests fill a handful of fixed random samples once, always with values far from the edges, and never fill twice with different weights or compare the error sums over repeated fills",
     [H1, H2, AH], [("Hist1d.fill", H1), ("Hist2d.fill", H2), ("Hist1d.__init__", H1), ("Hist2d.__init__", H2)],
     [("_bin_counts / _bin_errors_sq", "accumulated sums of w and w^2 per bin", "histograms/*.py")],
     ["bin_counts", "bin_errors", "bin_errors_sq", "is_empty"])

prop("C02", "Histogram geometry, binned-data round trip and projections",
     "A histogram built from a number of bins and a range (per axis) has exactly that many equally wide bins covering that range, one built from explicit edges has exactly those edges, and in both cases number of bins, shape, range, bin mids and bin widths agree with the edges. "
     "A histogram made from binned data holds exactly the given counts and squared errors (the counts themselves as squared errors when no errors are given) and from then on neither changing the histogram changes the caller's count array nor the reverse. "
     "The x (y) projection of a two-dimensional histogram has its x (y) edges, the sums of the counts over the other axis, and errors added in quadrature.",
     ["inputs"], "for every binning in one and two dimensions, every count and error array",
     "the tests look at two or three fixed binnings, all with equal numbers of bins per axis or positive counts, and never modify a histogram made from binned data",
     [H1, H2, HU, AH], [("Hist1d._init_bin_edges", H1), ("Hist2d._init_bin_edges", H2), ("from_binned_data", H1), ("from_binned_data", H2), ("x_projection / y_projection", H2), ("bin_mids / bin_widths / get_bin_range", HU)],
     [], ["bin_edges", "bin_mids", "bin_widths", "range", "shape", "num_bins", "x_projection()", "y_projection()"])

prop("C03", "Template prediction: yield times shape, shape normalised to one",
     "For every nuisance parameter vector the fraction a template assigns to bin i is n_i(1+t_i e_i) divided by the sum of n_j(1+t_j e_j) over all bins (n: histogram counts, e: relative bin errors, t: nuisance parameters), so the fractions always add up to one; where that sum is zero (an empty template) all fractions are zero rather than undefined. "
     "The predicted bin contents are the yield parameter times these fractions and the predicted bin errors are the relative bin errors times the predicted contents, both in the shape of the histogram, in one and two dimensions. "
     "A freshly built or reset template whose counts do not add up to zero predicts exactly the histogram it was built from, and evaluating predictions changes neither the template nor the caller's parameters.",
     ["inputs", "histories"], "for every histogram (1d or 2d, empty bins, empty histogram), every covariance added before, every yield and nuisance parameter values",
     "the tests evaluate one template at zero nuisance parameters, where the normalisation of the fractions and their dependence on the relative errors cannot be seen",
     [AT, T1, T2], [("bin_fractions", AT), ("AbstractTemplate.fractions", AT), ("AbstractTemplate.values", AT), ("AbstractTemplate.errors", AT), ("_init_params / reset", AT)],
     [("_params", "yield followed by the nuisance parameters", AT)], ["fractions()", "values", "errors", "reset()"])

prop("C04", "Template covariance is the sum of all contributions, kept consistent",
     "The covariance matrix of a template is always the diagonal matrix of the squared statistical bin errors (1e-14 for bins without error) plus all covariance matrices added since, in any number and order, and every contribution stays available separately and unaltered. "
     "The correlation matrix is always the covariance matrix normalised by the square roots of its diagonal, the inverse correlation matrix its inverse, and the relative bin errors the square roots of the diagonal divided by the bin counts (1e-7 for empty bins). "
     "A matrix of the wrong shape is rejected without any effect, and neither the caller's matrix nor another template's is ever changed.",
     ["inputs", "histories"], "for every histogram and every sequence of added covariance matrices that keeps the total positive definite",
     "the tests add at most one matrix and compare only the shape or one of the derived quantities; consistency of all of them after several additions is never looked at",
     [AT, T1, UT], [("_init_errors", AT), ("_add_cov_mat", AT), ("Template1d.add_cov_mat", T1), ("cov2corr", UT)],
     [("_cov, _cov_mats, _corr, _inv_corr, _relative_errors", "covariance ledger and derived quantities", AT)],
     ["cov_mat", "cov_mats", "corr", "inv_corr_mat", "errors"])

prop("C05", "Systematic variations become the right covariance matrix",
     "Adding a systematic variation to a one- or two-dimensional template adds the outer product of the vector d with itself, where d_i is the mean of the absolute differences between the template's count in bin i and the up- and down-weighted counts, with negative sign if the up count is below the down count. "
     "The varied counts are filled in the template's own bins, however these are spaced. "
     "The two-argument-order symmetry holds: exchanging up and down weights gives the same matrix wherever the varied counts differ, and the added matrix is symmetric and positive semidefinite.",
     ["inputs"], "for every template binning (equal or unequal widths, 1d and 2d), every data sample and weight arrays, every nominal/up/down bin counts",
     "the tests use one equidistant 1d binning and compare with the same formula at a single input; 2d variations are not exercised",
     [UT, T1, T2, AT], [("get_systematic_cov_mat", UT), ("Template1d.add_variation", T1), ("Template2d.add_variation", T2)],
     [], ["cov_mats[-1]", "cov_mat", "get_systematic_cov_mat"])

prop("C06", "Template parameters: what is set is what is read, bad input rejected",
     "Setting the parameters, the yield or the nuisance parameters of a template makes exactly these values readable and leaves the respective others unchanged; values of the wrong shape or type are rejected with an error and change nothing. "
     "A reset restores the sum of the histogram counts as yield and zero for all nuisance parameters whatever was set before. "
     "A template never shares parameter storage with the arrays it was given or with another template, so later changes of those arrays or templates do not affect it.",
     ["inputs", "histories"], "for every template, every sequence of sets and resets and every accepted or rejected value (integer arrays included)",
     "the tests set one value and read it back; aliasing with caller arrays, integer parameter arrays and state after a rejected set are not exercised",
     [AT], [("params setter", AT), ("yield_param setter", AT), ("nui_params setter", AT), ("reset / _init_params", AT)],
     [("_params", "parameter vector", AT)], ["params", "yield_param", "nui_params"])

prop("C07", "Model assembly rejects inconsistent pieces and keeps insertion order",
     "Templates and data can only be added to defined channels, for defined processes, once per channel and process, and only if binning, range and (for templates) kind match the channel; everything else is rejected with an error and leaves the model as it was. "
     "Processes and channels and the templates in a channel are kept in the order in which they were defined, with the efficiency given for each, and defining a process twice is rejected. "
     "Channels, templates and their counts of processes, bins and nuisance parameters reported by the model agree with what was added.",
     ["inputs", "histories"], "for every sequence of define, add_template and add_data calls, valid or not",
     "the tests try one or two wrong calls on a fresh model and do not look at the model's state afterwards",
     [CH, MC], [("Channel.add_template / _add_template / _check_template", CH), ("Channel.add_data / _check_hist", CH), ("MultiChannelTemplate.define_process / add_template / add_data", MC)],
     [("_template_dict, _efficiency_dict, _processes", "the channel's contents", CH)], ["processes", "channels", "templates", "efficiencies", "num_nui_params", "has_data"])

prop("C08", "Channel expectation is the efficiency-weighted sum of all templates",
     "For any yields and nuisance parameters the expected content of each bin of a channel is the sum over its templates of yield times efficiency times the template's bin fraction at that template's own nuisance parameters, whatever the order in which templates were added. "
     "After the parameters of a channel or of the whole model are updated, the predicted contents of its templates add up to exactly this expectation, and every template holds its own yield times efficiency and its own nuisance parameters. "
     "Expectations always reflect the current templates: nothing added or changed later is ignored.",
     ["inputs", "histories", "configurations"], "for every number of channels, templates and bins (1d and 2d), all efficiencies, all parameter values, any order of additions and evaluations",
     "the tests use one channel with a fixed order of processes and unit efficiencies, and never evaluate before and after changing the channel",
     [CH, MC, AT], [("_expected_evts_per_bin", CH), ("_fractions", CH), ("update_parameters", CH), ("bin_counts_from_param_values", CH), ("update_parameters", MC)],
     [], ["bin_counts_from_param_values()", "templates[*].values", "nll value"])

prop("C09", "One parameter vector layout everywhere",
     "The fit parameter vector consists of one yield per process in order of definition followed by one nuisance parameter per bin of each template, channel by channel and template by template in order of addition; parameter names, starting values, the splitting of a vector into per-channel parts and the updating of templates all follow this same layout. "
     "Channels may contain any subset of the processes in any order and any number of bins: each channel receives the yields of precisely its own processes in its own order and exactly its own nuisance parameters. "
     "Names and starting values have the same length as the vector, and updating the templates with a vector and reading the nuisance parameters back returns that vector's nuisance part.",
     ["inputs", "configurations"], "for every configuration of channels, processes (including missing and reordered ones), templates and bin numbers and every parameter vector",
     "the tests use two channels with the same processes in the same order and equal bin numbers",
     [MC, CH], [("generate_per_channel_parameters", MC), ("process_indices", CH), ("split_parameter_array", CH), ("NegLogLikelihood.x0 / param_names", MC), ("update_parameters", MC)],
     [], ["param_names", "x0", "generate_per_channel_parameters()", "nui_params"])

prop("C10", "Likelihood value: Poisson, nuisance and constraint terms",
     "At every parameter vector the negative log likelihood equals the sum over all channels and bins of expectation minus data plus data*log(data/expectation) (the logarithmic part being zero for bins without data), plus half the quadratic form of every template's nuisance parameters with its inverse correlation matrix, plus half the squared deviation in units of the error for every constrained yield. "
     "Each constrained yield enters exactly once, with the most recently given value and error, and constraining an undefined process is rejected. "
     "The value depends only on the current model, data and parameters, not on earlier evaluations, and an evaluation changes neither the templates nor the parameter vector.",
     ["inputs", "histories", "configurations"], "for every model configuration, data set, parameter vector with positive expectations, and any history of evaluations, added matrices and constraints before",
     "the tests compare the value at one or two points of one fixed model without constraints; later changes of the model are never evaluated",
     [MC, CH, UT], [("NegLogLikelihood.__call__", MC), ("Channel.nll_contribution / _gauss_term / _create_block_diag_inv_corr_mat", CH), ("xlogyx", UT), ("add_gaussian_constraint_on_yield", MC)],
     [("_constrained_yields, _constrained_yield_values, _constrained_yield_errors", "yield constraints", MC)], ["nll(x)"])

prop("C11", "Pseudo data sets follow the current expectation",
     "The Asimov data set of a channel is exactly the sum of the current predictions of its templates (rounded to the nearest integer on request), and a toy data set consists of non-negative integer counts drawn from independent Poisson distributions with precisely these means. "
     "Each data set has the channel's bin edges and shape, carries the square root of its counts as errors and can be used directly as the channel's data; multi-channel data sets contain exactly one such histogram per channel under its name. "
     "Generating data never changes the templates or the data in use.",
     ["inputs", "configurations", "histories"], "for every model, 1d or 2d, and all current parameter values",
     "the tests generate a data set once and check its type; the mean passed to the random generator and state changes are not observed",
     [CH, MC], [("Channel.generate_asimov_dataset", CH), ("Channel.generate_toy_dataset", CH), ("MultiChannelTemplate.generate_asimov_dataset / generate_toy_dataset", MC)],
     [], ["generate_asimov_dataset()", "generate_toy_dataset()", "argument of the Poisson generator"])

prop("C12", "The Poisson part of the likelihood is minimal exactly at the data",
     "For all non-negative data and positive expectations each bin's contribution expectation - data - data*log(expectation/data) is finite and non-negative, and it is zero exactly when expectation and data agree; for an empty data bin it is the expectation itself. "
     "Hence with Asimov data the likelihood is never below its value at the generating parameters when the nuisance parameters there are zero. "
     "The function used for the logarithmic term equals x*log(y/x), is zero for empty or undefined x, and acts on arrays element by element.",
     ["inputs"], "for all non-negative data values, positive expectations, and all parameter vectors",
     "a test evaluates single values; non-negativity and location of the minimum are statements about all values",
     [UT, CH], [("xlogyx", UT), ("Channel.nll_contribution", CH)], [], ["xlogyx()", "nll(x)"])

prop("C13", "Yield and uncertainty accessors agree with the templates",
     "The yield of a process is the sum of the yields of its templates over all channels that contain it, and its error the square root of the sum of the squared predicted bin errors of these templates; channels without the process contribute nothing. "
     "Setting the yield of a process sets each of its templates to that value times the template's efficiency in the channel and touches nothing else; unknown processes are rejected. "
     "Resetting the model restores every template's original parameters.",
     ["inputs", "configurations"], "for every model with processes missing in some channels, all efficiencies and all parameter values",
     "the tests have every process in every channel with unit efficiency",
     [MC, CH], [("process_yields", MC), ("process_yield_errors", MC), ("set_yield / get_yield", MC), ("reset_parameters", MC)], [],
     ["process_yields", "process_yield_errors", "get_yield()", "set_yield()"])

prop("C14", "Fit result container: look-up by name or index",
     "Values and errors of a fit result can be looked up by parameter name or by index in [0, number of parameters) with the same result, namely the entry at the position of that name; every other identifier is rejected with an error. "
     "Assigned values and errors are the ones returned, an assignment of the wrong length is rejected and changes nothing. "
     "A fresh result is zero everywhere and one result never shares its numbers with another.",
     ["inputs"], "for every list of distinct names, every identifier (valid, negative, out of range, unknown, wrong type) and every assigned arrays",
     "not tested at all by the repository's tests",
     [MI, UT], [("Parameters", MI), ("id_to_index", UT)], [("_names, _values, _errors", "result numbers", MI)], ["Parameters[...]", "get_param_value()", "get_param_error()"])

prop("C15", "Minimizers keep fixed parameters and bounds and report the optimum",
     "Whatever parameters are fixed and bounded, by name or index, in any order and number of calls, a minimisation returns a point at which every fixed parameter has exactly its starting value (to solver tolerance) and every bounded one lies within its bounds, for both supported back ends; released parameters are free again. "
     "The reported minimum is the objective's value at the reported point; the covariance matrix has one row and column per parameter, is the inverse of the objective's Hessian there, and for free parameters without bounds the errors are the square roots of its diagonal and the correlations its normalisation. "
     "The given starting vector is not modified, an unknown parameter or back end is rejected, and a minimisation the optimiser reports as failed never passes as a success.",
     ["inputs", "histories"], "for every objective, number of parameters, set of fixed parameters and bounds, and sequence of fix, bound, release and minimise calls",
     "not tested at all by the repository's tests",
     [MI, UT], [("ScipyMinimizer.minimize / _create_constraints / set_param_fixed", MI), ("IMinuitMinimizer.minimize / set_param_fixed", MI), ("AbstractMinimizer.set_param_bounds", MI), ("minimizer_factory", MI)],
     [("_fixed_params, _param_bounds", "constraints of the minimisation", MI)], ["MinimizeResult", "params", "arguments given to the optimiser"])

prop("C16", "Fitting minimises the current likelihood and updates the templates",
     "A fit minimises the likelihood of the current model and data starting from the templates' current parameters, with exactly the parameters fixed and bounded that were requested on the fitter or in the call (all nuisance parameters for the fix-nuisance options, the given limits for all nuisance parameters). "
     "Afterwards the templates hold the fitted parameters if and only if updating was requested; otherwise the model is unchanged. "
     "The returned result is the one of that minimisation, and requested constraints stay in force for later fits while per-call options do not.",
     ["inputs", "histories", "configurations"], "for every model, back end, combination of options and sequence of constraint settings and fits",
     "not tested by the repository's tests (fits are slow and their outcome not comparable without a reference)",
     [FI, MI, MC], [("TemplateFitter.do_fit", FI), ("set_parameter_fixed / set_parameter_bounds / fix_nui_params", FI), ("update_parameters", MC)],
     [("_fixed_parameters, _bound_parameters, _fix_nui_params", "standing constraints", FI)], ["do_fit()", "template parameters after the fit", "calls to the minimizer"])

prop("C17", "Profile scans and significances compare the right minima",
     "The significance of a process is the square root of twice the difference between the likelihood minimum with its yield fixed to zero and the unconstrained minimum, and zero if the best-fit yield is negative; both minimisations respect all standing constraints. "
     "A profile scan of a parameter evaluates equally spaced points over the given number of standard deviations around the best fit, at each of which that parameter is fixed to the point and all others (except fixed ones) are minimised within their bounds, and returns alongside the parabola given by the parameter's error; minima are subtracted from both curves on request. "
     "Neither calculation changes the templates, their parameters or the fitter's constraints.",
     ["inputs", "histories", "configurations"], "for every model, back end, parameter, scan width, number of points and standing constraints",
     "not tested by the repository's tests",
     [FI, MI], [("TemplateFitter.get_significance", FI), ("TemplateFitter.profile / _profile_helper / _get_hesse_approx", FI)], [],
     ["get_significance()", "profile()", "calls to the minimizer", "template parameters afterwards"])

prop("C18", "Toy studies record one fit of fresh pseudo data per experiment",
     "A toy study of n experiments records exactly n rows, each the parameters and uncertainties of one fit to a newly generated toy data set of the model, in order; a failed fit is retried with new data up to the given number of tries, after which an error is raised. "
     "Results of an earlier study never mix with a new one, results cannot be read before a study has been performed, and pulls are (fitted yield - model yield)/uncertainty for the requested process. "
     "The model's template parameters are the same after a study as before, and a linearity test scans equally spaced yields of the one process from otherwise reset templates, reporting mean and standard deviation of the fitted yields per point.",
     ["inputs", "histories", "fault_sequences"], "for every model, number of experiments, pattern of failing fits, and sequence of studies",
     "not tested by the repository's tests (random and slow)",
     [TO, FI, MC], [("ToyStudy.do_experiments / _experiment", TO), ("ToyStudy.do_linearity_test", TO), ("get_toy_results / get_toy_result_pulls", TO)],
     [("_toy_results, _is_fitted", "recorded results", TO)], ["result_parameters", "result_uncertainties", "get_toy_results()", "get_toy_result_pulls()"])

prop("C19", "Goodness-of-fit statistics",
     "Pearson's test returns the sum over bins of (data-expectation)^2/expectation, the likelihood-ratio test twice the sum of data*log(data/expectation)+expectation-data (with no logarithmic part for empty bins); both statistics are non-negative and zero exactly for data equal to expectation. "
     "Each returns the statistic, the statistic per degree of freedom, and the probability of a chi-square variable of that many degrees of freedom to exceed the statistic. "
     "The inputs are not modified.",
     ["inputs"], "for all non-negative data, all positive expectations and degrees of freedom",
     "not tested by the repository's tests",
     [ST], [("pearson_chi2_test", ST), ("cowan_binned_likelihood_gof", ST), ("default_chi2_test", ST)], [], ["returned tuples"])

prop("C20", "Covariance/correlation conversion and splitting utilities",
     "For a covariance matrix with positive diagonal the correlation matrix is c_ij/sqrt(c_ii c_jj), has unit diagonal, and converting it back with the variances (the diagonal) returns the covariance matrix; neither conversion modifies its input. "
     "Splitting a sequence into given sizes yields consecutive pieces of exactly these sizes (fewer when the sequence ends) in order, and a size of none yields all remaining elements as the last piece. "
     "Looking up an index by name returns the position of the name.",
     ["inputs"], "for all matrices with positive diagonal, all sequences and size lists",
     "the tests use single small examples or none at all",
     [UT], [("cov2corr", UT), ("corr2cov", UT), ("array_split_into", UT), ("id_to_index", UT)], [], ["return values"])

prop("C21", "Stacked (single-channel) templates and likelihood behave like the model",
     "For the older stacked-template interface the prediction of the stack is the sum of its templates' predictions with errors added in quadrature, each template predicts yield times its normalised shape, and its covariance, correlation and relative errors stay consistent under added covariance matrices. "
     "The stacked likelihood at any parameters equals the sum over bins of expectation minus data plus data*log(data/expectation) (nothing logarithmic for empty data bins) plus half the quadratic form of the nuisance parameters, the vector being all yields followed by all nuisance parameters template by template, in the same order as the names and starting values. "
     "Updating the stack with a vector of values and errors gives every template exactly its own part, resetting restores the original values, and incompatible templates are rejected.",
     ["inputs", "histories", "configurations"], "for every number of templates and bins, all parameter values, data sets and added matrices",
     "the older interface is not tested by the repository's tests",
     [TL, NL, HL, UT], [("Template", TL), ("StackedTemplate", TL), ("StackedTemplateNegLogLikelihood", NL), ("xlogyx", NL), ("Hist1d", HL)], [],
     ["values()", "errors()", "nll(x)", "x0", "param_names"])

prop("C22", "Post-fit uncertainties are the linear propagation of the fit covariance",
     "The post-fit covariance of a channel's bins is J C J^T with C the fit covariance and J the derivative of the channel's expected bin contents with respect to its parameters at the fitted values, and the post-fit bin uncertainties are the square roots of its diagonal. "
     "It is symmetric, vanishes for zero fit covariance, and scales linearly with it. "
     "The calculation changes neither the templates nor the fit result.",
     ["inputs", "configurations"], "for every channel, parameter values and covariance matrices, for a vector in the channel's own layout",
     "not tested by the repository's tests",
     [CH], [("propagate_parameter_uncertainties", CH), ("get_post_fit_bin_uncertainty", CH), ("split_parameter_array", CH)], [], ["returned matrices"])

prop("C23", "Plots draw what the model holds",
     "Plotting a template or a channel draws, in the model's bins, exactly the predicted bin contents (stacked in order of the templates for a channel), an uncertainty band of plus/minus the predicted bin error centred on the prediction (errors of templates added in quadrature for stacks, the post-fit uncertainties for post-fit plots), and, if present, the data points with their errors. "
     "Projections of two-dimensional templates draw the sums of contents, and errors in quadrature, over the other axis. "
     "Plotting changes neither templates nor data, and stacked plots of higher-dimensional channels are refused.",
     ["inputs", "configurations"], "for every template and channel, binning and parameter values",
     "the tests only draw pictures for inspection by eye",
     [T1, T2, CH, TL], [("Template1d.plot_on", T1), ("Template2d.plot_x_projection_on / plot_y_projection_on / plot_on", T2), ("Channel.plot_stacked_on / plot_post_fit_stacked_on", CH)], [],
     ["arguments of the axis' drawing calls"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
