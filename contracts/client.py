"""Client code: what a user of the package would write to observe a result.

Executed by the engine like the code of the package itself.
"""
import numpy as np
from dv import optim
from templatefitter import histogram_legacy as legacy
from templatefitter.minimizer import Parameters, MinimizeResult


def total_prediction(channel):
    return sum([template.values for template in channel.templates.values()])


def item(seq, i):
    return seq[i]


def length(seq):
    return len(seq)


def yield_name(process):
    return process + "_yield"


def nuisance_name(channel, process, i):
    return f"{channel}_{process}_bin_{i}"


def penalty(model, x):
    """what the likelihood adds for the constraints"""
    total = 0
    for process in model.constrained_yields:
        i = model.process_to_index(process)
        value = model.constrained_yield_values[process]
        error = model.constrained_yield_errors[process]
        total += 0.5 * (x[i] - value) ** 2 / error ** 2
    return total


def constrain(model, name, value, error):
    model.add_gaussian_constraint_on_yield(name, value, error)


def add_template(channel, process, template, efficiency):
    channel.add_template(process, template, efficiency)


def add_template_to(model, channel, process, template, efficiency):
    model.add_template(channel, process, template, efficiency=efficiency)


def add_data(channel, hist):
    channel.add_data(hist)


def define_process(model, name):
    model.define_process(name)


def values(mapping):
    return list(mapping.values())


def keys(mapping):
    return list(mapping.keys())


def data_counts(channel):
    return channel.data_bin_counts


def add_data_somewhere(model, hist):
    model.add_data(somewhere=hist)


def set_yield(model, process, value):
    model.set_yield(process, value)


def get_yield(model, process):
    return model.get_yield(process)


def first_template(channel):
    return list(channel.templates.values())[0]


def kind(hist):
    return type(hist)


def same_geometry(channel, template):
    return channel.bins == template.bins and channel.range == template.range


def plot_stacked(channel, ax):
    channel.plot_stacked_on(ax)


def plot_post_fit(channel, ax, result):
    channel.plot_post_fit_stacked_on(ax, result)


class Column:
    """a column of a table"""

    def __init__(self, values):
        self.values = values


def table(x, w):
    return {"x": Column(x), "weight": Column(w)}


def binned(edges, counts):
    return legacy.Hist1d.from_binned_data(edges, counts)


def add_to_stack(stack, name, template):
    stack.add_template(name, template)


def member(stack, name):
    return stack[name]


def nuisance_name_of(template, i):
    return template + "_nui_" + f"{i}"


def minimize(minimizer, start, args, options):
    return minimizer.minimize(start, *args, **options)


def invoke(obj, name, args):
    return getattr(obj, name)(*args)


class Recorder:
    """what a fitter may rely on about a minimizer (proved for the real ones in
    contracts/fit.py): parameters and bounds asked for are in force"""

    def __init__(self, backend, fcn, names):
        self.backend = backend
        self.fcn = fcn
        self.params = Parameters(names)
        self.fixed = []
        self.bounds = []

    def set_param_fixed(self, param_id):
        self.fixed.append(param_id)

    def set_param_bounds(self, param_id, bounds):
        self.bounds.append((param_id, bounds))

    def release_params(self):
        self.fixed = []

    def minimize(self, initial, verbose=1, get_hesse=True):
        values, errors, minimum, success = optim.minimized(self, initial, get_hesse)
        self.params.values = values
        self.params.errors = errors
        self.fcn_min_val = minimum
        return MinimizeResult(minimum, self.params, success)


def fix_all(fitter, ids):
    for i in ids:
        fitter.set_parameter_fixed(i)


def bound_all(fitter, ids, bounds):
    for i, b in zip(ids, bounds):
        fitter.set_parameter_bounds(i, b)


def do_fit(fitter, options):
    return fitter.do_fit(**options)


def significance(fitter, process, options):
    return fitter.get_significance(process, **options)


def profile(fitter, param, options):
    return fitter.profile(param, **options)


def text_of_yield(process):
    return f"{process}_yield"


def study_again(study, numbers, tries):
    for n in numbers:
        study.do_experiments(n, max_tries=tries)


def append_row(study, values, errors):
    study._toy_results["parameters"].append(values)
    study._toy_results["uncertainties"].append(errors)


def results_of(study, process):
    return study.get_toy_results(process)


def pulls_of(study, process):
    return study.get_toy_result_pulls(process)


def linearity(study, process, limits, options):
    return study.do_linearity_test(process, limits, **options)


def attribute(obj, name):
    return getattr(obj, name)


def as_array(values):
    return np.array(values)
