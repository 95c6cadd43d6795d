"""C01: no public operation writes the data its caller passed in.

Every public entry point is analysed on symbolic arguments; a store (item, attribute, in-place operator, in-place
library method) whose target may be the caller's object, or a view of it, is a violation.
"""
from __future__ import annotations
from ..loader import Program, AnalysisError
from ..interp import Interp, St, Args
from ..values import Sc, Inst, Tup, Lst, Dct
from ..terms import const, sym, mk
from .. import drive, entries
from ..par import pmap
from ..report import Report

MINIMUM = 150

FUNCTIONS = {
    'pyforecaster.metrics': ['rmse', 'mape', 'nmae', 'quantile_scores', 'crps', 'reliability', 'summary_score',
                             'summary_scores', 'err', 'squerr', 'chose_axis'],
    'pyforecaster.scenred': ['scenred', 'refine_scenarios', 'set_distance', 'superimpose_signal_to_scens', 'obs_at_step_t', 'get_nodes_per_time_from_tree',
                             'retrieve_scenarios_indexes', 'get_network', 'plot_scen'],
    'pyforecaster.scenarios_generator': ['interp_scens', 'tree_gen', 'tree_gen_chunk'],
    'pyforecaster.big_data_utils': ['reduce_mem_usage', 'reduce_mem_usage_df', 'reduce_mem_usage_series',
                                    'reduce_mem_usage_np', 'fdf_parallel', 'array_split'],
    'pyforecaster.stat_utils': ['bootstrap', 'qqplot'],
    'pyforecaster.utilities': ['from_tensor_to_pdmultiindex', 'convert_multiindex_pandas_to_tensor', 'kalman',
                               'kalman_predict', 'kalman_update', 'find_most_important_frequencies'],
    'pyforecaster.trainer': ['cross_validate', 'hyperpar_optimizer', 'optuna_objective', 'get_score_key', 'retrieve_cv_results'],
    'pyforecaster.plot_utils': ['plot_quantiles', 'plot_summary_score', 'plot_multiple_summary_scores', 'hist_2d',
                                'jointplot', 'ts_animation', 'ts_animation_bars', 'plot_trees', 'plot_scenarios_from_multilevel'],
    'pyforecaster.forecasting_models.fast_adaptive_models': ['get_basis', 'generate_recent_history', 'update_predictions'],
    'pyforecaster.formatter': ['hr_timedelta', 'get_fun_name'],
    'pyforecaster.forecasting_models.holtwinters': ['hankel', 'tune_hyperpars', 'fit_sample', 'score_autoregressive'],
    'pyforecaster.forecasting_models.random_fourier_features': ['fit_features', 'fit_feature', 'linear_response', 'compute_coeffs', 'get_rff_matrix', 'get_orf_matrix'],
}
# parameters that an entry point is documented to operate on in place (reason)
BY_DESIGN = {
    ('trainer', 'model'): 'the estimator the caller asks to have tuned/fitted',
    ('score_autoregressive', 'model'): 'the estimator the caller asks to have fitted',
    ('plot', 'ax'): 'the axes the caller asks to have drawn on',
}
INPLACE = {'model': 'the estimator the caller asks to have fitted', 'ax': 'the axes drawn on', 'fig': 'the figure drawn on',
           'storage_fun': 'callback', 'logger': 'logger', 'study': 'optuna study', 'storage': 'result store',
           'storage_backend': 'result store', 'trial': 'optuna trial', 'coeffs_t_history': 'the table of update_predictions, made by its caller', 'legend_kwargs': 'plot keywords'}

FORMATTER_METHODS = ['transform', 'denormalize', 'prune_dataset_at_stepahead', 'cat_encoding', 'time_kfcv',
                     'add_time_features', 'add_holidays', 'global_form_preprocess', 'add_normalizing_columns',
                     'auto_cat_feature_selection', 'normalize',
                     'get_time_lims', 'plot_dataset_at_stepahead', 'plot_transformed_feature', 'cv_generator']
OTHER_CLASSES = {
    'ScenGen': ['fit', 'predict_scenarios', 'predict_trees', 'sample_scenarios'],
    'HourlyGaussianCopula': ['fit', 'sample'], 'GaussianCopula': ['fit', 'sample'], 'ConditionalGaussianCopula': ['fit', 'sample'],
    'BrutalRegressor': ['fit', 'predict'], 'RandomFFRegressor': ['fit', 'predict', 'score'],
    'ScenarioTree': ['gen_tree', 'gen_init_tree'],
    'NeuralGas': ['gen_tree'], 'DiffTree': ['gen_tree'], 'ScenredTree': ['gen_tree'], 'QuantileTree': ['gen_tree'],
    'HierarchicalReconciliation': ['fit', 'predict', 'predict_quantiles', 'predict_scenarios', 'get_predictions',
                                   'get_quantiles', 'reconcile', 'compute_kpis'],
    'Transformer': ['transform'],
    'Reducer': ['reduce'],
}


def describe(e):
    h = e.data['how']
    return {'setitem': 'writes items of', 'append': 'appends to'}.get(h, 'applies %s in place to' % h)


def collect(rep, it, events, entry, prefixes=('arg:', 'p:'), exempt=()):
    """One obligation per (entry, caller-owned argument)."""
    owned = sorted(n for n in it.nonnull | set(it.kinds) if n.startswith(prefixes))
    hit = {}
    for e in events:
        if e.kind != 'mutate':
            continue
        for r in e.regs:
            if isinstance(r, tuple) and r and r[0] == 's' and str(r[1]).startswith(prefixes):
                hit.setdefault(r[1], []).append(e)
    for r in set(owned) | set(hit):
        n = r.split(':', 1)[1]
        if n.split('.')[0] in INPLACE or n in exempt:
            continue
        k = '%s: %s' % (entry, n)
        if r in hit:
            for e in hit[r]:
                rep.violated('caller-data-written', k, e.where,
                             '%s %s the caller\'s `%s` (in %s)' % (entry, describe(e), n, e.func), e.trace())
        else:
            rep.holds('caller-data-written', k)
    for f in it.inlined:
        rep.analysed.add(str(f))


def prog():
    global _P
    try:
        return _P
    except NameError:
        _P = Program()
        return _P


def task_forecaster(t):
    _, cname, i = t
    p = prog()
    rep = Report('C01')
    ci = [c for c in drive.forecasters(p) if c.qual == cname][0]
    cfg = drive.configs(ci, p)[i]
    run = drive.drive(p, ci, cfg, ops=drive.DEFAULT_OPS + ('predict_trees_n', 'refit'))
    if run.error:
        rep.errors.append('%s: %s' % (run.label, run.error))
    for n, a, b, r, s in run.ops:
        collect(rep, run.it, run.it.events[a:b], '%s.%s' % (ci.name, n if n != 'new' else '__init__'))
    return rep.export()


def task_function(t):
    _, mod, name = t
    p = prog()
    rep = Report('C01')
    m = p.modules.get(mod)
    if m is None or m.bindings.get(name, ('',))[0] != 'def':
        raise AnalysisError('public function %s.%s not found' % (mod, name))
    it, st, r = entries.call_function(p, m, name)
    collect(rep, it, it.events, name)
    return rep.export()


def formatter(it, st, variant):
    fc = it.prog.need_class('Formatter')
    f = it.construct(fc, Args([], {'augment': it.symval('p:augment', 'bool'), 'n_parallel': Sc(const(1), kind='int')}), st, 'fmt')
    names = lambda: it.new_list(it._synth(('names', variant)), st, [Sc(const('target'), kind='str')])
    fl = lambda: it.new_list(it._synth(('funs', variant)), st, [Sc(const('mean'), kind='str')])
    lags = it.symval('p:lags', 'ndarray')
    it.invoke(f, 'add_transform', Args([names()], {'functions': fl(), 'agg_freq': it.symval('p:agg_freq', 'str'),
                                                  'lags': lags}), st, 'add_transform')
    it.invoke(f, 'add_target_transform', Args([names()], {'functions': fl(), 'agg_freq': it.symval('p:t_agg_freq', 'str'),
                                                         'lags': it.symval('p:t_lags', 'ndarray')}), st, 'add_target_transform')
    if variant:
        it.invoke(f, 'add_target_normalizer',
                  Args([names()], {'function': Sc(const('mean'), kind='str'), 'agg_freq': it.symval('p:n_agg_freq', 'str'),
                                   'name': Sc(const('mean'), kind='str')}), st, 'add_target_normalizer')
        it.invoke(f, 'add_normalizing_fun', Args([it.symval('p:expr', 'str'), it.symval('p:inv_expr', 'str')], {}), st,
                  'add_normalizing_fun')
    return f


def task_formatter(t):
    _, method, variant = t
    p = prog()
    rep = Report('C01')
    it = Interp(p)
    st = St(it)
    fc = p.need_class('Formatter')

    def go():
        f = formatter(it, st, variant)
        if method in ('prune_dataset_at_stepahead', 'denormalize'):
            it.invoke(f, 'transform', Args([it.symval('fitdata', 'df')], {}), st, 'pre')
        a = len(it.events)
        entries.invoke(it, st, f, method)
        if method == 'time_kfcv':
            pass
        collect(rep, it, it.events[a:], 'Formatter.%s' % method)
    it.run(go, fc.module)
    return rep.export()


def task_class(t):
    _, cname, method = t
    p = prog()
    rep = Report('C01')
    ci = p.need_class(cname)
    it = Interp(p)
    st = St(it)

    def go():
        o = entries.build(it, st, ci)
        if method != 'fit' and p.find_method(ci, 'fit') and cname != 'HierarchicalReconciliation':
            it.invoke(o, 'fit', Args([it.symval('fit:y', 'df'), it.symval('fit:x', 'df')], {}), st, 'prefit')
        if method != 'fit' and cname == 'HierarchicalReconciliation':
            it.invoke(o, 'fit', Args([it.symval('fit:x', 'df'), it.symval('fit:y', 'df')], {}), st, 'prefit')
        a = len(it.events) if method not in ('fit', 'gen_tree', 'transform') else 0
        entries.invoke(it, st, o, method)
        collect(rep, it, it.events[a:], '%s.%s' % (cname, method))
    it.run(go, ci.module)
    return rep.export()


def task_scorer(t):
    p = prog()
    rep = Report('C01')
    m = p.modules['pyforecaster.metrics']
    for metric in ('rmse', 'crps', 'nmae', 'reliability'):
        it = Interp(p)
        st = St(it)

        def go():
            mf = it.global_value(p.lookup(m.name, metric), st)
            ms = it.global_value(p.lookup(m.name, 'make_scorer'), st)
            sc = it.invoke_fn(ms, Args([mf], {}), st, 'make_scorer')
            # an estimator whose prediction may be the caller's own frame (as IdentityForecaster's is)
            idf = it.construct(p.need_class('IdentityForecaster'), Args([], {}), st, 'est') \
                if any(c.name == 'IdentityForecaster' for c in p.classes.values()) else it.symval('est', None)
            it.invoke_fn(sc, Args([idf, it.symval('arg:x', 'df'), it.symval('arg:y', 'df')], {}), st, 'scorer')
            collect(rep, it, it.events, 'make_scorer(%s)' % metric)
        it.run(go, m)
    return rep.export()


def tasks(p):
    out = []
    for ci in drive.forecasters(p):
        for i in range(len(drive.configs(ci, p))):
            out.append(('forecaster', ci.qual, i))
    for m, names in FUNCTIONS.items():
        out += [('function', m, n) for n in names]
    for v in (0, 1):
        out += [('formatter', n, v) for n in FORMATTER_METHODS]
    for c, ms in OTHER_CLASSES.items():
        out += [('class', c, m) for m in ms]
    out.append(('scorer',))
    return out


def one(t):
    try:
        return globals()['task_' + t[0]](t)
    except AnalysisError as e:
        raise
    except RecursionError:
        r = Report('C01')
        r.errors.append('%s: recursion limit' % (t,))
        return r.export()


def run(rep):
    rep.rule('caller-data-written', 'no store reachable from a public entry point targets a caller-owned argument or a view '
             'of it (flow-sensitive, interprocedural; copies made by the code or the library break ownership)')
    rep.assumptions += ['library functions that are documented not to modify their arguments do not',
                        'selection by list, boolean mask or label list copies (pandas/numpy semantics)']
    for r in pmap(one, tasks(prog())):
        rep.merge(r)
