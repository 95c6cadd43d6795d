"""Drivers: the operation sequences (construct, fit, predict, ...) the rules are evaluated on.

A driver feeds symbolic sources into the package's public entry points and returns the analysis (events, heap,
returned values).  Classes are discovered from the source: every subclass of the forecaster base class is driven,
so a forecaster added later is covered without touching this file.
"""
from __future__ import annotations
import ast
import itertools
import traceback
from .loader import Program, AnalysisError
from .interp import Interp, St, Args
from .values import Sc, Tup, Lst, Dct, Inst, Cls, Ext, Phi
from .terms import const, mk, sym
from . import extlib

BASE = 'ScenarioGenerator'

# configurations that select different code paths (class name -> list of keyword overrides); values are Python
# constants or callables(it, st) -> abstract value
CONFIGS = {
    'LinearForecaster': [dict(), dict(kind='ridge'), dict(online_tree_reduction=False),
                         dict(online_tree_reduction=False, additional_node=True), dict(conditional_to_hour=False),
                         dict(online_tree_reduction=False, parallel_preds=True), dict(parallel_preds=True),
                         dict(tree_type='QuantileTree'), dict(tree_type='NeuralGas')],
    'LGBMHybrid': [dict(parallel=False), dict(parallel=True)],
    'LGBEnergyAware': [dict(parallel=False)],
    'QRF': [dict(parallel=False), dict(parallel=True)],
    'HoltWinters': [dict(optimize_hyperpars=False), dict(optimize_hyperpars=True)],
    'HoltWintersMulti': [dict(optimize_hyperpars=False, optimize_submodels_hyperpars=False),
                         dict(optimize_hyperpars=True)],
    'Fourier_es': [dict(optimize_hyperpars=False), dict(optimize_hyperpars=True)],
    'FK': [dict(optimize_hyperpars=False), dict(optimize_hyperpars=True)],
    'FK_multi': [dict(optimize_hyperpars=False, optimize_submodels_hyperpars=False)],
    'NN': [dict(), dict(probabilistic=True)],
    'Persistent': [dict(conditional_to_hour=False), dict(conditional_to_hour=True)],
    'SeasonalPersistent': [dict(conditional_to_hour=False), dict(conditional_to_hour=True)],
}
# abstract / template classes that are not usable on their own
ABSTRACT = {'ScenarioGenerator', 'StatefulForecaster', 'StatsModelsWrapper'}


class Run:
    """One driven operation sequence."""

    def __init__(self, it, st, cls, cfg):
        self.it, self.st, self.cls, self.cfg = it, st, cls, cfg
        self.obj = None
        self.ops = []       # (name, first event, last event, result, state after)
        self.error = None

    def op(self, name, fun):
        a = len(self.it.events)
        r = fun()
        self.ops.append((name, a, len(self.it.events), r, self.st.copy()))
        return r

    def events(self, name=None):
        for n, a, b, r, s in self.ops:
            if name is None or n == name:
                for e in self.it.events[a:b]:
                    yield n, e

    def result(self, name):
        for n, a, b, r, s in self.ops:
            if n == name:
                return r, s
        return None, None

    @property
    def label(self):
        c = ', '.join('%s=%s' % (k, v if not callable(v) else getattr(v, '__name__', '?'))
                      for k, v in sorted(self.cfg.items()))
        return '%s(%s)' % (self.cls.name, c)


def value(it, st, v, name):
    if callable(v):
        return v(it, st)
    if isinstance(v, (list,)):
        return it.new_list(it._synth(('lit', name)), st, [value(it, st, x, name + str(i)) for i, x in enumerate(v)])
    return Sc(const(v), kind=extlib.kind_of_const(v))


def forecasters(prog, concrete=True):
    base = prog.need_class(BASE)
    out = [c for c in prog.subclasses(base) if c is not base]
    if concrete:
        out = [c for c in out if c.name not in ABSTRACT]
    return sorted(out, key=lambda c: (c.module.rel, c.name))


def ctor_params(prog, ci):
    """[(name, default ast or None, defining class)] of the explicit constructor parameters."""
    m = prog.find_method(ci, '__init__')
    if not m:
        return []
    fn = m[1]
    a = fn.args
    ps = [p.arg for p in a.posonlyargs + a.args][1:]
    df = dict(zip(reversed(ps), reversed(a.defaults)))
    out = [(p, df.get(p)) for p in ps]
    out += [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults)]
    return out


def is_num(d):
    return isinstance(d, ast.Constant) and isinstance(d.value, (int, float)) and not isinstance(d.value, bool)


def make(it, st, ci, overrides=None, symbolic=True, label='obj', extra=None):
    """Construct the class with symbolic numeric hyperparameters."""
    kw = {}
    overrides = dict(overrides or {})
    for p, d in ctor_params(it.prog, ci):
        if p in overrides:
            kw[p] = value(it, st, overrides.pop(p), p)
        elif d is None:
            kind = 'str' if p in ('target_name', 'target_col') else None
            kw[p] = it.symval('p:' + p, kind)
        elif symbolic and is_num(d):
            kw[p] = it.symval('p:' + p, 'float' if isinstance(d.value, float) else 'int')
    for p, v in overrides.items():
        kw[p] = value(it, st, v, p)
    for p, v in (extra or {}).items():
        kw[p] = v
    return it.construct(ci, Args([], kw), st, label)


def configs(ci, prog):
    for c in prog.mro(ci):
        if c.name in CONFIGS:
            return CONFIGS[c.name]
    return [dict()]


DEFAULT_OPS = ('fit', 'predict', 'predict_quantiles', 'predict_quantiles_np', 'predict_scenarios', 'predict_trees',
               'predict_pmf')


def drive(prog, ci, cfg=None, ops=DEFAULT_OPS, symbolic=True, extra=None, setup=None, it=None):
    it = it or Interp(prog)
    st = St(it)
    run = Run(it, st, ci, cfg or {})

    def go():
        ex = extra(it, st) if extra else None
        run.op('new', lambda: setattr(run, 'obj', make(it, st, ci, cfg, symbolic, extra=ex)))
        if setup:
            setup(run)
        x = it.symval('arg:x', 'df')
        y = it.symval('arg:y', 'df')
        xt = it.symval('arg:x_te', 'df')
        for o in ops:
            call_op(run, o, x, y, xt)
    try:
        it.run(go, ci.module)
    except AnalysisError as e:
        run.error = str(e)
    except RecursionError as e:
        run.error = 'recursion limit'
    return run


def call_op(run, o, x, y, xt):
    it, st, obj = run.it, run.st, run.obj
    f = None
    if o == 'fit':
        f = lambda: it.invoke(obj, 'fit', Args([x, y]), st, 'fit')
    elif o == 'refit':
        f = lambda: it.invoke(obj, 'fit', Args([it.symval('arg:x2', 'df'), it.symval('arg:y2', 'df')]), st, 'refit')
    elif o == 'predict':
        f = lambda: it.invoke(obj, 'predict', Args([xt]), st, 'predict')
    elif o == 'predict_quantiles':
        f = lambda: it.invoke(obj, 'predict_quantiles', Args([xt]), st, o)
    elif o == 'predict_quantiles_np':
        f = lambda: it.invoke(obj, 'predict_quantiles', Args([xt], {'dataframe': Sc(const(False), kind='bool')}), st, o)
    elif o == 'predict_scenarios':
        f = lambda: it.invoke(obj, o, Args([xt], {'random_state': it.symval('arg:random_state', 'int')}), st, o)
    elif o == 'predict_scenarios_n':
        f = lambda: it.invoke(obj, 'predict_scenarios', Args([xt], {'n_scen': it.symval('arg:n_scen', 'int', nonnull=True)}), st, o)
    elif o == 'predict_trees':
        f = lambda: it.invoke(obj, o, Args([xt], {'random_state': it.symval('arg:random_state', 'int')}), st, o)
    elif o == 'predict_trees_n':
        f = lambda: it.invoke(obj, 'predict_trees', Args([xt], {'n_scen': it.symval('arg:n_scen', 'int', nonnull=True),
                                                               'nodes_at_step': it.symval('arg:nodes_at_step', 'ndarray', nonnull=True),
                                                               'init_obs': it.symval('arg:init_obs', 'ndarray', nonnull=True)}), st, o)
    elif o == 'predict_pmf':
        f = lambda: it.invoke(obj, o, Args([xt, it.symval('arg:space', 'ndarray')]), st, o)
    else:
        return
    run.op(o, f)


def all_runs(prog, ops=DEFAULT_OPS, symbolic=True, extra=None, cfg_extra=None, classes=None):
    for ci in (classes or forecasters(prog)):
        for cfg in configs(ci, prog):
            c = dict(cfg)
            c.update(cfg_extra or {})
            yield drive(prog, ci, c, ops, symbolic, extra)
