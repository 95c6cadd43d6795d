"""Generic drivers for every public function and method of the package: each parameter is a symbolic source.

Receivers are built by running their constructor on symbolic arguments (plus the set-up operations a user performs
before calling the method), so methods are analysed on the state the package itself creates.
"""
from __future__ import annotations
import ast
from .interp import Interp, St, Args
from .values import Sc, Tup, Lst, Dct, Inst
from .terms import const, mk, sym
from .loader import AnalysisError
from . import extlib, drive

DF = 'df'
# kinds of well-known parameter names, by meaning (used when a parameter has no type annotation)
KINDS = {'x': DF, 'y': DF, 'df': DF, 'x_te': DF, 'X': DF, 'df_train': DF, 'df_test': DF, 'idxs': DF,
         'quantiles': DF, 'predictions': DF, 'scens': 'ndarray', 'samples': 'ndarray', 'samples_0': 'ndarray',
         'q_hat': DF, 't': DF, 'y_hat': DF, 'hat': DF, 'time_index': 'index', 'errs_tr': DF, 'y_hat_te': DF,
         'space': 'ndarray', 'S_s': 'ndarray', 'P_s': 'ndarray'}
SCALARS = {'n_scen': 'int', 'random_state': 'int', 'n_splits': 'int', 'target': 'str', 'target_col_num': 'int',
           'k_max': 'int', 'tol': 'float', 'method': 'str', 'period': 'str', 'metric': 'str', 'cov_method': 'str',
           'sa': 'int', 'n_k': 'int', 'state_code': 'str', 'n_trials': 'int', 'axis': 'int', 'level': 'str'}


def annotated_kind(p):
    a = p.annotation
    if a is None:
        return None
    s = ast.unparse(a)
    if 'DataFrame' in s:
        return DF
    if 'Series' in s:
        return 'series'
    if 'ndarray' in s:
        return 'ndarray'
    if s in ('int', 'float', 'str', 'bool'):
        return s
    return None


def params(fnode, method):
    a = fnode.args
    ps = a.posonlyargs + a.args
    df = [None] * (len(ps) - len(a.defaults)) + list(a.defaults)
    out = list(zip(ps, df))
    if method:
        out = out[1:]
    out += list(zip(a.kwonlyargs, a.kw_defaults))
    return out


def symarg(it, st, p, default, prefix='arg:'):
    """A symbolic argument for a parameter, from its annotation, name and default."""
    n = p.arg
    k = annotated_kind(p) or KINDS.get(n) or SCALARS.get(n)
    nonnull = True
    if isinstance(default, ast.Constant):
        v = default.value
        if v is None:
            nonnull = False
        elif isinstance(v, bool):
            k = 'bool'
        elif isinstance(v, (int, float, str)):
            k = k if k in ('int', 'float', 'str') else type(v).__name__
    return it.symval(prefix + n, k, nonnull=nonnull)


def arglist(it, st, fnode, method, fixed=None, prefix='arg:'):
    fixed = dict(fixed or {})
    kw = {}
    for p, d in params(fnode, method):
        if p.arg in fixed:
            v = fixed.pop(p.arg)
            if v is drive:      # sentinel: leave the default
                continue
            kw[p.arg] = v(it, st) if callable(v) else v
        else:
            if isinstance(d, (ast.Name, ast.Attribute, ast.Lambda)):
                continue        # callables keep their default
            kw[p.arg] = symarg(it, st, p, d, prefix)
    for k, v in fixed.items():
        kw[k] = v(it, st) if callable(v) else v
    return Args([], kw)


def method_args(it, st, obj, name, fixed=None, prefix='arg:'):
    m = it.prog.find_method(obj.cls, name)
    if m is None:
        raise AnalysisError('%s.%s not found' % (obj.cls.name, name))
    fn = m[1]
    static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list)
    return arglist(it, st, fn, not static, fixed, prefix)


def invoke(it, st, obj, name, fixed=None, prefix='arg:'):
    return it.invoke(obj, name, method_args(it, st, obj, name, fixed, prefix), st, name)


def public_functions(prog):
    """(module, name, node) of the module-level functions."""
    for mn, m in sorted(prog.modules.items()):
        for n, (k, v) in sorted(m.bindings.items()):
            if k == 'def' and not n.startswith('__'):
                yield m, n, v


def public_methods(prog):
    for q, ci in sorted(prog.classes.items()):
        for n, f in ci.methods.items():
            if n.startswith('_'):
                continue
            yield ci, n, f


def call_function(prog, mod, name, fixed=None):
    it = Interp(prog)
    st = St(it)
    out = []

    def go():
        fv = it.global_value(prog.lookup(mod.name, name), st)
        fnode = mod.bindings[name][1]
        out.append(it.invoke_fn(fv, arglist(it, st, fnode, False, fixed), st, name))
    it.run(go, mod)
    return it, st, out[0]


def build(it, st, ci, fixed=None):
    m = it.prog.find_method(ci, '__init__')
    if m is None:
        return it.construct(ci, Args([], {}), st, 'obj')
    return it.construct(ci, arglist(it, st, m[1], True, fixed, 'p:'), st, 'obj')
