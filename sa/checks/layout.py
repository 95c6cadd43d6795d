"""Shared by C09 and C10: the axes and labels of everything a forecaster returns."""
from __future__ import annotations
from .. import drive, terms as tm
from ..terms import mk, sym
from ..values import Sc, Phi
from ..axes import UNK, product_levels
from ..shapes import axes, canon, compare, show_dims, label_basic
from .c08 import takes, method_where, ci_on_y

ROWS = mk('dim', sym('arg:x_te'), 0)
Q = mk('dim', sym('p:q_vect'), 0)
QV = sym('p:q_vect')
INDEX = mk('attr', sym('arg:x_te'), 'index')
COLS = mk('attr', sym('arg:y'), 'columns')

# forecasters that need a history before their first forecast document that the first rows have none
LATE = {'LSTM_Forecaster'}


def drive_all(p, ci, cfg, ops):
    ex = (lambda it, st: {'q_vect': it.symval('p:q_vect', 'ndarray')}) if takes(p, ci, 'q_vect') else None
    return drive.drive(p, ci, cfg, ops=ops, extra=ex)


def terms_of(run, op):
    """Possible terms of the result of an operation."""
    r, s = run.result(op)
    if r is None:
        return []
    vals = [v for _, v in r.alts] if isinstance(r, Phi) else [r]
    out = []
    for v in vals:
        t = run.it.term(v, s)
        out += [u for u in tm.alternatives(t)]
    return out


def dims_of(ts):
    out = set()
    a = axes()
    for t in ts:
        out |= set(a.dims(t))
    return out


def raises(run, op):
    """The operation certainly raises (no result is produced)."""
    for n, a, b, r, s in run.ops:
        if n == op:
            return getattr(s, 'dead', False)
    return False


def steps_of(run, on_y):
    """The dimension of the steps ahead: the columns of y, or what the point forecast has."""
    if on_y:
        return mk('dim', sym('arg:y'), 1)
    ds = dims_of(terms_of(run, 'predict'))
    ds = {tuple(map(canon, d)) for d in ds if d is not None and len(d) == 2}
    return next(iter(ds))[1] if len(ds) == 1 else None


def label_size(a, t):
    """Number of labels in a label set."""
    if t.op == 'range-label':
        d = a.dims(t.args[0])
        ds = {canon(x[t.args[1]]) for x in d if x is not None and len(x) > t.args[1]} if len(t.args) > 1 else set()
        return next(iter(ds)) if len(ds) == 1 else None
    if t.op in ('listof', 'list', 'tuple', 'range', 'idx'):
        n = a.length(t)
        return canon(next(iter(n))) if len(n) == 1 and None not in n else None
    d = a.dims(t)
    ds = {canon(x[0]) for x in d if x is not None and len(x) == 1}
    return next(iter(ds)) if len(ds) == 1 and None not in d else None


def check_dims(rep, rule, key, where, ts, want, what):
    ds = dims_of(ts)
    if not ds:
        return
    v, bad = compare(ds, want)
    rep.add(rule, key, v, where, '' if v != 'violated' else '%s has axes %s instead of %s' % (what, show_dims(bad), show_dims(want)))


def label_cmp(alts, want, equal=None):
    """Verdict on label sets against the documented one (equal: extra equality test)."""
    alts = set(alts)
    ok = [a for a in alts if a is not None and (a is want or (equal and equal(a)))]
    if ok:
        return ('holds' if len(ok) == len(alts) else 'unknown'), None
    if None in alts or not alts:
        return 'unknown', None
    if all(label_basic(a) for a in alts):
        return 'violated', next(iter(alts))
    return 'unknown', None
