"""C10: point forecasts have one row per request, one column per step ahead, and their labels.

The axes and labels of the symbolic result of predict are inferred and compared with the index of the request and the columns
of the fitted targets.
"""
from __future__ import annotations
from ..loader import Program
from .. import drive, terms as tm
from ..values import Phi
from ..par import pmap
from ..report import Report
from ..shapes import axes, canon, compare, show_dims, basic
from .c08 import variants, ci_on_y, method_where
from .layout import ROWS, INDEX, COLS, LATE, drive_all, terms_of, dims_of, label_size, label_cmp
from ..terms import mk, sym

MINIMUM = 25
_P = None


def one(t):
    global _P
    if _P is None:
        _P = Program()
    p = _P
    cname, i = t
    ci = p.classes[cname]
    cfg = variants(p, ci)[i]
    rep = Report('C10')
    run = drive_all(p, ci, cfg, ('fit', 'predict'))
    if run.obj is None:
        return rep.export()
    on_y = ci_on_y(p, ci)
    a = axes()
    key = run.label
    where = method_where(p, ci, 'predict')
    ts = terms_of(run, 'predict')
    if not ts:
        return rep.export()
    late = any(c.name in LATE for c in p.mro(ci))
    ds = dims_of(ts)
    idx, cols = set(), set()
    for u in ts:
        idx |= set(a.index(u))
        cols |= set(a.columns(u))
    if on_y:
        v, bad = compare(ds, (ROWS, mk('dim', sym('arg:y'), 1)))
        rep.add('point-axes', '%s: axes of the point forecast' % key, v, where, '' if v != 'violated' else
                'axes %s instead of (rows, steps)' % show_dims(bad))
        v, bad = label_cmp(cols, COLS)
        rep.add('point-columns', '%s: columns of the point forecast' % key, v, where, '' if v != 'violated' else
                'columns %s instead of those of y' % tm.show(bad, 4))
    else:
        rows(rep, key, where, ds)
        # one label per step
        ns = {canon(d[1]) for d in ds if d is not None and len(d) == 2 and d[1] is not None}
        ls = {label_size(a, c) if c is not None else None for c in cols}
        k = '%s: columns of the point forecast' % key
        if len(ns) == 1 and len(ls) == 1 and None not in ls and None not in ds:
            n, l = next(iter(ns)), next(iter(ls))
            v = 'holds' if n is l else 'violated' if lindiff(n, l) else 'unknown'
            rep.add('point-columns', k, v, where, '' if v == 'holds' else 'as many labels as %s for %s columns'
                    % (tm.show(l, 4), tm.show(n, 4)))
        else:
            rep.unknown('point-columns', k, where, 'labels not resolved')
    if not late:
        v, bad = label_cmp(idx, INDEX)
        rep.add('point-index', '%s: index of the point forecast' % key, v, where, '' if v != 'violated' else
                'the rows are labelled %s instead of by the index of x' % tm.show(bad, 4))
    for fn in run.it.inlined:
        rep.analysed.add(str(fn))
    return rep.export()


def rows(rep, key, where, ds):
    k = '%s: rows of the point forecast' % key
    got = {canon(d[0]) if d is not None and len(d) == 2 and d[0] is not None else None for d in ds}
    if got == {ROWS}:
        rep.holds('point-axes', k, where)
    elif None not in got and all(basic(g) for g in got) and ROWS not in got:
        rep.violated('point-axes', k, where, 'one row per %s instead of one per row of x' % tm.show(next(iter(got)), 4))
    else:
        rep.unknown('point-axes', k, where, 'rows not resolved')


def lindiff(a, b):
    """Two sizes that differ by a nonzero constant, or are different sources."""
    from ..shapes import linear
    l1, l2 = linear(a) if a.op != 'lin' else lin(a), linear(b) if b.op != 'lin' else lin(b)
    if l1 is None or l2 is None:
        return False
    d = dict(l1)
    for k, v in l2.items():
        d[k] = d.get(k, 0) - v
    return not any(v for k, v in d.items() if k is not None) and d.get(None, 0) != 0


def lin(t):
    out = {x: k.args[0] for x, k in t.args[0]}
    out[None] = t.args[1].args[0]
    return out


def run(rep):
    rep.rule('point-axes', 'point forecasts have one row per row of the request and one column per target')
    rep.rule('point-columns', 'the columns carry the labels of the targets (one label per column for models without targets)')
    rep.rule('point-index', 'point forecasts carry the index of the request')
    p = Program()
    tasks = [(c.qual, i) for c in drive.forecasters(p) for i in range(len(variants(p, c)))]
    for r in pmap(one, tasks):
        rep.merge(r)
