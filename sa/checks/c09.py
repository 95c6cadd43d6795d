"""C09: quantile and scenario forecasts have the documented axes and labels.

Every forecaster is driven through fit and its prediction methods on symbolic data; the axes and labels of the symbolic
results are inferred (rows of the request, steps ahead, quantile levels, scenarios) and compared, in order, with the
documented layout: tensors (rows, steps, quantiles), frames whose columns are the product (targets, quantiles) with values in
the same target-major order, scenario tensors (rows, steps, scenarios).
"""
from __future__ import annotations
from ..loader import Program
from .. import drive, terms as tm
from ..terms import mk, sym
from ..values import Phi
from ..par import pmap
from ..report import Report
from ..axes import product_levels
from ..shapes import axes, canon, compare, show_dims, show_dim, label_basic
from .c08 import variants, ci_on_y, method_where
from .layout import (ROWS, Q, QV, INDEX, LATE, drive_all, terms_of, dims_of, steps_of, label_size, label_cmp)

MINIMUM = 40
OBJECTIVE = {'StructuredPICNN'}      # its quantiles are those of the scalar objective
OPS = ('fit', 'predict', 'predict_quantiles', 'predict_quantiles_np', 'predict_scenarios_n')
_P = None


def one(t):
    global _P
    if _P is None:
        _P = Program()
    p = _P
    cname, i = t
    ci = p.classes[cname]
    cfg = variants(p, ci)[i]
    rep = Report('C09')
    run = drive_all(p, ci, cfg, OPS)
    on_y = ci_on_y(p, ci)
    key = run.label
    if run.obj is None:
        return rep.export()
    a = axes()
    steps = steps_of(run, on_y)
    pred_cols = set()
    for u in terms_of(run, 'predict'):
        pred_cols |= set(a.columns(u))
    late = ci.name in LATE or any(c.name in LATE for c in p.mro(ci))
    if any(c.name in OBJECTIVE for c in p.mro(ci)):
        steps = None        # quantiles of the objective, not of the targets
    if cfg.get('additional_node') and steps is not None:
        extra = canon(mk('bin', '+', steps, tm.const(1)))
    else:
        extra = steps
    # ---- tensors
    for op, last, what in (('predict_quantiles_np', Q, 'quantile tensor'),
                           ('predict_scenarios_n', N_SCEN, 'scenario tensor')):
        meth = 'predict_quantiles' if op == 'predict_quantiles_np' else 'predict_scenarios'
        where = method_where(p, ci, '_' + meth) or method_where(p, ci, meth)
        ds = dims_of(terms_of(run, op))
        if not ds:
            continue
        k = '%s: axes of the %s' % (key, what)
        rule = 'tensor-axes' if last is Q else 'scenario-axes'
        if steps is None:
            rep.unknown(rule, k, where, 'steps ahead not resolved')
            continue
        want = (ROWS, steps if last is Q else extra, last)
        v, bad = compare(ds, want)
        rep.add(rule, k, v, where, '' if v != 'violated' else 'axes %s instead of (rows, steps, %s)'
                % (show_dims(bad), 'quantiles' if last is Q else 'scenarios'))
    # ---- frames
    where = method_where(p, ci, '_predict_quantiles')
    for u in [terms_of(run, 'predict_quantiles')]:
        ds = dims_of(u)
        frame = [x for x in u if a.is_frame(x)]
        if not u or steps is None:
            continue
        want = (ROWS, mk('prod', (steps, Q)))
        tensor = (ROWS, steps, Q)
        k = '%s: axes of the quantile frame' % key
        v, bad = compare(ds, want)
        v2, _ = compare(ds, tensor)
        if v == 'violated' and v2 != 'violated':
            v = 'holds' if v2 == 'holds' else 'unknown'
        rep.add('frame-axes', k, v, where, '' if v != 'violated' else 'values have axes %s instead of (rows, steps x quantiles)'
                % show_dims(bad))
        cols, idx = set(), set()
        for x in u:
            cols |= set(a.columns(x))
            idx |= set(a.index(x))
        if any(c is not None for c in cols):
            columns(rep, key, where, a, cols, pred_cols, steps)
        if any(i is not None for i in idx) and not late:
            v, bad = label_cmp(idx, INDEX)
            rep.add('frame-index', '%s: index of the quantile frame' % key, v, where, '' if v != 'violated' else
                    'the rows are labelled %s instead of by the index of x' % tm.show(bad, 4))
    for fn in it_fns(run):
        rep.analysed.add(fn)
    return rep.export()


N_SCEN = sym('arg:n_scen')


def it_fns(run):
    return [str(f) for f in run.it.inlined]


def columns(rep, key, where, a, cols, pred_cols, steps):
    """The columns are the product (targets, quantile levels)."""
    k = '%s: columns of the quantile frame' % key
    verdicts, why = [], ''
    for c in cols:
        lv = product_levels(c) if c is not None else None
        if lv is None or len(lv) != 2:
            verdicts.append('violated' if c is not None and label_basic(c) else 'unknown')
            why = why or (c is not None and 'columns %s are not the product (targets, quantiles)' % tm.show(c, 4) or '')
            continue
        t, q = lv
        if t is QV or q in pred_cols and q is not QV:
            verdicts.append('violated')
            why = 'the column levels are (quantiles, targets) instead of (targets, quantiles)'
            continue
        qq = q
        while qq.op in ('call', 'meth') and qq.args[0].rsplit('.', 1)[-1] in ('array', 'asarray', 'list', 'copy', 'tolist') and \
                (qq.args[1] if qq.op == 'call' else True):
            qq = qq.args[1][0] if qq.op == 'call' else qq.args[1]
        if qq is not QV:
            bad = qq.op == 'reorder' or (qq.op in ('bin', 'un', 'idx') and any(x is QV for x in tm.walk(qq))) or \
                qq.op == 'range-label'
            verdicts.append('violated' if bad else 'unknown')
            why = 'the quantile labels are %s instead of the levels q_vect' % tm.show(qq, 4)
            continue
        if t.op == 'const' and t.args[0] is None:
            verdicts.append('violated')
            why = 'the target labels are None'
            continue
        if t in pred_cols and t is not None:
            verdicts.append('holds' if len(pred_cols) == 1 else 'unknown')
            continue
        sz, s1 = label_size(a, t), canon(steps)
        fresh = t.op == 'attr' and t.args[1] == 'columns' and any(x.op == 'range-label' for x in a.columns(t.args[0]))
        if (t.op == 'range-label' or fresh) and all(x is not None and x.op == 'range-label' for x in pred_cols):
            verdicts.append('holds')        # both are 0..n-1
        elif pred_cols and all(x is not None and formatted_apart(t, x) for x in pred_cols):
            verdicts.append('violated')
            why = 'the target labels are formatted as %s instead of as those of the point forecast' % tm.show(t.args[1], 5)
        elif t.op == 'reorder' or (label_basic(t) and all(x is not None and label_basic(x) for x in pred_cols) and pred_cols):
            verdicts.append('violated')
            why = 'the target labels are %s instead of those of the point forecast' % tm.show(t, 4)
        else:
            verdicts.append('unknown')
            why = why or 'targets %s' % tm.show(t, 3)
    v = 'holds' if all(x == 'holds' for x in verdicts) else 'violated' if all(x == 'violated' for x in verdicts) else 'unknown'
    rep.add('frame-columns', k, v, where, why if v != 'holds' else '')


def formatted_apart(a, b):
    """Lists of labels formatted from different literals."""
    def lit(t):
        if t.op == 'listof' and not t.args[0] and isinstance(t.args[1], tm.T) and t.args[1].op == 'fstr':
            return ''.join(x if isinstance(x, str) else '{}' for x in t.args[1].args[0])
        return None
    return lit(a) is not None and lit(b) is not None and lit(a) != lit(b)


def run(rep):
    rep.rule('tensor-axes', 'quantile tensors have axes (rows, steps, quantiles), in this order')
    rep.rule('scenario-axes', 'scenario tensors have axes (rows, steps, scenarios), in this order')
    rep.rule('frame-axes', 'quantile frames hold, row by row, the values in (step, quantile) order')
    rep.rule('frame-columns', 'the columns of quantile frames are the product (targets of the point forecast, quantile levels)')
    rep.rule('frame-index', 'quantile frames carry the index of the request')
    p = Program()
    tasks = [(c.qual, i) for c in drive.forecasters(p) for i in range(len(variants(p, c)))]
    for r in pmap(one, tasks):
        rep.merge(r)
