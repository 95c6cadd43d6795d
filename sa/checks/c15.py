"""C15: a transformer or formatter does not remember the data it has transformed.

The object is built with symbolic settings and used twice, on two different symbolic data sets; what the second use returns
(and the metadata it leaves) may depend on the settings and on the second data set only.
"""
from __future__ import annotations
from ..loader import Program, AnalysisError
from ..interp import Interp, St, Args
from ..values import Sc, Tup, Lst
from ..terms import const
from .. import terms as tm
from . import transformer as TR

MINIMUM = 12
# remembered on purpose: whether the first data set had a time zone (the columns must not change between fit and prediction)
REMEMBERED = {'timezone'}


def path_to(t, src, depth=6):
    """A short description of where a source sits in a term."""
    while depth and t.op != 'sym':
        kids = [k for k in tm.children(t) if src in tm.deps(k)]
        if not kids:
            break
        small = min(kids, key=tm.size)
        if tm.size(small) < 12:
            return tm.show(small, 4)
        t, depth = small, depth - 1
    return tm.show(t, 3)


def transformers(rep, prog):
    ci = TR.find(prog, 'Transformer')
    wh = TR.where(prog)
    for cfg in TR.CONFIGS:
        key = TR.label(cfg)
        # a second data set, sampled differently
        it, st, out = TR.run_transform(prog, cfg, dt=None, times=2)
        for what in ('data', 'meta'):
            dep = tm.deps(out[what])
            k = '%s: %s of the second data set' % (key, {'data': 'features', 'meta': 'metadata'}[what])
            if 'x' in dep:
                rep.violated('history', k, wh, 'depend on the first data set, through %s' % path_to(out[what], 'x'))
            else:
                rep.holds('history', k, wh, 'depend on %s' % ', '.join(sorted(dep)))
        # two columns in one transformer
        it, st, out = TR.run_transform(prog, cfg, dt=None, names=('name', 'name2'))
        for what in ('data', 'meta'):
            t = last(out[what])
            k = '%s: %s of the second column' % (key, {'data': 'features', 'meta': 'metadata'}[what])
            if t is None:
                rep.unknown('other-columns', k, wh, tm.show(out[what], 3))
                continue
            dep = tm.deps(t)
            if 'name2' not in dep:
                rep.unknown('other-columns', k, wh, tm.show(t, 3))
            elif 'name' in dep and 'b' in cfg:
                # (the loops over bins and functions may run zero times for the analysis: the previous value survives)
                rep.unknown('other-columns', k, wh, path_to(t, 'name'))
            elif 'name' in dep:
                rep.violated('other-columns', k, wh, 'depend on the first column, through %s' % path_to(t, 'name'))
            else:
                rep.holds('other-columns', k, wh)


def last(t):
    """The table joined last: concat([previous, new])."""
    if t.op == 'call' and t.args[0].endswith('concat') and t.args[1][0].op in ('list', 'tuple'):
        parts = t.args[1][0].args[0]
        return parts[-1] if len(parts) >= 2 else None
    return None


HISTORIES = {
    'transform(x)': ('transform', {}),
    'transform(x, return_target=False)': ('transform', {'return_target': False}),
    'transform(x, time_features=False)': ('transform', {'time_features': False}),
    'transform(x, global_form=True)': ('transform', {'global_form': True}),
}


def settings(it, st, ci, kind):
    def names(ns, k):
        return it.new_list(it._synth(('n' + k, 0)), st, [it.symval(n, 'str') for n in ns])

    def funs(k):
        return it.new_list(it._synth(('f' + k, 0)), st, [Sc(const('mean')), Sc(const('max'))])
    o = it.construct(ci, Args([], {'logger': it.symval('logger')}), st, 'fo')
    add = {'aggregated': {'functions': funs('a'), 'agg_freq': it.symval('agg_freq', 'int'), 'lags': it.symval('lags', 'ndarray')},
           'lagged': {'lags': it.symval('lags', 'ndarray')},
           'binned': {'functions': funs('b'), 'agg_bins': it.symval('agg_bins', 'ndarray')}}[kind]
    it.invoke(o, 'add_transform', Args([], dict(add, names=names(['n1', 'n2'], 'a'))), st, 'a1')
    it.invoke(o, 'add_target_transform', Args([], {'names': names(['n3'], 'b'), 'lags': it.symval('tlags', 'ndarray')}), st, 'a2')
    if kind == 'aggregated':
        it.invoke(o, 'add_target_normalizer', Args([], {'target': names(['n3'], 'c'), 'name': Sc(const('mean')), 'function': Sc(const(
            'mean')), 'agg_freq': it.symval('nagg', 'int')}), st, 'a3')
        it.invoke(o, 'add_normalizing_fun', Args([], {'expr': it.symval('expr', 'str'), 'inv_expr': it.symval('inv', 'str')}), st, 'a4')
    return o


def formatters(rep, prog):
    ci = TR.find(prog, 'Formatter')
    if ci is None:
        raise AnalysisError('Formatter not found')
    for kind in ('aggregated', 'lagged', 'binned'):
        for first in HISTORIES:
            it = Interp(prog)
            st = St(it)
            res = {}

            def go():
                o = settings(it, st, ci, kind)
                m, kw = HISTORIES[first]
                it.invoke(o, m, Args([], dict({'x': it.symval('x', 'df')}, **{k: Sc(const(v)) for k, v in kw.items()})), st, 'first')
                for f in REMEMBERED:
                    if st.get(('f', o.oid, f)) is not None:
                        st.set(('f', o.oid, f), it.symval('settings:' + f, 'bool'))
                base_ = dict(st.d)
                for second in HISTORIES:
                    st.d = dict(base_)
                    m, kw = HISTORIES[second]
                    n = len(it.events)
                    r = it.invoke(o, m, Args([], dict({'x': it.symval('x2', 'df')}, **{k: Sc(const(v)) for k, v in kw.items()})),
                                  st, 'second' + second)
                    meta = set()
                    for lst in ('transformers', 'target_transformers', 'target_normalizers'):
                        v = it.getattr(o, lst, st, it._synth(('l', lst)))
                        lc = st.lc(v.oid) if isinstance(v, Lst) else None
                        for tr in (lc.items + ((lc.star,) if lc.star is not None else ()) if lc else ()):
                            meta |= it.deps(it.getattr(tr, 'metadata', st, it._synth(('m', 0))), st)
                    res[second] = (it.deps(r, st), it.term(r, st) if not isinstance(r, Tup) else None, r, meta,
                                   [it.term(v, st) for v in r.items] if isinstance(r, Tup) else [])
            it.run(go, ci.module)
            m = prog.find_method(ci, 'transform')
            wh = '%s:%d' % (getattr(ci.module, 'path', ci.module.name), m[1].lineno)
            for second, (dep, t, r, meta, ts) in res.items():
                k = 'Formatter (%s): %s after %s' % (kind, second.replace('x', 'x2', 1), first)
                if 'x2' not in dep:
                    rep.unknown('history', k, wh, 'no result')
                    continue
                bad = [u for u in ts + ([t] if t is not None else []) if 'x' in tm.deps(u)]
                if 'x' in dep:
                    rep.violated('history', k, wh, 'depends on the first data set' + (', through %s' % path_to(bad[0], 'x') if bad else ''))
                else:
                    rep.holds('history', k, wh)
                if 'return_target' in second or 'global_form' in second:
                    continue        # the transformers may not be used at all
                k += ': metadata'
                if 'x' in meta:
                    rep.violated('history', k, wh, 'depend on the first data set')
                else:
                    rep.holds('history', k, wh)
            for f in it.inlined:
                rep.analysed.add(str(f))


def run(rep, prog=None):
    prog = prog or Program()
    rep.rule('history', 'what a transformer or formatter returns, and the metadata it leaves, depend on its settings and on the data '
                        'it is given, not on data it was given before (the time-zone flag excepted)')
    rep.rule('other-columns', 'the features of one column do not depend on the columns transformed before it')
    rep.assumptions += ['third-party calls keep no state']
    if TR.find(prog, 'Transformer') is None:
        raise AnalysisError('Transformer not found')
    transformers(rep, prog)
    formatters(rep, prog)
