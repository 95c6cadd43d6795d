"""Shared by C11 and C14: a Transformer run on symbolic settings, in every combination of its options."""
from __future__ import annotations
from ..interp import Interp, St, Args
from ..values import Sc, Inst
from ..terms import const, sym, T, mk
from .. import terms as tm
from ..windows import Win, Unknown, colval, frame, DT, W, INF, equal_orders, strip
from ..algebra import Poly, Need

# option combinations: f functions, a aggregation frequency (string), i aggregation in steps, l lags, r relative lags,
# b aggregation bins, n not nested bins
CONFIGS = ['', 'l', 'f', 'fl', 'fa', 'fal', 'fi', 'fil', 'falr', 'filr', 'al', 'alr', 'lr', 'fb', 'fbl', 'fbn', 'fbln']
NAMES = {'f': 'functions', 'a': "agg_freq='..'", 'i': 'agg_freq=steps', 'l': 'lags', 'r': 'relative_lags', 'b': 'agg_bins',
         'n': 'nested=False'}


def label(cfg):
    return 'Transformer(%s)' % ', '.join(NAMES[c] for c in cfg)


def find(prog, name):
    for q, c in prog.classes.items():
        if c.name == name and c.module.name.endswith('formatter'):
            return c
    return None


def build(it, st, ci, cfg, names=('name',), dt='timedelta'):
    ns = [it.symval(n, 'str') for n in names]
    none = Sc(const(None))
    kw = {'names': it.new_list(it._synth(('names', 0)), st, ns), 'functions': none, 'agg_freq': none, 'lags': none, 'agg_bins': none,
          'relative_lags': Sc(const(False)), 'dt': it.symval('dt', dt) if dt else none, 'logger': it.symval('logger')}
    if 'f' in cfg:
        kw['functions'] = it.symval('functions', 'list')
        it.force[sym('functions')] = True
    if 'a' in cfg:
        kw['agg_freq'] = it.symval('agg_freq', 'str')
    if 'i' in cfg:
        kw['agg_freq'] = it.symval('agg_freq', 'int')
    if 'l' in cfg:
        kw['lags'] = it.symval('lags', 'ndarray')
    if 'r' in cfg:
        kw['relative_lags'] = Sc(const(True))
    if 'b' in cfg:
        kw['agg_bins'] = it.symval('agg_bins', 'ndarray')
        if 'n' in cfg:
            kw['nested'] = Sc(const(False))
    return it.construct(ci, Args([], kw), st, 'tr')


def run_transform(prog, cfg, simulate=False, names=('name',), dt='timedelta', times=1):
    """(interp, state, transformer, data term, metadata term)"""
    it = Interp(prog)
    st = St(it)
    ci = find(prog, 'Transformer')
    out = {}

    def go():
        o = build(it, st, ci, cfg, names, dt)
        out['obj'] = o
        r = None
        for k in range(times):
            r = it.invoke(o, 'transform', Args([], {'x': it.symval('x' if k == 0 else 'x%d' % (k + 1), 'df'),
                                                    'augment': Sc(const(False)), 'simulate': Sc(const(simulate))}), st,
                          't%d' % k)
        out['data'] = it.term(r, st)
        out['meta'] = it.term(it.getattr(o, 'metadata', st, it._synth(('m', 0))), st)
    it.run(go, ci.module)
    return it, st, out


def win(cfg):
    arrays = {'lags', 'functions', 'agg_bins'}
    return Win(arrays, {'dt'}, 'agg_freq' if 'a' in cfg else None)


def generated(t):
    """The generated table and its labels: transform(augment=False) joins an empty table with it."""
    if t.op == 'call' and t.args[0].endswith('concat') and t.args[1][0].op in ('list', 'tuple'):
        parts = [u for u in t.args[1][0].args[0] if not Win.bare(u)]
        if len(parts) == 1:
            return parts[0]
    return t


def only(t):
    """Metadata of the single source: concat([empty, metadata])."""
    if t.op == 'call' and t.args[0].endswith('concat') and t.args[1][0].op in ('list', 'tuple'):
        parts = [u for u in t.args[1][0].args[0] if not (u.op == 'call' and u.args[0].endswith('DataFrame') and not u.args[1]
                                                         and not u.args[2])]
        if len(parts) == 1:
            return parts[0]
    return t


def labels(t):
    """Explicit labels of the generated columns."""
    if t.op == 'setattr' and t.args[1] == 'columns':
        return t.args[2]
    if t.op == 'call' and t.args[0].endswith('DataFrame'):
        for k, v in t.args[2]:
            if k == 'columns':
                return v
    if t.op in ('meth',) and t.args[0] in ('shift', 'copy'):
        return labels(t.args[1])
    return None


def where(prog):
    ci = find(prog, 'Transformer')
    m = prog.find_method(ci, 'transform')
    return '%s:%d' % (getattr(ci.module, 'path', ci.module.name), m[1].lineno)
