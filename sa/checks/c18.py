"""C18: training and forecasting are given the same features, and only complete rows.

Formatter.transform is driven on symbolic data, first for training (return_target=True), then on other data for forecasting
(return_target=False).  The tables it returns are evaluated for one row at a time, on every combination of which groups of columns
(the original ones, those of each feature transformer, of each target transformer, the normalizing ones) lack a value in that row.

  complete    a row is returned exactly when none of its generated features (for training: and none of its targets) is missing
  paired      features and targets are returned for the same rows
  features    forecasting is given the features of the training, in their order; features, time features and holidays as asked for
  targets     the targets are those of the target transformers, all of them
  history     the transformers see every row of the data, not the rows that are left after the incomplete ones are dropped
  time        the time features are the hour, the day of the week, the minute of the day and the offset of each row's own timestamp
  named       in the global form every signal is named after the column its values come from
"""
from __future__ import annotations
from itertools import product
from ..loader import AnalysisError
from ..interp import Interp, St, Args
from ..values import Sc, Tup
from ..terms import const, mk, sym, T
from .. import terms as tm
from ..par import pmap
from ..report import Report
from . import c01

MINIMUM = 30
ORIG = 'the data'


class Unknown(Exception):
    pass


class Broken(Exception):
    """(rule, what)"""


class Tab:
    """A table: its groups of columns, and whether it has the row that is looked at"""

    def __init__(self, cols, here, norm=False):
        self.cols, self.here, self.norm = tuple(cols), here, norm


class Nans:
    """Which cells are missing (neg: are not)"""

    def __init__(self, tab, neg):
        self.tab, self.neg = tab, neg


class Mask:
    """val: True, False; None when the row is not there.  pos: an array, without labels"""

    def __init__(self, val, pos=False):
        self.val, self.pos = val, pos


class Cols:
    def __init__(self, cols):
        self.cols = tuple(cols)


class Idx:
    def __init__(self, here):
        self.here = here


class Loc:
    def __init__(self, tab):
        self.tab = tab


class Count:
    """The number of missing (all=False) or present cells of the row"""

    def __init__(self, nan, n, neg):
        self.nan, self.n, self.neg = nan, n, neg


def last(p):
    return p.rsplit('.', 1)[-1]


def boolean(t):
    return t is not None and t.op == 'const' and t.args[0] is True


def flat(t):
    if t.op == 'phi':
        return [z for x in (t.args[0] if isinstance(t.args[0], tuple) else t.args) for z in flat(x)]
    return [t]


class Row:
    """The tables of a run, for one row; missing: the groups of columns that lack a value in it"""

    def __init__(self, roles, names, missing, guess=None):
        self.roles, self.names, self.missing = roles, names, missing
        self.memo = {}
        self.elems = {}

    def group(self, v):
        if v in self.names:
            return self.names[v]
        raise Unknown('a column named %r' % (v,))

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.go(t)
        return r

    def tab(self, t):
        r = self.ev(t)
        if not isinstance(r, Tab):
            raise Unknown('not a table: %s' % tm.show(t, 3)[:80])
        return r

    def cols(self, t):
        r = self.ev(t)
        if isinstance(r, Cols):
            return r.cols
        if isinstance(r, Tab):
            return r.cols
        raise Unknown('not a list of columns: %s' % tm.show(t, 3)[:80])

    def holds(self, c, env):
        """A condition on the column env stands for"""
        if c.op == 'not':
            return not self.holds(c.args[0], env)
        if c.op in ('boolop',):
            r = [self.holds(x, env) for x in c.args[1]]
            return all(r) if c.args[0] == 'and' else any(r)
        if c.op == 'cmp' and c.args[0] in ('in', 'not in') and c.args[1] in env:
            r = env[c.args[1]] in self.cols(c.args[2])
            return r if c.args[0] == 'in' else not r
        if c.op == 'cmp' and c.args[0] in ('==', '!='):
            a, b = [env.get(x, self.names.get(x.args[0]) if x.op == 'const' else None) for x in c.args[1:]]
            if a is not None and b is not None:
                return (a == b) == (c.args[0] == '==')
        raise Unknown('a condition on columns: %s' % tm.show(c, 3)[:80])

    def listed(self, t):
        """The columns of a comprehension"""
        pre, el, over = t.args
        out = []
        for x in pre:
            out.append(self.group(x.args[0])) if x.op == 'const' else out.extend(self.elem(x, ()))
        alts = sorted(flat(el), key=lambda x: (x.op != 'elem', str(x.args[0])))
        conds = ()
        if isinstance(over, T) and over.op == 'filter':
            conds = over.args[1]
        base = over.args[0] if isinstance(over, T) and over.op == 'filter' else over
        if isinstance(base, T) and base.op == 'idx' and base.args[1].op == 'slice' and base.args[0].op == 'listof':
            lo, hi, by = [z.args[0] if z.op == 'const' else self for z in base.args[1].args]
            if conds or lo is not None or hi is not None or by not in (None, 1, -1):
                raise Unknown('some of the columns')
            got = self.listed(base.args[0])
            return got[::-1] if by == -1 else got
        for x in alts:
            if x.op == 'const':
                out.append(self.group(x.args[0]))
            elif x.op == 'elem' and base is not x.args[0] and len(alts) == 1:
                raise Unknown('columns: %s' % tm.show(over, 3)[:80])
            elif x.op == 'elem':
                out += [c for c in self.cols(x.args[0]) if all(self.holds(k, {x: c}) for k in conds)]
            else:
                raise Unknown('columns: %s' % tm.show(x, 3)[:80])
        return out

    def elem(self, x, conds):
        if x.op == 'elem':
            return list(self.cols(x.args[0]))
        raise Unknown('columns: %s' % tm.show(x, 3)[:80])

    def select(self, tab, mask):
        if isinstance(mask, Idx):
            return Tab(tab.cols, tab.here and mask.here, tab.norm)
        if mask.pos and tab.here != (mask.val is not None):
            raise Broken('paired', 'rows are picked by position with a mask made for other rows')
        if mask.val is None and tab.here:
            raise Unknown('a mask that does not cover the rows')
        return Tab(tab.cols, bool(tab.here and mask.val), tab.norm)

    def axis(self, pos, kw, i, default=None):
        a = kw.get('axis', pos[i] if len(pos) > i else None)
        if a is None:
            return default
        if a.op != 'const':
            raise Unknown('axis')
        return {'columns': 1, 'index': 0, 'rows': 0, -1: 1}.get(a.args[0], a.args[0])

    def reduce(self, name, v, axis):
        if not isinstance(v, Nans) or axis != 1:
            raise Unknown('%s over axis %s' % (name, axis))
        if not v.tab.here:
            return Mask(None)
        bad = [c in self.missing for c in v.tab.cols]
        cells = [not b for b in bad] if v.neg else bad
        if name in ('sum', 'count_nonzero'):
            return Count(cells, len(cells), v.neg)
        return Mask(any(cells) if name in ('any', 'max') else all(cells))

    def logic(self, op, a, b):
        if not isinstance(a, Mask) or not isinstance(b, Mask):
            raise Unknown('logic on something else')
        if (a.pos or b.pos) and (a.val is None) != (b.val is None):
            raise Broken('paired', 'masks made for different rows are combined by position')
        if a.val is None and b.val is None:
            return Mask(None, a.pos or b.pos)
        if a.val is None or b.val is None:
            if op == '&':
                return Mask(False, False)       # aligned on the labels: a row one of them lacks counts as False
            raise Unknown('masks of different rows')
        return Mask((a.val and b.val) if op == '&' else (a.val or b.val) if op == '|' else a.val != b.val, a.pos or b.pos)

    def index(self, base, key, kt):
        if isinstance(base, Mask) and not base.pos:
            k = self.ev(kt)
            if isinstance(k, Idx):
                return Mask(base.val if k.here else None)
        if isinstance(base, Loc):
            tab = base.tab
            if kt.op == 'tuple':
                rows, cols = kt.args[0]
                if not self.full(rows):
                    tab = self.select(tab, self.ev(rows))
                return tab if self.full(cols) else Tab(self.cols(cols), tab.here, tab.norm)
            return self.select(tab, self.ev(kt))
        if isinstance(base, Tab):
            k = self.ev(kt)
            if isinstance(k, Mask):
                return self.select(base, k)
            cols = self.cols(kt)
            if set(cols) - set(base.cols):
                raise Broken('features', 'columns are asked for that the table does not have')
            return Tab(cols, base.here, base.norm)
        if isinstance(base, Idx):
            k = self.ev(kt)
            if isinstance(k, Mask) and base.here == (k.val is not None):
                return Idx(bool(base.here and k.val))
        if isinstance(base, Cols):
            k = self.ev(kt)
            if isinstance(k, Cols):
                return k
        raise Unknown('an item: %s' % tm.show(kt, 3)[:80])

    def full(self, t):
        return t.op == 'slice' and all(x.op == 'const' and x.args[0] is None for x in t.args)

    def go(self, t):
        o, a = t.op, t.args
        if o == 'sym':
            if a[0] in ('arg:x', 'arg:x2'):
                return Tab((ORIG,), True)
            raise Unknown('value %s' % a[0])
        if o == 'elem' and a[0].op == 'sym' and a[0].args[0] == 'tables':
            return Tab((ORIG,), True)
        if o == 'ite':
            return self.both(a[1], a[2])
        if o in ('list', 'tuple'):
            out = []
            for x in a[0]:
                if x.op == 'const':
                    out.append(self.group(x.args[0]))
                elif x.op == 'star':
                    out += self.cols(x.args[0])
                else:
                    raise Unknown('a list of %s' % x.op)
            return Cols(out)
        if o == 'listof':
            return Cols(self.listed(t))
        if o == 'attr':
            v = self.ev(a[0])
            if isinstance(v, Tab):
                if a[1] == 'loc':
                    return Loc(v)
                if a[1] == 'index':
                    return Idx(v.here)
                if a[1] == 'columns':
                    return Cols(v.cols)
            if isinstance(v, Mask) and a[1] == 'loc':
                return v
            if isinstance(v, Mask) and a[1] in ('values', 'array'):
                return Mask(v.val, True)
            if isinstance(v, Nans) and a[1] in ('values',):
                raise Unknown('cells without labels')
            if isinstance(v, Cols) and a[1] == 'values':
                return v
            raise Unknown('.%s' % a[1])
        if o == 'idx':
            return self.index(self.ev(a[0]), None, a[1])
        if o == 'un' and a[0] == '~' or o == 'not':
            v = self.ev(a[-1])
            if isinstance(v, Mask):
                return Mask(None if v.val is None else not v.val, v.pos)
            if isinstance(v, Nans):
                return Nans(v.tab, not v.neg)
            raise Unknown('~')
        if o == 'un' and a[0] == '-':
            raise Unknown('-')
        if o == 'bin':
            if a[0] in '&|^':
                x, y = self.ev(a[1]), self.ev(a[2])
                if isinstance(x, Cols) and isinstance(y, Cols):
                    return Cols([c for c in x.cols if c in y.cols] if a[0] == '&' else x.cols + tuple(c for c in y.cols if c not in x.cols))
                if isinstance(x, Idx) and isinstance(y, Idx):
                    return Idx(x.here and y.here)
                return self.logic(a[0], x, y)
            x, y = self.ev(a[1]), self.ev(a[2])
            if isinstance(x, Cols) and isinstance(y, Cols) and a[0] == '+':
                return Cols(x.cols + y.cols)
            if isinstance(x, Cols) and isinstance(y, Cols) and a[0] == '-':
                return Cols([c for c in x.cols if c not in y.cols])
            if isinstance(x, Mask) and isinstance(y, Mask) and a[0] == '*':
                return self.logic('&', x, y)
            raise Unknown('%s' % a[0])
        if o == 'cmp':
            v = self.ev(a[1])
            k = a[2].args[0] if a[2].op == 'const' else None
            if isinstance(v, Count) and k is not None:
                n = sum(v.nan)
                import operator as op
                f = {'==': op.eq, '!=': op.ne, '>': op.gt, '<': op.lt, '>=': op.ge, '<=': op.le}.get(a[0])
                if f and k == 0:
                    return Mask(f(n, 0))
            if isinstance(v, Mask) and isinstance(k, bool) and a[0] == '==':
                return Mask(None if v.val is None else v.val == k, v.pos)
            raise Unknown('a comparison')
        if o == 'setattr':
            v = self.tab(a[0])
            if a[1] == 'columns':
                cols = self.cols(a[2])
                if len(cols) == len(v.cols):
                    if cols != v.cols:
                        raise Unknown('renamed columns')
                    return v
            raise Unknown('.%s =' % a[1])
        if o == 'call':
            return self.call(t)
        if o == 'meth':
            return self.meth(t)
        raise Unknown(o)

    def both(self, x, y):
        u, v = self.ev(x), self.ev(y)
        if type(u) is type(v) and {k: z for k, z in vars(u).items()} == {k: z for k, z in vars(v).items()}:
            return u
        raise Unknown('one of two results')

    def call(self, t):
        p, pos, kw = t.args[0], t.args[1], dict(t.args[2])
        n = last(p)
        if p == 'TR':
            oid = pos[0].args[1]
            role = self.roles.get(oid)
            if role is None:
                raise Unknown('another transformer')
            tab = self.tab(pos[1] if len(pos) > 1 else kw['x'])
            if ORIG not in tab.cols and not tab.here:
                raise Unknown('the data of a transformer')
            if not tab.here:
                raise Broken('history', 'a transformer is applied after incomplete rows were dropped')
            aug = pos[2] if len(pos) > 2 else kw.get('augment')
            if aug is None or boolean(aug):
                return Tab(tab.cols + (role,), tab.here, tab.norm)
            if aug.op == 'const':
                return Tab((role,), tab.here)
            raise Unknown('augment')
        if p == 'NORM.x':
            v = self.tab(pos[0] if pos else kw['x'])
            return Tab(v.cols, v.here, True)
        if p == 'NORM.y':
            v = self.tab(pos[1] if len(pos) > 1 else kw['y'])
            return Tab(v.cols, v.here, True)
        if p in ('TIME', 'HOLIDAYS'):
            v = self.tab(pos[0] if pos else kw['x'])
            return Tab(v.cols + (p.lower(),), v.here, v.norm)
        if p == 'pandas.concat':
            ax = self.axis(pos, kw, 1, 0)
            src = pos[0] if pos else kw['objs']
            if src.op == 'listof' and ax == 0:
                if src.args[0]:
                    raise Unknown('stacked tables')
                return self.tab(src.args[1])
            if src.op != 'list' and src.op != 'tuple' or ax != 1:
                raise Unknown('concat')
            ts = [self.tab(x) for x in src.args[0]]
            some = [v for v in ts if v.cols] or ts
            if len({v.here for v in some}) > 1:
                if kw.get('join') is not None and kw['join'].args[0] == 'inner':
                    return Tab(sum((v.cols for v in ts), ()), False)
                raise Unknown('tables with different rows side by side')
            return Tab(sum((v.cols for v in ts), ()), any(v.here for v in ts), any(v.norm for v in ts))
        if p == 'pandas.DataFrame':
            data = pos[0] if pos else kw.get('data')
            if data is None and 'index' in kw and 'columns' not in kw:
                i = self.ev(kw['index'])
                return Tab((), i.here)
            if data is not None and len(pos) + len(kw) == 1:
                return self.tab(data)
            raise Unknown('DataFrame')
        if n in ('isna', 'isnull', 'notna', 'notnull', 'isnan') and len(pos) == 1:
            return Nans(self.tab(pos[0]), n.startswith('not'))
        if p.startswith('numpy.') and n in ('any', 'all', 'sum', 'max', 'min', 'count_nonzero'):
            r = self.reduce(n, self.ev(pos[0]), self.axis(pos, kw, 1))
            return r
        if n in ('logical_and', 'logical_or', 'logical_xor') and len(pos) == 2:
            return self.logic({'logical_and': '&', 'logical_or': '|', 'logical_xor': '^'}[n], self.ev(pos[0]), self.ev(pos[1]))
        if n in ('logical_not', 'invert') and len(pos) == 1:
            return self.go(mk('un', '~', pos[0]))
        if n in ('list', 'sorted', 'tuple', 'set', 'Index', 'array', 'asarray') and len(pos) == 1:
            v = self.ev(pos[0])
            return v if isinstance(v, (Cols, Mask)) else Cols(self.cols(pos[0]))
        if n == 'setdiff1d' and len(pos) >= 2:
            b = self.cols(pos[1])
            return Cols([c for c in self.cols(pos[0]) if c not in b])
        raise Unknown('%s()' % n)

    def meth(self, t):
        n, pos, kw = t.args[0], t.args[2], dict(t.args[3])
        v = self.ev(t.args[1])
        if isinstance(v, Tab):
            if n in ('copy', 'sort_index', 'infer_objects', 'astype'):
                return v
            if n in ('isna', 'isnull', 'notna', 'notnull'):
                return Nans(v, n.startswith('not'))
            if n == 'dropna':
                if set(kw) - {'axis', 'how', 'subset'} or pos or self.axis((), kw, 0, 0) != 0:
                    raise Unknown('dropna')
                cols = self.cols(kw['subset']) if 'subset' in kw else v.cols
                bad = [c in self.missing for c in cols]
                drop = all(bad) and bad if 'how' in kw and kw['how'].args[0] == 'all' else any(bad)
                return Tab(v.cols, v.here and not drop, v.norm)
            if n == 'reindex' and (len(pos) == 1 and not kw or set(kw) == {'index'}):
                i = self.ev(pos[0] if pos else kw['index'])
                if isinstance(i, Idx) and i.here <= v.here:
                    return Tab(v.cols, i.here, v.norm)
            if n == 'drop' and set(kw) == {'columns'}:
                c = self.cols(kw['columns'])
                return Tab([x for x in v.cols if x not in c], v.here, v.norm)
            if n == 'join' and len(pos) == 1 and not kw:
                w = self.tab(pos[0])
                if w.here == v.here:
                    return Tab(v.cols + w.cols, v.here, v.norm)
            raise Unknown('.%s()' % n)
        if isinstance(v, Nans):
            if n in ('any', 'all', 'sum', 'max', 'min'):
                return self.reduce(n, v, self.axis(pos, kw, 0))
            if n in ('copy',):
                return v
        if isinstance(v, Mask):
            if n in ('copy', 'astype', 'to_frame'):
                return v
            if n in ('to_numpy',):
                return Mask(v.val, True)
            if n == 'reindex' and len(pos) == 1 and not v.pos:
                k = self.ev(pos[0])
                if isinstance(k, Idx) and not (k.here and v.val is None):
                    return Mask(v.val if k.here else None)
        if isinstance(v, Cols):
            if n in ('tolist', 'to_list', 'copy', 'unique', 'to_numpy'):
                return v
            if n in ('difference', 'intersection', 'union') and len(pos) == 1:
                b = self.cols(pos[0])
                return Cols([c for c in v.cols if (c in b) == (n == 'intersection')] if n != 'union' else v.cols + tuple(c for c in b if c not in v.cols))
            if n == 'isin' and len(pos) == 1:
                b = self.cols(pos[0])
                raise Unknown('a mask of columns')
        if isinstance(v, Idx):
            if n == 'intersection' and len(pos) == 1:
                w = self.ev(pos[0])
                if isinstance(w, Idx):
                    return Idx(v.here and w.here)
            if n == 'difference' and len(pos) == 1:
                w = self.ev(pos[0])
                if isinstance(w, Idx):
                    return Idx(v.here and not w.here)
            if n == 'isin' and len(pos) == 1:
                w = self.ev(pos[0])
                if isinstance(w, Idx):
                    return Mask((w.here if v.here else None), True)
        raise Unknown('.%s()' % n)


# ---------------------------------------------------------------------------------------------------------------- driving

def where(p, name):
    ci = p.need_class('Formatter')
    m = ci.methods.get(name)
    return '%s:%d' % (ci.module.rel, m.lineno) if m is not None else ci.module.rel


def recorded(name):
    def h(it, fv, ca, st, node):
        pos = ca.pos if name == 'TR' else ca.pos[1:]
        return Sc(mk('call', name, tuple(it.term(a, st) for a in pos), tuple(sorted((k, it.term(v, st)) for k, v in ca.kw.items()))), kind='df')
    return h


def normalised(it, fv, ca, st, node):
    x = recorded('NORM.x')(it, fv, ca, st, node)
    y = recorded('NORM.y')(it, fv, ca, st, node)
    return Tup([y, x])


def build(it, st, norm, augment):
    fc = it.prog.need_class('Formatter')
    f = it.construct(fc, Args([], {'augment': Sc(const(augment), kind='bool'), 'n_parallel': Sc(const(1), kind='int'), 'logger': it.symval('logger')}), st, 'fmt')
    names = lambda k: it.new_list(it._synth(('n', k)), st, [Sc(const('target'), kind='str')])
    for k in 'AB':
        it.invoke(f, 'add_transform', Args([], {'names': names(k), 'lags': it.symval('p:lags' + k, 'ndarray')}), st, 'a' + k)
    for k in 'CD':
        it.invoke(f, 'add_target_transform', Args([], {'names': names(k), 'lags': it.symval('p:lags' + k, 'ndarray')}), st, 'a' + k)
    if norm:
        for k, n in (('m', 'mean'), ('s', 'std')):
            it.invoke(f, 'add_target_normalizer', Args([], {'target': names(k), 'function': Sc(const(n)), 'name': Sc(const('norm_' + n)),
                                                            'agg_freq': it.symval('freq_' + n, 'str')}), st, 'n' + k)
        it.invoke(f, 'add_normalizing_fun', Args([], {'expr': it.symval('expr', 'str'), 'inv_expr': it.symval('inverse', 'str')}), st, 'f')
    roles, n = {}, {}
    for lst, what in (('transformers', 'features'), ('target_transformers', 'targets'), ('target_normalizers', 'normalizer')):
        v = it.getattr(f, lst, st, it._synth(('l', lst)))
        its = it.exact_iter(v, st)
        if its is None:
            raise AnalysisError('Formatter.%s is not a list' % lst)
        for i, tr in enumerate(its):
            roles[tr.oid] = '%s %d' % (what, i + 1)
        n[lst] = len(its)
    if n['transformers'] != 2 or n['target_transformers'] != 2:
        raise AnalysisError('two feature and two target transformers expected')
    names = {'norm_mean': 'normalizer 1', 'norm_std': 'normalizer 2'} if norm else {}
    return f, roles, names


def tables(it, fv, ca, st, node):
    return it.new_list(node, st, (), Sc(mk('elem', mk('sym', 'tables')), kind='df'), mk('sym', 'tables'))


def task_transform(t):
    _, norm, augment, glob, tfeat, holi = t
    p = c01.prog()
    rep = Report('C18')
    fc = p.need_class('Formatter')
    it = Interp(p)
    it.isolate = True
    it.opaque_handler.update({'Transformer.transform': recorded('TR'), 'Formatter.add_time_features': recorded('TIME'),
                              'Formatter.add_holidays': recorded('HOLIDAYS'), 'Formatter.normalize': normalised,
                              'Formatter.global_form_preprocess': tables})
    st = St(it)
    out = {}
    name = 'transform(%s)' % ', '.join(n for n, v in (('normalised', norm), ('augment=False', not augment), ('global_form', glob),
                                                      ('time_features=False', not tfeat), ('holidays', holi)) if v)

    def go():
        f, out['roles'], out['names'] = build(it, st, norm, augment)
        for mode, data in (('training', 'arg:x'), ('forecasting', 'arg:x2')):
            kw = {'return_target': Sc(const(mode == 'training'), kind='bool'), 'time_features': Sc(const(tfeat), kind='bool'),
                  'holidays': Sc(const(holi), kind='bool'), 'reduce_memory': Sc(const(False), kind='bool')}
            if glob:
                kw['global_form'] = Sc(const(True), kind='bool')
            if holi:
                kw['state_code'] = it.symval('arg:state_code', 'str')
            r = it.invoke(f, 'transform', Args([it.symval(data, 'df')], kw), st, mode)
            if isinstance(r, Tup):
                out[mode] = [it.term(v, st) for v in r.items]
            else:
                rt = it.term(r, st)
                out[mode] = [mk('idx', rt, const(0)), mk('idx', rt, const(1))]
    it.run(go, fc.module)
    rep.analysed |= {'Formatter.transform'} | {q for q in it.inlined if 'Formatter' in q}
    wh = where(p, '_transform' if '_transform' in fc.methods else 'transform')
    groups = [ORIG] + sorted(set(out['roles'].values()))
    feats = [g for g in groups if g.startswith(('features', 'normalizer'))]
    targs = [g for g in groups if g.startswith('targets')]
    bad, unk, n = {}, {}, 0
    shape = {}

    def fail(rule, mode, what):
        bad.setdefault((rule, mode), what)

    for bits in product((False, True), repeat=len(groups)):
        missing = {g for g, b in zip(groups, bits) if b}
        n += 1
        for mode in ('training', 'forecasting'):
            row = Row(out['roles'], out['names'], missing)
            x = y = None
            try:
                x = row.tab(out[mode][0])
            except Broken as e:
                fail(e.args[0], mode, e.args[1])
            except Unknown as e:
                unk.setdefault(('complete', mode), str(e))
            if mode == 'training':
                try:
                    y = row.tab(out[mode][1])
                except Broken as e:
                    fail(e.args[0], mode, e.args[1])
                except Unknown as e:
                    unk.setdefault(('paired', mode), str(e))
            need = feats + (targs if mode == 'training' else [])
            lack = [g for g in need if g in missing]
            if x is not None:
                shape.setdefault(mode, (x.cols, x.norm))
                if x.here and lack:
                    fail('complete', mode, 'a row is kept although its %s are missing' % describe(lack[0]))
                elif not x.here and not lack:
                    also = sorted(missing)
                    fail('complete', mode, 'a row without missing features%s is dropped%s' % (
                        ' and targets' if mode == 'training' else '', ' when the %s have a gap' % describe(also[0]) if also else ''))
            if y is not None:
                shape.setdefault('target', (y.cols, y.norm))
                if x is not None and x.here != y.here:
                    fail('paired', mode, 'a row is returned with its %s only (missing: %s)' % (
                        'features' if x.here else 'targets', ', '.join(describe(g) for g in sorted(missing)) or 'nothing'))
    for rule, mode in (('complete', 'training'), ('complete', 'forecasting'), ('paired', 'training'), ('history', 'training'), ('history', 'forecasting'),
                       ('features', 'training'), ('features', 'forecasting'), ('paired', 'forecasting')):
        key = '%s for %s' % (name, mode)
        if (rule, mode) in bad:
            rep.violated(rule, key, wh, bad[(rule, mode)])
        elif (rule, mode) in unk:
            rep.unknown(rule, key, wh, unk[(rule, mode)])
        elif rule in ('features',) or (rule, mode) == ('paired', 'forecasting'):
            pass
        elif rule == 'history' and ('complete', mode) in unk:
            rep.unknown(rule, key, wh, unk[('complete', mode)])
        else:
            rep.holds(rule, key, wh, '%d combinations of missing values' % n)
    key = name
    if 'training' in shape and 'forecasting' in shape:
        a, b = shape['training'], shape['forecasting']
        want = set(feats) | ({ORIG} if augment else set()) | ({'time'} if tfeat else set()) | ({'holidays'} if holi else set())
        w = None
        if a != b:
            gone, new = [c for c in a[0] if c not in b[0]], [c for c in b[0] if c not in a[0]]
            w = ('forecasting lacks the %s' % ', '.join(describe(g) for g in gone) if gone else
                 'forecasting is also given the %s' % ', '.join(describe(g) for g in new) if new else
                 'the features come in another order for forecasting' if a[0] != b[0] else
                 'the features are normalised for %s only' % ('training' if a[1] else 'forecasting'))
        elif set(a[0]) != want:
            gone, new = sorted(want - set(a[0])), sorted(set(a[0]) - want)
            w = 'the %s are %s' % (describe((gone or new)[0]), 'left out' if gone else 'returned as well')
        elif len(set(a[0])) != len(a[0]):
            w = 'some features are returned twice'
        elif a[1] != norm:
            w = 'the features related to the target are not normalised'
        if w:
            rep.violated('features', key, wh, w)
        else:
            rep.holds('features', key, wh, 'groups of columns: %s' % ', '.join(a[0]))
    else:
        rep.unknown('features', key, wh, '')
    if 'target' in shape:
        cols, nm = shape['target']
        if list(cols) != targs:
            rep.violated('targets', key, wh, 'the targets returned are those of %s' % (', '.join(cols) or 'nothing'))
        elif nm != norm:
            rep.violated('targets', key, wh, 'the targets are %s' % ('not normalised' if norm else 'normalised without a normalizer'))
        else:
            rep.holds('targets', key, wh, ', '.join(cols))
    else:
        rep.unknown('targets', key, wh, unk.get(('paired', 'training'), ''))
    return rep.export()


def describe(g):
    if g.startswith('features '):
        return 'features of transformer %s' % g[9:]
    if g.startswith('targets '):
        return 'targets of target transformer %s' % g[8:]
    if g.startswith('normalizer '):
        return 'values of normalizer %s' % g[11:]
    if g == ORIG:
        return 'original columns'
    return {'time': 'time features'}.get(g, g)


# ----------------------------------------------------------------------------------------------------------- time features

FIELDS = {'hour': 'hour', 'dayofweek': 'dayofweek', 'weekday': 'dayofweek', 'day_of_week': 'dayofweek', 'minute': 'minute', 'second': 'second',
          'day': 'day', 'month': 'month', 'year': 'year', 'dayofyear': 'dayofyear', 'day_of_year': 'dayofyear', 'quarter': 'quarter'}


def linear(t, src):
    """{quantity: factor}; None when it is not a sum of fields of the timestamps"""
    if t.op == 'const' and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
        return {1: t.args[0]}
    if t.op == 'attr' and t.args[1] in ('values', 'array'):
        return linear(t.args[0], src)
    if t.op == 'meth' and t.args[0] in ('to_numpy', 'astype', 'to_series', 'copy'):
        return linear(t.args[1], src)
    if t.op == 'call' and last(t.args[0]) in ('array', 'asarray', 'list', 'Series', 'float', 'int') and t.args[1]:
        return linear(t.args[1][0], src)
    if t.op == 'call' and last(t.args[0]) in ('zeros',):
        return {1: 0}
    if t.op == 'attr' and t.args[1] in FIELDS and stamp(t.args[0], src):
        return {FIELDS[t.args[1]]: 1}
    if t.op == 'meth' and t.args[0] in FIELDS and stamp(t.args[1], src):
        return {FIELDS[t.args[0]]: 1}
    if t.op == 'un' and t.args[0] == '-':
        a = linear(t.args[1], src)
        return None if a is None else {k: -v for k, v in a.items()}
    if t.op == 'bin':
        o = t.args[0]
        a, b = linear(t.args[1], src), linear(t.args[2], src)
        if a is None or b is None:
            return None
        if o in '+-':
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + (v if o == '+' else -v)
            return {k: v for k, v in r.items() if v}
        for u, v in ((a, b), (b, a)):
            if set(u) <= {1} and (o == '*' or o == '/' and u is b):
                f = u.get(1, 0)
                if o == '/' and not f:
                    return None
                return {k: z * f if o == '*' else z / f for k, z in v.items()}
        if o in ('//', '%') and set(b) <= {1}:
            return {(o, tuple(sorted((str(k), v) for k, v in a.items())), b.get(1)): 1}
        return None
    if t.op == 'meth' and t.args[0] == 'total_seconds':
        u = t.args[1]
        if u.op == 'meth' and u.args[0] == 'utcoffset' and stamp(u.args[1], src):
            return {'offset': 1}
        if u.op == 'meth' and u.args[0] == 'dst' and stamp(u.args[1], src):
            return {'dst': 1}
    if t.op == 'meth' and t.args[0] in ('apply', 'map') and t.args[2]:
        f = t.args[2][0]
        if f.op == 'applied':
            return linear(f.args[0], src)
    if t.op == 'listof' and not t.args[0]:
        return linear(t.args[1], src)
    return None


def stamp(t, src):
    """The timestamps of the rows (or the timestamp of a row)"""
    if t.op == 'attr' and t.args[1] == 'index':
        return t.args[0] in src
    if t.op == 'attr' and t.args[1] == 'name' and t.args[0].op == 'cbarg':
        return True
    if t.op == 'cbarg':
        return True
    if t.op == 'elem':
        return stamp(t.args[0], src)
    if t.op == 'call' and last(t.args[0]) in ('DatetimeIndex', 'to_datetime', 'Series') and t.args[1]:
        return stamp(t.args[1][0], src)
    if t.op == 'attr' and t.args[1] == 'dt':
        return stamp(t.args[0], src)
    if t.op == 'meth' and t.args[0] in ('to_series', 'copy'):
        return stamp(t.args[1], src)
    return False


SHOULD = {'hour': {'hour': 1}, 'dayofweek': {'dayofweek': 1}, 'minuteofday': {'hour': 60, 'minute': 1}, 'utc_offset': {'offset': 1 / 3600}}


def cases(t):
    """The alternatives of a term: [(conditions, term)]"""
    conds = []
    for u in tm.walk(t):
        if u.op == 'ite' and u.args[0] not in conds and len(conds) < 4:
            conds.append(u.args[0])
    for bits in product((True, False), repeat=len(conds)):
        env = dict(zip(conds, bits))
        memo = {}

        def go(u):
            if isinstance(u, tuple):
                return tuple(go(x) for x in u)
            if not isinstance(u, T):
                return u
            if u in memo:
                return memo[u]
            if u.op == 'ite' and u.args[0] in env:
                r = go(u.args[1] if env[u.args[0]] else u.args[2])
            else:
                r = mk(u.op, *[go(x) for x in u.args])
            memo[u] = r
            return r
        yield tuple(bits), go(t)


def written(t, src):
    """{name: term} of the columns added to the data; the list of their names in order.  None: not understood"""
    out = []

    def named(v):
        return v.args[0] if v.op == 'const' else None

    def go(u):
        if u in src:
            return True
        if u.op == 'call' and u.args[0] == 'pandas.concat' and u.args[1] and u.args[1][0].op in ('list', 'tuple'):
            ks = [go(x) for x in u.args[1][0].args[0]]
            return all(ks)
        if u.op == 'call' and u.args[0] == 'pandas.DataFrame':
            kw = dict(u.args[2])
            data = u.args[1][0] if u.args[1] else kw.get('data')
            if 'index' in kw and not (kw['index'].op == 'attr' and kw['index'].args[1] == 'index' and kw['index'].args[0] in src):
                return False
            if data is not None and data.op == 'dict':
                if any(z is not tm.NONE if isinstance(z, T) else z is not None for z in data.args[1:]) or not data.args[0]:
                    return False
                for kv in data.args[0]:
                    out.append((named(kv.args[0]), kv.args[1]))
                return True
            if data is None or 'columns' not in kw:
                return False
            names = kw['columns']
            if names.op not in ('list', 'tuple'):
                return False
            rows = None
            if data.op == 'attr' and data.args[1] == 'T':
                d = data.args[0]
                if d.op == 'call' and last(d.args[0]) in ('vstack', 'array', 'stack', 'asarray') and d.args[1]:
                    rows = d.args[1][0]
            elif data.op == 'call' and last(data.args[0]) in ('column_stack',) and data.args[1]:
                rows = data.args[1][0]
            elif data.op == 'call' and last(data.args[0]) in ('stack',) and dict(data.args[2]).get('axis') in (const(1), const(-1)):
                rows = data.args[1][0]
            if rows is None or rows.op not in ('list', 'tuple'):
                return False
            if len(rows.args[0]) != len(names.args[0]):
                raise Broken('time', '%d names for %d time features' % (len(names.args[0]), len(rows.args[0])))
            for nm, v in zip(names.args[0], rows.args[0]):
                out.append((named(nm), v))
            return True
        if u.op == 'meth' and u.args[0] == 'assign':
            if not go(u.args[1]):
                return False
            for k, v in u.args[3]:
                out.append((k, v))
            return True
        if u.op == 'meth' and u.args[0] in ('join', 'copy'):
            return go(u.args[1]) and all(go(x) for x in u.args[2])
        if u.op == 'upd' and len(u.args) == 3 and isinstance(u.args[1], T) and u.args[1].op == 'const':
            if not go(u.args[0]):
                return False
            out.append((named(u.args[1]), u.args[2]))
            return True
        return False
    return out if go(t) else None


def task_time(t):
    _, tz = t
    p = c01.prog()
    rep = Report('C18')
    fc = p.need_class('Formatter')
    it = Interp(p)
    it.isolate = True
    st = St(it)
    got = []

    def go():
        f, _, _ = build(it, st, False, True)
        if tz != 'first':
            st.set(('f', f.oid, 'timezone'), Sc(const(tz == 'local'), kind='bool'))
        r = it.invoke(f, 'add_time_features', Args([it.symval('arg:x', 'df')], {}), st, 'tf')
        got.append(mk('tuple', (it.term(r, st), it.term(it.getattr(f, 'timezone', st, it._synth('z')), st))))
    it.run(go, fc.module)
    rep.analysed.add('Formatter.add_time_features')
    wh = where(p, 'add_time_features')
    src = {sym('arg:x')}
    key0 = {'first': 'the first data set', 'local': 'after data with a time zone', 'naive': 'after data without time zone'}[tz]
    for bits, u in cases(got[0]):
        t, kept = u.args[0]
        key = '%s, case %s' % (key0, ''.join('y' if b else 'n' for b in bits) or '-')
        for z in tm.walk(t):
            if z.op == 'meth' and z.args[0] == 'copy' and z.args[1] in src:
                src = src | {z}
        try:
            cols = written(t, src)
        except Broken as e:
            rep.violated('time', key, wh, e.args[1])
            continue
        if cols is None:
            rep.unknown('time', key, wh, 'columns not understood')
            continue
        names = [n for n, _ in cols]
        state = kept.args[0] if kept.op == 'const' else None
        local = {'local': True, 'naive': False}.get(tz, state)
        if isinstance(local, bool):
            want = ['hour', 'dayofweek', 'minuteofday'] + (['utc_offset'] if local else [])
            if sorted(map(str, names)) != sorted(want):
                rep.violated('time', key + ': columns', wh, 'the columns are %s, those of the other data sets are %s' % (', '.join(map(str, names)), ', '.join(want)))
            else:
                rep.holds('time', key + ': columns', wh, ', '.join(want))
        else:
            rep.unknown('time', key + ': columns', wh, '')
        if tz != 'first' and state is not None and state != (tz == 'local'):
            rep.violated('time', key + ': kept', wh, 'the time features of the next data set follow the last one, not the first')
        for n, v in cols:
            k = '%s: %s' % (key, n)
            q = linear(v, src)
            if n not in SHOULD:
                continue
            if q is None:
                rep.unknown('time', k, wh, tm.show(v, 4)[:120])
            elif close(q, SHOULD[n]) or n == 'utc_offset' and not {k_ for k_, z in q.items() if z}:
                rep.holds('time', k, wh, tm.show(v, 4)[:120])
            else:
                rep.violated('time', k, wh, 'the column %s holds %s' % (n, ' + '.join('%s * %s' % (z, k_) for k_, z in q.items()) or '0'))
    return rep.export()


def close(a, b):
    return all(abs(a.get(k, 0) - b.get(k, 0)) < 1e-9 for k in set(a) | set(b))


# -------------------------------------------------------------------------------------------------------------- global form

def task_named(t):
    p = c01.prog()
    rep = Report('C18')
    fc = p.need_class('Formatter')
    it = Interp(p)
    it.isolate = True
    st = St(it)
    got = []

    def go():
        f, _, _ = build(it, st, False, True)
        r = it.invoke(f, 'global_form_preprocess', Args([it.symval('arg:x', 'df')], {}), st, 'gp')
        got.append(it.term(r, st))
    it.run(go, fc.module)
    rep.analysed.add('Formatter.global_form_preprocess')
    wh = where(p, 'global_form_preprocess')
    n = 0
    for u in [got[0]] if got[0].op == 'listof' else [v for v in tm.walk(got[0]) if v.op == 'listof' and v.args[1].op in ('call', 'meth', 'upd')]:
        if not any(z.op == 'const' and z.args[0] == 'name' for z in tm.walk(u.args[1])):
            continue
        n += 1
        key = 'signals, form %d' % n
        el = u.args[1]
        lab, val = None, None
        for z in tm.walk(el):
            if z.op == 'call' and z.args[0] == 'pandas.DataFrame' and z.args[1] and dict(z.args[2]).get('columns') is not None:
                cs = dict(z.args[2])['columns']
                if cs.op == 'list' and cs.args[0] == (const('name'),):
                    lab = z.args[1][0]
                if cs.op == 'list' and cs.args[0] == (const('target'),):
                    val = z.args[1][0]
            if z.op == 'meth' and z.args[0] == 'assign':
                d = dict(z.args[3])
                lab, val = d.get('name', lab), d.get('target', val)
            if z.op == 'meth' and z.args[0] == 'rename' and any(k.op == 'const' and k.args[0] == 'target' for k in tm.walk(z)):
                val = z.args[1]
            if z.op == 'meth' and z.args[0] in ('to_frame', 'rename') and z.args[2] == (const('target'),):
                val = z.args[1]
            if z.op == 'upd' and len(z.args) == 3 and z.args[1] is const('name'):
                lab = z.args[2]
        if lab is None or val is None:
            rep.unknown('named', key, wh, 'the name or the values are not understood')
            continue
        keys, z = set(), val
        while z is not None and not keys:
            if z.op == 'idx':
                if z.args[0] is sym('arg:x') or z.args[0].op == 'attr' and z.args[0].args[0] is sym('arg:x'):
                    keys = {z.args[1]}
                z = z.args[0]
            elif z.op == 'attr':
                z = z.args[0]
            elif z.op == 'meth':
                z = z.args[1]
            else:
                z = z.args[1][0] if z.op == 'call' and z.args[1] else None
        if lab in keys:
            rep.holds('named', key, wh, 'named %s' % tm.show(lab, 3)[:100])
        elif lab.op in ('elem', 'const', 'idx') and all(k.op in ('elem', 'const', 'idx') for k in keys) and keys and not (lab.op == 'idx' and lab.args[1].op == 'elem'):
            rep.violated('named', key, wh, 'the signal %s is named %s' % (tm.show(sorted(keys, key=str)[0], 3)[:80], tm.show(lab, 3)[:80]))
        else:
            rep.unknown('named', key, wh, tm.show(lab, 3)[:80])
    if not n:
        rep.unknown('named', 'signals', wh, 'the list of signals is not understood')
    return rep.export()


def tasks():
    out = []
    for norm, augment, glob in product((False, True), repeat=3):
        out.append(('transform', norm, not augment, glob, True, False))
    out += [('transform', False, True, False, False, False), ('transform', False, True, False, True, True), ('transform', True, False, True, False, True)]
    out += [('time', 'first'), ('time', 'local'), ('time', 'naive'), ('named',)]
    return out


def one(t):
    return {'transform': task_transform, 'time': task_time, 'named': task_named}[t[0]](t)


def run(rep):
    rep.rule('complete', 'a row is returned exactly when none of its generated features (for training: and targets) is missing')
    rep.rule('paired', 'features and targets are returned for the same rows')
    rep.rule('features', 'forecasting is given the features of the training, in their order')
    rep.rule('targets', 'the targets are those of the target transformers')
    rep.rule('history', 'the transformers see every row of the data')
    rep.rule('time', 'the time features are those of each row\'s own timestamp, and the same columns for every data set')
    rep.rule('named', 'in the global form a signal is named after the column its values come from')
    rep.assumptions += ['what a transformer computes is judged by C11 and C14, normalisation by C16, parallel execution by C17',
                        'boolean pandas masks are aligned on the labels of the rows']
    for r in pmap(one, tasks()):
        rep.merge(r)
