"""C13: what is learned comes from the training rows, the errors from the validation rows."""
from __future__ import annotations
import ast
from ..loader import AnalysisError
from ..interp import Interp, St, Args
from ..values import Sc, Inst
from ..terms import const, mk
from .. import algebra, drive, entries, extlib, terms as tm
from ..par import pmap
from ..report import Report
from . import c01, c17

MINIMUM = 20
NOROWS_A = {'columns', 'shape', 'dtypes', 'size', 'ndim', 'name', 'names', 'dtype', 'T_'}
ENCODERS = ('LabelEncoder', 'OrdinalEncoder', 'OneHotEncoder')
PICK_M = {'sample', 'reindex', 'head', 'tail', 'drop', 'dropna', 'truncate', 'between_time', 'at_time', 'first', 'last', 'query', 'filter', 'take', 'drop_duplicates', 'nlargest',
          'nsmallest', 'get_group', 'split', 'xs'}
PICK_C = {'train_test_split', 'resample', 'shuffle', 'split', 'array_split', 'take', 'choice', 'compress', 'delete', 'extract', 'align'}


class Rows:
    """Which rows of the data given to fit a term is made of: 'all', ('first', k), ('rest', k), '?'"""

    def __init__(self, names=('arg:x', 'arg:y')):
        self.names, self.memo, self.via = set(names), {}, {}

    def cut(self, sub, key):
        """rows of a selection by position"""
        if 'all' not in sub:
            return sub
        rest = sub - {'all'}
        part = key.args[0][0] if key.op == 'tuple' and key.args[0] else key
        while part.op == 'idx' and part.args[1].op == 'slice' and numbered(part.args[0]):
            part = part.args[1]         # a slice of the row numbers
        if part.op == 'slice' and part.args[2] in (const(None), const(1)):
            lo, hi = part.args[0], part.args[1]
            if lo in (const(None), const(0)) and hi == const(None):
                return sub
            if lo in (const(None), const(0)):
                return rest | {('first', hi)}
            if hi == const(None) or hi.op == 'const' and isinstance(hi.args[0], int) and hi.args[0] < 0:
                return rest | {('rest', lo)}
        if part.op == 'range' and part.args[2] == const(1) and part.args[0] == const(0):
            return rest | {('first', part.args[1])}
        if part.op == 'range' and part.args[2] == const(1) and is_count(part.args[1]):
            return rest | {('rest', part.args[0])}
        return rest | {'?'}

    def of(self, u):
        if isinstance(u, tuple):
            out = frozenset()
            for x in u:
                out |= self.of(x)
            return out
        if not isinstance(u, tm.T):
            return frozenset()
        r = self.memo.get(u)
        if r is None:
            self.memo[u] = frozenset()
            r = self.memo[u] = frozenset(self.rows(u))
        return r

    def rows(self, u):
        if u.op == 'sym':
            return {'all'} if u.args[0] in self.names else set()
        if u.op == 'attr' and u.args[1] in NOROWS_A or u.op == 'len':
            return set()
        if u.op == 'call' and isinstance(u.args[0], str) and c17.base(u.args[0]) in ENCODERS:
            return set()
        if u.op == 'fitted' or u.op == 'meth' and u.args[0] in ('fit_transform', 'fit'):
            if any(c.op == 'call' and c17.base(str(c.args[0])) in ENCODERS for c in tm.children(u)):
                return set()
        if u.op == 'idx':
            x, key = u.args
            sub = self.of(x)
            more = self.of(key)
            if not sub:
                return more
            loc = x.op == 'attr' and x.args[1] in ('iloc', 'loc')
            if loc and x.args[1] == 'loc' or not loc and not (key.op in ('slice', 'range') or key.op == 'tuple'):
                if loc or key.op not in ('const', 'sym', 'elem', 'list', 'attr'):
                    return frozenset('?' if v == 'all' else v for v in sub) | (more - {'all'})
                return sub
            return self.cut(sub, key) | (more - {'all'})
        if u.op == 'meth' and u.args[0] in ('head', 'tail') and isinstance(u.args[2], tuple) and len(u.args[2]) == 1:
            sub, n = self.of(u.args[1]), u.args[2][0]
            if 'all' in sub:
                return (sub - {'all'}) | {('first', n) if u.args[0] == 'head' else ('rest', mk('bin', '-', mk('idx', mk('attr', u.args[1], 'shape'), const(0)), n))}
        if u.op == 'meth' and u.args[0] in PICK_M or u.op == 'call' and c17.base(str(u.args[0])) in PICK_C:
            return frozenset('?' if v == 'all' else v for c in tm.children(u) for v in self.of(c))
        out = frozenset()
        # which of two things learned is kept (early stopping on the validation loss) is a decision, not learning
        for a in u.args[1:] if u.op == 'ite' else u.args:
            out |= self.of(a)
        return out


def is_count(t):
    return t.op == 'len' or t.op == 'idx' and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape' and t.args[1] == const(0)


def numbered(t):
    """The numbers of all the rows"""
    if t.op == 'range':
        return t.args[0] == const(0) and t.args[2] == const(1) and is_count(t.args[1])
    return t.op == 'call' and c17.base(str(t.args[0])) == 'arange' and isinstance(t.args[1], tuple) and len(t.args[1]) == 1 and is_count(t.args[1][0])


def show(r):
    if isinstance(r, tuple):
        return ('the rows before %s' if r[0] == 'first' else 'the rows from %s on') % tm.show(r[1], 4)
    return {'all': 'all the rows', '?': 'some rows'}[r]


def whence(rows, t, bad):
    """The innermost operation that brings a set of rows in"""
    u = t
    while True:
        for c in u.args[1:] if u.op == 'ite' else tm.children(u):
            if bad in rows.of(c):
                if c.op == 'sym' or not any(bad in rows.of(z) for z in tm.children(c)):
                    return u
                u = c
                break
        else:
            return u


def task(t):
    _, cname, cfg, split = t
    p = c01.prog()
    rep = Report('C13')
    ci = [c for c in drive.forecasters(p) if c.name == cname][0]
    it = Interp(p)
    cap = []

    def calibrate(it, fv, ca, st, node):
        b = it.bind(fv, ca, st, node, 'fit')
        names = [a.arg for a in fv.node.args.args]
        cap.append((it.term(b[names[1]], st), it.term(b[names[2]], st), it.where(node) if hasattr(it, 'where') else ''))
        return ca.pos[0]
    it.opaque_handler['ScenarioGenerator.fit'] = calibrate
    extra = {'val_ratio': Sc(const(None))} if not split else None
    run = drive.drive(p, ci, cfg, ops=('fit', 'predict'), it=it,
                      extra=(lambda it, st: {'val_ratio': it.symval('p:val_ratio', 'float', nonnull=True)}) if split else (lambda it, st: extra))
    if run.error:
        raise AnalysisError('%s: %s' % (run.label, run.error))
    r, s = run.result('predict')
    lab = run.label.replace('val_ratio', '') + (' with val_ratio' if split else ' without val_ratio')
    m = p.find_method(ci, 'fit')
    wh = '%s:%d' % (m[0].module.rel, m[1].lineno)
    rep.analysed.add('%s.fit' % cname)
    R = Rows()
    pred = it.term(r, s)
    learned = R.of(pred)
    if not cap:
        return rep.export()
    if not split:
        for i, (cx, cy, _) in enumerate(cap):
            for n, v in (('x', cx), ('y', cy)):
                rs = R.of(v)
                if rs == {'all'}:
                    rep.holds('all-rows', '%s: calibration %s' % (lab, n), wh, 'all the rows')
                elif any(isinstance(q, tuple) for q in rs) and cname not in TRIMMED:
                    rep.violated('all-rows', '%s: calibration %s' % (lab, n), wh, 'the errors only come from %s' % ', '.join(show(q) for q in rs))
        cuts = [q for q in learned if isinstance(q, tuple)]
        if 'all' in learned:
            rep.holds('all-rows', '%s: learning' % lab, wh, 'all the rows')
        elif cuts and cname not in TRIMMED:
            rep.violated('all-rows', '%s: learning' % lab, wh, 'the model only learns from %s' % ', '.join(show(q) for q in cuts))
        return rep.export()
    val, tr = set(), set()
    for cx, cy, _ in cap:
        for n, v in (('x', cx), ('y', cy)):
            key = '%s: errors, %s' % (lab, n)
            rs = R.of(v)
            bad = [q for q in rs if q == 'all' or isinstance(q, tuple) and q[0] == 'first']
            if bad:
                rep.violated('errors', key, wh, 'the errors are taken on %s, not on the validation rows' % show(bad[0]))
            elif '?' in rs or not rs:
                rep.unknown('errors', key, wh, 'rows not decided')
            else:
                rep.holds('errors', key, wh, ', '.join(show(q) for q in rs))
            val |= {q[1] for q in rs if isinstance(q, tuple) and q[0] == 'rest'}
    key = '%s: learning' % lab
    bad = [q for q in learned if q == 'all' or isinstance(q, tuple) and q[0] == 'rest']
    if bad:
        w = whence(R, pred, bad[0])
        rep.violated('learning', key, wh, 'what predict uses was learned from %s: %s' % (show(bad[0]), tm.show(w, 4)[:150]))
    elif '?' in learned:
        rep.unknown('learning', key, wh, 'rows not decided: %s' % tm.show(whence(R, pred, '?'), 4)[:150])
    elif learned:
        rep.holds('learning', key, wh, ', '.join(show(q) for q in learned))
    tr = {q[1] for q in learned if isinstance(q, tuple) and q[0] == 'first'}
    cuts = sorted(tr | val, key=lambda c: c.uid)
    for a in sorted(tr, key=lambda c: c.uid):
        for b in sorted(val, key=lambda c: c.uid):
            d = c17.constant(mk('bin', '-', clear(b), clear(a)))
            k = '%s: cut' % lab
            if d == 0:
                rep.holds('apart', k, wh, 'the errors start where learning stops')
            elif d is not None and d < 0:
                rep.violated('apart', k, wh, '%d rows both teach the model and measure its errors' % -d)
            elif d is not None:
                rep.violated('apart', k, wh, '%d rows are used for neither' % d)
            else:
                rep.unknown('apart', k, wh, '%s against %s' % (tm.show(a, 4), tm.show(b, 4)))
    for c in cuts:
        share(rep, '%s: size' % lab, c, wh)
    pairs(rep, lab, R, pred, wh)
    for cx, cy, _ in cap:
        together(rep, '%s: errors' % lab, R, cx, cy, wh)
    return rep.export()


def clear(t):
    """A number of rows without the guard against falling below zero"""
    if t.op == 'call' and c17.base(str(t.args[0])) in ('max', 'maximum') and isinstance(t.args[1], tuple) and len(t.args[1]) == 2 and const(0) in t.args[1]:
        return clear([a for a in t.args[1] if a != const(0)][0]) if t.args[1] != (const(0), const(0)) else const(0)
    return t


def share(rep, key, cut, wh):
    """The cut leaves the share val_ratio of the rows for the errors"""
    ratio = [u for u in tm.walk(cut) if u.op == 'sym' and u.args[0] == 'p:val_ratio']
    if not ratio:
        rep.unknown('share', key, wh, 'the cut %s does not depend on val_ratio' % tm.show(cut, 4))
        return
    v = ratio[0]
    lo, hi = at(cut, v, 0), at(cut, v, 1)
    if lo is None or hi is None:
        rep.unknown('share', key, wh, tm.show(cut, 5))
        return
    if not hi.d:
        rep.holds('share', key, wh, 'val_ratio of the rows are kept for the errors')
    elif not lo.d:
        rep.violated('share', key, wh, 'the model learns from the share val_ratio and the rest measures the errors: %s' % tm.show(cut, 4))
    else:
        rep.unknown('share', key, wh, tm.show(cut, 5))


def at(cut, v, value):
    """The cut for an extreme val_ratio (0: no validation rows, 1: all of them), roundings of whole numbers dropped"""
    def go(u):
        if u is v or u == v:
            return const(value)
        if not isinstance(u, tm.T):
            return tuple(go(x) for x in u) if isinstance(u, tuple) else u
        w = mk(u.op, *[go(x) if isinstance(x, (tm.T, tuple)) else x for x in u.args])
        if w.op == 'call' and c17.base(str(w.args[0])) in ('int', 'round', 'floor', 'ceil', 'rint') and w.args[1]:
            return w.args[1][0]
        if w.op == 'meth' and w.args[0] == 'astype':
            return w.args[1]
        return w
    return c17.poly(go(cut))


def together(rep, key, R, x, y, wh):
    a, b = R.of(x), R.of(y)
    if not a or not b or '?' in a | b:
        return
    if a == b:
        rep.holds('together', key, wh, 'features and targets of the same rows')
        return
    if len(a) == len(b) == 1:
        (q,), (w,) = a, b
        if isinstance(q, tuple) and isinstance(w, tuple) and q[0] == w[0]:
            d = c17.constant(mk('bin', '-', clear(q[1]), clear(w[1])))
            if d == 0:
                rep.holds('together', key, wh, 'features and targets of the same rows')
                return
            if d is None:
                rep.unknown('together', key, wh, '%s, %s' % (show(q), show(w)))
                return
        rep.violated('together', key, wh, 'the features are those of %s, the targets those of %s' % (show(q), show(w)))


def pairs(rep, lab, R, t, wh):
    n = 0
    for u in tm.walk(t):
        xy = None
        if u.op == 'fitted' and isinstance(u.args[1], tuple) and len(u.args[1]) >= 2:
            xy = u.args[1][:2]
        elif u.op == 'call' and c17.base(str(u.args[0])) in ('Dataset', 'DMatrix', 'Pool') and isinstance(u.args[1], tuple):
            kw = dict(u.args[2])
            y = u.args[1][1] if len(u.args[1]) > 1 else kw.get('label')
            xy = (u.args[1][0], y) if y is not None and u.args[1] else None
        if xy:
            together(rep, '%s: learner %s' % (lab, tm.show(u.args[0], 1)[:40] if isinstance(u.args[0], tm.T) else c17.base(str(u.args[0]))), R, xy[0], xy[1], wh)
            n += 1


# forecasters that give up rows at the end of the data: their targets are the values that follow
TRIMMED = {'Persistent', 'SeasonalPersistent'}


def tasks(p):
    out = []
    for ci in drive.forecasters(p):
        if not any(n == 'val_ratio' for n, _ in drive.ctor_params(p, ci)):
            continue
        for cfg in drive.configs(ci, p):
            if cfg.get('conditional_to_hour') or any(k in cfg for k in ('online_tree_reduction', 'parallel_preds', 'tree_type')):
                continue
            out += [('t', ci.name, dict(cfg), s) for s in (True, False)]
    return out


def run(rep):
    rep.rule('learning', 'with val_ratio, what predict uses was learned from the training rows alone')
    rep.rule('errors', 'with val_ratio, the errors are taken on the validation rows alone')
    rep.rule('apart', 'the validation rows start where the training rows stop')
    rep.rule('share', 'val_ratio is the share of the validation rows')
    rep.rule('together', 'features and targets are those of the same rows')
    rep.rule('all-rows', 'without val_ratio the model learns from all the rows and the errors are taken on all the rows')
    rep.assumptions += ['encoding categories as numbers may look at all the rows', 'training uses the arrays it is given and nothing else']
    for r in pmap(task, tasks(c01.prog())):
        rep.merge(r)
