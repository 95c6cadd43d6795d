"""C08: quantile forecasts are the point forecast plus the quantiles of the past errors of the same hour.

The quantile tensor of every forecaster is analysed as a symbolic term: its additive atoms, each with its sign and the
quantile operator and row masks it stands under.  The error distribution must be the quantiles, at the levels of the model,
of truth minus forecast; the rows selected by an hour must get the errors recorded under the same hour.
"""
from __future__ import annotations
from ..loader import Program
from .. import drive, terms as tm
from ..terms import T
from ..values import Sc, Dct, Phi
from ..par import pmap
from ..report import Report
from ..axes import kw, base, intval, UNK
from ..shapes import axes, canon, compare, show_dims, linear

MINIMUM = 25
THROUGH = {'expand_dims', 'array', 'asarray', 'squeeze', 'atleast_2d', 'atleast_1d', 'DataFrame', 'transpose', 'swapaxes',
           'reshape', 'copy', 'deepcopy', 'float32', 'Series', 'broadcast_to', 'ascontiguousarray', 'moveaxis', 'tile', 'repeat'}
METH_THROUGH = {'copy', 'reshape', 'ravel', 'to_numpy', 'swapaxes', 'transpose', 'squeeze', 'astype', 'flatten', 'repeat'}
STRUCT = THROUGH | {'hstack', 'vstack', 'dstack', 'concatenate', 'arange', 'unique', 'len', 'ones', 'zeros', 'column_stack'}
HOURS = {'hour'}

_P = None


def is_ones(t):
    if t.op == 'const':
        return isinstance(t.args[0], (int, float)) and t.args[0] > 0
    return t.op == 'call' and base(t.args[0]) in ('ones', 'ones_like')


class Atoms:
    """Additive atoms of a term: (sign, quantile levels or None, leaf, masks)."""

    def __init__(self, limit=4000):
        self.out = set()
        self.seen = set()
        self.limit = limit
        self.hour_reads = set()

    def add(self, t, sign=1, q=None, masks=()):
        key = (t, sign, q, masks)
        if key in self.seen or len(self.seen) > self.limit:
            return
        self.seen.add(key)
        o = t.op
        go = lambda u, s=1: self.add(u, sign * s, q, masks)
        if o == 'bin' and t.args[0] in ('+', '-'):
            go(t.args[1])
            go(t.args[2], 1 if t.args[0] == '+' else -1)
        elif o == 'bin' and t.args[0] == '*' and is_ones(t.args[2]):
            go(t.args[1])
        elif o == 'bin' and t.args[0] == '*' and is_ones(t.args[1]):
            go(t.args[2])
        elif o == 'un' and t.args[0] == '-':
            go(t.args[1], -1)
        elif o == 'un':
            go(t.args[1])
        elif o in ('ite',):
            for u in t.args[1:]:
                go(u)
        elif o == 'phi':
            for u in t.args[0]:
                go(u)
        elif o == 'loop':
            al = [u for u in t.args[1] if isinstance(u, T)]
            # the two unrolled iterations say the same thing
            go(al[0]) if al and all(u.op == 'upd' for u in al) else [go(u) for u in al]
        elif o == 'upd':
            self.add(t.args[2], sign, q, masks + tuple(mask_of(t.args[1])))
            if not any(mask_of(t.args[1])):
                self.add(t.args[0], sign, q, masks)
        elif o == 'attr' and t.args[1] in ('values', 'T', 'iloc', 'loc'):
            go(t.args[0])
        elif o == 'idx':
            b, k = t.args
            ms = tuple(mask_of(k))
            while b.op == 'upd':
                b = b.args[0]
            for m in (k.args[0] if k.op == 'tuple' else (k,)):
                if hour_term(m):
                    self.hour_reads.add((b, m))
            self.add(b, sign, q, masks + ms)
        elif o == 'call' and base(t.args[0]) in ('quantile', 'nanquantile') and t.args[0].startswith('numpy') and t.args[1]:
            self.add(t.args[1][0], sign, kw(t, 'q', 1), masks)
        elif o == 'call' and base(t.args[0]) in THROUGH and (t.args[1] or kw(t, 'data') is not None):
            go(kw(t, 'data', 0) if kw(t, 'data', 0) is not None else t.args[1][0])
        elif o == 'meth' and t.args[0] == 'quantile' and (t.args[2] or t.args[3]):
            self.add(t.args[1], sign, kw(t, 'q', 0), masks)
        elif o == 'meth' and t.args[0] in ('sub', 'subtract') and t.args[2]:
            go(t.args[1])
            go(t.args[2][0], -1)
        elif o == 'meth' and t.args[0] == 'add' and t.args[2]:
            go(t.args[1])
            go(t.args[2][0])
        elif o == 'call' and base(t.args[0]) in ('subtract', 'add') and len(t.args[1]) == 2:
            go(t.args[1][0])
            go(t.args[1][1], -1 if base(t.args[0]) == 'subtract' else 1)
        elif o == 'meth' and t.args[0] in METH_THROUGH:
            go(t.args[1])
        else:
            self.out.add((sign, q, t, masks))


def mask_of(k):
    """Row masks in an index key."""
    for m in (k.args[0] if k.op == 'tuple' else (k,)):
        if m.op == 'cmp':
            yield m


def hour_mask(m):
    """(rows, operator, hour, component) of a mask comparing the hour of the rows."""
    if m.op != 'cmp':
        return None
    c = shifted(m)
    if c is not None:
        return c
    for a, b in ((m.args[1], m.args[2]), (m.args[2], m.args[1])):
        c = component(a)
        if c is not None:
            return c[0], m.args[0], b, c[1]
    return None


def shifted(m):
    """Masks that compare a function of the hour of the rows with h."""
    a, b = m.args[1], m.args[2]
    for u, v in ((a, b), (b, a)):
        tol = False
        w = u
        if w.op == 'call' and base(w.args[0]) in ('abs', 'absolute') and w.args[1]:
            w, tol = w.args[1][0], True
        if w.op == 'bin' and w.args[0] == '%':
            w = w.args[1]
        if w.op != 'bin':
            continue
        l = linear(w)
        if l is None:
            continue
        comps = [(k, c) for k, c in l.items() if k is not None and component(k) is not None]
        if len(comps) != 1 or abs(comps[0][1]) != 1:
            continue
        k, c = comps[0]
        rest = {x: y * c for x, y in l.items() if x is not k}
        if v.op != 'const':
            r2 = linear(v)
            for x, y in r2.items():
                rest[x] = rest.get(x, 0) - c * y
        elif isinstance(v.args[0], int) and m.args[0] in ('==', '!='):
            rest[None] = rest.get(None, 0) - c * v.args[0]
        hs = [(x, y) for x, y in rest.items() if x is not None and y]
        off = rest.get(None, 0)
        if len(hs) == 1 and hs[0][1] == -1:
            rows, comp = component(k)
            h = hs[0][0] if not off else tm.mk('bin', '-', hs[0][0], tm.const(off))
            if tol and m.args[0] != '==':
                return rows, m.args[0], h, comp
            return rows, m.args[0], h, comp
    return None


def component(t):
    if t.op == 'attr' and t.args[1] in ('hour', 'minute', 'dayofweek', 'weekday', 'day', 'month', 'second', 'dayofyear', 'week'):
        return t.args[0], t.args[1]
    if t.op == 'meth' and t.args[0] in ('to_numpy', 'copy'):
        return component(t.args[1])
    if t.op == 'attr' and t.args[1] == 'values':
        return component(t.args[0])
    return None


def hour_term(t):
    """A scalar hour: an element of (the unique) hours of some rows, or a loop over the hours of the day."""
    if t.op == 'elem':
        return any(component(u) is not None for u in tm.walk(t.args[0])) or t.args[0].op == 'range'
    return False


def data_leaf(t):
    for u in tm.walk(t):
        if u.op == 'call' and base(u.args[0]) not in STRUCT:
            return False
        if u.op == 'meth' and u.args[0] not in METH_THROUGH:
            return False
        if u.op in ('fitted', 'apply', 'opaque', 'loop', 'upd', 'cmp'):
            return False
    return True


def true_data(t):
    """The observed targets themselves (no forecast in it)."""
    return data_leaf(t) and any(u.op == 'sym' and u.args[0] == 'arg:y' for u in tm.walk(t))


def forecast(t):
    return any(u.op in ('fitted', 'apply') or (u.op == 'meth' and u.args[0] in ('predict', 'apply')) or
               (u.op == 'call' and base(u.args[0]) in ('train', 'hankel')) for u in tm.walk(t)) or not data_leaf(t)


def variants(p, ci):
    out = []
    for c in drive.configs(ci, p):
        out.append(dict(c))
        if 'conditional_to_hour' not in c and takes(p, ci, 'conditional_to_hour'):
            out.append(dict(c, conditional_to_hour=False))
    return out


def ci_on_y(p, ci):
    """Fitted on given targets (not on lags of its own series)."""
    m = p.find_method(ci, 'fit')
    a = m[1].args
    ps = [x.arg for x in a.args]
    return len(ps) >= 3 and len(a.defaults) < len(ps) - 2 and ci.name not in ('LSTM_Forecaster',)


def takes(p, ci, name):
    for c in p.mro(ci):
        m = c.methods.get('__init__')
        if m is None:
            continue
        if any(a.arg == name for a in m.args.args + m.args.kwonlyargs):
            return True
        if m.args.kwarg is None:
            return False
    return False


def qterm(it, st):
    return {'q_vect': it.symval('p:q_vect', 'ndarray')}


def one(t):
    global _P
    if _P is None:
        _P = Program()
    p = _P
    cname, i = t
    ci = p.classes[cname]
    cfg = variants(p, ci)[i]
    rep = Report('C08')
    ex = qterm if takes(p, ci, 'q_vect') else None
    run = drive.drive(p, ci, cfg, ops=('fit', 'predict', 'predict_quantiles_np'), extra=ex)
    it = run.it
    r, s = run.result('predict_quantiles_np')
    f, sf = run.result('fit')
    if run.obj is None or sf is None:
        return rep.export()
    err = it.fields(run.obj, sf).get('err_distr')
    where = method_where(p, ci, 'fit')
    key = run.label
    # ---- the error distribution itself
    stars = []
    if isinstance(err, Dct):
        dc = sf.dc(err.oid)
        stars = [(v, None) for _, v in dc.items] + ([(dc.star, dc.starkey)] if dc.star is not None else [])
    elif err is not None:
        stars = [(err, None)]
    steps = None
    if ci_on_y(p, ci):
        steps = tm.mk('dim', tm.sym('arg:y'), 1)
    else:
        pr, ps = run.result('predict')
        ds = axes().dims(it.term(pr, ps)) if pr is not None and not isinstance(pr, Phi) else UNK
        ds = {tuple(map(canon, d)) for d in ds if d is not None and len(d) == 2} if None not in ds else set()
        steps = next(iter(ds))[1] if len(ds) == 1 else None
    want = (steps, tm.mk('dim', tm.sym('p:q_vect'), 0)) if ex else None
    used = r is not None and uses_errors(it, r, s, stars, sf)
    for v, k in stars:
        if v is None:
            continue
        at = Atoms()
        at.add(it.term(v, sf))
        orientation(rep, key, where, at, inner=True)
        levels(rep, key, where, at)
        if want is not None and steps is not None:
            for branch in tm.alternatives(it.term(v, sf)):
                vd, bad = compare(axes().dims(branch), want)
                rep.add('error-axes', '%s: axes of the error distribution' % key, vd, where, '' if vd != 'violated' else
                        'the error distribution has axes %s instead of (steps, quantiles)' % show_dims(bad))
        if isinstance(k, Sc):
            own_hour(rep, key, where, at, k.term)
    # ---- what is added to the forecast
    if r is not None and used:
        w2 = method_where(p, ci, '_predict_quantiles') or method_where(p, ci, 'predict_quantiles')
        at = Atoms()
        for x in (r.alts if isinstance(r, Phi) else [(None, r)]):
            at.add(it.term(x[1], s))
        orientation(rep, key, w2, at, inner=False)
        binding(rep, key, w2, at, isinstance(err, Dct))
    for fn in it.inlined:
        rep.analysed.add(str(fn))
    return rep.export()


def method_where(p, ci, name):
    m = p.find_method(ci, name)
    return '%s:%d %s.%s' % (m[0].module.rel, m[1].lineno, m[0].name, name) if m else ''


def uses_errors(it, r, s, stars, sf):
    t = it.term(r, s)
    return any(u.op in ('call', 'meth') and (base(u.args[0]) in ('quantile', 'nanquantile')) for u in tm.walk(t))


def orientation(rep, key, where, at, inner):
    """Truth minus forecast under the quantile operator; a forecast added to it outside."""
    ins = [(s, l) for s, q, l, m in at.out if q is not None]
    outs = [(s, l) for s, q, l, m in at.out if q is None]
    k = '%s: error = truth - forecast' % key
    if inner:
        truth = {s for s, l in ins if true_data(l)}
        fc = {s for s, l in ins if not true_data(l) and not data_leaf(l)}
        if -1 in truth and 1 not in truth:
            rep.violated('error-orientation', k, where, 'the error distribution is that of forecast minus truth')
        elif truth and fc and fc == truth:
            rep.violated('error-orientation', k, where, 'truth and forecast enter the error with the same sign')
        elif truth == {1} and fc == {-1}:
            rep.holds('error-orientation', k, where)
        else:
            rep.unknown('error-orientation', k, where, 'signs of truth %s, of the forecast %s' % (sorted(truth), sorted(fc)))
        return
    k = '%s: quantile = forecast + error' % key
    fo = {s for s, l in outs if not data_leaf(l)}
    truth = {s for s, l in ins if true_data(l)}
    if truth == {-1} or fo == {-1}:
        rep.violated('error-orientation', k, where, 'the errors are subtracted from the forecast')
    elif truth == {1} and (fo == {1} or not fo):
        rep.holds('error-orientation', k, where)
    elif not truth and ins and (fo == {1}):
        # online models: truth is taken from the inputs; the forecast inside must have the opposite sign of the one outside
        si = {s for s, l in ins if not data_leaf(l)}
        if si == {-1}:
            rep.holds('error-orientation', k, where)
        elif si == {1}:
            rep.violated('error-orientation', k, where, 'the forecast enters its own error with a positive sign')
        else:
            rep.unknown('error-orientation', k, where, 'sign of the forecast in the error not resolved')
    else:
        rep.unknown('error-orientation', k, where, 'atoms not resolved')


def levels(rep, key, where, at):
    """The quantile levels are the model's."""
    for s, q, l, m in at.out:
        if q is None:
            continue
        k = '%s: levels of the error quantiles' % key
        core = q
        while core.op in ('call', 'meth') and base(core.args[0]) in ('array', 'asarray', 'list', 'copy', 'tolist'):
            core = core.args[1][0] if core.op == 'call' else core.args[1]
        if core.op == 'sym' and core.args[0] == 'p:q_vect':
            rep.holds('error-levels', k, where)
        elif core.op in ('bin', 'un', 'idx') and any(u.op == 'sym' and u.args[0] == 'p:q_vect' for u in tm.walk(core)):
            rep.violated('error-levels', k, where, 'the errors are evaluated at %s instead of the levels q_vect' % tm.show(core, 4))
        elif core.op == 'call' and base(core.args[0]) in ('sort', 'flip', 'sorted', 'unique'):
            rep.unknown('error-levels', k, where, 'levels %s' % tm.show(core, 4))
        else:
            rep.unknown('error-levels', k, where, 'levels %s' % tm.show(core, 4))


def own_hour(rep, key, where, at, hk):
    """err_distr[h] is made of the rows whose hour is h."""
    for s, q, l, ms in at.out:
        for m in ms:
            hm = hour_mask(m)
            if hm is None:
                continue
            rows, op, h, comp = hm
            k = '%s: errors stored under their hour' % key
            if comp != 'hour':
                rep.violated('hour-binding', k, where, 'errors are selected by %s but stored by hour' % comp)
            elif op != '==':
                rep.violated('hour-binding', k, where, 'the errors stored under an hour are those whose hour is %s it' % op)
            elif h is hk:
                rep.holds('hour-binding', k, where)
            elif h.op in ('bin', 'const') or (h.op == 'elem' and h.args[0].op == 'range' and hk.op == 'elem'):
                rep.violated('hour-binding', k, where, 'errors of hour %s are stored under hour %s' % (tm.show(h, 4), tm.show(hk, 4)))
            else:
                rep.unknown('hour-binding', k, where, 'selected by %s, stored under %s' % (tm.show(h, 4), tm.show(hk, 4)))


def binding(rep, key, where, at, per_hour):
    """Rows of hour h get the errors of hour h; an unconditional distribution is not indexed by an hour."""
    n = 0
    for s, q, l, ms in at.out:
        if q is None:
            continue
        outer = [hm for hm in map(hour_mask, ms) if hm and any(u.op == 'sym' and u.args[0] == 'arg:x_te' for u in tm.walk(hm[0]))]
        inner = [hm for hm in map(hour_mask, ms) if hm and hm not in outer]
        k = '%s: rows of an hour get its errors' % key
        for o in outer:
            for i in inner:
                n += 1
                if o[3] != 'hour':
                    rep.violated('hour-binding', k, where, 'rows are selected by %s, errors by hour' % o[3])
                elif o[1] != '==':
                    rep.violated('hour-binding', k, where, 'rows whose hour is %s h get the errors of h' % o[1])
                elif o[2] is i[2]:
                    rep.holds('hour-binding', k, where)
                elif related(o[2], i[2]):
                    rep.violated('hour-binding', k, where, 'rows of hour %s get the errors of hour %s'
                                 % (tm.show(o[2], 4), tm.show(i[2], 4)))
                else:
                    rep.unknown('hour-binding', k, where, 'rows of hour %s, errors of %s' % (tm.show(o[2], 4), tm.show(i[2], 4)))
        if inner and not outer:
            n += 1
            hs = {i[2] for i in inner}
            if all(h.op == 'const' for h in hs):
                rep.violated('hour-binding', k, where, 'every row gets the errors of hour %s' % ', '.join(tm.show(h) for h in hs))
            else:
                rep.unknown('hour-binding', k, where, 'rows not selected by hour')
    for b, m in at.hour_reads:
        if any(u.op in ('call', 'meth') and base(u.args[0]) in ('quantile', 'nanquantile') for u in tm.alternatives(strip_t(b))):
            rep.violated('unconditional', '%s: unconditional errors' % key, where, 'the unconditional error distribution (one row per '
                         'step) is indexed by the hour %s' % tm.show(m, 4))
            n += 1
    if not per_hour and n == 0:
        rep.holds('unconditional', '%s: unconditional errors' % key, where)


def strip_t(t):
    while t.op == 'attr' and t.args[1] in ('T', 'values'):
        t = t.args[0]
    return t


def related(a, b):
    """Two different functions of the same hour, or a fixed hour against the row's."""
    if a.op == 'const' or b.op == 'const':
        return True
    if a.op == 'elem' and b.op == 'elem':
        return False
    return (a.op in ('bin', 'call', 'un') and any(u is b for u in tm.walk(a))) or (b.op in ('bin', 'call', 'un') and any(u is a for u in tm.walk(b)))


def run(rep):
    rep.rule('error-orientation', 'the errors are truth minus forecast and are added to the forecast')
    rep.rule('error-axes', 'an error distribution holds one row per step ahead and one column per quantile level')
    rep.rule('error-levels', 'the errors are evaluated at the quantile levels of the model')
    rep.rule('hour-binding', 'the rows of hour h get the errors observed at hour h')
    rep.rule('unconditional', 'with conditional_to_hour=False one distribution, step by step, is added to every row')
    p = Program()
    tasks = [(c.qual, i) for c in drive.forecasters(p) for i in range(len(variants(p, c)))]
    for r in pmap(one, tasks):
        rep.merge(r)
