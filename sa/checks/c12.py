"""C12: cross-validation folds: training rows are separated from the test window by the deadband, on both sides.

The masks `time_kfcv` yields are symbolic comparisons of the time index with thresholds.  Each threshold is put in polynomial
form, the thresholds are ordered by proved differences, and both masks are evaluated on every region of the time line the
thresholds delimit: that decides disjointness and the distance between training and test rows for every index and every fold.
"""
from __future__ import annotations
from ..loader import Program, AnalysisError
from ..interp import Interp, St, Args
from ..algebra import Algebra, Poly, nonneg, explore, Need, base, literal
from .. import entries, terms as tm
from ..terms import T, mk, const
from ..values import Sc

MINIMUM = 3
TI = tm.sym('time_index')
FIRST = mk('idx', TI, const(0))
SPAN = mk('span', TI)               # last instant - first instant
NK, MF = tm.sym('n_k'), tm.sym('mf')
REDUCE_MAX = {'max', 'amax', 'nanmax'}
REDUCE_BAD = {'min', 'amin', 'nanmin', 'mean', 'median', 'average', 'std', 'nanmean', 'sum_'}


class Cannot(Exception):
    pass


# ---------------------------------------------------------------------------------------------------------------- masks
def lin_in_time(alg, t):
    """(sign, threshold polynomial) of a term that is +-(time - threshold), i.e. the comparison `t < 0` bounds the time."""
    p = alg.poly(t) if isinstance(t, T) else t
    r = p.coeff(TI)
    if r is None:
        raise Cannot('time index used non-linearly')
    c, rest = r
    if c not in (1, -1):
        raise Cannot('comparison without the time index: %s' % tm.show(t, 4) if isinstance(t, T) else 'no time index')
    return (1, -rest) if c == 1 else (-1, rest)


def atoms_of(alg, t, out):
    """Collect the thresholds used by a mask."""
    evaluate(alg, t, None, out)


def evaluate(alg, t, cmp, out=None):
    """Truth of mask t at a time described by cmp(threshold) -> -1 / 0 / 1 (position of the time relative to it)."""
    o, a = t.op, t.args
    if o == 'ite':
        c, pol = literal(a[0])
        v = alg.env.get(c)
        if v is None:
            raise Need(c)
        return evaluate(alg, a[1] if v == pol else a[2], cmp, out)
    if o == 'const' and isinstance(a[0], bool):
        return a[0]
    if o == 'cmp' and a[0] in ('<', '<=', '==', '!='):
        p = alg.poly(a[1]) - alg.poly(a[2])
        s, th = lin_in_time(alg, p)
        if out is not None:
            out.append(th)
        if cmp is None:
            return False
        pos = cmp(th) * s
        return {'<': pos < 0, '<=': pos <= 0, '==': pos == 0, '!=': pos != 0}[a[0]]
    if o == 'not' or o == 'un' and a[0] == '~':
        return not evaluate(alg, a[-1], cmp, out)
    sub = None
    if o == 'bin' and a[0] in '&|^+*':
        how, sub = a[0], a[1:]
    elif o == 'boolop':
        how, sub = ('&' if a[0] == 'and' else '|'), a[1]
    elif o == 'call' and base(a[0]) in ('logical_and', 'logical_or', 'logical_xor', 'bitwise_and', 'bitwise_or'):
        how, sub = {'and': '&', 'or': '|', 'xor': '^'}[base(a[0]).rsplit('_', 1)[-1]], a[1]
    elif o == 'call' and base(a[0]) in ('logical_not', 'invert', 'bitwise_not'):
        return not evaluate(alg, a[1][0], cmp, out)
    elif o == 'call' and base(a[0]) in ('asarray', 'array') and a[1]:
        return evaluate(alg, a[1][0], cmp, out)
    elif o == 'meth' and a[0] in ('to_numpy', 'astype', 'copy'):
        return evaluate(alg, a[1], cmp, out)
    elif o == 'attr' and a[1] in ('values',):
        return evaluate(alg, a[0], cmp, out)
    elif o == 'meth' and a[0] == 'between' and len(a[2]) >= 2:
        return (evaluate(alg, mk('cmp', '<=', a[2][0], a[1]), cmp, out) &
                evaluate(alg, mk('cmp', '<=', a[1], a[2][1]), cmp, out))
    if sub is None:
        raise Cannot('mask %s' % tm.show(t, 3))
    vs = [evaluate(alg, u, cmp, out) for u in sub]
    if how in '&*':
        return all(vs)
    if how in '|+':
        return any(vs)
    return vs[0] != vs[1]


def ge0(p, facts, known):
    return nonneg(p, facts) or any(nonneg(p - q, facts) for q in known)


def order(ths, facts, known=()):
    """Thresholds in increasing order, grouped when equal; None if an ordering is not provable."""
    groups = []
    for t in ths:
        if t not in groups:
            groups.append(t)
    srt = []
    for t in groups:
        i = 0
        while i < len(srt):
            if ge0(t - srt[i], facts, known):
                i += 1
            elif ge0(srt[i] - t, facts, known):
                break
            else:
                return None
        srt.insert(i, t)
    return srt


# ----------------------------------------------------------------------------------------------------- deadband coverage
def bounds(t, col):
    """Sources s (metadata frames) such that t >= |start_time| for every row of s; raises Cannot when not recognised."""
    o, a = t.op, t.args
    if o == 'ite':
        return bounds(a[1], col) & bounds(a[2], col)
    if o == 'call' and base(a[0]) in REDUCE_MAX | {'maximum', 'fmax'} and a[1]:
        out = frozenset()
        for u in (a[1] if base(a[0]) in ('max', 'maximum', 'fmax') and len(a[1]) > 1 else a[1][:1]):
            out |= elems(u, col)
        return out
    if o == 'meth' and a[0] in REDUCE_MAX:
        return elems(a[1], col)
    if o == 'call' and base(a[0]) in ('Timedelta', 'to_timedelta', 'abs', 'absolute'):
        u = a[1][0]
        if base(a[0]) in ('abs', 'absolute') and (u.op == 'call' and base(u.args[0]) in REDUCE_BAD or u.op == 'meth' and
                                                  u.args[0] in REDUCE_BAD):
            raise Cannot('|min|')       # the furthest look-back when every feature looks back
        return bounds(u, col)
    if o == 'idx' and a[1].op == 'const' and a[1].args[0] == -1 and (
            a[0].op == 'call' and base(a[0].args[0]) in ('sort', 'sorted') or a[0].op == 'meth' and a[0].args[0] == 'sort_values'):
        return elems(a[0].args[1][0] if a[0].op == 'call' else a[0].args[1], col)
    if o == 'call' and base(a[0]) in REDUCE_BAD:
        for u in a[1]:
            elems(u, col)
        return frozenset()
    if o == 'meth' and a[0] in REDUCE_BAD:
        elems(a[1], col)
        return frozenset()
    if o == 'idx' and a[1].op == 'const':
        elems(a[0].args[0] if a[0].op == 'attr' and a[0].args[1] in ('iloc', 'values') else a[0], col)
        return frozenset()
    if o == 'const':
        return frozenset()
    if o == 'attr' and a[1] == 'values':
        return bounds(a[0], col)
    raise Cannot('deadband %s' % tm.show(t, 4))


def elems(t, col):
    if t.op == 'const':
        return frozenset()
    return elems_(t, col)


def elems_(t, col):
    """Sources whose |start_time| every element of the collection t (together) bounds: union over a maximum."""
    o, a = t.op, t.args
    if o in ('list', 'tuple', 'set'):
        out = frozenset()
        for u in (a[0] if a and isinstance(a[0], tuple) else a):
            if isinstance(u, T):
                out |= elems(u, col)
        return out
    if o == 'call' and base(a[0]) in ('hstack', 'concatenate', 'concat', 'array', 'asarray', 'list', 'sort', 'sorted', 'vstack', 'stack',
                                      'Series', 'DataFrame', 'tuple', 'ravel'):
        return elems(a[1][0], col)
    if o == 'call' and base(a[0]) in ('abs', 'absolute'):
        return raw(a[1][0], col)
    if o == 'meth' and a[0] == 'abs':
        return raw(a[1], col)
    if o == 'meth' and a[0] in ('to_numpy', 'copy', 'dropna', 'ravel', 'flatten', 'tolist', 'astype', 'sort_values', 'unique'):
        return elems(a[1], col)
    if o == 'attr' and a[1] in ('values', 'array'):
        return elems(a[0], col)
    if o in ('call', 'meth') and base(a[0]) in REDUCE_MAX | REDUCE_BAD | {'maximum', 'fmax', 'Timedelta', 'to_timedelta'}:
        return bounds(t, col)
    if o == 'idx':
        if source(t, col) is not None:
            return frozenset()          # the signed column: its maximum does not bound its magnitude
        return bounds(t, col)
    raise Cannot('deadband over %s' % tm.show(t, 4))


def source(t, col):
    """Metadata sources of a term that is exactly their start_time column."""
    o, a = t.op, t.args
    if o == 'idx' and a[1].op == 'const' and a[1].args[0] == col or o == 'attr' and a[1] == col:
        return frames(a[0])
    if o == 'idx' and a[0].op == 'attr' and a[0].args[1] in ('loc',) and a[1].op == 'tuple':
        k = a[1].args[0]
        if len(k) == 2 and k[0].op in ('slice', 'const') and k[1].op == 'const' and k[1].args[0] == col and (
                k[0].op == 'slice' and all(isinstance(z, T) and z is tm.NONE for z in k[0].args)):
            return frames(a[0].args[0])
    if o == 'attr' and a[1] == 'values' or o == 'meth' and a[0] in ('to_numpy', 'copy'):
        return source(a[0] if o == 'attr' else a[1], col)
    if o == 'call' and base(a[0]) in ('concat', 'hstack', 'concatenate') and a[1][0].op in ('list', 'tuple'):
        out = frozenset()
        for u in a[1][0].args[0] if isinstance(a[1][0].args[0], tuple) else a[1][0].args:
            s = source(u, col)
            if s is None:
                return None
            out |= s
        return out
    return None


def frames(t):
    if t.op == 'sym':
        return frozenset([t.args[0]])
    if t.op == 'call' and base(t.args[0]) == 'concat' and t.args[1][0].op in ('list', 'tuple'):
        out = frozenset()
        u = t.args[1][0]
        for v in u.args[0] if isinstance(u.args[0], tuple) else u.args:
            f = frames(v)
            if f is None:
                return None
            out |= f
        return out
    return None


def raw(t, col):
    s = source(t, col)
    if s is None:
        # another quantity than the start of the window: it bounds nothing we know
        for other in ('end_time', 'aggregation_time', 'spacing_time', 'lag'):
            if source(t, other) is not None:
                return frozenset()
        if t.op == 'bin' and t.args[0] == '-' and all(source(u, c) is not None for u, c in zip(t.args[1:], ('start_time', 'end_time'))):
            return frozenset()          # the length of a window, not its distance from the present
        if t.op in ('meth', 'call') and base(t.args[0]) in ('min', 'max', 'mean', 'median', 'amax', 'amin'):
            raise Cannot('magnitude of an extreme of the signed starts')
        raise Cannot('deadband from %s' % tm.show(t, 4))
    return s


# ------------------------------------------------------------------------------------------------------------------ run
def run_kfcv(prog, metadata=True):
    it = Interp(prog)
    st = St(it)
    fm = prog.lookup('pyforecaster.formatter', 'Formatter')
    ci = prog.classes['pyforecaster.formatter.Formatter'] if 'pyforecaster.formatter.Formatter' in prog.classes else \
        prog.classes['Formatter']
    tr = prog.classes['pyforecaster.formatter.Transformer'] if 'pyforecaster.formatter.Transformer' in prog.classes else \
        prog.classes['Transformer']
    mod = ci.module

    def go():
        o = entries.build(it, st, ci, {})
        trs = []
        for i in (1, 2):
            trs.append(it.new_instance(tr, st, 'tr%d' % i, {'metadata': it.symval('md%d' % i, 'df')}))
        it.store_attr(o, 'transformers', it.new_list(it._synth(('t', 0)), st, trs), st, it._synth(('t', 1)))
        it.invoke(o, 'time_kfcv', entries.method_args(it, st, o, 'time_kfcv', {
            'time_index': it.symval('time_index', 'index'), 'n_k': it.symval('n_k', 'int'),
            'multiplier_factor': it.symval('mf', 'int'), 'x': it.symval('x', 'df')}), st, 'kf')
    it.run(go, mod)
    return it, ci


def fold_events(it):
    out = []
    for e in it.events:
        if e.kind == 'yield' and isinstance(e.vterm, T) and e.func is not None:
            out.append((e.vterm, e.where, dict((literal(c)[0], p == literal(c)[1]) for c, p in e.pc)))
    return out


def ranges(alg, t):
    """Element k of date_range(a, b, n) is a + k * step; the step is an atom whose definition is kept in the term."""
    if t.op == 'idx' and t.args[0] is TI and t.args[1].op == 'const' and t.args[1].args[0] == -1:
        return Poly.atom(FIRST) + Poly.atom(SPAN)
    if t.op == 'meth' and t.args[0] in ('min', 'max') and t.args[1] is TI or t.op == 'call' and base(t.args[0]) in ('min', 'max') \
            and t.args[1] == (TI,):
        return FIRST if base(t.args[0]) == 'min' else Poly.atom(FIRST) + Poly.atom(SPAN)
    if t.op == 'idx' and t.args[0].op == 'call' and base(t.args[0].args[0]) == 'date_range' and t.args[1].op == 'const':
        k = t.args[1].args[0]
        c = t.args[0]
        from ..axes import kw
        a, b, n = kw(c, 'start', 0), kw(c, 'end', 1), kw(c, 'periods', 2)
        if isinstance(k, int) and not isinstance(k, bool) and a is not None and b is not None and n is not None:
            st = Poly.atom(mk('step', a, b, n))
            m = (alg.poly(n) - Poly.const(1)).inverse()
            if m is not None:
                st = (alg.poly(b) - alg.poly(a)) * m
            return alg.poly(a) + st * Poly.const(k) if k >= 0 else alg.poly(b) + st * Poly.const(k + 1)
    return None


def run(rep):
    rep.rule('fold-disjoint', 'no time belongs to the training and to the test mask of one fold, whatever the index and the fold')
    rep.rule('fold-deadband', 'training times are at least one deadband away from the test window, before and after it')
    rep.rule('deadband-covers', 'the deadband bounds |start_time| of every feature of every transformer')
    rep.rule('fold-window', 'each fold tests exactly one window: contiguous, as long as the fold width, inside the index')
    rep.rule('fold-schedule', 'the windows slide from the first to the last instant of the index, n_k * multiplier_factor of them')
    p = Program()
    it, ci = run_kfcv(p)
    m = p.find_method(ci, 'time_kfcv')
    where = '%s:%d' % (ci.module.path if hasattr(ci.module, 'path') else ci.module.name, m[1].lineno) if m else ''
    rep.analysed |= {str(f) for f in it.inlined}
    evs = fold_events(it)
    for k, (vt, wh, pc) in enumerate(evs):
        key = 'time_kfcv fold %d' % (k + 1) if len(evs) > 1 else 'time_kfcv fold'
        try:
            fold(rep, key, wh, vt, pc)
        except Cannot as ex:
            rep.unknown('fold-disjoint', key, wh, str(ex)[:200])
    if not evs:
        rep.unknown('fold-disjoint', 'time_kfcv fold', where, 'no fold found')


def fold(rep, key, wh, vt, pc):
    if vt.op not in ('tuple', 'list'):
        raise Cannot('fold is not a pair')
    items = vt.args[0] if isinstance(vt.args[0], tuple) else vt.args
    if len(items) != 2:
        raise Cannot('fold is not a pair')
    tr, te = items
    seen = set()
    if not explore(lambda alg: one(rep, key, wh, alg, tr, te, seen), pc, rewrite=ranges):
        raise Cannot('too many joined paths')


def one(rep, key, wh, alg, tr, te, seen):
    th_tr, th_te = [], []
    atoms_of(alg, tr, th_tr)
    atoms_of(alg, te, th_te)
    allt = [t for t in th_tr + th_te]
    # the deadband: atoms separating the training thresholds from the test ones
    dbs = set()
    for a in allt:
        for b in allt:
            for t in (a - b).atoms():
                if any('md' in d for d in tm.deps(t)):
                    dbs.add(t)
    facts = set(dbs)
    steps = {t for p in allt for t in p.atoms() if t.op == 'step'}
    known = []
    for c, pol in alg.env.items():          # comparisons the path has passed, e.g. the deadband is not longer than the window
        if c.op == 'cmp' and c.args[0] in ('<', '<='):
            try:
                d = alg.poly(c.args[2]) - alg.poly(c.args[1])
                known.append(d if pol else -d)
            except Need:
                pass
    srt = order(allt, facts | steps | {SPAN, NK, MF}, known)
    if srt is None:
        raise Cannot('thresholds not ordered: %s' % '; '.join(map(repr, allt))[:300])
    sig = (tuple(srt), tm.show(tr, 3), tm.show(te, 3))
    if sig in seen:
        return
    seen.add(sig)
    # regions: below the first, at it, between, ..., above the last
    regs = []
    n = len(srt)
    for i in range(2 * n + 1):
        def cmp(th, i=i):
            j = srt.index(th)
            return -1 if i < 2 * j + 1 else 0 if i == 2 * j + 1 else 1
        regs.append((evaluate(alg, tr, cmp), evaluate(alg, te, cmp)))
    over = [i for i, (a, b) in enumerate(regs) if a and b]
    if over:
        rep.violated('fold-disjoint', key, wh, 'the times %s are in both masks' % describe(over[0], srt))
    else:
        # with a deadband of length zero the thresholds collapse: evaluate again
        zero = {t: Poly() for t in dbs}
        z = order_zero(srt, zero)
        bad = None
        if z is not None:
            zs, grp = z
            for i in range(2 * len(zs) + 1):
                def cmp(th, i=i):
                    j = grp[th]
                    return -1 if i < 2 * j + 1 else 0 if i == 2 * j + 1 else 1
                if evaluate(alg, tr, cmp) and evaluate(alg, te, cmp):
                    bad = i
        if bad is not None:
            rep.violated('fold-disjoint', key, wh, 'with a deadband of zero the times %s are in both masks' % describe(bad, zs))
        else:
            rep.holds('fold-disjoint', key, wh, '%d regions of the time line' % len(regs))
    # test window
    tes = [i for i, (_, b) in enumerate(regs) if b]
    if not tes:
        rep.violated('fold-window', key, wh, 'the test mask is empty')
        return
    contiguous = tes == list(range(tes[0], tes[-1] + 1))
    bounded = tes[0] > 0 and tes[-1] < 2 * n
    rep.add('fold-window', key + ': contiguous and bounded', 'holds' if contiguous and bounded else 'violated', wh,
            '' if contiguous and bounded else 'the test times are not one bounded window')
    if not (contiguous and bounded):
        return
    lo, hi = srt[(tes[0]) // 2 - (0 if tes[0] % 2 else 1)], srt[(tes[-1]) // 2]
    # training distance
    for side in ('before', 'after'):
        if side == 'before':
            r = [i for i, (a, _) in enumerate(regs) if a and i < tes[0]]
            if not r:
                rep.violated('fold-deadband', '%s: training times %s the test window' % (key, side), wh, 'no training time')
                continue
            i = r[-1]
            edge = srt[i // 2]              # supremum of the region
            gap = lo - edge
        else:
            r = [i for i, (a, _) in enumerate(regs) if a and i > tes[-1]]
            if not r:
                rep.violated('fold-deadband', '%s: training times %s the test window' % (key, side), wh, 'no training time')
                continue
            i = r[0]
            edge = srt[i // 2 if i % 2 else i // 2 - 1]
            gap = edge - hi
        judge_gap(rep, '%s: training times %s the test window' % (key, side), wh, gap, dbs)
    # schedule
    schedule(rep, key, wh, lo, hi)


def order_zero(srt, zero):
    """The thresholds with the deadband set to zero: sorted distinct values and each threshold's group."""
    zs, grp = [], {}
    for t in srt:
        z = t.subst(zero)
        if not zs or zs[-1] != z:
            zs.append(z)
        grp[t] = len(zs) - 1
    return zs, grp


def describe(i, srt):
    def s(p):
        return repr(p)[:80]
    if i % 2:
        return 'equal to %s' % s(srt[i // 2])
    if i == 0:
        return 'before %s' % s(srt[0])
    if i == 2 * len(srt):
        return 'after %s' % s(srt[-1])
    return 'between %s and %s' % (s(srt[i // 2 - 1]), s(srt[i // 2]))


def judge_gap(rep, key, wh, gap, dbs):
    c = gap.constant()
    if c is not None:
        if c <= 0:
            rep.violated('fold-deadband', key, wh, 'no deadband: the gap is %s' % c)
        else:
            rep.unknown('fold-deadband', key, wh, 'constant gap')
        return
    cands = [(t, gap.coeff(t)) for t in gap.atoms() if t in dbs]
    if not cands:
        if nonneg(-gap, dbs):
            rep.violated('fold-deadband', key, wh, 'no deadband: the gap is %r' % gap)
        else:
            rep.unknown('fold-deadband', key, wh, 'gap %r' % gap)
        return
    if len(cands) > 1:
        rep.unknown('fold-deadband', key, wh, 'gap %r' % gap)
        return
    t, cr = cands[0]
    if cr is None:
        rep.unknown('fold-deadband', key, wh, 'gap %r' % gap)
        return
    coef, rest = cr
    if coef >= 1 and (not rest.d or nonneg(rest, dbs)):
        rep.holds('fold-deadband', key, wh)
    elif coef < 1 and (not rest.d or nonneg(-rest, dbs)):
        rep.violated('fold-deadband', key, wh, 'the gap is %r, less than the deadband' % gap)
        return
    elif rest.d and nonneg(-rest, dbs) and coef <= 1:
        rep.violated('fold-deadband', key, wh, 'the gap is %r, less than the deadband' % gap)
        return
    else:
        rep.unknown('fold-deadband', key, wh, 'gap %r' % gap)
    k2 = 'deadband %s' % key.split(': ', 1)[1]
    try:
        b = bounds(t, 'start_time')
    except Cannot as ex:
        if {'md1', 'md2'} - tm.deps(t):
            rep.violated('deadband-covers', k2, wh, 'the deadband does not look at every transformer')
        elif not any(u.op == 'const' and u.args[0] == 'start_time' or u.op == 'attr' and u.args[1] == 'start_time'
                     for u in tm.walk(t)):
            rep.violated('deadband-covers', k2, wh, 'the deadband does not look at the start of the feature windows')
        else:
            rep.unknown('deadband-covers', k2, wh, str(ex)[:200])
        return
    if {'md1', 'md2'} <= b:
        rep.holds('deadband-covers', k2, wh, tm.show(t, 6)[:200])
    else:
        rep.violated('deadband-covers', k2, wh, '%s does not bound |start_time| of every feature' % tm.show(t, 6)[:160])


def schedule(rep, key, wh, lo, hi):
    """The window starts at an element of a date range from the first instant to the last one minus the width."""
    width = hi - lo
    els = [a for a in lo.atoms() if a.op == 'elem' and a.args[0].op == 'call' and base(a.args[0].args[0]) == 'date_range']
    if len(els) != 1 or lo != Poly.atom(els[0]):
        rep.unknown('fold-schedule', key, wh, 'window start %r' % lo)
        return
    call = els[0].args[0]
    from ..axes import kw
    a, b, n = kw(call, 'start', 0), kw(call, 'end', 1), kw(call, 'periods', 2)
    alg = Algebra(rewrite=ranges)
    if a is None or b is None:
        rep.unknown('fold-schedule', key, wh, 'range %s' % tm.show(call, 3))
        return
    d = alg.poly(a) - Poly.atom(FIRST)
    v = 'holds' if not d.d else 'unknown' if d.constant() is None else 'violated'
    rep.add('fold-schedule', key + ': first window starts at the first instant', v, wh, repr(d)[:160])
    d = alg.poly(b) + width - Poly.atom(FIRST) - Poly.atom(SPAN)
    v = 'holds' if not d.d else 'violated' if d == width or d == -width else 'unknown'
    rep.add('fold-schedule', key + ': last window ends at the last instant', v, wh,
            '' if v == 'holds' else 'off by %s' % repr(d)[:160])
    if n is not None:
        p = alg.poly(n)
        want = Poly.atom(tm.sym('n_k')) * Poly.atom(tm.sym('mf'))
        v = 'holds' if p == want else 'violated' if p.atoms() <= {tm.sym('n_k'), tm.sym('mf')} else 'unknown'
        rep.add('fold-schedule', key + ': n_k * multiplier_factor folds', v, wh, '' if v == 'holds' else 'folds: %r' % p)
    # the width: with one window per fold the windows tile the index
    k2 = key + ': n_k windows tile the index'
    d = width * Poly.atom(NK) - Poly.atom(SPAN)
    if not d.d:
        rep.holds('fold-schedule', k2, wh)
        return
    ratio = width * Poly.atom(SPAN).inverse()
    if ratio.atoms() <= {NK, MF}:
        rep.violated('fold-schedule', k2, wh, 'the width is %r of the index' % ratio)
        return
    if len(width.d) == 1:
        (k, c), = width.d.items()
        st = k[0][0] if len(k) == 1 and k[0][1] == 1 and k[0][0].op == 'step' else None
        if st is not None and not (alg.poly(st.args[1]) - alg.poly(st.args[0]) - Poly.atom(SPAN)).d:
            m = alg.poly(st.args[2]) - Poly.const(1)
            d = Poly.atom(NK) * Poly.const(c) - m
            if d.d and m.atoms() <= {NK, MF}:
                rep.violated('fold-schedule', k2, wh, 'the width is 1/(%r) of the index' % m)
                return
    rep.unknown('fold-schedule', k2, wh, 'width %r' % width)
