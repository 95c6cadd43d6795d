"""C11 and C14: what a Transformer generates, against its settings (C11) and against its own metadata (C14)."""
from __future__ import annotations
from ..loader import Program, AnalysisError
from ..terms import T, mk, const
from .. import terms as tm, axes
from ..windows import Unknown, colval, frame, DT, W, INF, equal_orders, strip
from ..algebra import Poly, nonneg, base
from . import transformer as TR

LAGS, FUNS, BINS, FREQ, NAME = (tm.sym(n) for n in ('lags', 'functions', 'agg_bins', 'agg_freq', 'name'))


def atoms(cfg):
    dt = Poly.atom(DT)
    lag = Poly.atom(mk('each', LAGS)) if 'l' in cfg else Poly()
    agg = Poly.atom(W) if 'a' in cfg else dt * Poly.atom(FREQ) if 'i' in cfg else dt
    return dt, lag, agg


def binpair(ps):
    """The two bin edges (descending edges, at i and i + 1) two polynomials use."""
    ats = {a for p in ps if isinstance(p, Poly) for a in p.atoms() if a.op == 'at'}
    if len(ats) != 2:
        return None
    a, b = sorted(ats, key=lambda t: len(t.args[1].args[0]) if t.args[1].op == 'poly' else 0)
    if a.args[0] is not b.args[0]:
        return None
    s = a.args[0]
    # descending order of the edges
    if not (s.op == 'idx' and s.args[1].op == 'slice' and s.args[1].args[2].op == 'const' and s.args[1].args[2].args[0] == -1
            and s.args[0].op in ('sort', 'call') and BINS in set(tm.walk(s))):
        return None
    ka, kb = ({tuple((x, n.args[0]) for x, n in k): v.args[0] for k, v in u.args[1].args[0]} for u in (a, b))
    if kb.get((), None) != '1' or {k: v for k, v in kb.items() if k} != ka or len(ka) != 1:
        return None
    (k, v), = ka.items()
    if v != '1' or len(k) != 1 or k[0][0].op not in ('each', 'elem') or k[0][1] != 1:
        return None
    return Poly.atom(a), Poly.atom(b)


def expected(cfg, bins):
    """(lo, hi) the settings document."""
    dt, lag, agg = atoms(cfg)
    sp = agg if 'r' in cfg else dt
    shift = lag * sp
    if 'b' in cfg:
        a, b = bins
        return dt - dt * a - shift, -dt * b - shift
    if 'f' in cfg:
        return dt - agg - shift, -shift
    return -shift, -shift


def known_atoms(p, cfg, bins):
    ok = {DT, W, FREQ, mk('each', LAGS)}
    if bins:
        ok |= bins[0].atoms() | bins[1].atoms()
    return isinstance(p, Poly) and p.atoms() <= ok


def facts(cfg):
    return (DT, W, FREQ)


class Case:
    """One combination of options: the terms of the generated table and of its metadata."""

    def __init__(self, prog, cfg):
        self.cfg = cfg
        it, st, out = TR.run_transform(prog, cfg)
        self.w = TR.win(cfg)
        self.data, self.meta = TR.generated(out['data']), TR.only(out['meta'])
        self.key = TR.label(cfg)
        self.funcs = {f for f in getattr(it, 'analysed', ())}

    def explore(self, fn):
        self.w.explore(fn)


def attempt(rep, rule, key, wh, fn):
    try:
        return fn()
    except Unknown as ex:
        rep.unknown(rule, key, wh, str(ex)[:200])
        return None


# ------------------------------------------------------------------------------------------------------------------- C11
def lookahead(rep, case, alg, wh):
    cfg, key, w = case.cfg, case.key, case.w
    got = attempt(rep, 'data-window', key, wh, lambda: w.window(alg, case.data))
    if got is None:
        return
    lo, hi, rev = got
    if hi == INF:
        rep.violated('data-window', key + ': end', wh, 'the value of a row depends on data arbitrarily far in its future')
        return
    bins = None
    if 'n' in cfg:
        # the windows of all the bins together
        bins = tuple(Poly.atom(mk('ext', how, BINS)) for how in ('max', 'min'))
    elif 'b' in cfg:
        bins = binpair((lo, hi))
        if bins is None:
            rep.unknown('data-window', key, wh, 'bins of (%r, %r)' % (lo, hi))
            return
    elo, ehi = expected(cfg, bins)
    for side, g, e in (('end', hi, ehi), ('start', lo, elo)):
        k = '%s: %s' % (key, side)
        if g == INF:
            rep.violated('data-window', k, wh, 'unbounded window')
            continue
        d = g - e
        if not d.d:
            rep.holds('data-window', k, wh, repr(g)[:200])
        elif not known_atoms(d, cfg, bins):
            rep.unknown('data-window', k, wh, 'off by %r' % d)
        else:
            later = nonneg(d, facts(cfg))
            rep.violated('data-window', k, wh, 'the %s of the data window is %s by %s than the settings say' % (
                side, 'later' if later else 'different', short(d)))


def short(p):
    r = repr(p).replace('agg_time()', 'agg').replace('dt()', 'dt').replace('each(<lags>)', 'lag')
    return r if len(r) < 140 else r[:140] + '..'


# ------------------------------------------------------------------------------------------------------------------- C14
def rowval(w, alg, v):
    """The generic element of a column of a metadata table, as (term or polynomial, order)."""
    if v.op == 'rowitem':
        src, k = v.args[0], v.args[1].args[0]
        src = strip(src)
        if src.op == 'ite':
            return rowval(w, alg, mk('rowitem', w.need(alg, src), v.args[1]))
        if src.op == 'call' and base(src.args[0]) == 'product' or src.op == 'product':
            fs = src.args[1] if src.op == 'call' else src.args
            fs = fs[0].args[0] if len(fs) == 1 and isinstance(fs[0], T) and fs[0].op == 'tuple' else fs
            if len(fs) == 1 and isinstance(fs[0], tuple):
                fs = fs[0]
            return elem_term(w, alg, fs[k])
        if src.op == 'listof' and src.args[1].op in ('tuple', 'list'):
            return src.args[1].args[0][k]
        if src.op == 'list' and len(src.args[0]) == 1 and src.args[0][0].op in ('tuple', 'list'):
            return src.args[0][0].args[0][k]
        raise Unknown('rows %s' % tm.show(src, 3))
    return elem_term(w, alg, v)


def elem_term(w, alg, s):
    s = strip(s)
    if s.op == 'ite':
        s = strip(w.need(alg, s))
    if s.op in ('list', 'tuple'):
        if len(s.args[0]) == 1:
            return s.args[0][0]
        raise Unknown('element of %s' % tm.show(s, 3))
    if s.op == 'listof' and not s.args[0]:
        return s.args[1]
    if s.op == 'call' and base(s.args[0]) == 'product':
        raise Unknown('element of a product')
    return mk('each', s)


def canon(w, alg, t):
    """Function elements compare as terms, numbers as polynomials."""
    return alg.poly(t)


def metadata(rep, case, alg, wh):
    cfg, key, w, d, m = case.cfg, case.key, case.w, case.data, case.meta
    try:
        win = w.window(alg, d) if 'n' not in cfg else None
    except Unknown as ex:
        win = None
    lab = TR.labels(d)
    # ---- order of the columns, the labels and the metadata rows
    orders = {}
    for what, rule, fn in (('columns', 'label-order', lambda: w.columns(alg, d)),
                           ('labels', 'label-order', lambda: w.order(alg, lab) if lab is not None else ()),
                           ('rows', 'row-order', lambda: w.order(alg, axes.kw(frame(m), 'index', 1)))):
        try:
            orders[what] = fn()
        except Unknown as ex:
            orders[what] = None
            orders[what + '?'] = str(ex)[:160]

    def same(rule, a, b, text):
        k = '%s: %s' % (key, text)
        oa, ob = orders.get(a), orders.get(b)
        if oa is None or ob is None:
            rep.unknown(rule, k, wh, orders.get(a + '?') or orders.get(b + '?') or '')
            return
        e = equal_orders(oa, ob)
        if e is True:
            rep.holds(rule, k, wh, nest(oa))
        elif e is False:
            rep.violated(rule, k, wh, 'the %s are ordered by %s, the %s by %s' % (a, nest(oa), b, nest(ob)))
        else:
            rep.unknown(rule, k, wh, '%s / %s' % (nest(oa), nest(ob)))
    if lab is not None or 'f' in cfg or 'l' in cfg:
        same('label-order', 'labels', 'columns', 'labels follow the generated columns')
    same('row-order', 'rows', 'labels', 'metadata rows follow the labels')
    # the index of the metadata is the labels themselves
    ix = axes.kw(frame(m), 'index', 1)
    k = key + ': metadata is indexed by the labels'
    if ix is None:
        rep.unknown('row-labels', k, wh, 'no index')
    elif lab is not None:
        a, b = strip(ix), strip(lab)
        if a is b:
            rep.holds('row-labels', k, wh)
        else:
            da, db = tm.deps(a), tm.deps(b)
            miss = (db - da) & {'lags', 'functions', 'agg_bins', 'name'}
            if miss:
                rep.violated('row-labels', k, wh, 'the rows are labelled without %s' % ', '.join(sorted(miss)))
            else:
                rep.unknown('row-labels', k, wh, tm.show(a, 3))
    # ---- labels identify the columns
    if lab is not None:
        label_parts(rep, case, alg, wh, lab, win)
    # ---- columns of the metadata
    for col in ('start_time', 'end_time', 'lag', 'function', 'name'):
        v = colval(m, col)
        if v is None:
            rep.unknown('row-values', '%s: %s' % (key, col), wh, 'column not found')
            continue
        if col == 'name':
            d_ = tm.deps(v)
            rep.add('row-values', '%s: name' % key, 'holds' if v is NAME else 'violated' if 'name' not in d_ else 'unknown', wh,
                    '' if v is NAME else tm.show(v, 3))
            continue
        # the values follow the rows
        try:
            o = w.order(alg, v.args[0] if v.op == 'rowitem' else v) if w.isarray(v) or v.op in (
                'listof', 'list', 'bin', 'un', 'rowitem', 'call') else ()
        except Unknown:
            o = None
        rows = orders.get('rows')
        k = '%s: %s follows the rows' % (key, col)
        if o is None or rows is None:
            rep.unknown('row-order', k, wh)
        elif o == rows or o == ():
            rep.holds('row-order', k, wh)
        else:
            e = equal_orders(o, rows)
            if e is False:
                rep.violated('row-order', k, wh, '%s is ordered by %s, the rows by %s' % (col, nest(o), nest(rows)))
            else:
                rep.unknown('row-order', k, wh, '%s / %s' % (nest(o), nest(rows)))
        k = '%s: %s' % (key, col)
        if col in ('start_time', 'end_time'):
            times(rep, case, alg, wh, k, col, v, win)
        elif col == 'lag':
            if 'l' not in cfg:
                continue
            try:
                p = alg.poly(rowval(w, alg, v))
            except Unknown as ex:
                rep.unknown('row-values', k, wh, str(ex)[:160])
                continue
            want = Poly.atom(mk('each', LAGS))
            if p == want:
                rep.holds('row-values', k, wh)
            elif known_atoms(p, cfg, None):
                rep.violated('row-values', k, wh, 'the lag of a row is %s' % short(p))
            else:
                # another sequence
                if not ({'lags'} & set().union(*[tm.deps(a) for a in p.atoms()] or [set()])):
                    rep.violated('row-values', k, wh, 'the lag of a row is %s' % short(p))
                else:
                    rep.unknown('row-values', k, wh, short(p))
        elif col == 'function':
            if 'f' not in cfg:
                continue
            try:
                t = rowval(w, alg, v)
            except Unknown as ex:
                rep.unknown('row-values', k, wh, str(ex)[:160])
                continue
            t = strip(t) if isinstance(t, T) else t
            if {mk('each', FUNS), mk('elem', FUNS)} & set(tm.walk(t)):
                rep.holds('row-values', k, wh)
            elif 'functions' not in tm.deps(t):
                rep.violated('row-values', k, wh, 'the function of a row is %s' % tm.show(t, 3))
            else:
                rep.unknown('row-values', k, wh, tm.show(t, 3))


def nest(o):
    out = []
    for f in o:
        if f[0] in ('rev', 'sorted'):
            out.append('%s(%s)' % ('reversed' if f[0] == 'rev' else 'sorted', nest((f[1],))))
        elif f[0] == 'seq':
            out.append(tm.show(f[1], 2).strip('<>'))
        elif f[0] == 'range':
            out.append('bins' if any(BINS in set(tm.walk(a)) for a in f[1].atoms()) else repr(f[1]))
        else:
            out.append(tm.show(f[1], 2))
    return ' x '.join(out) or 'a single column'


def times(rep, case, alg, wh, k, col, v, win):
    cfg, w = case.cfg, case.w
    try:
        p = alg.poly(w_elem(w, alg, v))
    except Unknown as ex:
        rep.unknown('row-times', k, wh, str(ex)[:160])
        return
    dt, lag, agg = atoms(cfg)
    bins = None
    if 'b' in cfg:
        s, e = (colval(case.meta, c) for c in ('start_time', 'end_time'))
        try:
            bins = binpair(win[:2]) if win is not None else None
            bins = bins or binpair([alg.poly(w_elem(w, alg, u)) for u in (s, e) if u is not None])
        except Unknown:
            bins = None
        if bins is None:
            rep.unknown('row-times', k, wh, 'bins of %r' % p)
            return
    ref = win[:2] if win is not None and INF not in win[:2] else expected(cfg, bins)
    if col == 'end_time':
        d = p - ref[1] - dt
        if not d.d:
            rep.holds('row-times', k, wh, 'end of the window + dt')
        elif known_atoms(d, cfg, bins):
            rep.violated('row-times', k, wh, 'off the end of the data window by %s' % short(d))
        else:
            rep.unknown('row-times', k, wh, 'off by %s' % short(d))
        return
    d = ref[0] - p
    if not d.d:
        rep.holds('row-times', k, wh, 'start of the window')
    elif not known_atoms(d, cfg, bins):
        rep.unknown('row-times', k, wh, 'off by %s' % short(d))
    elif 'f' in cfg:
        rep.violated('row-times', k, wh, 'off the start of the data window by %s' % short(-d))
    elif d == agg - dt or nonneg(d, facts(cfg)):
        rep.holds('row-times', k, wh, 'not after the start of the window')
    else:
        rep.violated('row-times', k, wh, 'off the start of the data window by %s' % short(-d))


def w_elem(w, alg, v):
    if v.op == 'rowitem':
        return rowval(w, alg, v)
    return v


def values(t):
    """The subterms a value is made of: neither the conditions that select it nor the sizes of things."""
    out, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u in out:
            continue
        out.add(u)
        if u.op == 'ite':
            todo += [u.args[1], u.args[2]]
            continue
        if u.op == 'len' or u.op == 'call' and base(u.args[0]) in ('len', 'size', 'shape') or u.op == 'attr' and u.args[1] in (
                'size', 'shape'):
            continue
        todo += [v for v in tm.children(u)]
    return out


def label_parts(rep, case, alg, wh, lab, win):
    cfg, key, w = case.cfg, case.key, case.w
    try:
        el = elem_term(w, alg, lab)
    except Unknown as ex:
        rep.unknown('label-parts', key, wh, str(ex)[:160])
        return
    el_in = values(el)
    dep = {u.args[0] for u in el_in if u.op == 'sym'}
    for c, s, text in (('', NAME, 'the source column'), ('f', FUNS, 'the function'), ('l', LAGS, 'the lag'), ('b', BINS, 'the bin')):
        if c and c not in cfg:
            continue
        k = '%s: labels name %s' % (key, text)
        if s.args[0] not in dep:
            rep.violated('label-parts', k, wh, 'the labels do not depend on %s: columns get the same label' % text)
        elif not c or c == 'b' or any(u.op in ('each', 'elem') and s in set(tm.walk(u)) for u in el_in):
            rep.holds('label-parts', k, wh)
        else:
            rep.unknown('label-parts', k, wh, tm.show(el, 4)[:160])
    if 'b' in cfg:
        # the bin edges in the label are those of the window
        bins = binpair(win[:2]) if win is not None else None
        if bins is None:
            return
        k = key + ': labels show the edges of their bin'
        got = []
        for u in el_in:
            if u.op == 'fmt' and BINS in set(tm.walk(u.args[0])) and u.args[0].op not in ('fstr',):
                got.append(alg.poly(u.args[0]))
        want = {bins[0], bins[1]}
        if set(got) == want:
            rep.holds('label-parts', k, wh)
        elif got and all(p.d and len(p.d) == 1 and all(a.op == 'at' and a.args[0] is next(iter(bins[0].atoms())).args[0]
                                                       for a in p.atoms()) for p in got):
            rep.violated('label-parts', k, wh, 'the labels show other edges than those of the window')
        else:
            rep.unknown('label-parts', k, wh)
