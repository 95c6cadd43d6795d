"""C16: normalisation is applied to the normalised target, and undone by its inverse.

A Formatter with three feature transformers, three target transformers and two normalizers is driven on symbolic data through
normalize and denormalize (plain and quantile targets); every evaluation of a normalising expression is judged.

  columns      the evaluated expression is stored in the columns of the metadata that stem from the normalised target, and in no other
  same-column  it is evaluated for the column it is stored in, on a table that holds that column and the normalizing columns
  expression   the expression is the one asked for: the argument, else the formatter's own; denormalize: the inverse
  everywhere   columns of every transformer (features) and of every target transformer (targets) are treated
  quantile     the values normalised for a quantile are stored under that quantile
  none         without an expression nothing is evaluated
  names        the normalizing columns carry the names of the normalizers that made them
  past-only    a normalizer is created with positive lags only
"""
from __future__ import annotations
from ..loader import Program, AnalysisError
from ..interp import Interp, St, Args
from ..values import Sc, Tup
from ..terms import const, sym
from .. import terms as tm
from . import transformer as TR
from .selection import Select, Unknown, HIT, MISS, ALL

MINIMUM = 10


def build(it, st, ci, expr=True, lags=None):
    def names(ns, k):
        return it.new_list(it._synth(('n' + k, 0)), st, [it.symval(n, 'str') for n in ns])

    def lag(k):
        return it.symval('lags' + k, 'ndarray')
    o = it.construct(ci, Args([], {'logger': it.symval('logger')}), st, 'fo')
    for k in 'ABE':
        it.invoke(o, 'add_transform', Args([], {'lags': lag(k), 'names': names(['T', 'n' + k], k)}), st, 'a' + k)
    for k in 'CDF':
        it.invoke(o, 'add_target_transform', Args([], {'lags': lag(k), 'names': names(['T', 'n' + k], k)}), st, 'a' + k)
    for k, n in (('m', 'mean'), ('s', 'std')):
        it.invoke(o, 'add_target_normalizer', Args([], {'target': names(['T'], 'N' + k), 'function': Sc(const(n)), 'name': Sc(const('norm_' + n)),
                                                        'agg_freq': it.symval('freq_' + n, 'str')}), st, 'n' + k)
    if expr:
        it.invoke(o, 'add_normalizing_fun', Args([], {'expr': it.symval('expr', 'str'), 'inv_expr': it.symval('inverse', 'str')}), st, 'f')
    for lst, ks in (('transformers', 'ABE'), ('target_transformers', 'CDF')):
        v = it.getattr(o, lst, st, it._synth(('l', lst)))
        its = it.exact_iter(v, st)
        if its is None or len(its) != 3:
            raise AnalysisError('Formatter.%s is not a list of three transformers' % lst)
        for k, tr in zip(ks, its):
            st.set(('f', tr.oid, 'metadata'), it.symval('meta' + k, 'df'))
    return o


def is_eval(t):
    return t.op == 'call' and t.args[0].rsplit('.', 1)[-1] == 'eval'


def evals(t):
    """The evaluations a stored value is computed from, outermost only."""
    out, stack, seen = [], [t], set()
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        if is_eval(u):
            out.append(u)
        else:
            stack.extend(tm.children(u))
    return out


def stores(it, st, events):
    """(event, key term, value term, pc) of the stores of an evaluated expression into a table."""
    out = []
    for e in events:
        if e.kind == 'mutate' and e.data.get('value') is not None and e.data.get('key') is not None:
            v, k = (x if isinstance(x, tm.T) else it.term(x, st) for x in (e.data['value'], e.data['key']))
            if evals(v):
                out.append((e, k, v))
    return out


def column_of(k):
    """The column part of a store key: [:, c] or [c]."""
    if k.op == 'tuple':
        parts = k.args[0]
        return parts[-1] if len(parts) == 2 else None
    return k


def given_only(rep, prog, ci):
    it, st, res = drive(prog, ci, 'normalize', {'normalizing_fun': '$given'}, False, expr=False)
    ev = [u for t in res['terms'] for u in carried(t) if is_eval(u) and u.args[1] and 'given' in tm.deps(u.args[1][0])]
    key = 'normalize: the expression given to a formatter without one'
    wh = where(prog, ci, 'normalize')
    if ev:
        rep.holds('expression', key, wh)
    elif any(e.kind == 'ext' and str(e.data['path']).rsplit('.', 1)[-1] == 'eval' for e in res['events']):
        rep.unknown('expression', key, wh)
    else:
        rep.violated('expression', key, wh, 'is not evaluated')


def drive(prog, ci, method, kw, quantile, expr=True):
    first = None
    for attempt in (0, 1):
        it = Interp(prog)
        st = St(it)
        res = {}
        if first is not None:
            it.force.update(first)

        def go():
            o = build(it, st, ci, expr)
            n = len(it.events)
            args = {'x': it.symval('x', 'df')}
            args['y'] = it.symval('y', 'df')
            args.update({k: (it.symval(v[1:], 'str') if isinstance(v, str) and v.startswith('$') else Sc(const(v))) for k, v in kw.items()})
            r = it.invoke(o, method, Args([], args), st, 'go')
            res['r'], res['events'] = r, it.events[n:]
            res['terms'] = [it.term(v, st) for v in (r.items if isinstance(r, Tup) else [r])]
        it.run(go, ci.module)
        if first is None:
            first = {}
            for e in res['events']:
                if e.kind == 'branch' and isinstance(e.data['test'], tm.T) and 'y' in tm.deps(e.data['test']) and \
                        ('MultiIndex' in tm.show(e.data['test'], 6) or 'nlevels' in tm.show(e.data['test'], 6)):
                    t = e.data['test']
                    first[t] = quantile
            if not first:
                break
    return it, st, res


def judge(rep, prog, ci, label, method, kw, quantile, want, parts):
    it, st, res = drive(prog, ci, method, kw, quantile)
    for f in it.inlined:
        rep.analysed.add(str(f))
    wh0 = where(prog, ci, method)
    sel = {k: Select(lambda t, k=k: t.op == 'sym' and t.args[0] == 'meta' + k, lambda t: t.op == 'sym' and t.args[0] == 'T') for k in 'ABCDEF'}
    seen = {}
    found = stores(it, st, res['events'])
    for e, key, val in found:
        if quantile and key.op == 'tuple' and len(key.args[0]) == 2 and key.args[0][1].op == 'tuple':
            tau = key.args[0][1].args[0][-1]
            rd = [u for u in tm.walk(val) if u.op == 'idx' and u.args[1].op == 'tuple' and len(u.args[1].args[0]) == 2
                  and u.args[1].args[0][1].op == 'tuple' and 'y' in tm.deps(u.args[0])]
            taus = {u.args[1].args[0][1].args[0][-1] for u in rd}
            k = '%s: quantile' % label
            if taus == {tau}:
                rep.holds('quantile', k, e.where)
            elif taus and tau not in taus:
                rep.violated('quantile', k, e.where, 'stored under %s, computed from %s' % (tm.show(tau, 3), [tm.show(t, 3) for t in taus]))
            else:
                rep.unknown('quantile', k, e.where, '%s from %s' % (tm.show(tau, 3), [tm.show(t, 3) for t in taus]))
            continue
        c = column_of(key)
        metas = {d[4:] for d in (tm.deps(c) if c is not None else ()) if d.startswith('meta')}
        name = '%s: columns of %s' % (label, ', '.join(sorted(metas)) or '?')
        if len(metas) != 1:
            rep.unknown('columns', name, e.where, tm.show(key, 4))
            continue
        m = next(iter(metas))
        for g in evals(val):
            d = {x for x in tm.deps(g.args[1][0])} if g.args[1] else set()
            if d == want:
                rep.holds('expression', name, e.where)
            elif d & {'expr', 'inverse', 'given'}:
                rep.violated('expression', name, e.where, 'evaluates %s, not %s' % (', '.join(sorted(d)), ', '.join(want)))
            else:
                rep.unknown('expression', name, e.where, tm.show(g, 3))
            loc = dict(g.args[2])
            ts = [v for v in loc.values() if v is c or v.op == 'elem' or v.op == 'idx' and m in {d[4:] for d in tm.deps(v) if d.startswith('meta')}]
            if c in loc.values():
                rep.holds('same-column', name, e.where)
            elif ts:
                rep.violated('same-column', name, e.where, 'stored in %s, evaluated for %s' % (tm.show(c, 4), tm.show(ts[0], 4)))
            else:
                rep.unknown('same-column', name, e.where, tm.show(g, 4))
            tabs = [v for k2, v in loc.items() if v.op != 'elem' and tm.deps(v) & {'x', 'y'}]
            if tabs and any('x' in tm.deps(v) for v in tabs):
                rep.holds('same-column', name + ' (normalizing columns)', e.where)
            elif tabs:
                rep.violated('same-column', name + ' (normalizing columns)', e.where, 'the table the expression reads has no normalizing columns')
        try:
            if c.op != 'elem':
                raise Unknown(tm.show(c, 3))
            b = sel[m].ev(c.args[0])
            rows = set(b[1])
            for cond, pol in e.pc:
                if c in set(tm.walk(cond)):
                    rows = {r for r in rows if sel[m].truth(cond, {c: r}) == pol}
        except Unknown as u:
            rep.unknown('columns', name, e.where, str(u))
            seen.setdefault(m, None)
            continue
        if rows == {HIT}:
            rep.holds('columns', name, e.where)
        elif MISS in rows:
            rep.violated('columns', name, e.where, 'the selection %s also takes the columns of other signals' % tm.show(c.args[0], 5))
        else:
            rep.violated('columns', name, e.where, 'the selection %s misses the columns of the target' % tm.show(c.args[0], 5))
        seen[m] = rows
    if not found:
        ev = [e for e in res['events'] if e.kind == 'ext' and str(e.data['path']).rsplit('.', 1)[-1] == 'eval']
        if not ev:
            rep.violated('everywhere', '%s: any column' % label, wh0, 'no expression is evaluated')
        else:
            rep.unknown('everywhere', '%s: any column' % label, wh0, 'the expression is not stored column by column')
        return
    for k in parts:
        key = '%s: %s transformer %s' % (label, 'feature' if k in 'ABE' else 'target', k)
        if k in seen:
            rep.holds('everywhere', key, wh0)
        else:
            rep.violated('everywhere', key, wh0, 'its columns are left as they are')
    if method == 'normalize' and len(res['terms']) == 2:
        for r, nm in zip(res['terms'], ('target', 'features')):
            want_m = {'meta' + k for k in ('CDF' if nm == 'target' else 'ABE') if k in parts}
            if not want_m:
                continue
            key = '%s: %s returned' % (label, nm)
            if want_m <= tm.deps(r):
                rep.holds('everywhere', key, wh0)
            else:
                rep.violated('everywhere', key, wh0, 'the returned %s is not the normalised one' % nm)


def where(prog, ci, method):
    m = prog.find_method(ci, method)
    if m is None:
        raise AnalysisError('Formatter.%s not found' % method)
    return '%s:%d' % (m[0].module.rel, m[1].lineno)


def nothing(rep, prog, ci):
    for method, kw in (('normalize', {}), ('denormalize', {})):
        it, st, res = drive(prog, ci, method, kw, False, expr=False)
        key = '%s without an expression' % method
        ev = [e for e in res['events'] if e.kind == 'ext' and str(e.data['path']).rsplit('.', 1)[-1] == 'eval']
        t = res['terms'][0]
        if ev:
            rep.violated('none', key, ev[0].where, 'evaluates %s' % tm.show(it.term(ev[0].data['args'][0], st), 3) if ev[0].data['args'] else '')
        elif t is sym('y'):
            rep.holds('none', key, where(prog, ci, method))
        elif any(e.kind == 'raise' for e in res['events']):
            rep.holds('none', key, where(prog, ci, method), 'refused')
        else:
            rep.unknown('none', key, where(prog, ci, method), 'returns %s' % tm.show(t, 4))


def carried(t):
    """The terms whose values end up in the cells of a table (not those that only pick its rows and columns)."""
    stack, seen = [t], set()
    while stack:
        u = stack.pop()
        if u in seen or not isinstance(u, tm.T):
            continue
        seen.add(u)
        yield u
        if u.op in ('idx', 'attr', 'setattr'):
            stack.append(u.args[0])
        elif u.op == 'meth':
            stack.append(u.args[1])
        elif u.op == 'ite':
            stack.extend(u.args[1:])
        elif u.op == 'upd':
            stack += [u.args[0], u.args[2]]
        else:
            stack.extend(tm.children(u))


def names_rule(rep, prog, ci):
    it = Interp(prog)
    st = St(it)
    res = {}

    def go():
        o = build(it, st, ci)
        n = len(it.events)
        r = it.invoke(o, 'transform', Args([], {'x': it.symval('x', 'df')}), st, 'tr')
        res['events'] = it.events[n:]
        res['terms'] = [it.term(v, st) for v in r.items] if isinstance(r, Tup) else []
    it.run(go, ci.module)
    wh = where(prog, ci, 'transform')
    for f in it.inlined:
        rep.analysed.add(str(f))
    done = False
    made = []
    for e in res['events']:
        if e.kind == 'mutate' and e.data.get('value') is not None:
            v = e.data['value']
            v = v if isinstance(v, tm.T) else it.term(v, st)
            if {x.args[0] for x in tm.walk(v) if x.op == 'const'} >= {'norm_mean', 'norm_std'}:
                made.append((e, v))
    for e, v in made:
        tgt = e.data['target']
        tt = tgt if isinstance(tgt, tm.T) else it.term(tgt, st)
        cat = next((u for u in tm.walk(tt) if u.op == 'call' and u.args[0].endswith('concat') and u.args[1] and u.args[1][0].op in ('list', 'tuple')
                    and len(u.args[1][0].args[0]) == 2), None)
        if cat is None or v.op not in ('list', 'tuple') or len(v.args[0]) != 2:
            continue
        done = True
        order = [[n for n in ('mean', 'std') if 'freq_' + n in tm.deps(p)] for p in cat.args[1][0].args[0]]
        names = [x.args[0].split('_')[-1] if x.op == 'const' else '?' for x in v.args[0]]
        if [o[0] if len(o) == 1 else '?' for o in order] == names:
            rep.holds('names', 'normalizing columns', e.where)
        elif '?' in names or any(len(o) != 1 for o in order):
            rep.unknown('names', 'normalizing columns', e.where, '%s named %s' % (order, names))
        else:
            rep.violated('names', 'normalizing columns', e.where, 'the columns of %s are named %s' % (order, names))
    if not done:
        rep.unknown('names', 'normalizing columns', wh, 'the naming was not recognised')
    # the transform applies the normalisation to what it returns
    for i, (nm, ms) in enumerate((('features', 'AB'), ('target', 'CD'))):
        key = 'transform: %s' % nm
        if len(res['terms']) != 2:
            rep.unknown('everywhere', key, wh)
        elif any(is_eval(u) and 'expr' in tm.deps(u.args[1][0]) for u in carried(res['terms'][i]) if u.op == 'call' and u.args[1]):
            rep.holds('everywhere', key, wh)
        else:
            rep.violated('everywhere', key, wh, 'are returned without the normalisation')


def length(t):
    while t.op == 'idx':
        t = t.args[0]
    return t.op == 'attr' and t.args[1] in ('shape', 'size', 'ndim') or t.op == 'call' and t.args[0].rsplit('.', 1)[-1] in ('len', 'shape', 'size', 'ndim')


def past(rep, prog, ci):
    it = Interp(prog)
    st = St(it)
    made = []

    def go():
        o = it.construct(ci, Args([], {'logger': it.symval('logger')}), st, 'fo')
        n = len(it.events)
        it.invoke(o, 'add_target_normalizer', Args([], {'target': it.symval('T', 'str'), 'function': Sc(const('mean')), 'name': Sc(const('m')),
                                                        'agg_freq': it.symval('freq', 'str'), 'lags': it.symval('lags', 'list')}), st, 'n')
        made.extend(it.events[n:])
    it.run(go, ci.module)
    wh = where(prog, ci, 'add_target_normalizer')
    tests = [e for e in made if e.kind in ('assert', 'branch') and isinstance(e.data['test'], tm.T) and 'lags' in tm.deps(e.data['test'])]
    good, bad = None, None
    for e in tests:
        for u in tm.walk(e.data['test']):
            if u.op != 'cmp' or u.args[0] not in ('<', '<=') or 'lags' not in tm.deps(u) or any(length(w) for w in u.args[1:]):
                continue
            op, l, r = u.args
            zero = [x for x in (l, r) if x.op == 'const' and isinstance(x.args[0], (int, float)) and x.args[0] <= 1]
            other = r if zero and zero[0] is l else l
            if not zero:
                continue
            if other is sym('lags'):
                bad = (e, 'compares the list of lags itself with a number (TypeError)')
                continue
            if zero[0].args[0] < 0:
                bad = (e, 'admits lags that are not positive: %s' % tm.show(u, 4))
            elif zero[0] is l and ((op == '<' and zero[0].args[0] == 0) or (op == '<=' and zero[0].args[0] == 1)):
                good = e           # 0 < lags
            elif zero[0] is r and ((op == '<=' and zero[0].args[0] == 0) or (op == '<' and zero[0].args[0] == 1)):
                good = e           # raised on lags <= 0
            elif zero[0] is l or zero[0] is r:
                bad = (e, 'admits or demands lags that are not positive: %s' % tm.show(u, 4))
    key = 'add_target_normalizer(lags)'
    if good is not None:
        rep.holds('past-only', key, good.where)
    elif bad is not None:
        rep.violated('past-only', key, bad[0].where, bad[1])
    elif not tests:
        rep.violated('past-only', key, wh, 'the lags of a normalizer are not checked')
    else:
        rep.unknown('past-only', key, wh, '; '.join(tm.show(e.data['test'], 4) for e in tests))


def run(rep):
    prog = Program()
    for r, t in (('columns', 'the evaluated expression is stored in the columns that stem from the normalised target, and in no other'),
                 ('same-column', 'the expression is evaluated for the column it is stored in, on a table with the normalizing columns'),
                 ('expression', 'the expression evaluated is the argument, else the formatter\'s own; denormalize evaluates the inverse'),
                 ('everywhere', 'the columns of every transformer and, for targets, of every target transformer are treated and returned'),
                 ('quantile', 'the values normalised for a quantile are stored under that quantile'),
                 ('none', 'without an expression nothing is evaluated and the target is returned as it is'),
                 ('names', 'the normalizing columns carry the names of the normalizers that made them'),
                 ('past-only', 'a normalizer is created with positive lags only')):
        rep.rule(r, t)
    rep.assumptions += ['eval(expression) reads the local variables of the function it is called in']
    ci = TR.find(prog, 'Formatter')
    if ci is None:
        raise AnalysisError('Formatter not found')
    for q in (False, True):
        tag = 'quantiles' if q else 'plain'
        judge(rep, prog, ci, 'normalize (%s)' % tag, 'normalize', {}, q, {'expr'}, 'ABCDEF')
        judge(rep, prog, ci, 'normalize (%s, expression given)' % tag, 'normalize', {'normalizing_fun': '$given'}, q, {'given'}, 'ABCDEF')
        judge(rep, prog, ci, 'denormalize (%s)' % tag, 'denormalize', {}, q, {'inverse'}, 'CDF')
    judge(rep, prog, ci, 'normalize (features only)', 'normalize', {'return_target': False}, False, {'expr'}, 'ABE')
    nothing(rep, prog, ci)
    given_only(rep, prog, ci)
    names_rule(rep, prog, ci)
    past(rep, prog, ci)
