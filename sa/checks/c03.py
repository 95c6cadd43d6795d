"""C03: fitting again starts from scratch.

A forecaster is constructed, fitted on one data set and fitted again on another one; whatever it then holds or predicts
must not depend on the first data set.  The two fits are analysed on two unrelated symbolic data sets, and the taint of
the first one is looked for in every attribute of the refitted model and in every prediction it gives.
"""
from __future__ import annotations
from ..loader import Program
from .. import drive, terms as tm
from ..terms import mk
from ..interp import Interp, St
from ..values import Sc, Tup, Lst, Dct, Inst, Phi
from ..par import pmap
from ..report import Report
from ..sure import sure
from .c02 import objects, regions_of

MINIMUM = 100
OPS = ('predict', 'predict_quantiles', 'predict_quantiles_np', 'predict_scenarios', 'predict_trees')
OLD = ('arg:x', 'arg:y')
NEW = ('arg:x2', 'arg:y2')
# documented online models: "predictions are a function of the past history seen by the model"
ONLINE = {'StatefulForecaster', 'HoltWinters', 'HoltWintersMulti'}

_P = None


def estimators(p):
    """Every offline forecaster, and every other class that is fitted on (x, y) and then predicts."""
    fc = drive.forecasters(p)
    out = [c for c in fc if not any(b.name in ONLINE for b in p.mro(c))]
    skip = set(fc) | {c for c in p.classes.values() if c.name in drive.ABSTRACT}
    for c in p.classes.values():
        if c not in skip and not any(b in fc or b.name == drive.BASE for b in p.mro(c)):
            m, q = p.find_method(c, 'fit'), p.find_method(c, 'predict')
            if m and q and len(m[1].args.args) >= 3:
                out.append(c)
    return sorted(out, key=lambda c: c.qual)


def session(p, ci, cfg, keep=None):
    """new, fit on the old data, back to the unfitted state except for the slots in `keep`, fit on the new data, predict.

    keep=None carries everything over (the real sequence)."""
    it = Interp(p)
    st = St(it)
    run = drive.Run(it, st, ci, cfg)

    def go():
        run.op('new', lambda: setattr(run, 'obj', drive.make(it, st, ci, cfg)))
        run.d0 = dict(st.d)
        run.n0 = len(it._fidtab)
        x, y, xt = it.symval('arg:x', 'df'), it.symval('arg:y', 'df'), it.symval('arg:x_te', 'df')
        drive.call_op(run, 'fit', x, y, xt)
        run.d1 = dict(st.d)
        if keep is not None:
            d = dict(st.d)
            for k in carried(run):
                if k not in keep:
                    if k in run.d0:
                        d[k] = run.d0[k]
                    else:
                        d.pop(k, None)
            st.d = d
        drive.call_op(run, 'refit', x, y, xt)
        base = st.d
        for o in OPS:
            if not p.find_method(ci, o.replace('_np', '')):
                continue
            st.d = dict(base)
            drive.call_op(run, o, x, y, xt)
    it.run(go, ci.module)
    return run


def carried(run):
    """Slots of objects that existed before the first fit and that the fit changed or added."""
    d0, d1 = run.d0, run.d1
    return [k for k in d1 if isinstance(k, tuple) and k[0] in ('f', 'l', 'd', 'c') and isinstance(k[1], int) and k[1] <= run.n0
            and d1[k] is not d0.get(k) and d1[k] != d0.get(k)]


def terms_of(it, v, st, out, seen):
    if v in seen:
        return
    seen.add(v)
    if isinstance(v, Sc):
        out.append(it.term(v, st))
    elif isinstance(v, Inst):
        for x in it.fields(v, st).values():
            terms_of(it, x, st, out, seen)
    elif isinstance(v, Lst):
        lc = st.lc(v.oid)
        for x in lc.items + ((lc.star,) if lc.star is not None else ()):
            terms_of(it, x, st, out, seen)
    elif isinstance(v, Dct):
        dc = st.dc(v.oid)
        for x in [x for _, x in dc.items] + ([dc.star] if dc.star is not None else []):
            terms_of(it, x, st, out, seen)
    elif isinstance(v, Tup):
        for x in v.items:
            terms_of(it, x, st, out, seen)
    elif isinstance(v, Phi):
        for g, x in v.alts:
            for t, yes in g:
                while t.op == 'not':
                    t, yes = t.args[0], not yes
                # the list or dictionary of the first fit is kept because it is not empty
                if yes and isinstance(x, (Lst, Dct)) and t.op in ('listof', 'dict') and set(OLD) & tm.deps(t) & tm.deps(it.term(x, st)) \
                        and not set(NEW) & tm.deps(t):
                    out.append(mk('ite', t, t, tm.NONE))
            terms_of(it, x, st, out, seen)


def kept(it, v, st):
    """The value is computed from `a if a is set else new`, where a comes from the first fit: once set, a stays."""
    stack, seen = [], set()
    terms_of(it, v, st, stack, set())
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        stack += tm.children(u)
        if u.op != 'ite':
            continue
        k = u.args[0]
        while k.op == 'not':
            k = k.args[0]
        a = k.args[0] if k.op == 'truth' else k
        if k.op == 'cmp' and tm.NONE in k.args[1:]:
            a = [z for z in k.args[1:] if z is not tm.NONE][:1]
            a = a[0] if a else k
        if a in u.args[1:] and set(OLD) & tm.deps(a) and not set(NEW) & tm.deps(a):
            return True
    return False


def taint(run):
    """[(what, sure)] for every field of the refitted model and every prediction that still sees the old data."""
    it = run.it
    out = []
    re_state = [s for n, a, b, r, s in run.ops if n == 'refit'][0]
    for k, v in it.fields(run.obj, re_state).items():
        if set(OLD) & set(it.deps(v, re_state)):
            out.append(('attribute `%s`' % k, bool(set(OLD) & sure(it, v, re_state)) or kept(it, v, re_state)))
    for n, a, b, r, s in run.ops:
        if n in OPS and r is not None and set(OLD) & set(it.deps(r, s)):
            out.append(('the result of ' + n.replace('_np', ''), bool(set(OLD) & sure(it, r, s, branches=True)) or kept(it, r, s)))
    return out


def one(t):
    global _P
    if _P is None:
        _P = Program()
    p = _P
    cname, i = t
    rep = Report('C03')
    ci = [c for c in estimators(p) if c.qual == cname][0]
    cfg = drive.configs(ci, p)[i]
    run = session(p, ci, cfg)
    it = run.it
    fit_state = [s for n, a, b, r, s in run.ops if n == 'fit'][0]
    paths = {}
    objects(run.obj, it, fit_state, '', paths, set())
    regs = {}
    regions_of(run.obj, it, fit_state, '', regs, set())
    everything = taint(run)
    slots = {}
    for k in carried(run):
        base = paths.get(k[1]) if k[0] != 'c' else regs.get(k[1])
        if base is None:
            continue
        name = base + ('.' if base else '') + k[2] if k[0] == 'f' else base
        slots.setdefault(name, []).append(k)
    for name in sorted(slots):
        key = '%s: %s' % (ci.name, name)
        if not everything:
            rep.holds('refit-keeps-old-data', key)
            continue
        sub = session(p, ci, cfg, keep=set(slots[name]))
        ts = [z for z in taint(sub)]
        definite = [w for w, s in ts if s]
        maybe = [w for w, s in ts if not s]
        if definite:
            rep.violated('refit-keeps-old-data', key, where(run, it, slots[name][0]), '`%s` of %s carries the data of the first '
                         'fit over a second fit, into %s' % (name, run.label, ', '.join(sorted(set(definite)))[:200]))
        elif maybe:
            rep.unknown('refit-keeps-old-data', key, '', 'may carry over into %s' % ', '.join(sorted(set(maybe)))[:160])
        else:
            rep.holds('refit-keeps-old-data', key)
    for f in it.inlined:
        rep.analysed.add(str(f))
    return rep.export()


def where(run, it, slot):
    last = ''
    for n, a, b, r, s in run.ops:
        if n == 'fit':
            for e in it.events[a:b]:
                if e.kind == 'setattr' and getattr(e.data['obj'], 'oid', None) == slot[1] and slot[0] == 'f' \
                        and e.data['attr'] == slot[2]:
                    last = e.where
                elif slot[0] != 'f' and e.kind == 'mutate' and (('o', slot[1]) in e.data['regs'] or slot[1] in e.data['regs']):
                    last = e.where
    return last or run.cls.module.rel


def run(rep):
    rep.rule('refit-keeps-old-data', 'after fit(x, y) and then fit(x2, y2), no attribute of the '
             'model and no prediction depends on x or y through state the first fit left behind')
    p = Program()
    tasks = [(c.qual, i) for c in estimators(p) for i in range(len(drive.configs(c, p)))]
    for r in pmap(one, tasks):
        rep.merge(r)
