"""C02: predicting leaves the fitted model as it was.

The forecaster is constructed and fitted symbolically; each prediction entry point is then analysed, and every store it
can make into the model's own storage (attributes, containers, arrays, sub-objects, fitted learners) is examined.
A store that puts back the value that was already there is not a change.
"""
from __future__ import annotations
from ..loader import Program
from .. import drive, terms as tm
from ..interp import Interp, St
from ..values import Inst, Lst, Dct, Tup, Phi, Sc
from ..par import pmap
from ..report import Report

MINIMUM = 150
PREDICT = ('predict', 'predict_quantiles', 'predict_quantiles_np', 'predict_scenarios', 'predict_trees', 'predict_pmf',
           'predict_scenarios_n', 'predict_trees_n')

# documented state that online models advance while predicting: class -> attributes
STATEFUL = {
    # "it is thought that the forecaster is called in sequence on ordinate samples"
    'HoltWinters': {'a', 'b', 's1', 's2'},
}


def objects(v, it, st, path, out, seen):
    """oid -> attribute path of every instance/list/dict the model owns."""
    if isinstance(v, (Inst, Lst, Dct)):
        if v.oid in seen:
            return
        seen.add(v.oid)
        out[v.oid] = path
        if isinstance(v, Inst):
            for k, x in it.fields(v, st).items():
                objects(x, it, st, path + '.' + k if path else k, out, seen)
        elif isinstance(v, Lst):
            lc = st.lc(v.oid)
            for x in lc.items + ((lc.star,) if lc.star is not None else ()):
                objects(x, it, st, path + '[]', out, seen)
        else:
            dc = st.dc(v.oid)
            for _, x in list(dc.items) + ([(None, dc.star)] if dc.star is not None else []):
                objects(x, it, st, path + '[]', out, seen)
    elif isinstance(v, Tup):
        for x in v.items:
            objects(x, it, st, path + '[]', out, seen)
    elif isinstance(v, Phi):
        for _, x in v.alts:
            objects(x, it, st, path, out, seen)


def regions_of(v, it, st, path, out, seen):
    if isinstance(v, Sc):
        for r in it.regions(v, st):
            out.setdefault(r, path)
    elif isinstance(v, (Inst, Lst, Dct)):
        if v.oid in seen:
            return
        seen.add(v.oid)
        if isinstance(v, Inst):
            kids = [('.' + k, x) for k, x in it.fields(v, st).items()]
        elif isinstance(v, Lst):
            lc = st.lc(v.oid)
            kids = [('[]', x) for x in lc.items + ((lc.star,) if lc.star is not None else ())]
        else:
            dc = st.dc(v.oid)
            kids = [('[]', x) for _, x in dc.items] + ([('[]', dc.star)] if dc.star is not None else [])
        for k, x in kids:
            regions_of(x, it, st, (path + k).lstrip('.'), out, seen)
    elif isinstance(v, Tup):
        for x in v.items:
            regions_of(x, it, st, path + '[]', out, seen)
    elif isinstance(v, Phi):
        for _, x in v.alts:
            regions_of(x, it, st, path, out, seen)


_P = None


def analyse(p, ci, cfg, clobber=()):
    """fit + every prediction entry point; `clobber`: attribute slots whose post-fit value is replaced by a marker."""
    it = Interp(p)
    st = St(it)
    run = drive.Run(it, st, ci, cfg)

    def go():
        run.op('new', lambda: setattr(run, 'obj', drive.make(it, st, ci, cfg)))
        x, y, xt = it.symval('arg:x', 'df'), it.symval('arg:y', 'df'), it.symval('arg:x_te', 'df')
        drive.call_op(run, 'fit', x, y, xt)
        for oid, attr in clobber:
            old = st.get(('f', oid, attr))
            k = it.kind_of(it.term(old, st)) if isinstance(old, Sc) else None
            st.set(('f', oid, attr), it.symval('stale:' + attr, k))
        base = st.d
        for o in PREDICT:
            st.d = dict(base)
            drive.call_op(run, o, x, y, xt)
    it.run(go, ci.module)
    return run


def one(t):
    global _P
    if _P is None:
        _P = Program()
    p = _P
    cname, i = t
    rep = Report('C02')
    ci = [c for c in drive.forecasters(p) if c.qual == cname][0]
    cfg = drive.configs(ci, p)[i]
    run = analyse(p, ci, cfg)
    it = run.it
    fit_state = [s for n, a, b, r, s in run.ops if n == 'fit'][0]
    objs, regs = {}, {}
    objects(run.obj, it, fit_state, '', objs, set())
    regions_of(run.obj, it, fit_state, '', regs, set())
    fields = set(it.fields(run.obj, fit_state))
    hits = {}
    slots = set()
    for n, a, b, r, s in run.ops:
        if n not in PREDICT:
            continue
        hits[n] = {}
        for e in it.events[a:b]:
            for attr, why, slot in written(e, it, objs, regs, fit_state):
                hits[n].setdefault(attr, []).append((e, why, slot))
                if slot is not None:
                    slots.add(slot)
    live = {}
    if slots:
        live = stale_reads(p, ci, cfg, sorted(slots, key=str))
    for n in hits:
        for attr in sorted(fields | set(hits[n])):
            root = attr.split('.')[0].split('[')[0]
            key = '%s.%s: %s' % (ci.name, plain(n), root)
            if attr not in hits[n]:
                rep.holds('model-state-written', key)
            for e, why, slot in hits[n].get(attr, ()):
                msg = '%s.%s changes the fitted state `%s`: %s (in %s)' % (ci.name, n, attr, why, e.func)
                if slot is not None and live.get(slot) is None:
                    rep.holds('model-state-written', key, e.where, msg + '; scratch value, never read back')
                elif slot is not None and maybe_unset(fit_state.get(('f',) + slot), it, fit_state):
                    rep.unknown('model-state-written', key, e.where, msg + '; lazily initialised')
                else:
                    rep.violated('model-state-written', key, e.where,
                                 msg + ('; read back by %s' % live[slot] if slot is not None else ''), e.trace())
    for f in it.inlined:
        rep.analysed.add(str(f))
    return rep.export()


def plain(op):
    return op[:-3] if op.endswith('_np') else op[:-2] if op.endswith('_n') else op


def maybe_unset(v, it, st):
    """The value may or may not have been initialised at fit (a join the abstraction could not resolve)."""
    if v is None:
        return False
    if isinstance(v, Phi):
        vals = [it.term(x, st) for _, x in v.alts]
    else:
        vals = tm.alternatives(it.term(v, st))
    isn = [x is tm.NONE for x in vals]
    return any(isn) and not all(isn)


def stale_reads(p, ci, cfg, slots):
    """slot -> the prediction result (or stored state) that depends on the value the slot had after fit."""
    out = {}
    run = analyse(p, ci, cfg, clobber=slots)
    it = run.it
    for oid, attr in slots:
        src = 'stale:' + attr
        for n, a, b, r, s in run.ops:
            if n not in PREDICT:
                continue
            if r is not None and src in it.deps(r, s):
                out[(oid, attr)] = 'the result of %s' % n
                break
            rest = s.copy()
            now = rest.get(('f', oid, attr))
            rest.pop(('f', oid, attr))
            own = tm.alternatives(it.term(now, s)) if isinstance(now, (Sc, Phi)) else []
            if src in it.deps(run.obj, rest) or any(u is not tm.sym(src) and src in tm.deps(u) for u in own):
                # (the marker itself survives on paths that do not overwrite it)
                out[(oid, attr)] = 'the state %s leaves behind' % n
                break
            hit = [e for e in it.events[a:b] if e.kind == 'branch' and src in tm.deps(e.data['test'])]
            if hit:
                out[(oid, attr)] = 'a condition in %s' % n
                break
    return out


def written(e, it, objs, regs, prev):
    """(path of the written state, how, slot or None) for a store into the model's own storage."""
    d = e.data
    if e.kind == 'setattr':
        o = d['obj']
        if isinstance(o, Inst) and o.oid in objs:
            new, old = d.get('value'), prev.get(('f', o.oid, d['attr']))
            if new is not None and old is not None and new == old:
                return
            for c in it.prog.mro(o.cls):
                if d['attr'] in STATEFUL.get(c.name, ()):
                    return
            base = objs[o.oid]
            yield (base + '.' if base else '') + d['attr'], 'assigned', (o.oid, d['attr'])
    elif e.kind in ('setitem', 'append') and 'obj' in d:
        o = d['obj']
        if isinstance(o, (Lst, Dct)) and o.oid in objs:
            yield objs[o.oid], 'element stored', None
    elif e.kind == 'mutate':
        for r in d['regs']:
            if isinstance(r, tuple) and r and r[0] == 'o':
                if r[1] in objs:
                    yield objs[r[1]] or 'self', '%s in place' % d['how'], None
            elif r in regs:
                yield regs[r], '%s in place' % d['how'], None


def run(rep):
    rep.rule('model-state-written', 'no store reachable from a prediction entry point targets storage owned by the fitted '
             'model (attribute, container, array or fitted learner), apart from the documented online state')
    p = Program()
    tasks = [(c.qual, i) for c in drive.forecasters(p) for i in range(len(drive.configs(c, p)))]
    for r in pmap(one, tasks):
        rep.merge(r)
