"""C05: an option set with set_params is in force at the next fit.

Each forecaster is constructed on one symbolic value per option and given a second symbolic value per option through
set_params; fit and the predictions must then use the second values.  Rules:

  in-force       an option that takes part in what a freshly constructed forecaster does takes part with its new value
  every-learner  every learner trained after set_params is handed the new value of the options it is handed by name
  reported       get_params then reports the new value, and only it
  returned       set_params returns the forecaster it was called on
  alone          what set_params rebuilds from an option when all options are set, it also rebuilds when only that option is set
"""
from __future__ import annotations
import os
from ..loader import Program, AnalysisError
from ..interp import Interp, St, Args
from ..values import Sc, Dct, Inst
from ..terms import const
from .. import drive, entries
from ..par import pmap
from . import c04

MINIMUM = 60
# the constructor resolves the default of another option from these (periodicity from n_sa, ...): a starting value
RESOLVED = {'m', 'n_sa', 'target_name', 'names_exogenous', 'QRF.q_vect'}
ACTIONS = {'load_path'}         # asks the constructor to do something
PROG = []


def run_class(prog, ci, cfg, ops, nones=False, extra=()):
    it = Interp(prog)
    st = St(it)
    run = drive.Run(it, st, ci, cfg)
    run.sources, run.changed, run.kept, run.got = set(), set(), {}, None

    def go():
        ex = {}
        for n, d, own in c04.options(prog, ci):
            if n in cfg or not (own or n == 'formatter'):
                continue
            if nones and d is not None and c04.literal(d) == (True, None):
                continue
            v = c04.source(it, n, d)
            if v is not None:
                ex[n] = v
                run.sources.add(n)
        run.op('new', lambda: setattr(run, 'obj', drive.make(it, st, ci, cfg, True, extra=ex)))
        f = it.fields(run.obj, st)
        kw = {}
        for n, d, own in c04.options(prog, ci):
            if n in run.sources and n in f and 'p:' + n in it.deps(f[n], st):
                v = it.symval('q:' + n, ex[n].kind)
                kw[n] = v
                run.changed.add(n)
        run.op('set_params', lambda: it.invoke(run.obj, 'set_params', Args([], kw), st, 'set_params'))
        run.got = it.invoke(run.obj, 'get_params', Args([], {}), st, 'get_params')
        f = it.fields(run.obj, st)
        for n in run.changed:
            run.kept[n] = sorted(x for x in it.deps(f[n], st) if x[:2] in ('p:', 'q:')) if n in f else None
        x, y, xt = it.symval('arg:x', 'df'), it.symval('arg:y', 'df'), it.symval('arg:x_te', 'df')
        for o in ops:
            drive.call_op(run, o, x, y, xt)
        for o in extra:
            run.op(o, lambda: entries.invoke(it, st, run.obj, o))
    try:
        it.run(go, ci.module)
    except (AnalysisError, RecursionError) as e:
        run.error = repr(e)[:200]
    return it, st, run


def alone(prog, ci, cfg):
    """{option: attributes that depend on its new value when every option is set, but not when it is the only one}"""
    it = Interp(prog)
    st = St(it)
    out = {}

    def go():
        ex = {}
        for n, d, own in c04.options(prog, ci):
            if n not in cfg and (own or n == 'formatter'):
                v = c04.source(it, n, d)
                if v is not None:
                    ex[n] = v
        obj = drive.make(it, st, ci, cfg, True, extra=ex)
        f = it.fields(obj, st)
        kw = {n: it.symval('q:' + n, v.kind) for n, v in ex.items() if n in f and 'p:' + n in it.deps(f[n], st)}

        def after(ks):
            s = st.copy()
            it.invoke(obj, 'set_params', Args([], {k: kw[k] for k in ks}), s, 'set_params')
            return {a: it.deps(v, s) for a, v in it.fields(obj, s).items() if a != '*'}
        every = after(list(kw))
        for n in kw:
            if any('q:' + n in d for a, d in every.items() if a != n):
                one = after([n])
                out[n] = sorted(a for a, d in every.items() if 'q:' + n in d and a in one and 'q:' + n not in one[a])
    try:
        it.run(go, ci.module)
    except (AnalysisError, RecursionError) as e:
        raise AnalysisError('%s: %r' % (ci.name, e))
    return out


def reported(it, st, run):
    """{option: sources of the value get_params returns for it}"""
    out = {}
    g = run.got
    if isinstance(g, Dct):
        for k, v in st.dc(g.oid).items:
            if isinstance(k, str):
                out[k] = sorted(x for x in it.deps(v, st) if x[:2] in ('p:', 'q:'))
    return out


def analyse(item):
    name, cfg, nones = item
    prog = PROG[0]
    ci = prog.need_class(name)
    extra = c04.extra_ops(prog, ci)
    base = c04.effect((name, cfg, nones))
    it, st, run = run_class(prog, ci, cfg, drive.DEFAULT_OPS, nones=nones, extra=extra)
    if run.error:
        raise AnalysisError('%s: %s' % (run.label, run.error))
    u = c04.used(it, run, prog)
    later = c04.used(it, run, prog, ctor=False)
    sites = {}
    for n, e in run.events():
        if n == 'new':
            continue
        callee, kws = c04.keywords(it, st, e, prog)
        if not callee or e.kind == 'new' and n != 'set_params':
            continue
        w = '%s:%d' % (e.module.rel if e.module else '?', getattr(e.node, 'lineno', 0))
        for k, v in kws:
            if k in run.changed:
                d = it.deps(v, st)
                if 'p:' + k in d or 'q:' + k in d:
                    cur = sites.setdefault((callee, k, w), [False, False])
                    cur[0] |= 'q:' + k in d
                    cur[1] |= 'p:' + k in d
    r = [o for o in run.ops if o[0] == 'set_params']
    res = r[0][3] if r else None
    blur = any(e.kind == 'setattr' and e.data['attr'] == '*' for n, e in run.events('set_params'))
    return {'class': name, 'alone': alone(prog, ci, cfg) if not nones else {}, 'label': run.label, 'blur': blur, 'base': base['used'], 'changed': sorted(run.changed),
            'new': sorted(n for n in run.changed if 'q:' + n in u), 'old': sorted(n for n in run.changed if 'p:' + n in later),
            'reported': reported(it, st, run), 'kept': run.kept, 'sites': sorted((k, v) for k, v in sites.items()),
            'returned': (isinstance(res, Inst) and res.oid == run.obj.oid) if r else None,
            'analysed': sorted({str(f) for f in it.inlined})}


def where(prog, ci):
    m = prog.find_method(ci, 'set_params')
    return '%s:%d' % (m[0].module.rel, m[1].lineno) if m else ci.module.rel


def run(rep):
    prog = Program()
    PROG[:] = [prog]
    c04.PROG[:] = [prog]
    rep.rule('in-force', 'an option that takes part in what a freshly constructed forecaster does takes part, with the value given to '
                         'set_params, in what the forecaster does after it')
    rep.rule('every-learner', 'every third-party learner trained after set_params is handed the new value of the options it is '
                              'handed by name')
    rep.rule('reported', 'get_params reports the value given to set_params, and only it')
    rep.rule('returned', 'set_params returns the forecaster it was called on')
    rep.rule('alone', 'what set_params rebuilds from an option when all options are set, it rebuilds when only that option is set')
    rep.assumptions += ['options that reach the base class only through **kwargs are outside: get_params does not report them']
    rep.assumptions += ['load_path is a request to the constructor, not a setting']
    only = os.environ.get('SA_ONLY')
    cls = [c for c in drive.forecasters(prog) if not only or c.name in only.split(',')]
    items = []
    for ci in cls:
        for c in drive.configs(ci, prog):
            for nones in (False, True):
                items.append((ci.name, c, nones))
    res = {}
    for item, r in zip(items, pmap(analyse, items)):
        if 'class' not in r:
            rep.errors += r['errors']
        else:
            res.setdefault(item[0], []).append(r)
            rep.analysed |= set(r['analysed'])
    for ci in cls:
        rs = res.get(ci.name, [])
        if not rs:
            continue
        w = where(prog, ci)
        base = {n for r in rs for n in r['base']}
        new = {n for r in rs for n in r['new']}
        old = {n for r in rs for n in r['old']}
        for n in sorted({n for r in rs for n in r['changed']}):
            key = '%s.%s' % (ci.name, n)
            if n not in base or n in ACTIONS:
                continue        # inert in a fresh forecaster too: C04's business
            if any(r['blur'] for r in rs):
                rep.unknown('in-force', key, w, 'set_params stores under a name the analysis does not know')
                continue
            if n not in new:
                # judged per configuration: it is in force somewhere fresh, and nowhere after set_params
                rep.violated('in-force', key, w, 'the value given to set_params takes part in nothing%s'
                             % (': the constructor\'s value is still in use' if n in old else ''))
            elif n in old and n not in RESOLVED and key not in RESOLVED:
                rep.violated('in-force', key, w, 'the constructor\'s value is still in use beside the one given to set_params')
            elif any(n in r['base'] and n not in r['new'] for r in rs):
                r = next(r for r in rs if n in r['base'] and n not in r['new'])
                rep.violated('in-force', key, w, 'the value given to set_params takes part in nothing in the configuration %s' % r['label'])
            else:
                rep.holds('in-force', key, w)
            kept = [r['reported'].get(n) for r in rs if n in r['changed']]
            if all(k == ['q:' + n] for k in kept):
                rep.holds('reported', key, w)
            elif any(k is None for k in kept) and all(k is None or k == ['q:' + n] for k in kept):
                rep.unknown('reported', key, w, 'what get_params returns could not be read')
            elif any(k is not None and 'q:' + n not in k for k in kept):
                rep.violated('reported', key, w, 'get_params does not report the new value: %s' % [k for k in kept if k is not None and 'q:' + n not in k][:1])
            else:
                rep.violated('reported', key, w, 'get_params reports a mixture: %s' % kept[:1])
        seen = {}
        for r in rs:
            for (callee, k, site), (q, p) in r['sites']:
                cur = seen.setdefault((callee, k, site), [False, False])
                cur[0] |= q
                cur[1] |= p
        n_of = {}
        for (callee, k, site), (q, p) in sorted(seen.items()):
            i = n_of[(callee, k)] = n_of.get((callee, k), 0) + 1
            key = '%s: %s(%s) at call %d' % (ci.name, callee, k, i)
            if q and not p:
                rep.holds('every-learner', key, site)
            elif p and not q and not any(r['blur'] for r in rs):
                rep.violated('every-learner', key, site, 'is handed the value given to the constructor, not the one given to set_params')
            else:
                rep.unknown('every-learner', key, site, 'is handed a value computed from both')
        for n in sorted({n for r in rs for n in r['alone']}):
            key = '%s.%s' % (ci.name, n)
            left = sorted({a for r in rs for a in r['alone'].get(n, ())})
            if left:
                rep.violated('alone', key, w, 'set on its own it leaves %s as it was' % ', '.join(left))
            else:
                rep.holds('alone', key, w)
        key = ci.name + '.set_params'
        for r in rs:
            if r['returned'] is True:
                rep.holds('returned', key, w)
            elif r['returned'] is False:
                rep.violated('returned', key, w, 'returns something else')
