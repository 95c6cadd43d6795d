"""C04: every constructor option reaches what it configures.

Each forecaster is constructed on symbolic options (one source per option, the options it forwards to its base classes
included) and driven through fit and the predictions.  Rules:

  effect       an option takes part in nothing the forecaster does after its construction, in none of its configurations
  stored       the attribute of the option's name holds another value (swapped or dropped on the way to the base class)
  learner      a keyword of a third-party learner is fed from another option than the one of the same name
"""
from __future__ import annotations
import ast
import os
from ..loader import Program, AnalysisError
from ..interp import Interp, St, Args
from ..values import Sc, Tup, Lst, Dct, Inst, Phi, Part, Wrapped
from ..terms import const, mk
from .. import drive, entries, terms as tm
from ..par import pmap
from ..report import Report

MINIMUM = 60
STR = {'target_name', 'target_col', 'period', 'tol_period'}


def accepts_kwargs(prog, ci):
    m = prog.find_method(ci, '__init__')
    return m is not None and m[1].args.kwarg is not None


def options(prog, ci):
    """[(name, default ast, own)] : the class's own options, then those its base classes take through **kwargs."""
    out = [(n, d, True) for n, d in drive.ctor_params(prog, ci)]
    seen = {n for n, d, o in out}
    base = prog.need_class(drive.BASE)
    mro = prog.mro(ci)
    m = prog.find_method(ci, '__init__')
    cur = m[0] if m else None
    while cur is not None and cur is not base and accepts_kwargs(prog, cur):
        nxt = [b for b in mro[mro.index(cur) + 1:] if '__init__' in b.methods and base in prog.mro(b)]
        if not nxt:
            break
        cur = nxt[0]
        for n, d in drive.ctor_params(prog, cur):
            if n not in seen:
                seen.add(n)
                out.append((n, d, False))
    return out


def literal(d):
    """(is a literal, value) of a default."""
    try:
        return True, ast.literal_eval(d)
    except (ValueError, SyntaxError, TypeError):
        return False, None


def source(it, n, d):
    k = None
    if d is not None:
        ok, v = literal(d)
        if not ok:
            return None         # a class or a callable: keeps its default
        if v is not None:
            k = type(v).__name__
            if k not in ('bool', 'int', 'float', 'str'):
                return None
    return it.symval('p:' + n, 'str' if n in STR else k)


def run_class(prog, ci, cfg, ops, inherited=False, nones=False, without=(), extra=()):
    """Drive the class on symbolic options; nones: the options that default to None keep their default."""
    it = Interp(prog)
    st = St(it)
    run = drive.Run(it, st, ci, cfg)
    run.sources = set()

    def go():
        ex = {}
        for n, d, own in options(prog, ci):
            if n in cfg or n in without or not (own or inherited or n == 'formatter'):
                continue
            if nones and d is not None and literal(d) == (True, None):
                continue
            v = source(it, n, d)
            if v is not None:
                ex[n] = v
                run.sources.add(n)
        run.op('new', lambda: setattr(run, 'obj', drive.make(it, st, ci, cfg, True, extra=ex)))
        x, y, xt = it.symval('arg:x', 'df'), it.symval('arg:y', 'df'), it.symval('arg:x_te', 'df')
        for o in ops:
            drive.call_op(run, o, x, y, xt)
        for o in extra:
            run.op(o, lambda: entries.invoke(it, st, run.obj, o))
    try:
        it.run(go, ci.module)
    except (AnalysisError, RecursionError) as e:
        run.error = repr(e)[:200]
    return it, st, run


def reach(it, v, st):
    """Sources of a value handed over, without those of the model it belongs to (bound methods, `self`)."""
    if isinstance(v, tm.T):
        return set(tm.deps(v))
    if isinstance(v, Sc):
        return set(it.deps(v, st))
    out = set()
    if isinstance(v, Tup):
        for x in v.items:
            out |= reach(it, x, st)
    elif isinstance(v, Lst):
        lc = st.lc(v.oid)
        for x in lc.items + ((lc.star,) if lc.star is not None else ()):
            out |= reach(it, x, st)
    elif isinstance(v, Dct):
        dc = st.dc(v.oid)
        for k, x in dc.items:
            out |= reach(it, x, st)
        if dc.star is not None:
            out |= reach(it, dc.star, st)
    elif isinstance(v, Part):
        for x in v.args:
            out |= reach(it, x, st)
        for _, x in v.kwargs:
            out |= reach(it, x, st)
    elif isinstance(v, Wrapped):
        out |= reach(it, v.fn, st)
    elif isinstance(v, Phi):
        for g, x in v.alts:
            out |= reach(it, x, st)
            for c, p in g:
                out |= tm.deps(c)
    elif isinstance(v, (list, tuple)):
        for x in v:
            out |= reach(it, x, st)
    return out


def none_test(t):
    return any(u.op == 'cmp' and u.args[0] in ('is', 'is not') for u in tm.walk(t) if tm.size(t) < 40)


def used(it, run, prog, ctor=True):
    """Sources that take part in the behaviour: results, decisions, calls into third-party code, network modules."""
    out = set()
    for n, a, b, r, s in run.ops:
        if n == 'new' and not ctor:
            continue
        if n not in ('new', 'set_params') and r is not None and not isinstance(r, Inst):
            out |= it.deps(r, s)
        for e in it.events[a:b]:
            k = e.kind
            if n == 'set_params' and k != 'new':
                continue
            if k == 'branch' and (n != 'new' or not none_test(e.data['test'])):
                out |= tm.deps(e.data['test'])
            elif k == 'ext' and (n != 'new' or is_learning(e.data['path'])):
                for kk in ('args', 'kwargs', 'term'):
                    for v in ((x[1] if kk == 'kwargs' else x) for x in (e.data.get(kk) or ())) if kk != 'term' else (e.data.get('term'),):
                        if v is not None:
                            out |= reach(it, v, s)
            elif k == 'new' and is_module(prog, e.data['cls']):
                for _, v in e.data['kwargs']:
                    out |= reach(it, v, s)
                for v in e.data['args']:
                    out |= reach(it, v, s)
    return out


def is_learning(path):
    return str(path).startswith(LEARNERS) or str(path).startswith(('jax.', 'builtins.open', 'open'))


LEARNERS = ('sklearn.', 'lightgbm.', 'quantile_forest.', 'statsmodels.', 'optax.', 'optuna.')


def is_module(prog, q):
    """A neural network module of the package (its fields are constructor options of its own)."""
    ci = prog.classes.get(q)
    return ci is not None and any(is_ext_module(b) for b in all_bases(prog, ci))


def all_bases(prog, ci):
    return [ast.unparse(b) for c in prog.mro(ci) for b in c.node.bases]


def is_ext_module(b):
    return b.split('.')[-1] == 'Module'


def keywords(it, st, e, prog):
    """(callee, [(keyword, value)]) of the calls that hand options to a learner."""
    if e.kind == 'ext' and str(e.data['path']).startswith(LEARNERS):
        out = [(k, v) for k, v in e.data['kwargs'] if isinstance(k, str)]
        for a in tuple(e.data['args']) + tuple(v for k, v in e.data['kwargs'] if k in ('params', 'param_grid')):
            if isinstance(a, Dct):
                out += [(k, v) for k, v in st.dc(a.oid).items if isinstance(k, str)]
        return e.data['path'], out
    if e.kind == 'new' and is_module(prog, e.data['cls']):
        return e.data['cls'].split('.')[-1], [(k, v) for k, v in e.data['kwargs'] if isinstance(k, str)]
    return None, ()


SKIP = {'fit', 'predict', 'predict_quantiles', 'predict_scenarios', 'predict_trees', 'predict_pmf', 'set_params', 'get_params',
        'set_attr', 'save', 'load', 'init_arch', 'set_arch', 'get_class_properties', 'reinit_pars'}


def extra_ops(prog, ci):
    """Public methods of the class beyond the common interface (optimisers, embeddings, ...)."""
    base = prog.need_class(drive.BASE)
    out = []
    for c in prog.mro(ci):
        if c is base:
            break
        for n, f in c.methods.items():
            deco = {ast.unparse(d).split('.')[-1] for d in f.decorator_list}
            if n.startswith('_') or n in SKIP or n in out or deco & {'staticmethod', 'property', 'setter', 'classmethod'}:
                continue
            if prog.subclasses(base) and c in prog.subclasses(base):
                out.append(n)
    return sorted(out)


def where(prog, ci):
    m = prog.find_method(ci, '__init__')
    return '%s:%d' % (m[0].module.rel, m[1].lineno) if m else ci.module.rel


def fits_base(it, run, prog):
    q = prog.need_class(drive.BASE).qual + '.fit'
    return any(e.kind == 'enter' and e.data['qual'] == q for n, e in run.events('fit'))


def effect(item):
    """used sources of one class in one configuration."""
    name, cfg, nones = item
    prog = PROG[0]
    ci = prog.need_class(name)
    ops = drive.DEFAULT_OPS
    it, st, run = run_class(prog, ci, cfg, ops, nones=nones, extra=extra_ops(prog, ci))
    if run.error:
        raise AnalysisError('%s: %s' % (run.label, run.error))
    learner, sites = {}, {}
    for n, e in run.events():
        callee, kws = keywords(it, st, e, prog)
        w = '%s:%d' % (e.module.rel if e.module else '?', getattr(e.node, 'lineno', 0))
        site = sites.setdefault((callee, w), {}) if callee and e.kind == 'ext' and n == 'fit' else {}
        for k, v in kws:
            d = {x[2:] for x in it.deps(v, st) if x.startswith('p:')}
            learner.setdefault((callee, k), [set(), w])[0].update(d)
            site.setdefault(k, set()).update(d)
    return {'class': name, 'used': sorted(x[2:] for x in used(it, run, prog) if x.startswith('p:')),
            'sources': sorted(run.sources), 'base': fits_base(it, run, prog), 'analysed': sorted({str(f) for f in it.inlined}),
            'learner': sorted((k[0], k[1], sorted(v[0]), v[1]) for k, v in learner.items()), 'label': run.label,
            'sites': sorted((c, w, sorted((k, sorted(d)) for k, d in m.items())) for (c, w), m in sites.items())}


PROG = []
HEAVY = {'HoltWintersMulti'}      # the configuration with every switch symbolic is out of reach: both switches are enumerated


def forwarded(rep, it, st, ci, e):
    """Options handed to a function of the package arrive in the parameters of their names, not in one another's."""
    src = {}
    for k, v in e.data['bound']:
        if isinstance(v, Sc):
            d = {x[2:] for x in it.deps(v, st) if x.startswith('p:')}
            if d:
                src[k] = d
    for k, d in src.items():
        key = '%s: %s(%s)' % (ci.name, e.data['qual'].split('.', 1)[-1], k)
        if k in d:
            rep.holds('forwarded', key, e.where)
        elif len(d) == 1 and next(iter(d)) in src and k in src[next(iter(d))]:
            rep.violated('forwarded', key, e.where, 'exchanged with %s' % next(iter(d)))


def stored(rep, prog, ci):
    it, st, run = run_class(prog, ci, {}, (), inherited=True)
    clash = {str(e.data['why']).rsplit(' ', 1)[-1] for e in it.events if e.kind == 'argerror'}
    if clash:
        it, st, run = run_class(prog, ci, {}, (), inherited=True, without=clash)
    if run.error or run.obj is None:
        rep.errors.append('%s: %s' % (ci.name, run.error))
        return
    for n, e in run.events():
        if e.kind == 'enter':
            forwarded(rep, it, st, ci, e)
    f = it.fields(run.obj, st)
    for n in sorted(run.sources):
        key = '%s.%s' % (ci.name, n)
        if n not in f:
            continue        # not kept under its own name
        d = sorted(x[2:] for x in it.deps(f[n], st) if x.startswith('p:'))
        if n in d:
            rep.holds('stored', key, where(prog, ci))
        elif d:
            rep.violated('stored', key, where(prog, ci), 'the attribute %s holds the option %s' % (n, ', '.join(d)))
        else:
            rep.violated('stored', key, where(prog, ci), 'the attribute %s does not hold what was passed: %s'
                         % (n, tm.show(it.term(f[n], st), 3)))


def run(rep):
    prog = Program()
    PROG[:] = [prog]
    rep.rule('effect', 'a constructor option takes part in something the forecaster does after its construction (a result, a '
                       'decision, a call into a learner or a network module) in at least one configuration')
    rep.rule('stored', 'the attribute named after an option holds that option, also when it is forwarded to a base class')
    rep.rule('forwarded', 'options handed to a function of the package do not arrive in one another\'s parameters')
    rep.rule('learner', 'a keyword of a third-party learner or network module named as an option is fed from that option')
    rep.rule('every-learner', 'an option handed to a third-party learner at one call reaches every learner of that kind the '
                              'forecaster builds')
    only = os.environ.get('SA_ONLY')        # development aid: restrict to some classes
    cls = [c for c in drive.forecasters(prog) if not only or c.name in only.split(',')]
    items = []
    for ci in cls:
        cfgs = [c for c in drive.configs(ci, prog)]
        if {} not in cfgs and ci.name not in HEAVY:
            cfgs.append({})
        for c in cfgs:
            for nones in (False, True):
                items.append((ci.name, c, nones))
    base_opts = {n for n, d in drive.ctor_params(prog, prog.need_class(drive.BASE))}
    res = {}
    for item, r in zip(items, pmap(effect, items)):
        if 'class' not in r:
            rep.errors += r['errors']
            res.setdefault(item[0], []).append(None)
        else:
            res.setdefault(item[0], []).append(r)
            rep.analysed |= set(r['analysed'])
    for ci in cls:
        rs = res.get(ci.name, [])
        ok = [r for r in rs if r]
        use = {x for r in ok for x in r['used']}
        src = {x for r in ok for x in r['sources']}
        runs_base = any(r['base'] for r in ok)
        own = {n for n, d, o in options(prog, ci) if o}
        for n in sorted(own & src):
            key = '%s.%s' % (ci.name, n)
            if n in use:
                rep.holds('effect', key, where(prog, ci))
            elif len(ok) < len(rs):
                rep.unknown('effect', key, where(prog, ci), 'not every configuration could be analysed')
            elif n in base_opts and not runs_base:
                rep.holds('effect', key, where(prog, ci), 'an option of the scenario generator, which this class does not fit')
            else:
                rep.violated('effect', key, where(prog, ci), 'the option takes part in nothing in %d configurations' % len(ok))
        feeds = {}
        for r in ok:
            for callee, k, d, w in r['learner']:
                cur = feeds.setdefault((callee, k), [set(), w])
                cur[0].update(d)
        opts = {n for n, d, o in options(prog, ci)}
        for (callee, k), (d, w) in sorted(feeds.items()):
            if k not in src:
                continue
            key = '%s: %s(%s)' % (ci.name, callee, k)
            if k in d:
                rep.holds('learner', key, w)
            elif d and (any((callee, j) in feeds for j in d) or not any(k in d2 for (c2, k2), (d2, _) in feeds.items() if k2 == k)):
                rep.violated('learner', key, w, 'fed from %s' % ', '.join(sorted(d)))
            else:
                rep.unknown('learner', key, w, 'fed from %s' % (', '.join(sorted(d)) or 'a constant'))
        at = {}
        for r in ok:
            for callee, w, m in r['sites']:
                cur = at.setdefault(callee, {}).setdefault(w, {})
                for k, d in m:
                    cur.setdefault(k, set()).update(d)
        for callee, ws in sorted(at.items()):
            fed = {k for m in ws.values() for k, d in m.items() if k in d and k in src}
            for i, (w, m) in enumerate(sorted(ws.items())):
                for k in sorted(fed):
                    key = '%s: %s(%s) at call %d of %d' % (ci.name, callee, k, i + 1, len(ws))
                    if k in m and k in m[k]:
                        rep.holds('every-learner', key, w)
                    else:
                        rep.violated('every-learner', key, w, 'is %s here, and the option elsewhere'
                                     % ('not passed' if k not in m else 'something else'))
        stored(rep, prog, ci)
