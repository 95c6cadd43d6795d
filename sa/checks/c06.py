"""C06: results are reproducible: the same data, settings and seed give the same result.

  seeded       predict_scenarios and predict_trees draw every random number from the random_state they are given
  no-draw      point and quantile forecasts, calibration, transformations and reductions draw no random numbers
  reseed       nothing reseeds the process-wide random generators
  seeded-rows  the rows kept for the calibration are drawn from a generator seeded by the forecaster's seed options
  ambient      no result depends on the clock, the process or the order in which parallel workers finish
  set-order    the (per-process) iteration order of a set does not reach a result
"""
from __future__ import annotations
from ..loader import Program, AnalysisError
from ..interp import Interp, St, Args
from ..values import Sc, Tup
from ..terms import const
from .. import drive, entries, terms as tm
from ..par import pmap
from ..report import Report
from . import c01

MINIMUM = 60

# fits that are random by nature (bootstrap rows, batches, random features, random search), unless the caller seeds numpy
RANDOM_TRAINING = {'LGBMHybrid', 'RFFRegression', 'AdditiveRFFRegression', 'NN', 'HoltWinters', 'HoltWintersMulti', 'Fourier_es', 'FK',
                   'FK_multi'}
# entry points whose purpose is to draw at random without a seed argument
RANDOM_ENTRIES = {'bootstrap', 'tune_hyperpars', 'fit_sample', 'fit_features', 'HierarchicalReconciliation.predict_scenarios', 'cross_validate',
                  'hyperpar_optimizer', 'optuna_objective', 'HierarchicalReconciliation.predict_quantiles', 'seed',
                  'refine_scenarios', 'get_rff_matrix', 'get_orf_matrix', 'BrutalRegressor.fit', 'RandomFFRegressor.fit',
                  'RandomFFRegressor.predict', 'RandomFFRegressor.score'}
NOT_DRAWS = {'seed', 'default_rng', 'RandomState', 'Generator', 'get_state', 'set_state', 'SeedSequence', 'PCG64', 'MT19937', 'BitGenerator', 'Philox',
             'SFC64', 'mtrand', 'bit_generator'}
MAKERS = {'default_rng', 'RandomState', 'Generator', 'PCG64', 'MT19937', 'SeedSequence', 'Philox', 'SFC64', 'check_random_state'}
SK = {'sklearn.utils.resample', 'sklearn.utils.shuffle', 'sklearn.model_selection.train_test_split'}


def where(e):
    return '%s:%d' % (e.module.rel if e.module else '?', getattr(e.node, 'lineno', 0))


def seeded(it, st, v, sources):
    """Is the value a fixed number or computed from one of the sources?  None: unknown"""
    if v is None:
        return False
    ok, c = it.known(v)
    if ok:
        return c is not None
    d = it.deps(v, st)
    if d & sources:
        return True
    return False if not d else None


def draws(it, st, events, sources):
    """(event, 'global' | 'unseeded' | 'unknown' | 'seeded' | 'reseed', what)"""
    out = []
    for e in events:
        if e.kind != 'ext':
            continue
        p = str(e.data['path'])
        last = p.rsplit('.', 1)[-1]
        kw = dict(e.data['kwargs'])
        args = e.data['args']
        if p.startswith('numpy.random.') or p.startswith('random.') and last.islower():
            if last == 'seed':
                out.append((e, 'reseed', p))
            elif last in MAKERS:
                s = seeded(it, st, args[0] if args else kw.get('seed'), sources)
                out.append((e, 'seeded' if s else 'unseeded' if s is False else 'unknown', p))
            elif last not in NOT_DRAWS:
                out.append((e, 'global', p))
        elif last == 'rvs' or p in SK or last == 'sample' and p.startswith('.') and ('n' in kw or 'frac' in kw or args):
            r = kw.get('random_state')
            if r is None and last == 'rvs' and len(args) > 1:
                r = args[-1]
            s = seeded(it, st, r, sources)
            out.append((e, 'seeded' if s else 'global' if s is False else 'unknown', p))
        elif last == 'check_random_state':
            s = seeded(it, st, args[0] if args else None, sources)
            out.append((e, 'seeded' if s else 'global' if s is False else 'unknown', p))
    return out


# ------------------------------------------------------------------------------------------- set order

def is_set(t):
    if t.op in ('set', 'setof'):
        return t.op == 'setof' or len(t.args[0]) > 1
    if t.op == 'call' and t.args[0].rsplit('.', 1)[-1] in ('set', 'frozenset'):
        return bool(t.args[1])
    if t.op == 'bin' and t.args[0] in ('-', '&', '|', '^'):
        return is_set(t.args[1])
    if t.op == 'meth' and t.args[0] in ('union', 'difference', 'intersection', 'symmetric_difference', 'copy'):
        return is_set(t.args[1])
    return False


FREE = {'sorted', 'unique', 'sort', 'len', 'any', 'all', 'min', 'max', 'set', 'frozenset', 'isin', 'issubset', 'issuperset', 'shape', 'nunique', 'sum',
        'index_union', 'union1d', 'intersect1d', 'setdiff1d', 'sort_index', 'sort_values', 'isdisjoint', 'union', 'difference', 'intersection'}
NUMERIC = {'nodes', 'leaves'}       # node numbers of a tree: small integers hash to themselves in every process


def numeric(t):
    for u in tm.walk(t):
        if u.op == 'attr' and u.args[1] in NUMERIC or u.op == 'call' and 'get_node_attributes' in u.args[0]:
            return True
    return False


def leaks(t, deep=4000):
    """Sub-terms in which the elements of a set are put in a sequence by its iteration order."""
    out, seen, stack = [], set(), [t]
    while stack and len(seen) < deep:
        u = stack.pop()
        if u in seen or not isinstance(u, tm.T):
            continue
        seen.add(u)
        if u.op == 'call' and u.args[0].rsplit('.', 1)[-1] in FREE or u.op == 'meth' and u.args[0] in FREE:
            if u.op == 'meth' and u.args[0] in ('sort_values', 'sort_index'):
                stack.append(u.args[1])     # sorts rows; the columns keep their order
            continue
        if u.op == 'cmp' and u.args[0] in ('in', 'not in'):
            stack.append(u.args[1])
            continue
        if u.op in ('len', 'set', 'setof'):
            continue
        if u.op == 'ite':
            stack.extend(u.args[1:])
            continue
        if u.op == 'listof' and isinstance(u.args[2], tm.T):
            over = u.args[2]
            src = over.args[0] if over.op == 'filter' else over
            if is_set(src) and not numeric(src):
                out.append(src)
                continue
        if u.op == 'call' and u.args[0].rsplit('.', 1)[-1] in ('list', 'tuple', 'array', 'asarray', 'Index', 'hstack', 'enumerate', 'iter') and u.args[1] \
                and is_set(u.args[1][0]) and not numeric(u.args[1][0]):
            out.append(u.args[1][0])
            continue
        stack.extend(tm.children(u))
    return out


AMBIENT = {'time.time', 'time.time_ns', 'time.perf_counter', 'time.monotonic', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.date.today',
           'pandas.Timestamp.now', 'pandas.Timestamp.today', 'pandas.Timestamp.utcnow', 'hash', 'builtins.hash', 'id', 'builtins.id', 'os.getpid',
           'os.urandom', 'uuid.uuid4', 'uuid.uuid1', 'concurrent.futures.as_completed', 'concurrent.futures.wait', 'os.listdir', 'glob.glob', 'os.scandir',
           'os.environ', 'os.getenv', 'secrets.randbits', 'secrets.token_bytes'}
UNORDERED = {'imap_unordered', 'as_completed', 'map_unordered'}


def ambient(t, deep=20000):
    """Sub-terms whose value depends on the clock, the process or the order in which workers finish."""
    out, seen, stack = [], set(), [t]
    while stack and len(seen) < deep:
        u = stack.pop()
        if u in seen or not isinstance(u, tm.T):
            continue
        seen.add(u)
        if u.op == 'call' and isinstance(u.args[0], str) and (u.args[0] in AMBIENT or u.args[0].rsplit('.', 1)[-1] in UNORDERED) or \
                u.op == 'meth' and u.args[0] in UNORDERED:
            out.append(u)
            continue
        stack.extend(tm.children(u))
    return out


def sets_rule(rep, it, st, entry, v, wh, events):
    try:
        t = it.term(v, st)
    except Exception:
        return
    ls = leaks(t)
    if ls:
        rep.violated('set-order', entry, wh, 'the result is ordered by the iteration order of %s' % tm.show(ls[0], 4))
    else:
        rep.holds('set-order', entry, wh)
    amb = ambient(t)
    if amb:
        rep.violated('ambient', entry, wh, 'the result depends on %s' % tm.show(amb[0], 4))
    else:
        rep.holds('ambient', entry, wh)


# ------------------------------------------------------------------------------------------- tasks

def judge(rep, it, st, events, entry, sources, want, wh):
    """want: 'seeded' | 'none' | 'calibration' | 'any'"""
    ds = draws(it, st, events, sources)
    for f in it.inlined:
        rep.analysed.add(str(f))
    rule = {'seeded': 'seeded', 'none': 'no-draw', 'calibration': 'no-draw'}.get(want)
    bad = False
    for e, k, p in ds:
        key = '%s: %s in %s' % (entry, p.rsplit('.', 1)[-1], e.func or '?')
        if k == 'reseed':
            rep.violated('reseed', key, where(e), '%s changes the random numbers of the whole process' % p)
            continue
        if want == 'any':
            continue
        if want == 'calibration' and not core(e) or entry.endswith('.fit') and prefit(e):
            continue
        if k in ('global', 'unseeded') and merged(e):
            rep.unknown(rule, key, where(e), 'whether it draws depends on the merged state of a list of objects')
            continue
        if k in ('global', 'unseeded'):
            rep.violated(rule, key, where(e), '%s %s' % (p, 'is not drawn from the given random_state' if want == 'seeded' else
                                                        'is drawn from %s' % ('the process-wide generator' if k == 'global' else
                                                                              'a generator without a seed')))
            bad = True
        elif k == 'unknown':
            rep.unknown(rule, key, where(e), '%s: the seed is %s' % (p, 'not resolved'))
        elif want == 'seeded':
            rep.holds('seeded', key, where(e))
    if not bad and want != 'any':
        rep.holds(rule, entry, wh)
    if not any(k == 'reseed' for _, k, _ in ds):
        rep.holds('reseed', entry, wh)


PREFIT = {'p:online_tree_reduction', 'p:prefit_trees'}


def prefit(e):
    """On a path on which the calibration builds the trees beforehand, from scenarios it samples (there is no seed option for them)"""
    return any(isinstance(c[0], tm.T) and any(u.op == 'sym' and u.args[0] in PREFIT for u in tm.walk(c[0])) for c in e.pc)


def merged(e):
    """Is the draw under a test of the state of a generic element of a list (every element, before and after some loop)?"""
    return any(isinstance(c[0], tm.T) and c[0].op == 'phi' and not any(u.op == 'sym' for u in tm.walk(c[0])) for c in e.pc)


def core(e):
    r = e.module.rel if e.module else ''
    return r.rsplit('/', 1)[-1] in ('forecaster.py', 'scenarios_generator.py', 'copula.py', 'scenred.py', 'tree_builders.py')


def random_training(p, ci):
    return any(c.name in RANDOM_TRAINING for c in p.mro(ci))


def task_forecaster(t):
    _, cname, i = t
    p = c01.prog()
    rep = Report('C06')
    ci = [c for c in drive.forecasters(p) if c.qual == cname][0]
    cfg = drive.configs(ci, p)[i]
    run = drive.drive(p, ci, cfg)
    if run.error:
        rep.errors.append('%s: %s' % (run.label, run.error))
    it = run.it
    for n, a, b, r, s in run.ops:
        ev = it.events[a:b]
        entry = '%s.%s' % (ci.name, n.replace('_np', ''))
        m = p.find_method(ci, n.replace('_np', '')) if n != 'new' else p.find_method(ci, '__init__')
        wh = '%s:%d' % (m[0].module.rel, m[1].lineno) if m else ci.module.rel
        if n in ('predict_scenarios', 'predict_trees'):
            if cfg.get('tree_type') == 'NeuralGas':
                entry += '(NeuralGas)'
            judge(rep, it, s, ev, entry, {'arg:random_state'}, 'seeded', wh)
        elif n == 'new':
            judge(rep, it, s, ev, '%s.__init__' % ci.name, set(), 'any', wh)
        elif n == 'fit':
            judge(rep, it, s, ev, entry, {'p:random_state', 'p:scengen_random_state'}, 'any' if cfg.get('online_tree_reduction') is False else 'calibration' if random_training(p, ci) else 'none', wh)
        else:
            judge(rep, it, s, ev, entry, set(), 'none', wh)
        if r is not None and n not in ('fit', 'new'):
            sets_rule(rep, it, s, entry, r, wh, ev)
    return rep.export()


def ctor(p, ci):
    m = p.find_method(ci, '__init__')
    a = m[1].args if m else None
    return {x.arg for x in a.args + a.kwonlyargs} if a else set()


def task_rows(t):
    """The post-fit subsample of the base class."""
    p = c01.prog()
    rep = Report('C06')
    base = p.need_class('ScenarioGenerator')
    cases = [(base, h, 'p:scengen_random_state') for h in (True, False)]
    cases += [(ci, True, 'p:random_state') for ci in drive.forecasters(p) if {'random_state', 'max_scengen_rows'} <= ctor(p, ci)]
    for ci, hourly, source in cases:
        it = Interp(p)
        st = St(it)

        def go():
            kw = {'conditional_to_hour': Sc(const(hourly), kind='bool')} if ci is base else {}
            kw['max_scengen_rows'] = it.symval('p:max_scengen_rows', 'int')
            if source == 'p:random_state':
                kw['scengen_random_state'] = Sc(const(None))
                kw['random_state'] = it.symval(source, 'int')
            else:
                kw['scengen_random_state'] = it.symval(source, 'int')
            o = entries.build(it, st, ci, kw)
            a = len(it.events)
            entries.invoke(it, st, o, 'fit', {'x': it.symval('arg:x', 'df'), 'y': it.symval('arg:y', 'df')})
            key = '%s.fit(max_scengen_rows)' % ci.name
            if ci is base:
                judge(rep, it, st, it.events[a:], key, {source}, 'none', ci.module.rel)
            mk = [e for e, k, q in draws(it, st, it.events[a:], {source}) if q.rsplit('.', 1)[-1] in MAKERS and core(e)]
            for e in mk:
                d = set()
                for v in e.data['args'][:1]:
                    d |= it.deps(v, st)
                if source in d:
                    rep.holds('seeded-rows', key, where(e))
                else:
                    rep.violated('seeded-rows', key, where(e), 'the generator that picks the rows is not seeded by %s' % source[2:])
            if not mk:
                rep.unknown('seeded-rows', key, ci.module.rel, 'no seeded generator found')
        it.run(go, ci.module)
    return rep.export()


def task_function(t):
    _, mod, name = t
    p = c01.prog()
    rep = Report('C06')
    m = p.modules.get(mod)
    if m is None or m.bindings.get(name, ('',))[0] != 'def':
        return rep.export()
    it, st, r = entries.call_function(p, m, name)
    wh = '%s:%d' % (m.rel, m.bindings[name][1].lineno)
    judge(rep, it, st, it.events, name, {'arg:random_state'}, 'any' if name in RANDOM_ENTRIES else 'none', wh)
    sets_rule(rep, it, st, name, r, wh, it.events)
    return rep.export()


def task_formatter(t):
    _, method, variant = t
    p = c01.prog()
    rep = Report('C06')
    it = Interp(p)
    st = St(it)
    fc = p.need_class('Formatter')

    def go():
        f = c01.formatter(it, st, variant)
        if method in ('prune_dataset_at_stepahead', 'denormalize'):
            it.invoke(f, 'transform', Args([it.symval('fitdata', 'df')], {}), st, 'pre')
        a = len(it.events)
        r = entries.invoke(it, st, f, method)
        m = p.find_method(fc, method)
        wh = '%s:%d' % (m[0].module.rel, m[1].lineno)
        judge(rep, it, st, it.events[a:], 'Formatter.%s' % method, set(), 'none', wh)
        sets_rule(rep, it, st, 'Formatter.%s' % method, r, wh, it.events[a:])
    it.run(go, fc.module)
    return rep.export()


def task_class(t):
    _, cname, method = t
    p = c01.prog()
    rep = Report('C06')
    ci = p.need_class(cname)
    it = Interp(p)
    st = St(it)

    def go():
        o = entries.build(it, st, ci)
        if method != 'fit' and p.find_method(ci, 'fit') and cname != 'HierarchicalReconciliation':
            it.invoke(o, 'fit', Args([it.symval('fit:y', 'df'), it.symval('fit:x', 'df')], {}), st, 'prefit')
        if method != 'fit' and cname == 'HierarchicalReconciliation':
            it.invoke(o, 'fit', Args([it.symval('fit:x', 'df'), it.symval('fit:y', 'df')], {}), st, 'prefit')
        a = len(it.events) if method not in ('fit', 'gen_tree', 'transform') else 0
        m = p.find_method(ci, method)
        wh = '%s:%d' % (m[0].module.rel, m[1].lineno)
        entry = '%s.%s' % (cname, method)
        sample = method in ('sample', 'sample_scenarios', 'predict_scenarios', 'predict_trees') and entry not in RANDOM_ENTRIES
        kw = {'random_state': it.symval('arg:random_state', 'int')} if sample else {}
        r = entries.invoke(it, st, o, method, kw)
        judge(rep, it, st, it.events[a:], entry, {'arg:random_state'}, 'any' if entry in RANDOM_ENTRIES else 'seeded' if sample else 'none', wh)
        if r is not None:
            sets_rule(rep, it, st, entry, r, wh, it.events[a:])
    it.run(go, ci.module)
    return rep.export()


def tasks(p):
    return [t for t in c01.tasks(p) if t[0] in ('forecaster', 'function', 'formatter', 'class')] + [('rows',)]


def one(t):
    try:
        return globals()['task_' + t[0]](t)
    except RecursionError:
        r = Report('C06')
        r.errors.append('%s: recursion limit' % (t,))
        return r.export()


def run(rep):
    rep.rule('seeded', 'with a random_state, predict_scenarios and predict_trees draw every random number from it')
    rep.rule('no-draw', 'point and quantile forecasts, calibration, transformations and reductions draw no random numbers')
    rep.rule('reseed', 'nothing reseeds the process-wide random generators')
    rep.rule('seeded-rows', 'the rows kept for the calibration are drawn from a generator seeded by scengen_random_state')
    rep.rule('ambient', 'no result depends on the clock, the process, the environment or the order in which parallel workers finish')
    rep.rule('set-order', 'no result is ordered by the iteration order of a set of names')
    rep.assumptions += ['third-party learners are deterministic given their random_state (their own randomness is theirs)',
                        'sets of tree nodes hold small integers, which iterate alike in every process']
    for r in pmap(one, tasks(c01.prog())):
        rep.merge(r)
