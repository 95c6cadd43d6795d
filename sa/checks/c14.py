"""C14: the metadata of a Transformer describe exactly the columns it generates."""
from ..loader import Program, AnalysisError
from ..windows import Unknown, colval
from .. import terms as tm
from . import transformer as TR, features as F

MINIMUM = 20


def run(rep, prog=None):
    prog = prog or Program()
    rep.rule('label-order', 'the labels enumerate lags, functions and bins in the order in which the columns were generated')
    rep.rule('row-order', 'the metadata rows and each of their columns enumerate them in the order of the labels')
    rep.rule('row-labels', 'the metadata are indexed by the labels of the generated columns')
    rep.rule('row-values', 'the lag, function and name of a metadata row are those of its column')
    rep.rule('row-times', 'start_time and end_time of a metadata row are the window of data the column depends on')
    rep.rule('label-parts', 'labels contain what distinguishes the columns')
    rep.rule('simulated', 'simulate=True describes the same columns, without the data')
    rep.assumptions += ['sampling time and aggregation time are positive; data are regularly sampled',
                        'pandas rolling, shift and concat follow their documentation']
    ci = TR.find(prog, 'Transformer')
    if ci is None:
        raise AnalysisError('Transformer not found')
    wh = TR.where(prog)
    for cfg in TR.CONFIGS:
        case = F.Case(prog, cfg)
        try:
            case.explore(lambda alg: F.metadata(rep, case, alg, wh))
        except Unknown as ex:
            rep.unknown('row-order', case.key, wh, str(ex)[:200])
        simulated(rep, prog, case, cfg, wh)
    rep.analysed |= {'pyforecaster.formatter.Transformer.transform', 'pyforecaster.formatter.Transformer.__init__'}


def simulated(rep, prog, case, cfg, wh):
    it, st, out = TR.run_transform(prog, cfg, simulate=True)
    m = TR.only(out['meta'])
    k = case.key + ': simulate=True'
    if m is case.meta:
        rep.holds('simulated', k, wh)
        return
    case.explore(lambda alg: same(rep, case, alg, k, wh, m))


def same(rep, case, alg, k, wh, m):
    w = case.w
    for col in ('start_time', 'end_time', 'lag', 'function', 'name'):
        a, b = colval(case.meta, col), colval(m, col)
        kk = '%s: %s' % (k, col)
        if a is b and a is not None:
            rep.holds('simulated', kk, wh)
            continue
        if a is None or b is None:
            rep.add('simulated', kk, 'violated' if a is not None and m.op != 'loop' and colval(m, 'lag') is not None else 'unknown', wh,
                    'the column is missing' if b is None else '')
            continue
        try:
            pa, pb = alg.poly(F.w_elem(w, alg, a)), alg.poly(F.w_elem(w, alg, b))
        except Unknown as ex:
            rep.unknown('simulated', kk, wh, str(ex)[:160])
            continue
        d = pa - pb
        if not d.d:
            rep.holds('simulated', kk, wh)
        elif F.known_atoms(d, case.cfg, None):
            rep.violated('simulated', kk, wh, 'off by %s' % F.short(d))
        else:
            rep.unknown('simulated', kk, wh, F.short(d))
