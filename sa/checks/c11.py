"""C11: every generated feature looks exactly at the past window its settings document."""
from ..loader import Program, AnalysisError
from ..windows import Unknown
from . import transformer as TR, features as F

MINIMUM = 6


def run(rep, prog=None):
    prog = prog or Program()
    rep.rule('data-window', 'the rows a generated column depends on, in polynomial form over the sampling time, the lag, the '
                            'aggregation and the bins, are exactly the window the settings document: no later, no other lag sign')
    rep.assumptions += ['sampling time and aggregation time are positive; data are regularly sampled',
                        'pandas rolling and shift follow their documentation']
    ci = TR.find(prog, 'Transformer')
    if ci is None:
        raise AnalysisError('Transformer not found')
    wh = TR.where(prog)
    for cfg in TR.CONFIGS:
        case = F.Case(prog, cfg)
        try:
            case.explore(lambda alg: F.lookahead(rep, case, alg, wh))
        except Unknown as ex:
            rep.unknown('data-window', case.key, wh, str(ex)[:200])
    rep.analysed |= {'pyforecaster.formatter.Transformer.transform', 'pyforecaster.formatter.Transformer.__init__'}
