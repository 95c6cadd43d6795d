"""Comparing inferred axes and labels with the documented ones."""
from __future__ import annotations
from . import terms as tm
from .terms import T, mk, const
from .axes import Axes, UNK, ONE, factors, product_levels

RANKS = {'arg:x': 2, 'arg:y': 2, 'arg:x_te': 2, 'p:q_vect': 1, 'arg:x2': 2, 'arg:y2': 2}


def axes():
    return Axes(dict(RANKS))


def linear(t):
    """{atom: coefficient} of an integer term (key None: the constant), or None."""
    if t.op == 'const':
        return {None: t.args[0]} if isinstance(t.args[0], int) else None
    if t.op == 'bin' and t.args[0] in ('+', '-'):
        a, b = linear(t.args[1]), linear(t.args[2])
        if a is None or b is None:
            return None
        s = 1 if t.args[0] == '+' else -1
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + s * v
        return {k: v for k, v in out.items() if v or k is None}
    if t.op == 'bin' and t.args[0] == '*':
        a, b = linear(t.args[1]), linear(t.args[2])
        for u, v in ((a, b), (b, a)):
            if u is not None and set(u) <= {None}:
                c = u.get(None, 0)
                return {k: c * w for k, w in v.items()} if v is not None else None
        return {t: 1}
    if t.op == 'un' and t.args[0] == '-':
        a = linear(t.args[1])
        return None if a is None else {k: -v for k, v in a.items()}
    if t.op == 'call' and t.args[0].rsplit('.', 1)[-1] in ('int', 'int64', 'int32') and t.args[1]:
        return linear(t.args[1][0])
    if t.op == 'total':
        out = {}
        for u in t.args[0]:
            a = linear(u)
            if a is None:
                return None
            for k, v in a.items():
                out[k] = out.get(k, 0) + v
        return {k: v for k, v in out.items() if v or k is None}
    return {t: 1}


def canon(d):
    """Canonical form of a dimension: the rows of y are the rows of x; sums are normalised."""
    if d is None:
        return None
    if d.op == 'prod':
        fs = factors([canon(f) for f in d.args[0]])
        return fs[0] if len(fs) == 1 else ONE if not fs else mk('prod', tuple(fs))
    if d.op == 'dim' and d.args[1] == 0 and d.args[0].op == 'sym' and d.args[0].args[0] in ('arg:y', 'arg:y2'):
        return mk('dim', tm.sym(d.args[0].args[0].replace('y', 'x')), 0)
    if d.op in ('bin', 'total', 'un', 'call'):
        l = linear(d)
        if l is None:
            return d
        c = l.pop(None, 0)
        atoms = sorted(l.items(), key=lambda kv: kv[0].uid)
        if not atoms:
            return const(c)
        if c == 0 and len(atoms) == 1 and atoms[0][1] == 1:
            return canon(atoms[0][0]) if atoms[0][0] is not d else d
        return mk('lin', tuple((canon(a) if a.op in ('dim', 'prod') else a, const(k)) for a, k in atoms), const(c))
    if d.op in ('scrambled', 'reorder', 'sub', 'filter'):
        i = 1 if d.op == 'reorder' else 0
        return mk(d.op, *[canon(a) if j == i else a for j, a in enumerate(d.args)])
    return d


def basic(d):
    """Nothing in it could turn out to equal some other dimension."""
    if d.op == 'dim':
        return d.args[0].op == 'sym'
    if d.op == 'sym' or d.op == 'const':
        return True
    if d.op == 'prod':
        return all(basic(x) for x in d.args[0])
    if d.op in ('scrambled',):
        return basic(d.args[0])
    if d.op == 'reorder':
        return basic(d.args[1])
    if d.op == 'lin':
        return all(basic(a) for a, k in d.args[0])
    if d.op == 'filter':        # the rows a condition selects
        return basic(d.args[0]) and d.args[1].op == 'cmp'
    return False


def same_dim(a, b, sortable=False):
    if a is b or a.op == 'anydim':      # arrays of different origin stacked: their total is what the labels enforce
        return True
    if a.op == 'prod' and b.op == 'prod' and len(a.args[0]) == len(b.args[0]):
        return all(same_dim(x, y) for x, y in zip(a.args[0], b.args[0]))
    if sortable and a.op == 'reorder' and a.args[0] == 'sort':
        return a.args[1] is b
    return False


def mismatch(a, b):
    """Certainly different."""
    if same_dim(a, b):
        return False
    if a.op == 'prod' and b.op == 'prod' and len(a.args[0]) == len(b.args[0]):
        return any(mismatch(x, y) for x, y in zip(a.args[0], b.args[0]))
    return basic(a) and basic(b)


def compare(alts, want, sortable=()):
    """Verdict of the possible dims against the documented ones; (verdict, offending alternative)."""
    want = tuple(canon(w) for w in want)
    bad, unk = [], False
    for d in alts:
        if d is None or any(x is None for x in d):
            unk = True
            continue
        d = tuple(canon(x) for x in d)
        if len(d) == len(want) and all(same_dim(x, w, i in sortable) for i, (x, w) in enumerate(zip(d, want))):
            return ('holds' if len(alts) == 1 else 'unknown' if unk else 'holds'), None
        if len(d) != len(want) or any(not same_dim(x, w, i in sortable) and mismatch(x, w)
                                      for i, (x, w) in enumerate(zip(d, want))):
            bad.append(d)
        else:
            unk = True
    if bad and not unk:
        return 'violated', bad[0]
    return 'unknown', None


def show_dims(d):
    return '(' + ', '.join(show_dim(x) for x in d) + ')'


def show_dim(x):
    if x is None:
        return '?'
    if x.op == 'dim' and x.args[0].op == 'sym':
        n = x.args[0].args[0]
        return {('arg:x', 0): 'rows', ('arg:x_te', 0): 'rows', ('arg:y', 0): 'rows', ('arg:y', 1): 'steps',
                ('p:q_vect', 0): 'quantiles', ('arg:x', 1): 'features', ('arg:x_te', 1): 'features'}.get((n, x.args[1]), '%s[%d]' % (n, x.args[1]))
    if x.op == 'prod':
        return ' x '.join(show_dim(y) for y in x.args[0])
    if x.op == 'scrambled':
        return 'scrambled ' + show_dim(x.args[0])
    if x.op == 'reorder':
        return '%s(%s)' % ({'flip': 'reversed', 'sort': 'sorted'}.get(x.args[0], x.args[0]), show_dim(x.args[1]))
    return tm.show(x, 3)


def label_verdict(alts, want):
    """Verdict on a set of possible label terms: each must be the documented term."""
    if None in alts:
        return 'unknown', None
    if want in alts:
        return 'holds' if len(alts) == 1 else 'unknown', None
    for a in alts:
        if not label_basic(a):
            return 'unknown', None
    return 'violated', next(iter(alts))


def label_basic(a):
    """A label set that certainly is not another one."""
    if a.op == 'attr' and a.args[1] in ('index', 'columns'):
        return a.args[0].op == 'sym'
    if a.op == 'range-label':
        return True
    if a.op == 'reorder':
        return label_basic(a.args[1])
    if a.op == 'idx':
        return label_basic(a.args[0]) and a.args[1].op == 'slice'
    if product_levels(a) is not None:
        return all(label_basic(x) or x.op == 'sym' for x in product_levels(a))
    return False
