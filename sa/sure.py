"""Sources a value depends on whatever path was taken (joins keep what all alternatives share).

`Interp.deps` answers "may depend on"; a rule that alarms on a dependence uses `sure` so that a path the abstraction
could not rule out is reported as undecided and not as a violation.
"""
from __future__ import annotations
from . import terms as tm
from .values import Sc, Tup, Lst, Dct, Inst, Phi, Bound, BoundExt, Part
from .terms import T

_memo = {}
_memo2 = {}


def sure_term(t, branches=False):
    """branches=True: a value chosen by an explicit condition counts with each of its alternatives (either branch can be
    taken), while values merged by loops or weak updates still count only with what the alternatives share."""
    _memo = _memo2 if branches else globals()['_memo']
    if branches and t.op == 'loop':
        _memo[t] = sure_term(t)
        return _memo[t]
    stack = [t]
    while stack:
        u = stack[-1]
        if u in _memo:
            stack.pop()
            continue
        if u.op == 'sym':
            _memo[u] = frozenset([u.args[0]])
            stack.pop()
            continue
        if u.op == 'big':
            _memo[u] = frozenset()      # widened: a set of possible sources only
            stack.pop()
            continue
        if branches and u.op == 'loop':
            _memo[u] = sure_term(u)
            stack.pop()
            continue
        if branches and u.op == 'ite':
            kids, alts = [u.args[1], u.args[2]], None
        elif u.op in ('ite', 'phi', 'loop'):
            alts = [u.args[1], u.args[2]] if u.op == 'ite' else list(u.args[0]) if u.op == 'phi' else list(u.args[1])
            alts = [a for a in alts if isinstance(a, T)]
            kids = alts
        else:
            alts = None
            kids = tm.children(u)
        pend = [c for c in kids if c not in _memo]
        if pend:
            stack.extend(pend)
            continue
        if alts is not None:
            s = None
            for a in alts:
                s = _memo[a] if s is None else s & _memo[a]
            s = s or frozenset()
        else:
            s = frozenset()
            for c in kids:
                s = s | _memo[c]
        _memo[u] = s
        stack.pop()
    return _memo[t]


def sure(it, v, st, seen=None, branches=False):
    seen = {} if seen is None else seen
    if isinstance(v, Sc):
        return set(sure_term(it.term(v, st), branches))
    if v in seen:
        return set()
    seen[v] = True
    out = set()
    if isinstance(v, Phi):
        if branches:
            return chosen(it, [(tuple(g or ()), x) for g, x in v.alts], st, seen)
        r = None
        for _, x in v.alts:
            d = sure(it, x, st, dict(seen), branches)
            r = d if r is None else r & d
        return r or set()
    if isinstance(v, Tup):
        for x in v.items:
            out |= sure(it, x, st, seen, branches)
    elif isinstance(v, Lst):
        lc = st.lc(v.oid)
        for x in lc.items:
            out |= sure(it, x, st, seen, branches)
        if lc.star is not None:
            out |= each(it, lc.star, st, seen, branches)
    elif isinstance(v, Dct):
        dc = st.dc(v.oid)
        for k, x in dc.items:
            out |= sure(it, x, st, seen, branches)
        if dc.star is not None:
            # entries stored under the same key replace each other, entries of different key sets live together
            if dc.starkey is not None and len(keysets(it, dc.starkey, st)) > 1:
                out |= each(it, dc.star, st, seen, branches)
            else:
                out |= sure(it, dc.star, st, seen, branches)
    elif isinstance(v, Inst):
        for a, x in it.fields(v, st).items():
            out |= sure(it, x, st, seen, branches)
    elif isinstance(v, (Bound, BoundExt)):
        out |= sure(it, v.recv, st, seen, branches)
    elif isinstance(v, Part):
        for x in v.args:
            out |= sure(it, x, st, seen, branches)
        for _, x in v.kwargs:
            out |= sure(it, x, st, seen, branches)
    return out


def chosen(it, alts, st, seen):
    """Alternatives told apart by one condition count together; alternatives merged otherwise count with what they share."""
    while len(alts) > 1 and all(g for g, _ in alts) and len({g[0][0] for g, _ in alts}) == 1:
        yes, no = [(g[1:], x) for g, x in alts if g[0][1]], [(g[1:], x) for g, x in alts if not g[0][1]]
        if yes and no:
            return chosen(it, yes, st, seen) | chosen(it, no, st, seen)
        alts = yes or no
    r = None
    for _, x in alts:
        d = sure(it, x, st, dict(seen), True)
        r = d if r is None else r & d
    return r or set()


def keysets(it, v, st):
    if isinstance(v, Phi):
        out = set()
        for _, x in v.alts:
            out |= keysets(it, x, st)
        return out
    return set(tm.alternatives(it.term(v, st)))


def each(it, v, st, seen, branches):
    """Every alternative of a repeated element is in the container."""
    if isinstance(v, Phi) and any(g for g, _ in v.alts):
        return sure(it, v, st, seen, branches)
    out = set()
    for x in ([a for _, a in v.alts] if isinstance(v, Phi) else [v]):
        for y in (tm.alternatives(it.term(x, st)) if isinstance(x, Sc) else [x]):
            out |= set(sure_term(y, branches)) if isinstance(y, T) else sure(it, y, st, seen, branches)
    return out


def why(t, src, depth=40):
    """A chain of terms explaining why `src` is a sure source of t (for debugging)."""
    out = []
    while depth:
        depth -= 1
        out.append(tm.show(t, 2)[:160])
        if t.op == 'sym':
            break
        kids = tm.children(t)
        if t.op == 'ite':
            kids = [t.args[1]]
        nxt = [c for c in kids if src in _memo.get(c, ())]
        if not nxt:
            break
        t = nxt[0]
    return out
