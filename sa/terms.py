"""Hash-consed terms: the symbolic names the value-flow analysis gives to values.

A term is an operator and a tuple of arguments (terms or plain Python literals).  Two values that are
computed the same way from the same sources get the *same* term object, whatever the statements, helper
functions, loops or temporaries that computed them, so rules compare terms by identity.
"""
from __future__ import annotations

_table = {}


class T:
    __slots__ = ('op', 'args', 'uid', '_deps', '_size', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.uid

    def __eq__(self, other):
        return self is other

    def __reduce__(self):
        raise TypeError('terms are not picklable')


def _key(a):
    if isinstance(a, T):
        return a
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def mk(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    t = _table.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.uid = len(_table) + 1
        t._deps = None
        t._size = None
        _table[k] = t
    return t


def const(v):
    try:
        hash(v)
    except TypeError:
        return mk('opaque', repr(v))
    return mk('const', v)


def sym(name):
    return mk('sym', name)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t.op == 'const'


def children(t):
    out = []

    def rec(a):
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                rec(x)

    for a in t.args:
        rec(a)
    return out


def deps(t):
    """Names of the symbolic sources the term is computed from (transitively)."""
    if t._deps is not None:
        return t._deps
    stack = [t]
    while stack:
        u = stack[-1]
        if u._deps is not None:
            stack.pop()
            continue
        pend = [c for c in children(u) if c._deps is None]
        if pend:
            stack.extend(pend)
            continue
        s = frozenset([u.args[0]]) if u.op == 'sym' else frozenset()
        for c in children(u):
            if c._deps:
                s = s | c._deps
        u._deps = s
        stack.pop()
    return t._deps


def size(t):
    if t._size is None:
        n = 1
        for c in children(t):
            n += size(c)
            if n > 10 ** 9:
                n = 10 ** 9
        t._size = n
    return t._size


def walk(t, seen=None):
    """All distinct subterms."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        yield u
        stack.extend(children(u))


def subst(t, mapping, memo=None):
    memo = {} if memo is None else memo
    if t in mapping:
        return mapping[t]
    if t in memo:
        return memo[t]

    def rec(a):
        if isinstance(a, T):
            return subst(a, mapping, memo)
        if isinstance(a, tuple):
            return tuple(rec(x) for x in a)
        return a

    if not children(t):
        memo[t] = t
        return t
    r = mk(t.op, *[rec(a) for a in t.args])
    memo[t] = r
    return r


def contains(t, pred):
    return any(pred(u) for u in walk(t))


def alternatives(t, limit=64):
    """The possible values of a joined term (ite / phi / loop-widened), flattened."""
    out, seen, stack = [], set(), [t]
    while stack and len(out) < limit:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == 'ite':
            stack.extend([u.args[2], u.args[1]])
        elif u.op == 'phi':
            stack.extend(u.args[0])
        elif u.op == 'loop':
            stack.extend(u.args[1])
        else:
            out.append(u)
    return out


def show(t, depth=5):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return repr(t) if not isinstance(t, str) else t
    if depth <= 0:
        return '..'
    d = depth - 1
    o, a = t.op, t.args
    if o == 'const':
        return repr(a[0])
    if o == 'sym':
        return '<%s>' % a[0]
    if o == 'call':
        kw = ', '.join('%s=%s' % (k, show(v, d)) for k, v in a[2])
        ar = ', '.join(show(x, d) for x in a[1])
        return '%s(%s)' % (a[0].rsplit('.', 1)[-1], ', '.join(x for x in (ar, kw) if x))
    if o == 'meth':
        kw = ', '.join('%s=%s' % (k, show(v, d)) for k, v in a[3])
        ar = ', '.join(show(x, d) for x in a[2])
        return '%s.%s(%s)' % (show(a[1], d), a[0], ', '.join(x for x in (ar, kw) if x))
    if o == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if o == 'idx':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o in ('bin', 'cmp'):
        return '(%s %s %s)' % (show(a[1], d), a[0], show(a[2], d))
    if o == 'un':
        return '%s%s' % (a[0], show(a[1], d))
    if o == 'ite':
        return '{%s ? %s : %s}' % (show(a[0], d), show(a[1], d), show(a[2], d))
    if o == 'elem':
        return 'each(%s)' % show(a[0], d)
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))
