"""Abstract values of the value-flow analysis."""
from __future__ import annotations
from . import terms as tm
from .terms import T


class V:
    __slots__ = ()

    def _k(self):
        return tuple(getattr(self, s) for s in self.__slots__)

    def __eq__(self, o):
        return type(self) is type(o) and self._k() == o._k()

    def __hash__(self):
        return hash((type(self).__name__,) + self._k())


class Sc(V):
    """An opaque value: `term` names how it was computed; `rid` is its storage, `bases` the storages it may
    be a view of; `kind` is what is known of its type."""
    __slots__ = ('term', 'rid', 'bases', 'kind')

    def __init__(self, term, rid=None, bases=frozenset(), kind=None):
        self.term, self.rid, self.bases, self.kind = term, rid, bases, kind

    def __repr__(self):
        return 'Sc(%s)' % tm.show(self.term)


class Tup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Lst(V):
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'Lst'


class Dct(V):
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'Dct'


class Inst(V):
    __slots__ = ('oid', 'cls')

    def __init__(self, oid, cls):
        self.oid, self.cls = oid, cls

    def __repr__(self):
        return 'Inst(%s)' % self.cls.name


class Fn(V):
    __slots__ = ('node', 'module', 'fid', 'cls')

    def __init__(self, node, module, fid=None, cls=None):
        self.node, self.module, self.fid, self.cls = node, module, fid, cls

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Bound(V):
    __slots__ = ('fn', 'recv')

    def __init__(self, fn, recv):
        self.fn, self.recv = fn, recv

    def __repr__(self):
        return 'Bound(%r)' % (self.fn,)


class BoundExt(V):
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Cls(V):
    __slots__ = ('ci',)

    def __init__(self, ci):
        self.ci = ci

    def __repr__(self):
        return 'Cls(%s)' % self.ci.name


class Mod(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Ext(V):
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Ext(%s)' % self.path


class Part(V):
    __slots__ = ('fn', 'args', 'kwargs')

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, tuple(args), tuple(kwargs)


class Sup(V):
    __slots__ = ('ci', 'recv')

    def __init__(self, ci, recv):
        self.ci, self.recv = ci, recv


class Wrapped(V):
    """vmap(f), jit(f), grad(f), ...: `how` is the external wrapper."""
    __slots__ = ('fn', 'how', 'extra')

    def __init__(self, fn, how, extra=()):
        self.fn, self.how, self.extra = fn, how, extra


class Phi(V):
    """Alternatives: ((cond term or None, polarity), value)."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return 'Phi%r' % ([v for _, v in self.alts],)


def phi(alts):
    """alts: list of (guard tuple of (T,bool), V); flattened and deduplicated."""
    out = []
    for g, v in alts:
        if isinstance(v, Phi):
            for g2, v2 in v.alts:
                out.append((tuple(g) + tuple(x for x in g2 if x not in g), v2))
        else:
            out.append((tuple(g), v))
    seen, res = {}, []
    for g, v in out:
        if any(((c, not p) in g) for c, p in g):
            continue        # contradictory guard
        if v in seen:
            i = seen[v]
            common = tuple(x for x in res[i][0] if x in g)
            res[i] = (common, v)
        else:
            seen[v] = len(res)
            res.append((g, v))
    if len(res) == 1:
        return res[0][1]
    return Phi(res)


class LC:
    """List contents: exact prefix + optional star element repeated over `over`."""
    __slots__ = ('items', 'star', 'over')

    def __init__(self, items=(), star=None, over=None):
        self.items, self.star, self.over = tuple(items), star, over

    def __eq__(self, o):
        return isinstance(o, LC) and self.items == o.items and self.star == o.star and self.over is o.over

    def __hash__(self):
        return hash((self.items, self.star))

    def __repr__(self):
        return 'LC(%r, *%r)' % (self.items, self.star)


class DC:
    """Dict contents: known keys (python constants or terms) + optional star value with star key."""
    __slots__ = ('items', 'star', 'starkey')

    def __init__(self, items=(), star=None, starkey=None):
        self.items = tuple(items)     # ((key, V), ...)
        self.star, self.starkey = star, starkey

    def get(self, k):
        for kk, v in self.items:
            if type(kk) is type(k) and kk == k:
                return v
        return None

    def put(self, k, v):
        out, done = [], False
        for kk, vv in self.items:
            if type(kk) is type(k) and kk == k:
                out.append((kk, v))
                done = True
            else:
                out.append((kk, vv))
        if not done:
            out.append((k, v))
        return DC(out, self.star, self.starkey)

    def drop(self, k):
        return DC([(kk, v) for kk, v in self.items if not (type(kk) is type(k) and kk == k)], self.star, self.starkey)

    def __eq__(self, o):
        return isinstance(o, DC) and self.items == o.items and self.star == o.star and self.starkey == o.starkey

    def __hash__(self):
        return hash((self.items, self.star))

    def __repr__(self):
        return 'DC(%r, *%r)' % (self.items, self.star)
