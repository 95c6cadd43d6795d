"""Time windows and column order of the features a Transformer generates.

`Win.window(t)` gives, for a table computed from the source signal, the interval of times (relative to the row's own time) the
value of its generic column depends on, as two polynomials in the sampling time, the lag, the aggregation and the bins.
`Win.order(t)` gives the order of its columns (or of the elements of a list) as nested factors, outermost first.
The generic element of a sequence stands for all of them, so nothing is bounded by a number of lags or functions.
"""
from __future__ import annotations
from . import terms as tm
from .terms import T, mk, const, NONE
from .algebra import Algebra, Poly, base, literal, Need
from .axes import kw

DT = mk('dt')                   # the sampling time of the data
W = mk('agg_time')              # a string aggregation frequency, as a time
INF = 'inf'
WRAP = {'array', 'asarray', 'atleast_1d', 'list', 'tuple', 'copy', 'deepcopy', 'ravel', 'Index', 'Series', 'sorted_'}
WRAP_M = {'copy', 'to_numpy', 'tolist', 'ravel', 'flatten', 'astype', 'to_list'}
REORDER = {'sort', 'sorted', 'flip', 'reversed', 'unique', 'set'}
ROLL_AGG = {'agg', 'apply', 'mean', 'max', 'min', 'sum', 'std', 'var', 'median', 'quantile', 'aggregate', 'count', 'skew', 'kurt'}


class Unknown(Exception):
    pass


def strip(t):
    while True:
        if t.op == 'call' and base(t.args[0]) in WRAP and t.args[1]:
            t = t.args[1][0]
        elif t.op == 'meth' and t.args[0] in WRAP_M:
            t = t.args[1]
        elif t.op == 'attr' and t.args[1] in ('values', 'array'):
            t = t.args[0]
        else:
            return t


class Win:
    def __init__(self, arrays, times, freq=None, ints=()):
        self.arrays = set(arrays)           # names of the array sources
        self.times = set(times)             # names of the sources that are times
        self.freq = freq                    # name of the string frequency source
        self.ints = set(ints)

    # ---------------------------------------------------------------------------------------------------- arithmetic
    def alg(self, env=None, strict=True):
        return Algebra(env, rewrite=self.rewrite, same_calls=('int', 'round', 'floor', 'ceil', 'rint'), strict=strict,
                       decide=self.decide)

    def explore(self, fn, limit=48):
        todo, n = [{}], 0
        while todo:
            env = todo.pop()
            n += 1
            if n > limit:
                raise Unknown('too many joined cases')
            try:
                fn(self.alg(env))
            except Need as ex:
                todo += [{**env, ex.cond: v} for v in (True, False)]

    def isfreq(self, t):
        while t.op == 'meth' and t.args[0] == 'replace':
            t = t.args[1]
        return t.op == 'sym' and t.args[0] == self.freq

    def rewrite(self, alg, t):
        o, a = t.op, t.args
        if o in ('call', 'meth', 'sym') and self.freq and self.isfreq(t):
            return Poly.atom(W)
        if o == 'sym' and a[0] in self.times:
            return Poly.atom(DT)
        if o == 'meth' and a[0] in ('median', 'mode', 'mean', 'min', 'max') and self.isdiff(a[1]):
            return Poly.atom(DT)
        if o == 'idx' and a[1].op == 'const' and self.isdiff(a[0]):
            return Poly.atom(DT)
        if o == 'elem':
            return self.element(alg, a[0])
        if o == 'call' and base(a[0]) in WRAP and a[1] and self.isarray(a[1][0]):
            return self.element(alg, a[1][0])
        if o in ('listof', 'list', 'tuple', 'product', 'range') or o == 'sym' and a[0] in self.arrays:
            return self.element(alg, t)
        if o == 'call' and base(a[0]) in ('outer',) and len(a[1]) == 2:
            return self.element(alg, a[1][0]) * self.element(alg, a[1][1])
        if o == 'call' and base(a[0]) in ('repeat', 'tile') and a[1]:
            return self.element(alg, a[1][0])
        if o == 'call' and base(a[0]) in ('ones', 'ones_like'):
            return Poly.const(1)
        if o == 'call' and base(a[0]) in ('zeros', 'zeros_like'):
            return Poly()
        if o == 'idx' and a[1].op == 'const' and isinstance(a[1].args[0], str):
            v = colval(a[0], a[1].args[0])
            if v is not None and v.op != 'rowitem':
                return alg.poly(v)
        if o == 'idx':
            n = self.size_of(alg, t)
            if n is not None:
                return n
            # element of an array at a known position of its own index range
            k = strip(a[0])
            if self.isarray(k) and k.op not in ('list', 'listof', 'tuple'):
                i = alg.poly(a[1])
                return Poly.atom(mk('at', self.canon(alg, k), self.key(i)))
        if o == 'len':
            n = self.size(alg, a[0])
            return n
        if o == 'call' and base(a[0]) in ('max', 'min', 'amax', 'amin') and len(a[1]) == 1 and not a[2]:
            return self.extreme(alg, base(a[0])[-3:], a[1][0])
        if o == 'meth' and a[0] in ('max', 'min') and not a[2]:
            return self.extreme(alg, a[0], a[1])
        return None

    def key(self, p):
        """A term naming a polynomial (so it can be part of an atom)."""
        return mk('poly', tuple(sorted(((tuple((x, const(n)) for x, n in k), const(str(v))) for k, v in p.d.items()),
                                       key=lambda kv: repr([(x.uid, n) for x, n in kv[0]]))))

    def extreme(self, alg, how, t):
        """max / min of an array: constants add, signs exchange."""
        t = strip(t)
        if not self.isarray(t):
            return None
        if t.op == 'bin' and t.args[0] in '+-':
            x, y = t.args[1], t.args[2]
            if self.isarray(x) and not self.isarray(y):
                e = self.extreme(alg, how, x)
                return None if e is None else e + (alg.poly(y) if t.args[0] == '+' else -alg.poly(y))
            if self.isarray(y) and not self.isarray(x):
                e = self.extreme(alg, how if t.args[0] == '+' else {'max': 'min', 'min': 'max'}[how], y)
                return None if e is None else alg.poly(x) + (e if t.args[0] == '+' else -e)
            return None
        return Poly.atom(mk('ext', how, self.perm(t)))

    def perm(self, t):
        """An array up to the order of its elements."""
        t = strip(t)
        while True:
            if t.op == 'call' and base(t.args[0]) in REORDER and t.args[1]:
                t = strip(t.args[1][0])
            elif t.op == 'idx' and t.args[1].op == 'slice' and all(x is NONE for x in t.args[1].args[:2]):
                t = strip(t.args[0])
            else:
                return t

    def isdiff(self, t):
        """Differences of consecutive times of the index."""
        if t.op == 'attr' and t.args[1] in ('values', 'index'):
            return self.isdiff(t.args[0])
        if t.op == 'meth' and t.args[0] in ('diff',):
            return any(u.op == 'attr' and u.args[1] == 'index' for u in tm.walk(t.args[1]))
        if t.op == 'call' and base(t.args[0]) in ('diff', 'Series') and t.args[1]:
            return base(t.args[0]) == 'diff' and any(u.op == 'attr' and u.args[1] == 'index' for u in tm.walk(t.args[1][0])) or \
                self.isdiff(t.args[1][0])
        if t.op == 'meth' and t.args[0] in ('value_counts', 'dropna', 'to_series', 'to_numpy', 'iloc'):
            return self.isdiff(t.args[1])
        if t.op == 'bin' and t.args[0] == '-':
            return all(u.op == 'idx' and u.args[0].op == 'attr' and u.args[0].args[1] == 'index' for u in t.args[1:])
        return False

    def isarray(self, t):
        o, a = t.op, t.args
        if o == 'sym':
            return a[0] in self.arrays
        if o in ('list', 'listof', 'tuple', 'range', 'product'):
            return True
        if o == 'call':
            n = base(a[0])
            if n in ('array', 'atleast_1d', 'arange', 'outer', 'ones', 'zeros', 'sort', 'sorted', 'product', 'repeat', 'tile', 'hstack',
                     'flip', 'concatenate'):
                return True
            return n in WRAP and bool(a[1]) and self.isarray(a[1][0])
        if o == 'meth':
            return a[0] in WRAP_M and self.isarray(a[1])
        if o == 'attr' and a[1] in ('values',):
            return self.isarray(a[0])
        if o == 'bin':
            return self.isarray(a[1]) or self.isarray(a[2])
        if o == 'un':
            return self.isarray(a[1])
        if o == 'idx':
            return a[1].op == 'slice' and self.isarray(a[0])
        if o == 'ite':
            return self.isarray(a[1]) and self.isarray(a[2])
        return False

    def canon(self, alg, t):
        return strip(t)

    def element(self, alg, t):
        """The generic element of a sequence."""
        t = strip(t)
        o, a = t.op, t.args
        if o == 'ite':
            return self.element(alg, alg.resolve(t)) if alg.resolve(t) is not t else Poly.atom(mk('each', t))
        if o in ('list', 'tuple') and len(a[0]) == 1:
            return alg.poly(a[0][0])
        if o == 'listof' and not a[0]:
            return alg.poly(a[1])
        if o == 'bin':
            x = self.element(alg, a[1]) if self.isarray(a[1]) else alg.poly(a[1])
            y = self.element(alg, a[2]) if self.isarray(a[2]) else alg.poly(a[2])
            if a[0] == '+':
                return x + y
            if a[0] == '-':
                return x - y
            if a[0] == '*':
                return x * y
            if a[0] == '/' and y.inverse() is not None:
                return x * y.inverse()
        if o == 'un' and a[0] == '-':
            return -self.element(alg, a[1])
        if o == 'range' and a[0] is const(0) and a[2] is const(1) or o == 'call' and base(a[0]) == 'arange' and len(a[1]) == 1:
            return Poly.atom(mk('each', mk('range', self.key(alg.poly(a[1] if o == 'range' else a[1][0])))))
        if o == 'call' and base(a[0]) in ('ones',):
            return Poly.const(1)
        if o == 'call' and base(a[0]) in ('outer', 'repeat', 'tile'):
            return alg.poly(t)
        if o == 'idx' and a[1].op == 'slice':
            return self.element(alg, a[0])
        return Poly.atom(mk('each', t))

    def size(self, alg, t):
        t = strip(t)
        o, a = t.op, t.args
        if o in ('list', 'tuple'):
            return Poly.const(len(a[0]))
        if o == 'listof' and not a[0]:
            return self.size(alg, a[2])
        if o == 'bin':
            arr = [u for u in a[1:] if self.isarray(u)]
            return self.size(alg, arr[0]) if arr else None
        if o == 'un':
            return self.size(alg, a[1])
        if o == 'call' and base(a[0]) in REORDER and a[1]:
            return self.size(alg, a[1][0])
        if o == 'idx' and a[1].op == 'slice' and all(x is NONE for x in a[1].args[:2]):
            return self.size(alg, a[0])
        if o == 'range' and a[0] is const(0) and a[2] is const(1):
            return alg.poly(a[1])
        if o == 'call' and base(a[0]) == 'arange' and len(a[1]) == 1:
            return alg.poly(a[1][0])
        if self.isarray(t):
            return Poly.atom(mk('size', t))
        return None

    def size_of(self, alg, t):
        """len / shape[0] of an array."""
        if t.op == 'idx' and t.args[1] is const(0) and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape':
            return self.size(alg, t.args[0].args[0])
        return None

    def dim(self, p):
        """Dimension of a polynomial: 1 for a time, 0 for a number of steps."""
        ds = {sum(n for a, n in k if a in (DT, W)) for k in p.d}
        return ds.pop() if len(ds) == 1 else None

    def decide(self, alg, c):
        o, a = c.op, c.args
        if o == 'call' and base(a[0]) == 'isinstance' or o == 'isinstance':
            x, k = a[1] if o == 'call' else a
            names = {base(u.args[0]) for u in tm.walk(k) if u.op == 'ext'}
            if names == {'str'}:
                return self.isfreq(x) if x.op != 'ite' else self.isfreq(alg.resolve(x))
            x = alg.resolve(x)
            if self.isfreq(x):
                return 'str' in names
            if names and all(n.startswith('int') or n == 'integer' for n in names):
                d = self.dim(alg.poly(x))
                return None if d is None else d == 0
            if 'Timedelta' in names:
                return None
        if o == 'cmp' and a[0] == 'is' and a[2] is NONE:
            x = alg.resolve(a[1])
            if x is NONE:
                return True
            if x.op in ('bin', 'call', 'meth', 'idx') or x.op == 'sym':
                return False
        return None

    # ------------------------------------------------------------------------------------------------------- windows
    def window(self, alg, t, name=None):
        """(lo, hi, reversed) of the generic column of a table, times relative to the row; Unknown when not modelled."""
        o, a = t.op, t.args
        if o == 'ite':
            return self.window(alg, self.need(alg, t), name)
        if o == 'setattr':
            return self.window(alg, a[0], name)
        if o == 'delitem':
            return self.window(alg, a[0], name)
        if o == 'call':
            n = base(a[0])
            if n in ('DataFrame', 'Series') and a[1]:
                try:
                    return self.window(alg, a[1][0], name)
                except Unknown:
                    u = self.gathered(t)
                    if u is None:
                        raise
                    return self.window(alg, u, name)
            if n in ('concat', 'hstack') and a[1]:
                return self.join(alg, a[1][0], name)
            if n in ('array', 'asarray', 'copy'):
                return self.window(alg, a[1][0], name)
        if o == 'loop':
            # the table grows by the columns of each pass
            ws = [w for w in (self.window(alg, u, name) for u in a[1]) if w is not None]
            if len(ws) > 1 and (Poly(), Poly(), False) in ws:
                ws = [w for w in ws if w != (Poly(), Poly(), False)] or ws[:1]
            return self.same(ws)
        if o in ('listof', 'list', 'tuple'):
            return self.join(alg, t, name)
        if o == 'sym':
            return (Poly(), Poly(), False)
        if o == 'idx':
            k = a[1]
            if k.op == 'slice' and a[0].op != 'attr':
                if k.args[2].op == 'const' and k.args[2].args[0] == -1 and k.args[0] is NONE and k.args[1] is NONE:
                    lo, hi, r = self.window(alg, a[0], name)
                    return (lo, hi, not r)
                raise Unknown('slice %s' % tm.show(k, 2))
            if a[0].op == 'attr' and a[0].args[1] in ('loc', 'iloc'):
                b = a[0].args[0]
                k0 = k.args[0][0] if k.op == 'tuple' else k
                if k0.op == 'slice' and k0.args[2].op == 'const' and k0.args[2].args[0] == -1:
                    lo, hi, r = self.window(alg, b, name)
                    return (lo, hi, not r)
                if k0.op == 'slice' and all(x is NONE for x in k0.args):
                    return self.window(alg, b, name)
                raise Unknown('rows %s' % tm.show(k, 2))
            return self.source(alg, a[0])
        if o == 'meth':
            return self.method(alg, t, name)
        if o == 'attr' and a[1] in ('values', 'T'):
            return self.window(alg, a[0], name)
        if o == 'upd':
            return self.window(alg, a[0], name)
        raise Unknown('table %s' % tm.show(t, 3))

    @staticmethod
    def gathered(t):
        """The rolling table whose windows a callback collected: DataFrame(<collected>, index=rolled.index[..])."""
        ix = kw(t, 'index', 1)
        while ix is not None and ix.op == 'idx':
            ix = ix.args[0]
        if ix is None or ix.op != 'attr' or ix.args[1] != 'index':
            return None
        u = ix.args[0]
        return u if u.op == 'meth' and u.args[0] == 'apply' and u.args[1].op == 'meth' and u.args[1].args[0] == 'rolling' else None

    def need(self, alg, t):
        u = alg.resolve(t)
        if u.op == 'ite':
            raise Need(literal(u.args[0])[0])
        return u

    def same(self, ws):
        ws = [w for w in ws if w is not None]
        if not ws:
            return None
        if any(w != ws[0] for w in ws[1:]):
            raise Unknown('columns of different windows')
        return ws[0]

    def source(self, alg, t):
        """Selecting a column by name: of the input it is the signal; of an extended table the first with that name."""
        if t.op == 'ite':
            return self.source(alg, self.need(alg, t))
        if t.op == 'loop':
            return self.same([self.source(alg, u) for u in t.args[1]])
        if t.op == 'call' and base(t.args[0]) in ('concat',) and t.args[1] and t.args[1][0].op in ('list', 'tuple'):
            return self.source(alg, t.args[1][0].args[0][0])
        if t.op in ('setattr', 'upd'):
            return self.source(alg, t.args[0])
        return self.window(alg, t)

    def join(self, alg, t, name):
        t = strip(t) if t.op == 'call' else t
        if t.op == 'ite':
            t = self.need(alg, t)
        if t.op == 'listof':
            return self.same([self.window(alg, u, name) for u in t.args[0] + (t.args[1],)])
        if t.op in ('list', 'tuple'):
            out = []
            for u in t.args[0]:
                if self.bare(u):
                    continue
                out.append(self.window(alg, u, name))
            out = [w for w in out if w is not None]
            if len(out) > 1 and (Poly(), Poly(), False) in out:
                out = [w for w in out if w != (Poly(), Poly(), False)] or out[:1]     # the source column kept beside its features
            return self.same(out)
        raise Unknown('joined %s' % tm.show(t, 3))

    @staticmethod
    def bare(u):
        """A table without columns: only an index."""
        return u.op == 'call' and base(u.args[0]) == 'DataFrame' and not u.args[1] and all(k in ('index',) for k, _ in u.args[2])

    def steps(self, alg, t, what):
        """A number of rows as a time."""
        p = alg.poly(t)
        d = self.dim(p)
        if d is None and not p.d:
            return p
        if d == 0 or p.constant() is not None:
            return p * Poly.atom(DT)
        if d == 1:
            return p
        raise Unknown('%s %r' % (what, p))

    def method(self, alg, t, name):
        n, recv, pos, kws = t.args[0], t.args[1], t.args[2], dict(t.args[3])
        dt = Poly.atom(DT)
        if n in ROLL_AGG and recv.op == 'meth' and recv.args[0] in ('rolling', 'expanding', 'ewm'):
            r = recv
            lo, hi, rev = self.window(alg, r.args[1], name)
            rk = dict(r.args[3])
            if r.args[0] in ('expanding', 'ewm'):
                return (INF, hi, False) if not rev else (lo, INF, True)
            w = rk.get('window') if 'window' in rk else (r.args[2][0] if r.args[2] else None)
            if w is None:
                raise Unknown('rolling')
            w = alg.resolve(w)
            c = rk.get('center')
            closed = rk.get('closed')
            if w.op == 'call' and base(w.args[0]) == 'FixedForwardWindowIndexer':
                s = self.steps(alg, kw(w, 'window_size', 1) or kw(w, 'window_size', 0), 'window')
                if rev:
                    return self.shifted(lo, hi, dt - s, Poly(), rev)
                return self.shifted(lo, hi, Poly(), s - dt, rev)
            if w.op == 'call' and 'Indexer' in base(w.args[0]):
                raise Unknown('indexer')
            s = self.steps(alg, w, 'window')
            a, b = dt - s, Poly()
            if closed is not None and not (closed.op == 'const' and closed.args[0] in (None, 'right')):
                if closed.op == 'const' and closed.args[0] == 'left':
                    a, b = -s, -dt
                elif closed.op == 'const' and closed.args[0] == 'both':
                    a, b = -s, Poly()
                else:
                    raise Unknown('closed')
            if c is not None and not (c.op == 'const' and c.args[0] is False):
                half = s * Poly.const(1) * Poly({(): __import__('fractions').Fraction(1, 2)})
                a, b = a + half, b + half
            if rev:
                a, b = -b, -a
            return self.shifted(lo, hi, a, b, rev)
        if n == 'shift':
            lo, hi, rev = self.window(alg, recv, name)
            p = kws.get('periods', pos[0] if pos else const(1))
            f = kws.get('freq', pos[1] if len(pos) > 1 else None)
            if f is not None and f is not NONE:
                s = alg.poly(p) * self.steps(alg, f, 'freq')
                if self.dim(alg.poly(f)) != 1:
                    raise Unknown('shift freq')
            else:
                s = self.steps(alg, p, 'shift')
            s = -s if rev else s
            return self.shifted(lo, hi, -s, -s, rev)
        if n == 'diff':
            lo, hi, rev = self.window(alg, recv, name)
            p = kws.get('periods', pos[0] if pos else const(1))
            s = self.steps(alg, p, 'diff')
            return self.shifted(lo, hi, Poly() if rev else -s, s if rev else Poly(), rev)
        if n in ('copy', 'astype', 'to_frame', 'rename', 'abs', 'round', 'clip', 'droplevel', 'rename_axis', 'squeeze', 'add_suffix',
                 'add_prefix', 'set_axis', 'drop', 'reindex', 'loc'):
            return self.window(alg, recv, name)
        if n in ('cumsum', 'cummax', 'cummin', 'cumprod', 'ffill', 'pad'):
            lo, hi, rev = self.window(alg, recv, name)
            return (INF, hi, rev) if not rev else (lo, INF, rev)
        if n in ('bfill', 'backfill'):
            lo, hi, rev = self.window(alg, recv, name)
            return (lo, INF, rev) if not rev else (INF, hi, rev)
        if n == 'fillna':
            m = kws.get('method')
            lo, hi, rev = self.window(alg, recv, name)
            if m is not None and m.op == 'const' and m.args[0] in ('bfill', 'backfill'):
                return (lo, INF, rev) if not rev else (INF, hi, rev)
            if m is not None:
                return (INF, hi, rev) if not rev else (lo, INF, rev)
            v = pos[0] if pos else kws.get('value')
            if v is not None and v.op == 'const':
                return lo, hi, rev
            raise Unknown('fillna')
        if n == 'interpolate':
            lo, hi, rev = self.window(alg, recv, name)
            return (INF, INF, rev)
        if n == 'sort_index':
            asc = kws.get('ascending', None)
            lo, hi, rev = self.window(alg, recv, name)
            if asc is not None and asc.op == 'const' and asc.args[0] is False:
                return lo, hi, True
            if asc is None or asc.op == 'const' and asc.args[0] is True:
                return lo, hi, False
        raise Unknown('method %s' % n)

    @staticmethod
    def shifted(lo, hi, a, b, rev):
        return (INF if lo == INF else lo + a, INF if hi == INF else hi + b, rev)

    # --------------------------------------------------------------------------------------------------------- order
    def order(self, alg, t):
        """Nested factors of a sequence, outermost first; Unknown when not modelled.  One-element factors vanish."""
        t = strip(t)
        o, a = t.op, t.args
        if o == 'ite':
            return self.order(alg, self.need(alg, t))
        if o in ('list', 'tuple', 'set'):
            return () if len(a[0]) == 1 else (('list', t),)
        if o == 'call' and base(a[0]) == 'product' or o == 'product':
            fs = a[1] if o == 'call' else a
            fs = fs[0].args[0] if len(fs) == 1 and isinstance(fs[0], T) and fs[0].op == 'tuple' else fs
            if len(fs) == 1 and isinstance(fs[0], tuple):
                fs = fs[0]
            out = ()
            for f in fs:
                out += self.order(alg, f)
            return out
        if o == 'listof' and not a[0]:
            return self.order(alg, a[2])
        if o == 'nest':
            return self.order(alg, a[0]) + self.order(alg, a[1])
        if o == 'range' and a[0] is const(0) and a[2] is const(1):
            return (('range', alg.poly(a[1])),)
        if o == 'call':
            n = base(a[0])
            if n == 'arange' and len(a[1]) == 1:
                return (('range', alg.poly(a[1][0])),)
            if n == 'outer':
                return self.order(alg, a[1][0]) + self.order(alg, a[1][1])
            if n in ('ones', 'zeros') and a[1]:
                return (('range', alg.poly(a[1][0])),)
            if n == 'repeat' and len(a[1]) == 2:
                return self.order(alg, a[1][0]) + (self.times_(alg, a[1][1]),)
            if n == 'tile' and len(a[1]) == 2:
                return (self.times_(alg, a[1][1]),) + self.order(alg, a[1][0])
            if n == 'enumerate':
                return self.order(alg, a[1][0])
        if o in ('bin',):
            arr = [u for u in a[1:] if self.isarray(u)]
            os_ = {self.order(alg, u) for u in arr}
            if len(os_) == 1:
                return os_.pop()
            os_ -= {()}
            if len(os_) == 1:
                return os_.pop()
        if o == 'un':
            return self.order(alg, a[1])
        if o == 'idx' and a[1].op == 'slice' and all(x is NONE for x in a[1].args[:2]) and a[1].args[2] is const(-1) or \
                o == 'call' and base(a[0]) in ('flip', 'reversed', 'flipud'):
            inner = self.order(alg, a[0] if o == 'idx' else a[1][0])
            return tuple(f[1] if f[0] == 'rev' else ('rev', f) for f in inner)
        if o == 'call' and base(a[0]) in ('sort', 'sorted') and len(a[1]) == 1 and not a[2]:
            inner = self.order(alg, a[1][0])
            if len(inner) == 1 and inner[0][0] == 'seq':
                return (('sorted', inner[0]),)
        if o == 'sym' and a[0] in self.arrays:
            return (('seq', t),)
        if o == 'instances':
            return (('seq', t),)
        raise Unknown('order of %s' % tm.show(t, 3))

    def times_(self, alg, n):
        """The factor of a repetition: n times, or once per element of a sequence."""
        p = alg.poly(n)
        if len(p.d) == 1:
            (k, c), = p.d.items()
            if c == 1 and len(k) == 1 and k[0][1] == 1 and k[0][0].op == 'size':
                try:
                    o = self.order(alg, k[0][0].args[0])
                except Unknown:
                    o = ()
                if len(o) == 1:
                    return o[0]
        return ('range', p)

    def columns(self, alg, t):
        """Order of the columns of a table (without an explicit relabelling)."""
        o, a = t.op, t.args
        if o == 'ite':
            return self.columns(alg, self.need(alg, t))
        if o == 'setattr' and a[1] == 'columns' or o in ('setattr', 'upd'):
            return self.columns(alg, a[0])
        if o == 'delitem':
            return self.columns(alg, a[0])
        if o == 'call' and base(a[0]) in ('DataFrame', 'Series') and a[1]:
            return self.columns(alg, a[1][0])
        if o == 'call' and base(a[0]) in ('concat', 'hstack') and a[1]:
            return self.joined(alg, a[1][0])
        if o == 'loop' and len(a) > 2 and isinstance(a[2], T):
            over = self.order(alg, a[2])
            news = set()
            for u in a[1]:
                if u.op == 'call' and base(u.args[0]) == 'concat' and u.args[1] and u.args[1][0].op in ('list', 'tuple'):
                    parts = u.args[1][0].args[0]
                    if len(parts) == 2:
                        news.add(self.columns(alg, parts[1]))
                        continue
                    raise Unknown('loop of tables')
                if self.columns(alg, u) != ():
                    raise Unknown('loop of tables')
            if len(news) == 1:
                return over + news.pop()
            raise Unknown('loop of tables')
        if o == 'idx':
            k = a[1]
            if k.op == 'slice':
                return self.columns(alg, a[0])
            return ()
        if o == 'meth':
            n, recv = a[0], a[1]
            if n in ('agg', 'aggregate') and a[2]:
                return self.columns(alg, recv) + self.order(alg, a[2][0])
            if n in ROLL_AGG or n in ('rolling', 'shift', 'copy', 'diff', 'to_frame', 'astype', 'expanding', 'ewm', 'fillna', 'ffill',
                                      'bfill', 'interpolate', 'sort_index'):
                return self.columns(alg, recv)
        if o == 'attr' and a[1] in ('values', 'iloc', 'loc'):
            return self.columns(alg, a[0])
        if o == 'sym':
            return ()
        raise Unknown('columns of %s' % tm.show(t, 3))

    def joined(self, alg, t):
        if t.op == 'ite':
            t = self.need(alg, t)
        if t.op == 'listof' and not t.args[0]:
            return self.order(alg, t.args[2]) + self.columns(alg, t.args[1])
        if t.op in ('list', 'tuple'):
            out = [self.columns(alg, u) for u in t.args[0] if not self.bare(u)]
            if len(out) == 1:
                return out[0]
            if not out:
                return ()
        raise Unknown('columns of %s' % tm.show(t, 3))


def equal_orders(p, q):
    """True / False when two orders are comparable (same factors), None otherwise."""
    if p == q:
        return True
    if sorted(map(plain, p)) == sorted(map(plain, q)):
        return False
    return None


def plain(f):
    while f[0] in ('rev', 'sorted'):
        f = f[1]
    return repr(f)


def colval(t, name):
    """The value assigned to a column of a metadata table, or None."""
    o, a = t.op, t.args
    if o == 'upd':
        if a[1].op == 'const' and a[1].args[0] == name:
            return a[2]
        if a[1].op != 'const':
            return None
        return colval(a[0], name)
    if o == 'setattr':
        return colval(a[0], name)
    if o == 'ite':
        x, y = colval(a[1], name), colval(a[2], name)
        return None if x is None or y is None else x if x is y else mk('ite', a[0], x, y)
    if o == 'call' and base(a[0]) == 'DataFrame':
        d = kw(t, 'data', 0)
        cols = kw(t, 'columns', 2)
        if d is not None and d.op == 'dict':
            for kv in d.args[0]:
                k, v = kv.args
                if k == name or isinstance(k, T) and k.op == 'const' and k.args[0] == name:
                    return v
        if d is not None and cols is not None and cols.op in ('list', 'tuple'):
            names = [u.args[0] if u.op == 'const' else None for u in cols.args[0]]
            if name in names:
                return mk('rowitem', d, const(names.index(name)))
    if o == 'meth' and a[0] == 'assign':
        for k, v in a[3]:
            if k == name:
                return v
        return colval(a[1], name)
    if o == 'meth' and a[0] in ('copy', 'astype'):
        return colval(a[1], name)
    return None


def frame(t):
    """The DataFrame constructor under the column assignments of a metadata table."""
    while t.op in ('upd', 'setattr') or t.op == 'meth' and t.args[0] in ('assign', 'copy', 'astype'):
        t = t.args[0] if t.op != 'meth' else t.args[1]
    return t
