"""Axes of arrays and frames, read off their symbolic terms.

A dimension is a term: `dim(src, k)` for the k-th axis of a source, a constant, or an arithmetic/product term.  Two dimensions
named by different independent sources are different in general position, so an array whose axes are provably in another order
than the documented one is a definite violation; whatever the rules below do not cover is unknown (None).

Every facet returns a frozenset of the possible answers (joins keep them all); None is "unknown".
"""
from __future__ import annotations
from . import terms as tm
from .terms import T, mk, const

UNK = frozenset([None])
ONE = const(1)
ZERO = const(0)
FRAME_SAME = {'copy', 'astype', 'fillna', 'rename', 'replace', 'round', 'abs', 'clip', 'interpolate', 'ffill', 'bfill',
              'cumsum', 'shift', 'diff', 'rank', 'where', 'mask', 'apply', 'infer_objects', 'sort_values', 'convert_dtypes'}
ELEMWISE = {'exp', 'log', 'abs', 'sqrt', 'cos', 'sin', 'tanh', 'maximum', 'minimum', 'square', 'sign', 'round', 'clip',
            'nan_to_num', 'array', 'asarray', 'copy', 'ascontiguousarray', 'cumsum', 'isnan', 'float32', 'where',
            'zeros_like', 'ones_like', 'empty_like', 'full_like', 'asfarray', 'abs', 'floor', 'ceil', 'power', 'negative'}
SELECT = {'dropna', 'drop_duplicates', 'sample', 'nlargest', 'nsmallest', 'between_time', 'at_time'}
REDUCE = {'sum', 'mean', 'median', 'std', 'var', 'min', 'max', 'any', 'all', 'argmax', 'argmin', 'prod', 'nanmean', 'amax',
          'amin', 'nansum'}


def kw(t, name, pos=None):
    """Keyword (or positional) argument of a call/meth/fitted term."""
    pa, ka = (t.args[1], t.args[2]) if t.op in ('call', 'fitted', 'apply') else (t.args[2], t.args[3])
    for k, v in ka:
        if k == name:
            return v
    if pos is not None and pos < len(pa):
        return pa[pos]
    return None


def intval(t):
    if t is None:
        return None
    if t.op == 'const' and isinstance(t.args[0], int) and not isinstance(t.args[0], bool):
        return t.args[0]
    if t.op == 'un' and t.args[0] == '-' and t.args[1].op == 'const' and isinstance(t.args[1].args[0], int):
        return -t.args[1].args[0]
    return None


def base(path):
    return path.rsplit('.', 1)[-1]


class Axes:
    def __init__(self, ranks=None, memo_limit=200000):
        self.ranks = ranks or {}        # symbol name -> rank
        self._d, self._i, self._c, self._n = {}, {}, {}, {}

    # ------------------------------------------------------------------ helpers
    def _memo(self, table, t, fun):
        if t in table:
            return table[t]
        table[t] = UNK      # recursion through loops: unknown
        r = fun(t)
        if not isinstance(r, frozenset):
            r = frozenset([r])
        if len(r) > 6:
            r = UNK
        table[t] = r
        return r

    def join(self, fun, alts):
        out = set()
        for a in alts:
            if isinstance(a, T):
                out |= fun(a)
        # a loop-carried alternative that only repeats itself says nothing new
        if len(out) > 1 and None in out and len(out) == 2 and all(a.op in ('upd', 'bin', 'loop', 'phi', 'mutated') for a in alts
                                                                 if isinstance(a, T) and fun(a) == UNK):
            out.discard(None)
        return frozenset(out or [None])

    def lift(self, f, *sets):
        out = set()

        def rec(i, acc):
            if i == len(sets):
                out.add(f(*acc))
                return
            for v in sets[i]:
                rec(i + 1, acc + [v])
        rec(0, [])
        return frozenset(out)

    # ------------------------------------------------------------------ scalar sizes
    def size(self, t):
        """The canonical dimension named by an integer term."""
        return self._memo(self._n, t, self._size)

    def _size(self, t):
        if t.op == 'const':
            return t if isinstance(t.args[0], int) else None
        if t.op == 'sym' or t.op == 'dim':
            return t
        if t.op == 'idx' and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape':
            k = intval(t.args[1])
            if k is not None:
                b = t.args[0].args[0]
                if k == 0 and b.op == 'meth' and b.args[0] == 'unique':
                    return self.length(b)
                return self.lift(lambda d: d[k] if d is not None and -len(d) <= k < len(d) else None, self.dims(b))
        if t.op == 'len' or (t.op == 'call' and base(t.args[0]) == 'len' and t.args[1]):
            a = t.args[0] if t.op == 'len' else t.args[1][0]
            return self.length(a)
        if t.op == 'attr' and t.args[1] == 'size':
            return self.lift(lambda d: d[0] if d is not None and len(d) == 1 else None, self.dims(t.args[0]))
        if t.op == 'bin':
            o = t.args[0]

            def f(a, b):
                if a is None or b is None:
                    return None
                if a.op == 'const' and b.op == 'const':
                    try:
                        v = {'+': lambda: a.args[0] + b.args[0], '-': lambda: a.args[0] - b.args[0],
                             '*': lambda: a.args[0] * b.args[0]}[o]()
                        return const(v)
                    except Exception:
                        return None
                if o == '*':
                    return prod([a, b])
                if o == '-' and a is b:
                    return ZERO
                if o == '+' and a is ZERO:
                    return b
                if o in ('+', '-') and b is ZERO:
                    return a
                return mk('bin', o, *((a, b) if o != '+' else sorted((a, b), key=lambda z: z.uid)))
            return self.lift(f, self.size(t.args[1]), self.size(t.args[2]))
        # a size is not None: such an alternative is a field before fit
        if t.op == 'ite':
            return self.join(self.size, [x for x in t.args[1:] if x is not tm.NONE])
        if t.op == 'phi':
            return self.join(self.size, [x for x in t.args[0] if x is not tm.NONE])
        if t.op == 'loop':
            return self.join(self.size, [x for x in t.args[1] if x is not tm.NONE])
        if t.op == 'call' and base(t.args[0]) == 'int' and t.args[1]:
            return self.size(t.args[1][0])
        return None

    def length(self, t):
        """Number of elements of an iterable term."""
        if t.op in ('list', 'tuple'):
            return frozenset([const(len(t.args[0]))])
        if t.op == 'range':
            a, b, s = (list(t.args) + [None] * 3)[:3]
            if b is None:
                return self.size(a)
            if s is not None and intval(s) not in (1, None):
                return UNK
            return self.size(b) if intval(a) == 0 else self.size(mk('bin', '-', b, a))
        if t.op == 'listof' and not t.args[0] and isinstance(t.args[2], T):
            return self.length(t.args[2])
        if t.op == 'idx' and t.args[0].op == 'listof' and t.args[1].op == 'slice':
            return self.lift(lambda d: None if d is None else self.slice_dim(d, t.args[1]), self.length(t.args[0]))
        if t.op == 'meth' and t.args[0] in ('unique', 'tolist', 'to_list', 'to_numpy') or \
                t.op == 'call' and base(t.args[0]) in ('unique', 'list', 'array'):
            a = t.args[1] if t.op == 'meth' else t.args[1][0] if t.args[1] else None
            if a is not None and a.op == 'meth' and a.args[0] == 'get_level_values' and a.args[2]:
                r = self.level(a.args[1], intval(a.args[2][0]))
                if r is not None:
                    return self.length(r)
            if t.op == 'meth' and t.args[0] != 'unique':
                return self.length(t.args[1])
        if t.op == 'call' and base(t.args[0]) in ('enumerate', 'tqdm', 'list', 'iter') and t.args[1]:
            return self.length(t.args[1][0])
        if t.op == 'call' and base(t.args[0]) in ('sorted', 'reversed') and t.args[1]:
            n = 'flip' if base(t.args[0]) == 'reversed' else 'sort'
            return self.lift(lambda d: None if d is None else reorder(n, d), self.length(t.args[1][0]))
        return self.lift(lambda d: d[0] if d else None, self.dims(t))

    def level(self, cols, k):
        """The k-th level of a product MultiIndex, as the term it was built from."""
        c = self.labels(cols)
        if len(c) != 1 or k is None:
            return None
        c = next(iter(c))
        lv = product_levels(c)
        if lv is not None and -len(lv) <= k < len(lv):
            return lv[k]
        return None

    # ------------------------------------------------------------------ dims
    def dims(self, t):
        return self._memo(self._d, t, self._dims)

    def _dims(self, t):
        o = t.op
        if o == 'sym':
            r = self.ranks.get(t.args[0])
            return tuple(mk('dim', t, k) for k in range(r)) if r is not None else None
        if o == 'const':
            return () if isinstance(t.args[0], (int, float, bool)) else None
        if o in ('upd', 'mutated'):
            return self.dims(t.args[0])
        if o == 'ite':
            return self.join(self.dims, self.branches(t))
        if o == 'phi':
            return self.join(self.dims, t.args[0])
        if o == 'loop':
            return self.join(self.dims, t.args[1])
        if o == 'un':
            return self.dims(t.args[1])
        if o == 'bin':
            if t.args[0] == '@':
                return self.lift(matmul, self.dims(t.args[1]), self.dims(t.args[2]))
            return self.lift(broadcast, self.dims(t.args[1]), self.dims(t.args[2]))
        if o == 'cmp':
            return self.lift(broadcast, self.dims(t.args[1]), self.dims(t.args[2]))
        if o in ('list', 'tuple'):
            if all(isinstance(x, T) for x in t.args[0]):
                inner = {self.dims(x) for x in t.args[0]}
                if len(inner) == 1:
                    return self.lift(lambda d: None if d is None else (const(len(t.args[0])),) + d, inner.pop())
            return None
        if o == 'listof':
            if not t.args[0] and isinstance(t.args[2], T) and isinstance(t.args[1], T):
                return self.lift(lambda n, d: None if n is None or d is None else (n,) + d,
                                 self.length(t.args[2]), self.dims(t.args[1]))
            return None
        if o == 'elem':
            if t.args[0].op in ('range',):
                return ()
            return self.lift(lambda d: d[1:] if d else None, self.dims(t.args[0]))
        if o == 'range':
            return self.lift(lambda n: (n,) if n is not None else None, self.length(t))
        if o == 'attr':
            return self._attr(t)
        if o == 'idx':
            return self._idx(t)
        if o == 'call':
            return self._call(t)
        if o == 'meth':
            return self._meth(t)
        return None

    def branches(self, t):
        """The branches of a conditional that its rank test leaves open."""
        c, neg = t.args[0], False
        while c.op == 'not':
            c, neg = c.args[0], not neg
        if c.op == 'cmp' and c.args[0] in ('==', '!=', '<', '<=', '>', '>='):
            for u, k, flip in ((c.args[1], c.args[2], False), (c.args[2], c.args[1], True)):
                if k.op != 'const' or not isinstance(k.args[0], int):
                    continue
                b = None
                n = u.args[0] if u.op == 'len' else u.args[1][0] if u.op == 'call' and base(u.args[0]) == 'len' and u.args[1] else None
                if n is not None and n.op == 'attr' and n.args[1] == 'shape':
                    b = n.args[0]
                elif u.op == 'attr' and u.args[1] == 'ndim':
                    b = u.args[0]
                if b is None:
                    continue
                ds = self.dims(b)
                if None in ds:
                    continue
                v = k.args[0]
                f = {'==': lambda r: r == v, '!=': lambda r: r != v, '<': lambda r: r < v, '<=': lambda r: r <= v,
                     '>': lambda r: r > v, '>=': lambda r: r >= v}
                g = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}
                op = g.get(c.args[0], c.args[0]) if flip else c.args[0]
                rs = {f[op](len(d)) != neg for d in ds}
                if len(rs) == 1:
                    return (t.args[1],) if rs.pop() else (t.args[2],)
        return t.args[1:]

    def _attr(self, t):
        b, a = t.args[0], t.args[1]
        d = self.dims(b)
        if a in ('values', 'iloc', 'loc', 'at', 'iat'):
            return d
        if a == 'T':
            return self.lift(lambda x: None if x is None else tuple(reversed(x)), d)
        if a == 'index':
            return self.lift(lambda x: None if not x else (x[0],), d)
        if a == 'columns':
            return self.lift(lambda x: None if not x or len(x) < 2 else (x[1],), d)
        if a in ('hour', 'minute', 'dayofweek', 'day', 'month', 'year', 'weekday', 'dt', 'real', 'imag', 'date'):
            return d
        if a in ('size', 'ndim'):
            return ()
        return None

    def key_dims(self, d, keys):
        """Dims of a[keys] for an array of dims d; None when not understood."""
        out, i = [], 0
        keys = list(keys)
        if any(k.op == 'ellipsis' for k in keys):
            j = [k.op for k in keys].index('ellipsis')
            n = len(d) - sum(1 for k in keys if k.op != 'ellipsis' and k is not tm.NONE)
            keys[j:j + 1] = [mk('slice', tm.NONE, tm.NONE, tm.NONE)] * max(n, 0)
        for k in keys:
            if k is tm.NONE or (k.op == 'ext' and k.args[0].endswith('newaxis')):
                out.append(ONE)
                continue
            if i >= len(d):
                return None
            if k.op == 'slice':
                out.append(self.slice_dim(d[i], k))
            elif intval(k) is not None:
                pass
            else:
                kd = self.dims(k)
                if kd == frozenset([()]):
                    pass
                elif k.op == 'cmp' or (k.op == 'meth' and k.args[0] in ('isin', 'astype', 'ravel')):
                    out.append(mk('filter', d[i], k))
                elif len(kd) == 1 and next(iter(kd)) is not None and len(next(iter(kd))) == 1:
                    out.append(next(iter(kd))[0])
                else:
                    return None
            i += 1
        if any(x is None for x in out):
            return None
        return tuple(out) + tuple(d[i:])

    def slice_dim(self, d, k):
        a, b, s = [x if isinstance(x, T) else const(x) for x in k.args]
        if a is tm.NONE and b is tm.NONE and s is tm.NONE:
            return d
        if s is not tm.NONE and intval(s) != 1:
            return reorder('flip', d) if intval(s) == -1 and a is tm.NONE and b is tm.NONE else mk('sub', d, k)
        if a is tm.NONE and b is not tm.NONE:
            n = self.size(b)
            if n == frozenset([d]):
                return d
            if len(n) == 1 and next(iter(n)) is not None and intval(b) is not None and intval(b) > 0:
                return const(intval(b))
        if a is not tm.NONE and b is tm.NONE and intval(a) == 0:
            return d
        return mk('sub', d, k)

    def _idx(self, t):
        b, k = t.args[0], t.args[1]
        frame = b.op == 'attr' and b.args[1] in ('iloc', 'loc')
        keys = list(k.args[0]) if k.op == 'tuple' else [k]
        if not frame and self.is_frame(b):
            # column selection or a boolean row filter
            if k.op == 'cmp' or k.op == 'slice':
                return self.lift(lambda d: None if d is None else self.key_dims(d, [k]), self.dims(b))
            if k.op in ('list', 'listof'):
                return self.lift(lambda d, n: None if not d or n is None else (d[0], n), self.dims(b), self.length(k))
            if k.op == 'attr' and k.args[1] == 'columns':
                return self.lift(lambda d, n: None if not d or n is None else (d[0], n), self.dims(b), self.length(k))
            if (k.op == 'const' and isinstance(k.args[0], str)) or k.op in ('fstr', 'sym', 'elem'):
                return self.lift(lambda d: None if not d else (d[0],), self.dims(b))
            return None
        return self.lift(lambda d: None if d is None else self.key_dims(d, keys), self.dims(b))

    def is_frame(self, t):
        if t.op == 'sym':
            return t.args[0] in ('arg:x', 'arg:y', 'arg:x_te', 'arg:x2', 'arg:y2', 'arg:df')
        if t.op == 'call':
            return t.args[0] in ('pandas.DataFrame', 'pandas.concat')
        if t.op in ('upd', 'mutated'):
            return self.is_frame(t.args[0])
        if t.op == 'loop':
            return any(self.is_frame(a) for a in t.args[1] if isinstance(a, T) and a.op not in ('loop', 'phi'))
        if t.op == 'phi':
            return any(self.is_frame(a) for a in t.args[0] if isinstance(a, T) and a.op not in ('loop', 'phi'))
        if t.op == 'ite':
            return self.is_frame(t.args[1]) and self.is_frame(t.args[2])
        if t.op == 'meth':
            return t.args[0] in FRAME_SAME and self.is_frame(t.args[1])
        if t.op == 'idx':
            k = t.args[1]
            if t.args[0].op == 'attr' and t.args[0].args[1] in ('loc', 'iloc'):
                return self.is_frame(t.args[0].args[0]) and (k.op != 'tuple' or all(x.op in ('slice', 'cmp', 'list') for x in k.args[0]))
            return k.op in ('cmp', 'list', 'listof') and self.is_frame(t.args[0])
        if t.op == 'bin':
            return self.is_frame(t.args[1]) or self.is_frame(t.args[2])
        return False

    def shape_arg(self, t):
        """A shape given as a tuple/list/scalar term -> dims alternatives."""
        if t.op in ('tuple', 'list'):
            return self.lift(lambda *d: tuple(d) if all(x is not None for x in d) else None,
                             *[self.size(x) for x in t.args[0]])
        if t.op == 'attr' and t.args[1] == 'shape':
            return self.dims(t.args[0])
        return self.lift(lambda n: None if n is None else (n,), self.size(t))

    def reduce(self, d, axis, keep=False):
        if d is None:
            return None
        if axis is None:
            return ()
        if -len(d) <= axis < len(d):
            axis %= len(d)
            return d[:axis] + ((ONE,) if keep else ()) + d[axis + 1:]
        return None

    def _call(self, t):
        p, n = t.args[0], base(t.args[0])
        a = t.args[1]
        A = lambda i=0: self.dims(a[i]) if len(a) > i else UNK
        if n == 'DataFrame':
            v, i, c = kw(t, 'data', 0), kw(t, 'index', 1), kw(t, 'columns', 2)
            d = self.dims(v) if v is not None else UNK
            # pandas checks the labels against the data, so given labels name the axes
            if i is not None and i is not tm.NONE and c is not None and c is not tm.NONE:
                m, k = self.length(i), self.length(c)
                if None not in m and None not in k:
                    if None not in d:
                        # values in another order than the labels keep their own axis
                        return self.lift(lambda x, y, z: tuple(p if len(z) == 2 and permuted(p, q) else q
                                                               for p, q in zip(z, (x, y))) if len(z) == 2 else (x, y), m, k, d)
                    return self.lift(lambda x, y: (x, y), m, k)
            if None in d and i is not None and c is not None:
                return self.lift(lambda x, y: (x, y) if x is not None and y is not None else None, self.length(i), self.length(c))
            return self.lift(lambda x: x if x is None or len(x) == 2 else x + (ONE,) if len(x) == 1 else None, d)
        if n == 'Series':
            v, i = kw(t, 'data', 0), kw(t, 'index', 1)
            return self.lift(lambda x: (x,) if x is not None else None, self.length(i) if i is not None else self.length(v))
        if n in ('zeros', 'ones', 'empty', 'full') and p.startswith(('numpy', 'jax')):
            return self.shape_arg(kw(t, 'shape', 0)) if kw(t, 'shape', 0) is not None else None
        if n in ('rand', 'randn') and a:
            if len(a) == 1 and a[0].op == 'star':
                return self.shape_arg(a[0].args[0])
            return self.lift(lambda *d: tuple(d) if all(x is not None for x in d) else None, *[self.size(x) for x in a])
        if n in ('flip', 'flipud', 'fliplr', 'sort', 'roll') and p.startswith(('numpy', 'jax')) and a:
            k = {'flipud': 0, 'fliplr': 1}.get(n)
            if k is None:
                v = kw(t, 'axis', 2 if n == 'roll' else 1)
                k = intval(v) if v is not None else -1 if n == 'sort' else None
            if k is None:
                return self.lift(lambda d: None if d is None else tuple(reorder(n, x) for x in d), A())
            return self.lift(lambda d: None if d is None or not -len(d) <= k < len(d) else
                             d[:k % len(d)] + (reorder(n, d[k]),) + d[k % len(d) + 1:], A())
        if n in ('normal', 'standard_normal', 'uniform', 'random', 'random_sample') and kw(t, 'size') is not None:
            return self.shape_arg(kw(t, 'size'))
        if n in ('expand_dims',) and a:
            k = intval(kw(t, 'axis', 1))
            return self.lift(lambda d: None if d is None or k is None or not -len(d) - 1 <= k <= len(d) else
                             insert(d, k if k >= 0 else k + len(d) + 1, ONE), A())
        if n == 'swapaxes' and len(a) == 3:
            return self.lift(lambda d: swap(d, intval(a[1]), intval(a[2])), A())
        if n == 'transpose' and a:
            ax = kw(t, 'axes', 1)
            if ax is None:
                return self.lift(lambda d: None if d is None else tuple(reversed(d)), A())
            if ax.op in ('tuple', 'list'):
                pm = [intval(x) for x in ax.args[0]]
                return self.lift(lambda d: None if d is None or None in pm or len(pm) != len(d) else tuple(d[i] for i in pm), A())
            return None
        if n == 'moveaxis' and len(a) == 3:
            return self.lift(lambda d: move(d, intval(a[1]), intval(a[2])), A())
        if n == 'rollaxis' and len(a) >= 2:
            k, s = intval(a[1]), intval(a[2]) if len(a) > 2 else 0
            return self.lift(lambda d: rollaxis(d, k, s), A())
        if n in ('quantile', 'percentile', 'nanquantile') and p.startswith('numpy') and a:
            k = kw(t, 'axis', 2)
            q = kw(t, 'q', 1)
            qd = self.dims(q) if q is not None else UNK
            if qd == UNK:
                qd = self.lift(lambda n_: None if n_ is None else (n_,), self.length(q)) if q is not None else UNK
            if k is None or k is tm.NONE:
                return qd
            kk = intval(k)
            return self.lift(lambda d, e: None if d is None or e is None or kk is None or self.reduce(d, kk) is None
                             else e + self.reduce(d, kk), A(), qd)
        if n in REDUCE and p.startswith(('numpy', 'jax')) and a:
            k = kw(t, 'axis', 1)
            kk = intval(k)
            if k is not None and k is not tm.NONE and kk is None:
                return None
            return self.lift(lambda d: self.reduce(d, kk), A())
        if n == 'atleast_2d' and len(a) == 1:
            return self.lift(lambda d: None if d is None else (ONE,) * (2 - len(d)) + d, A())
        if n == 'atleast_1d' and len(a) == 1:
            return self.lift(lambda d: None if d is None else d if d else (ONE,), A())
        if n == 'squeeze' and a:
            return self.lift(lambda d: None if d is None else tuple(x for x in d if x is not ONE), A())
        if n in ('hstack', 'vstack', 'dstack', 'concatenate', 'column_stack', 'stack') and a:
            return self.stack(n, a[0], intval(kw(t, 'axis', 1)) if n in ('concatenate', 'stack') else None)
        if n == 'tile' and len(a) == 2:
            r = self.shape_arg(a[1])

            def f(d, s):
                if d is None or s is None:
                    return None
                m = max(len(d), len(s))
                d, s = (ONE,) * (m - len(d)) + d, (ONE,) * (m - len(s)) + s
                return tuple(y if x is ONE else x if y is ONE else prod([y, x]) for x, y in zip(d, s))
            return self.lift(f, A(), r)
        if n == 'reshape' and len(a) >= 2:
            return self.reshape_in(A(), a[1], kw(t, 'order', 2))
        if n in ('arange',):
            if len(a) == 1:
                return self.lift(lambda x: None if x is None else (x,), self.size(a[0]))
            if len(a) == 2:
                return self.lift(lambda x: None if x is None else (x,),
                                 self.size(a[1]) if intval(a[0]) == 0 else self.size(mk('bin', '-', a[1], a[0])))
            return None
        if n == 'linspace' and len(a) >= 3:
            return self.lift(lambda x: None if x is None else (x,), self.size(a[2]))
        if n == 'eye' and a:
            return self.lift(lambda x: None if x is None else (x, x), self.size(a[0]))
        if n == 'multivariate_normal' or n == 'rvs':
            return None
        if n in ELEMWISE and p.startswith(('numpy', 'jax')) and a:
            if n == 'where' and len(a) == 3:
                return self.lift(broadcast, A(1), A(2))
            return A()
        if n == 'concat' and p.startswith('pandas') and a:
            k = intval(kw(t, 'axis', 1)) or 0
            if kw(t, 'axis', 1) is not None and intval(kw(t, 'axis', 1)) is None:
                return None
            return self.stack('concatenate', a[0], k)
        if n in ('deepcopy', 'copy', 'list', 'tuple', 'tqdm', 'sorted') and a:
            return A()
        if n in ('int', 'float', 'bool', 'len', 'abs', 'str'):
            return ()
        return None

    def stack(self, n, lst, axis):
        if lst.op in ('list', 'tuple'):
            ds = [self.dims(x) for x in lst.args[0]]
            cnt = None
        elif lst.op == 'listof' and not lst.args[0] and isinstance(lst.args[1], T):
            ds = [self.dims(lst.args[1])]
            if lst.args[1].op == 'phi' and any(None in self.dims(x) for x in lst.args[1].args[0] if isinstance(x, T)):
                return None
            cnt = self.length(lst.args[2]) if isinstance(lst.args[2], T) else UNK
            if len(cnt) != 1 or None in cnt:
                return None
            cnt = next(iter(cnt))
            # elements of different shapes (appended by different statements): number of each is unknown
            if len(ds[0]) != 1:
                return self.mixed(n, ds[0], axis, lst)
        else:
            return None
        out = set()

        def rec(i, acc):
            if i == len(ds):
                out.add(self.stack1(n, acc, cnt, axis))
                return
            for d in ds[i]:
                rec(i + 1, acc + [d])
        rec(0, [])
        return frozenset(out)

    def mixed(self, n, ds, axis, lst):
        """Elements of different shapes: only the axes that are not stacked are known."""
        if None in ds or n == 'stack':
            return None
        out = {self.stack1(n, [d], ONE, axis) for d in ds}
        if None in out or len({len(d) for d in out}) != 1:
            return None
        r = len(next(iter(out)))
        ax = {'vstack': 0, 'hstack': 0 if r == 1 else 1, 'dstack': 2, 'column_stack': 1}.get(n, (axis or 0) % r)
        hidden = {d[:ax] + d[ax + 1:] for d in out}
        if len(hidden) != 1:
            return None
        d = hidden.pop()
        return d[:ax] + (mk('anydim', lst),) + d[ax:]

    def stack1(self, n, ds, cnt, axis):
        if any(d is None for d in ds) or not ds:
            return None
        r = len(ds[0])
        if n == 'stack':
            axis = axis or 0
            m = cnt if cnt is not None else const(len(ds))
            return insert(ds[0], axis if axis >= 0 else axis + r + 1, m) if all(d == ds[0] for d in ds) else None
        if n == 'vstack':
            ds = [(ONE,) + d if len(d) == 1 else d for d in ds]
            axis = 0
        elif n == 'hstack':
            axis = 0 if r == 1 else 1
        elif n == 'dstack':
            ds = [(ONE, d[0], ONE) if len(d) == 1 else d + (ONE,) if len(d) == 2 else d for d in ds]
            axis = 2
        elif n == 'column_stack':
            ds = [d + (ONE,) if len(d) == 1 else d for d in ds]
            axis = 1
        else:
            axis = axis or 0
        r = len(ds[0])
        if any(len(d) != r for d in ds) or not -r <= axis < r:
            return None
        axis %= r
        if cnt is not None:
            m = cnt if ds[0][axis] is ONE else prod([cnt, ds[0][axis]])
        elif len(ds) == 1:
            m = ds[0][axis]
        else:
            m = total([d[axis] for d in ds])
        d0 = ds[0]
        return d0[:axis] + (m,) + d0[axis + 1:]

    def reshape_in(self, d, shp, order):
        """Regrouping in the given memory order (column-major is the row-major one of the reversed axes)."""
        if order is None or (order.op == 'const' and order.args[0] == 'C'):
            return self.reshape(d, shp)
        if order.op == 'const' and order.args[0] == 'F':
            rev = self.lift(lambda x: None if x is None else tuple(unprod(reversed(x))), d)
            if shp.op in ('tuple', 'list'):
                shp = mk('tuple', tuple(reversed(shp.args[0])))
            return self.lift(lambda x: None if x is None else tuple(unprod(reversed(x))), self.reshape(rev, shp))
        return UNK

    def reshape(self, d, shp):
        """Row-major regrouping: the factors must keep their order, otherwise the axes are scrambled."""
        def f(d, want):
            unk = [i for i, x in enumerate(want) if x.op == 'const' and x.args[0] == -1]
            if d is None or any(x is None for x in d):
                return tuple(want) if not unk else None
            if len(unk) > 1:
                return None
            have = factors(d)
            if not unk:
                w = factors(want)
                if w == have:
                    return tuple(want)
                if sorted(w, key=lambda z: z.uid) == sorted(have, key=lambda z: z.uid):
                    return tuple(x if x is ONE else mk('scrambled', x) for x in want)
                return tuple(want)
            k = unk[0]
            pre, suf = factors(want[:k]), factors(want[k + 1:])
            n = len(have) - len(pre) - len(suf)
            w = list(want)
            if n >= 0 and have[:len(pre)] == pre and have[len(have) - len(suf):] == suf:
                mid = have[len(pre):len(have) - len(suf)]
                w[k] = prod(mid) if mid else ONE
                return tuple(w)
            left = list(have)
            for g in pre + suf:
                if g not in left:
                    return None
                left.remove(g)
            w[k] = prod(left) if left else ONE
            # keep the part of the axes that still is in order
            good = 0
            while good < k and have[:len(factors(want[:good + 1]))] == factors(want[:good + 1]):
                good += 1
            return tuple(x if i < good or x is ONE else mk('scrambled', x) for i, x in enumerate(w))
        if shp.op in ('tuple', 'list'):
            sizes = [frozenset([const(-1)]) if intval(x) == -1 else self.size(x) for x in shp.args[0]]
            out = set()
            for w in self.lift(lambda *z: tuple(z), *sizes):
                for dd in d:
                    if any(x is None for x in w):
                        out.add(None)
                    else:
                        out.add(f(dd, w))
            return frozenset(out)
        if intval(shp) == -1:
            return self.lift(lambda x: None if x is None else (prod(list(x)),), d)
        return self.lift(lambda n: None if n is None else (n,), self.size(shp))

    def _meth(self, t):
        n, b, a = t.args[0], t.args[1], t.args[2]
        d = self.dims(b)
        if n == 'predict' or n in ('transform', 'inverse_transform', 'predict_proba') and a:
            return self.predict_dims(t)
        if n in FRAME_SAME or n in ('to_numpy', 'to_frame', 'swaplevel', 'sort_index', 'reindex'):
            if n == 'to_frame':
                return self.lift(lambda x: None if x is None else x + (ONE,) if len(x) == 1 else x, d)
            if n == 'reindex':
                return None
            if n in ('sort_index', 'sort_values'):
                k = intval(kw(t, 'axis', 0)) if kw(t, 'axis') is not None or n == 'sort_index' and a else 0
                return self.lift(lambda x: None if not x or k is None or k >= len(x) else
                                 x[:k] + (reorder('sort', x[k]),) + x[k + 1:], d)
            return d
        if n == 'reshape':
            return self.reshape_in(d, a[0] if len(a) == 1 else mk('tuple', tuple(a)), kw(t, 'order'))
        if n in ('ravel', 'flatten'):
            return self.lift(lambda x: None if x is None else (prod(list(x)),) if len(x) != 1 else x, d)
        if n == 'squeeze':
            return self.lift(lambda x: None if x is None else tuple(y for y in x if y is not ONE), d)
        if n == 'swapaxes' and len(a) == 2:
            return self.lift(lambda x: swap(x, intval(a[0]), intval(a[1])), d)
        if n == 'transpose':
            if not a:
                return self.lift(lambda x: None if x is None else tuple(reversed(x)), d)
            pm = [intval(x) for x in (a[0].args[0] if len(a) == 1 and a[0].op in ('tuple', 'list') else a)]
            return self.lift(lambda x: None if x is None or None in pm or len(pm) != len(x) else tuple(x[i] for i in pm), d)
        if n == 'quantile' and self.is_frame(b) and a:
            return self.lift(lambda x, q: None if x is None or q is None else (q,) + x[1:], d, self.length(a[0]))
        if n in REDUCE:
            k = kw(t, 'axis', 0)
            if self.is_frame(b):
                kk = 0 if k is None else intval(k)
            else:
                kk = intval(k) if k is not None else None
            if k is not None and k is not tm.NONE and kk is None:
                return None
            return self.lift(lambda x: self.reduce(x, kk), d)
        if n in ('isin', 'isna', 'notna', 'round', 'clip'):
            return d
        if n == 'repeat' and a:
            return None
        if n in SELECT and self.is_frame(b) and kw(t, 'axis', 0 if n == 'dropna' else None) is None and kw(t, 'inplace') is None:
            return self.lift(lambda x: None if not x else (mk('filter', x[0], mk('cmp', n, b, tm.NONE)),) + x[1:], d)
        if n == 'drop' and kw(t, 'columns') is not None:
            return self.lift(lambda x: None if not x else (x[0], mk('sub', x[1], kw(t, 'columns'))), d)
        return None

    def predict_dims(self, t):
        """learner.predict(X): one row per row of X, the target axes of the data it was fitted on."""
        n, b, a = t.args[0], t.args[1], t.args[2]
        if not a:
            return None
        rows = self.lift(lambda x: None if not x else x[0], self.dims(a[0]))
        if n in ('transform', 'inverse_transform'):
            return self.dims(a[0]) if any(s in tm.show(b, 8) for s in ('Scaler', 'Encoder')) else None
        outs = set()
        for f in tm.alternatives(b):
            if f.op == 'fitted' and len(f.args[1]) > 1:
                q = kw(t, 'quantiles', 1)
                ql = UNK
                if q is not None and not (q.op == 'const' and isinstance(q.args[0], str)):
                    ql = self.length(q)
                for yd in self.dims(f.args[1][1]):
                    for r in rows:
                        if yd is None or r is None:
                            outs.add(None)
                        elif q is not None and not (q.op == 'const' and isinstance(q.args[0], str)):
                            # quantile forests: (rows, quantiles) for one target, (rows, targets, quantiles) for many
                            for k in ql:
                                outs.add(None if k is None else (r,) + yd[1:] + (k,))
                        else:
                            outs.add((r,) + yd[1:])
            elif f.op == 'call' and base(f.args[0]) == 'train':
                for r in rows:
                    outs.add(None if r is None else (r,))
            else:
                outs.add(None)
        return frozenset(outs or [None])

    # ------------------------------------------------------------------ labels
    def index(self, t):
        """Canonical term of the row labels of a frame or series term."""
        return self._memo(self._i, t, lambda u: self._label(u, 'index'))

    def columns(self, t):
        return self._memo(self._c, t, lambda u: self._label(u, 'columns'))

    def labels(self, t):
        """Canonical form of an index/columns term."""
        if t.op == 'attr' and t.args[1] in ('index', 'columns'):
            r = (self.index if t.args[1] == 'index' else self.columns)(t.args[0])
            if r != UNK:
                return r
        if t.op == 'idx' and t.args[0].op == 'attr' and t.args[0].args[1] == 'index' and t.args[1].op == 'slice':
            k = t.args[1]
            src = t.args[0].args[0]
            out = set()
            for d in self.dims(src):
                if d and self.slice_dim(d[0], k) is d[0]:
                    out |= self.labels(t.args[0])
                else:
                    out |= self.lift(lambda l: None if l is None else mk('idx', l, k), self.labels(t.args[0]))
            return frozenset(out)
        if t.op == 'ite':
            return self.join(self.labels, t.args[1:])
        if t.op == 'phi':
            return self.join(self.labels, t.args[0])
        if t.op == 'loop':
            return self.join(self.labels, t.args[1])
        if t.op == 'meth' and t.args[0] in ('copy', 'tolist', 'to_list', 'to_numpy'):
            return self.labels(t.args[1])
        if t.op == 'meth' and t.args[0] in ('sort_values', 'sort') or \
                t.op == 'call' and base(t.args[0]) in ('sorted', 'reversed', 'flip', 'sort') and t.args[1]:
            how = 'flip' if t.op == 'call' and base(t.args[0]) in ('reversed', 'flip') else 'sort'
            return self.lift(lambda l: None if l is None else mk('reorder', how, l),
                             self.labels(t.args[1] if t.op == 'meth' else t.args[1][0]))
        if t.op == 'idx' and t.args[1].op == 'slice' and t.args[1].args[:2] == (tm.NONE, tm.NONE) and \
                isinstance(t.args[1].args[2], T) and intval(t.args[1].args[2]) == -1:
            return self.lift(lambda l: None if l is None else mk('reorder', 'flip', l), self.labels(t.args[0]))
        if t.op == 'call' and base(t.args[0]) == 'RangeIndex' or t.op == 'range':
            return frozenset([mk('range-label', t)])
        if t.op == 'call' and base(t.args[0]) in ('list', 'array') and len(t.args[1]) == 1:
            return self.labels(t.args[1][0])
        return frozenset([t])

    def _label(self, t, which):
        me = self.index if which == 'index' else self.columns
        o = t.op
        if o == 'sym':
            return mk('attr', t, which) if self.ranks.get(t.args[0]) == 2 or which == 'index' else None
        if o in ('upd', 'mutated'):
            if which == 'columns' and self.is_frame(t.args[0]) and o == 'upd':
                # naming the levels is not relabelling
                if t.args[2].op == 'setattr' and t.args[2].args[1] in ('names', 'name'):
                    return me(t.args[0])
                if self.column_slots(t):
                    return me(t.args[0])
                return None
            return me(t.args[0])
        if o == 'setattr':
            if t.args[1] == which:
                return self.labels(t.args[2])
            return me(t.args[0])
        if o == 'ite':
            return self.join(me, t.args[1:])
        if o == 'phi':
            return self.join(me, t.args[0])
        if o == 'loop':
            return self.join(me, t.args[1])
        if o == 'un':
            return me(t.args[1])
        if o == 'call':
            n = base(t.args[0])
            if n in ('DataFrame', 'Series'):
                g = kw(t, which, 1 if which == 'index' else 2)
                v = kw(t, 'data', 0)
                if g is not None and g is not tm.NONE:
                    return self.labels(g)
                if v is None:
                    return None
                r = me(v)
                if r != UNK:
                    return r
                if self.is_array(v):
                    return mk('range-label', v)
                return None
            if n == 'concat' and t.args[1]:
                k = intval(kw(t, 'axis', 1)) if kw(t, 'axis', 1) is not None else 0
                if (which == 'index' and k == 1) or (which == 'columns' and k == 0):
                    lst = t.args[1][0]
                    if lst.op in ('list', 'tuple'):
                        rs = {me(x) for x in lst.args[0]}
                        if len(rs) == 1:
                            return rs.pop()
                    if lst.op == 'listof' and not lst.args[0] and isinstance(lst.args[1], T):
                        return me(lst.args[1])
                return None
            if n in ('deepcopy', 'copy'):
                return me(t.args[1][0])
            return None
        if o == 'meth':
            n = t.args[0]
            if n in ('transform', 'inverse_transform') and 'set_output' in tm.show(t.args[1], 12) and t.args[2]:
                return me(t.args[2][0])
            if n == 'rename':
                if which == 'columns' and (kw(t, 'columns') is not None or kw(t, 'axis') is not None or t.args[2]):
                    return None
                return me(t.args[1]) if kw(t, 'index') is None else None
            if n in FRAME_SAME and n not in ('sort_values', 'apply'):
                return me(t.args[1])
            if n in ('sort_index', 'sort_values'):
                k = intval(kw(t, 'axis', 0)) if kw(t, 'axis') is not None or n == 'sort_index' and t.args[2] else 0
                if k is None:
                    return None
                return self.lift(lambda l: None if l is None else mk('reorder', 'sort', l), me(t.args[1])) \
                    if (which == 'index') == (k == 0) else me(t.args[1])
            if n == 'reset_index':
                return mk('range-label', t.args[1]) if which == 'index' else None
            if n == 'drop' and which == 'index' and kw(t, 'columns') is not None:
                return me(t.args[1])
            if n == 'loc' or n == 'iloc':
                return None
            return None
        if o == 'bin':
            a, b = me(t.args[1]), me(t.args[2])
            if a == b:
                return a
            fa, fb = self.is_frame(t.args[1]), self.is_frame(t.args[2])
            if fa and not fb:
                return a
            if fb and not fa:
                return b
            return None
        if o == 'idx':
            b, k = t.args
            if b.op == 'attr' and b.args[1] in ('iloc', 'loc'):
                keys = list(k.args[0]) if k.op == 'tuple' else [k]
                i = 0 if which == 'index' else 1
                sel = keys[i] if i < len(keys) else mk('slice', tm.NONE, tm.NONE, tm.NONE)
                if sel.op == 'slice' and all((x is tm.NONE or x is None) for x in sel.args):
                    return me(b.args[0])
                if sel.op == 'slice':
                    return self.lift(lambda l: None if l is None else mk('idx', l, sel), me(b.args[0]))
                if sel.op == 'cmp':
                    return self.lift(lambda l: None if l is None else mk('idx', l, sel), me(b.args[0]))
                return None
            if self.is_frame(b):
                if which == 'index' and k.op in ('list', 'listof', 'const', 'fstr', 'elem', 'attr') and not (k.op == 'const' and not isinstance(k.args[0], str)):
                    return me(b)
                if which == 'columns' and k.op in ('cmp', 'slice'):
                    return me(b)
                if which == 'index' and k.op in ('cmp', 'slice'):
                    return self.lift(lambda l: None if l is None else mk('idx', l, k), me(b))
            return None
        return None

    def column_slots(self, t):
        """The update writes cells of existing rows/columns (positional or boolean keys): no new column."""
        return t.args[1].op == 'via' and False

    def is_array(self, t):
        """Definitely not labelled."""
        if t.op == 'call':
            return t.args[0].startswith(('numpy.', 'jax.'))
        if t.op == 'attr':
            return t.args[1] == 'values'
        if t.op == 'meth':
            return t.args[0] in ('reshape', 'ravel', 'to_numpy', 'flatten', 'swapaxes') or \
                (t.args[0] == 'predict' and all(f.op in ('fitted', 'call') for f in tm.alternatives(t.args[1])))
        if t.op == 'upd':
            return self.is_array(t.args[0])
        if t.op == 'loop':
            al = [a for a in t.args[1] if isinstance(a, T)]
            return bool(al) and all(self.is_array(a) for a in al)
        if t.op == 'bin':
            return self.is_array(t.args[1]) and (self.is_array(t.args[2]) or t.args[2].op == 'const')
        if t.op == 'idx':
            return self.is_array(t.args[0])
        return False


def unprod(ds):
    """Axes read in the other memory order."""
    return [prod(list(reversed(factors([x])))) if x is not None and x.op == 'prod' else x for x in ds]


def permuted(p, q):
    """The axis p is a reordering of q."""
    while p.op in ('reorder', 'scrambled'):
        p = p.args[1] if p.op == 'reorder' else p.args[0]
        if p is q:
            return True
    return False


def product_levels(c):
    while c is not None and c.op in ('setattr',):
        c = c.args[0]
    if c is not None and c.op == 'call' and c.args[0].endswith('MultiIndex.from_product') and c.args[1]:
        lst = c.args[1][0]
        if lst.op in ('list', 'tuple'):
            return list(lst.args[0])
    return None


# ---------------------------------------------------------------------- dims algebra
def reorder(how, d):
    """The elements of axis d in another order (two reversals cancel, sorting twice is sorting)."""
    how = 'flip' if how in ('flip', 'flipud', 'fliplr') else how
    if d.op == 'const' and d.args[0] == 1:
        return d
    if d.op == 'reorder' and d.args[0] == how:
        return d.args[1] if how == 'flip' else d
    return mk('reorder', how, d)


def prod(ds):
    fs = factors(ds)
    if not fs:
        return ONE
    if len(fs) == 1:
        return fs[0]
    if all(f.op == 'const' for f in fs):
        v = 1
        for f in fs:
            v *= f.args[0]
        return const(v)
    return mk('prod', tuple(fs))        # row-major order is kept: the order of the factors matters


def factors(ds):
    out = []
    for d in ds:
        if d is ONE:
            continue
        out.extend(d.args[0] if d.op == 'prod' else [d])
    return out


def total(ds):
    if all(d.op == 'const' for d in ds):
        return const(sum(d.args[0] for d in ds))
    return mk('total', tuple(ds))


def broadcast(a, b):
    if a is None or b is None:
        return None
    n = max(len(a), len(b))
    a, b = (ONE,) * (n - len(a)) + a, (ONE,) * (n - len(b)) + b
    out = []
    for x, y in zip(a, b):
        if x is ONE or x is y:
            out.append(y)
        elif y is ONE:
            out.append(x)
        else:
            out.append(x)   # numpy requires them equal
    return tuple(out)


def conflicts(a, b):
    """Axis pairs numpy would have to find equal although they come from different sources."""
    if a is None or b is None:
        return []
    n = max(len(a), len(b))
    a, b = (ONE,) * (n - len(a)) + a, (ONE,) * (n - len(b)) + b
    return [(x, y) for x, y in zip(a, b) if x is not y and x is not ONE and y is not ONE]


def matmul(a, b):
    if not a or not b:
        return None
    if len(a) == 1 and len(b) == 1:
        return ()
    if len(b) == 1:
        return a[:-1]
    if len(a) == 1:
        return b[:-2] + b[-1:]
    return a[:-1] + b[-1:]


def insert(d, k, x):
    return d[:k] + (x,) + d[k:]


def swap(d, i, j):
    if d is None or i is None or j is None or not (-len(d) <= i < len(d) and -len(d) <= j < len(d)):
        return None
    d = list(d)
    d[i], d[j] = d[j], d[i]
    return tuple(d)


def move(d, i, j):
    if d is None or i is None or j is None:
        return None
    d = list(d)
    if not -len(d) <= i < len(d):
        return None
    x = d.pop(i % len(d))
    d.insert(j % (len(d) + 1), x)
    return tuple(d)


def rollaxis(d, axis, start):
    if d is None or axis is None or start is None or not -len(d) <= axis < len(d):
        return None
    axis %= len(d)
    if start < 0:
        start += len(d)
    if axis < start:
        start -= 1
    if axis == start:
        return d
    d = list(d)
    x = d.pop(axis)
    d.insert(start, x)
    return tuple(d)
