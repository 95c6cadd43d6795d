"""Arithmetic normal forms of terms: rational polynomials over atoms, with case splits on joined values.

Two arithmetic spellings of one quantity get the same polynomial, so rules can prove equalities and orderings
(`a - b` is zero, or a sum of products of things known to be non-negative) without running anything.
"""
from __future__ import annotations
from fractions import Fraction
from . import terms as tm
from .terms import T, mk, const

# wrappers that do not change the numeric (or time) value
SAME = {'Timedelta', 'to_timedelta', 'asarray', 'array', 'float', 'float64', 'float32', 'timedelta64', 'Timestamp', 'to_datetime',
        'abs_same', 'copy', 'atleast_1d', 'squeeze', 'int64', 'int32', 'asanyarray', 'asfarray', 'ascontiguousarray'}
SAME_M = {'copy', 'to_numpy', 'astype', 'item', 'squeeze', 'to_timedelta64', 'to_pytimedelta', 'ravel', 'flatten', 'view',
          'round_same', 'to_datetime64', 'to_pydatetime', 'as_unit'}
SAME_A = {'values', 'array'}


def base(path):
    return path.rsplit('.', 1)[-1]


class Poly:
    """A sum of coefficient * product of atoms (atoms raised to integer powers)."""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v}

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)})

    @staticmethod
    def atom(t):
        return Poly({((t, 1),): Fraction(1)})

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Poly(d)

    def __neg__(self):
        return Poly({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = {}
        for k1, v1 in self.d.items():
            for k2, v2 in o.d.items():
                m = {}
                for a, p in k1 + k2:
                    m[a] = m.get(a, 0) + p
                k = tuple(sorted(((a, p) for a, p in m.items() if p), key=lambda ap: (ap[0].uid, ap[1])))
                d[k] = d.get(k, 0) + v1 * v2
        return Poly(d)

    def inverse(self):
        if len(self.d) != 1:
            return None
        (k, v), = self.d.items()
        return Poly({tuple((a, -p) for a, p in k): 1 / v})

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def constant(self):
        if not self.d:
            return Fraction(0)
        if set(self.d) == {()}:
            return self.d[()]
        return None

    def atoms(self):
        return {a for k in self.d for a, _ in k}

    def coeff(self, t):
        """Coefficient of an atom occurring linearly and alone, and the rest; None when it also occurs otherwise."""
        c, rest = Fraction(0), {}
        for k, v in self.d.items():
            if k == ((t, 1),):
                c = v
            elif any(a is t for a, _ in k):
                return None
            else:
                rest[k] = v
        return c, Poly(rest)

    def subst(self, m):
        """Replace atoms by polynomials (only non-negative powers)."""
        out = Poly()
        for k, v in self.d.items():
            p = Poly({(): v})
            for a, n in k:
                if a in m and n > 0:
                    for _ in range(n):
                        p = p * m[a]
                else:
                    p = p * Poly({((a, n),): Fraction(1)})
            out = out + p
        return out

    def __repr__(self):
        if not self.d:
            return '0'
        out = []
        for k, v in sorted(self.d.items(), key=lambda kv: tuple((a.uid, p) for a, p in kv[0])):
            s = '*'.join(tm.show(a, 4) + ('**%d' % p if p != 1 else '') for a, p in k)
            out.append((('%s*' % v if v != 1 else '') + s) if s else str(v))
        return ' + '.join(out)


class Algebra:
    """Polynomials of terms under an assignment of the conditions met (`env`: condition term -> bool)."""

    def __init__(self, env=None, rewrite=None, same_calls=(), same_methods=(), strict=False, decide=None):
        self.decide = decide
        self.strict = strict
        self.env = dict(env or {})
        self.rewrite = rewrite
        self.same = SAME | set(same_calls)
        self.same_m = SAME_M | set(same_methods)
        self.memo = {}

    def poly(self, t):
        if t not in self.memo:
            self.memo[t] = self._poly(t)
        return self.memo[t]

    def _poly(self, t):
        if self.rewrite is not None:
            r = self.rewrite(self, t)
            if isinstance(r, Poly):
                return r
            if r is not None and r is not t:
                return self.poly(r)
        o, a = t.op, t.args
        if o == 'const' and isinstance(a[0], (int, float)) and not isinstance(a[0], bool):
            try:
                return Poly.const(Fraction(a[0]).limit_denominator(10 ** 9) if isinstance(a[0], float) else a[0])
            except (ValueError, OverflowError):
                return Poly.atom(t)
        if o == 'ite':
            c, pol = literal(a[0])
            v = self.case(c)
            if v is None:
                if self.strict:
                    raise Need(c)
                x, y = self.poly(a[1]), self.poly(a[2])
                return x if x == y else Poly.atom(t)
            return self.poly(a[1] if v == pol else a[2])
        if o == 'bin':
            op = a[0]
            if op in '+-*':
                x, y = self.poly(a[1]), self.poly(a[2])
                return x + y if op == '+' else x - y if op == '-' else x * y
            if op == '/':
                x, y = self.poly(a[1]), self.poly(a[2])
                i = y.inverse()
                if i is not None:
                    return x * i
                # exact division of one polynomial by itself
                if x == y:
                    return Poly.const(1)
            if op == '**':
                n = self.poly(a[2]).constant()
                if n is not None and n.denominator == 1 and 0 <= n <= 6:
                    p, r = self.poly(a[1]), Poly.const(1)
                    for _ in range(int(n)):
                        r = r * p
                    return r
        if o == 'un':
            if a[0] == '-':
                return -self.poly(a[1])
            if a[0] == '+':
                return self.poly(a[1])
        if o == 'call':
            n = base(a[0])
            if n in self.same and a[1]:
                return self.poly(a[1][0])
            if n in ('negative',) and a[1]:
                return -self.poly(a[1][0])
            if n in ('add', 'subtract', 'multiply', 'divide', 'true_divide') and len(a[1]) == 2 and a[0].startswith('numpy'):
                return self.poly(mk('bin', {'add': '+', 'subtract': '-', 'multiply': '*'}.get(n, '/'), a[1][0], a[1][1]))
        if o == 'meth':
            if a[0] in self.same_m:
                return self.poly(a[1])
            if a[0] in ('add', 'sub', 'subtract', 'mul', 'multiply', 'div', 'divide', 'truediv') and len(a[2]) == 1:
                op = {'add': '+', 'sub': '-', 'subtract': '-', 'mul': '*', 'multiply': '*'}.get(a[0], '/')
                return self.poly(mk('bin', op, a[1], a[2][0]))
        if o == 'attr' and a[1] in SAME_A:
            return self.poly(a[0])
        return Poly.atom(self.norm(t))

    def case(self, c):
        v = self.env.get(c)
        if v is None and self.decide is not None:
            v = self.decide(self, c)
        return v

    def norm(self, t):
        """An atom with its own joins resolved under the current assignment, when it is a simple function of one argument."""
        if t.op == 'call' and len(t.args[1]) == 1 and not t.args[2]:
            u = self.resolve(t.args[1][0]) if t.args[1][0].op == 'ite' else t.args[1][0]
            return t if u is t.args[1][0] else mk('call', t.args[0], (u,), t.args[2])
        return t

    def resolve(self, t):
        while t.op == 'ite':
            c, pol = literal(t.args[0])
            v = self.case(c)
            if v is None:
                if self.strict:
                    raise Need(c)
                return t
            t = t.args[1] if v == pol else t.args[2]
        return t


def literal(c):
    """(condition, polarity) with negations stripped."""
    pol = True
    while c.op == 'not' or c.op == 'un' and c.args[0] == '~':
        c = c.args[0] if c.op == 'not' else c.args[1]
        pol = not pol
    return c, pol


class Need(Exception):
    """An arithmetic value is joined on a condition the current case does not fix."""

    def __init__(self, cond):
        super().__init__('joined on %s' % tm.show(cond, 3))
        self.cond = cond


def explore(fn, fixed=None, limit=64, **kw):
    """Run fn(algebra) for every case of the conditions its arithmetic meets; False when there are too many cases."""
    todo, n = [dict(fixed or {})], 0
    while todo:
        env = todo.pop()
        n += 1
        if n > limit:
            return False
        try:
            fn(Algebra(env, strict=True, **kw))
        except Need as ex:
            for v in (True, False):
                todo.append({**env, ex.cond: v})
    return True


def nonneg(p: Poly, facts=()):
    """True when every monomial is a non-negative coefficient times factors known to be non-negative."""
    for k, v in p.d.items():
        if v < 0:
            return False
        for a, n in k:
            if n % 2 and not (a in facts or nonneg_atom(a, facts)):
                return False
    return True


NONNEG_CALLS = {'abs', 'absolute', 'len', 'fabs', 'square', 'var', 'std', 'nanstd', 'nanvar'}
KEEP_CALLS = {'max', 'amax', 'nanmax', 'min', 'amin', 'nanmin', 'mean', 'median', 'sum', 'hstack', 'concatenate', 'vstack', 'list',
              'sqrt', 'maximum', 'minimum', 'sorted', 'sort', 'concat', 'quantile', 'ceil', 'floor', 'round'}


def nonneg_atom(t, facts=(), depth=0):
    if t in facts:
        return True
    if depth > 12:
        return False
    o, a = t.op, t.args
    if o == 'const':
        return isinstance(a[0], (int, float)) and a[0] >= 0
    if o == 'call':
        n = base(a[0])
        if n in NONNEG_CALLS:
            return True
        if n == 'maximum' or n == 'max' and len(a[1]) > 1:
            return any(nonneg_atom(u, facts, depth + 1) for u in a[1])
        if n in KEEP_CALLS and a[1]:
            return all(nonneg_atom(u, facts, depth + 1) for u in a[1])
    if o == 'meth':
        if a[0] in NONNEG_CALLS:
            return True
        if a[0] in ('max', 'min', 'mean', 'median', 'sum', 'quantile', 'abs') or a[0] in SAME_M:
            return nonneg_atom(a[1], facts, depth + 1)
    if o in ('list', 'tuple'):
        els = a[0] if a and isinstance(a[0], tuple) else a
        return bool(els) and all(isinstance(u, T) and nonneg_atom(u, facts, depth + 1) for u in els)
    if o == 'listof':
        return all(nonneg_atom(u, facts, depth + 1) for u in a[0]) and isinstance(a[1], T) and nonneg_atom(a[1], facts, depth + 1)
    if o == 'ite':
        return nonneg_atom(a[1], facts, depth + 1) and nonneg_atom(a[2], facts, depth + 1)
    if o == 'phi':
        return all(nonneg_atom(u, facts, depth + 1) for u in a[0])
    if o == 'attr' and a[1] == 'values':
        return nonneg_atom(a[0], facts, depth + 1)
    return False
