"""Which rows of a metadata table a term selects, decided on the two kinds of rows there are: those of a given signal ('hit') and
the others ('miss')."""
from __future__ import annotations
from .. import terms as tm

HIT, MISS = 'hit', 'miss'
ALL = frozenset((HIT, MISS))


class Unknown(Exception):
    pass


class Select:
    """is_table(t): the term is the metadata table; is_target(t): the term names the signal (or holds only its name)."""

    def __init__(self, is_table, is_target, column='name'):
        self.is_table, self.is_target, self.column = is_table, is_target, column

    def const(self, t):
        return t.args[0] if t.op == 'const' else None

    def target(self, t, depth=6):
        if self.is_target(t):
            return True
        if depth == 0:
            return False
        if t.op == 'elem':
            return self.target(t.args[0], depth - 1)
        if t.op in ('list', 'tuple', 'set') and len(t.args[0]) >= 1:
            return all(self.target(x, depth - 1) for x in t.args[0])
        if t.op == 'call' and t.args[0].rsplit('.', 1)[-1] in ('unique', 'list', 'set', 'array', 'asarray', 'sorted', 'tuple', 'str'):
            return bool(t.args[1]) and self.target(t.args[1][0], depth - 1)
        if t.op == 'meth' and t.args[0] in ('unique', 'tolist', 'copy'):
            return self.target(t.args[1], depth - 1)
        if t.op in ('listof', 'phi', 'loop'):
            return False
        if t.op == 'idx':
            return self.target(t.args[0], depth - 1)
        return False

    def ev(self, t, env=None):
        """('table'|'col'|'idx', rows) , ('mask', rows it is true for, rows it ranges over) or ('row', row)"""
        env = env or {}
        if t in env:
            return ('row', env[t])
        if self.is_table(t):
            return ('table', ALL)
        o, a = t.op, t.args
        if o == 'idx':
            base, k = a
            loc = base.op == 'attr' and base.args[1] in ('loc',)
            if loc:
                b = self.ev(base.args[0], env)
                parts = k.args[0] if k.op == 'tuple' else (k,)
                if self.full(parts[0]):
                    r = b
                else:
                    m = self.ev(parts[0], env)
                    r = self.pick(b, m)
                if len(parts) == 2 and not self.full(parts[1]):
                    c = self.const(parts[1])
                    if c != self.column:
                        raise Unknown(tm.show(t, 4))
                    return ('name', r[1]) if r[0] == 'row' else ('col', r[1])
                return r
            c = self.const(k)
            b = self.ev(base, env)
            if b[0] in ('table',) and c == self.column:
                return ('col', b[1])
            if b[0] == 'row' and c == self.column:
                return ('name', b[1])
            if isinstance(c, (str, int, float)) or self.full(k):
                if self.full(k):
                    return b
                raise Unknown(tm.show(t, 4))
            return self.pick(b, self.ev(k, env))
        if o == 'attr':
            b = self.ev(a[0], env)
            if a[1] in ('index',):
                return ('idx', b[2] if b[0] == 'mask' else b[1])
            if a[1] in ('values', 'loc', 'array'):
                return b
            if a[1] == self.column and b[0] in ('table', 'row'):
                return ('col', b[1]) if b[0] == 'table' else ('name', b[1])
            raise Unknown(tm.show(t, 4))
        if o == 'meth':
            n, recv, ar, kw = a
            if n in ('to_numpy', 'tolist', 'copy', 'to_list', 'unique', 'keys', 'astype', 'drop_duplicates'):
                b = self.ev(recv, env)
                return ('idx', b[2] if b[0] == 'mask' else b[1]) if n == 'keys' else b
            if n in ('isin', 'eq', 'ne', '__eq__') and len(ar) == 1:
                b = self.ev(recv, env)
                if b[0] == 'col' and self.target(ar[0]):
                    return self.mask(b, {MISS} if n == 'ne' else {HIT})
            raise Unknown(tm.show(t, 4))
        if o == 'cmp':
            op, l, r = a
            if self.target(l):
                l, r = r, l
            if op in ('==', '!=', 'is', 'in', 'not in') and self.target(r):
                b = self.ev(l, env)
                want = {MISS} if op in ('!=', 'not in') else {HIT}
                if b[0] == 'col':
                    return self.mask(b, want)
                if b[0] == 'name':
                    return ('bool', b[1] in want)
            raise Unknown(tm.show(t, 4))
        if o in ('un', 'not') and (o == 'not' or a[0] in ('~', 'Invert', 'not')):
            b = self.ev(a[-1], env)
            if b[0] == 'mask':
                return ('mask', frozenset(b[2] - b[1]), b[2])
            if b[0] == 'bool':
                return ('bool', not b[1])
        if o == 'bin' and a[0] in ('&', '|'):
            l, r = self.ev(a[1], env), self.ev(a[2], env)
            if l[0] == r[0] == 'mask':
                return ('mask', (l[1] & r[1]) if a[0] == '&' else (l[1] | r[1]), l[2])
        if o == 'call':
            f = a[0].rsplit('.', 1)[-1]
            if f in ('list', 'array', 'asarray', 'tuple', 'unique', 'sorted', 'set') and a[1]:
                b = self.ev(a[1][0], env)
                return ('idx', b[1]) if b[0] == 'idx' else b
            if f == 'invert' and a[1]:
                b = self.ev(a[1][0], env)
                if b[0] == 'mask':
                    return ('mask', frozenset(b[2] - b[1]), b[2])
        if o == 'filter':
            return self.filtered(a[0], a[1], env)
        if o == 'listof' and not a[0]:
            star, over = a[1], a[2]
            src, conds = (over.args[0], over.args[1]) if over.op == 'filter' else (over, ())
            if star.op == 'elem' and star.args[0] is src:
                return self.filtered(src, conds, env)
        raise Unknown(tm.show(t, 4))

    def filtered(self, src, conds, env):
        b = self.ev(src, env)
        out = set()
        each = tm.mk('elem', src)
        for r in b[1]:
            if all(self.truth(c, dict(env, **{})|{each: r}) for c in conds):
                out.add(r)
        return ('idx', frozenset(out))

    def truth(self, c, env):
        v = self.ev(c, env)
        if v[0] != 'bool':
            raise Unknown(tm.show(c, 4))
        return v[1]

    @staticmethod
    def full(k):
        return k.op == 'slice' and all(x.op == 'const' and x.args[0] is None for x in k.args if isinstance(x, tm.T))

    @staticmethod
    def mask(b, want):
        return ('mask', frozenset(want) & b[1], b[1])

    @staticmethod
    def pick(b, m):
        if m[0] == 'mask':
            return (b[0], b[1] & m[1])
        if m[0] == 'row':
            return ('row', m[1])
        if m[0] == 'idx' and b[0] in ('table', 'col'):
            return (b[0], b[1] & m[1])
        raise Unknown('selection')
