"""Interprocedural, flow-sensitive value-flow analysis over the package's syntax trees.

The interpreter walks the code of an entry point with *symbolic sources* for the inputs.  It never runs the
code: external calls become terms, branches on unknown conditions are analysed both ways and joined (gated
by their condition), loops are analysed to a fixed point over one representative iteration (short literal
loops are unrolled), and calls to functions of the package are analysed in place, so extracting a helper,
renaming, reordering or rewriting a loop as a comprehension leaves the result unchanged.

Outcome: the abstract return value, the abstract heap, and a log of events (external calls, writes to
attributes, in-place mutations, raises, swallowed exceptions, mis-bound calls).
"""
from __future__ import annotations
import ast
import builtins
import re
from . import terms as tm
from .terms import T, mk, const, sym, NONE, TRUE, FALSE
from .values import (V, Sc, Tup, Lst, Dct, Inst, Fn, Bound, BoundExt, Cls, Mod, Ext, Part, Sup, Wrapped, Phi, phi,
                     LC, DC)
from .loader import Program, ClassInfo, AnalysisError
from . import extlib

MAX_DEPTH = 45
UNROLL = 16
UNROLL_NAMES = 80       # loops over names, (name, value) pairs


def named(x):
    return x.term.op == 'const' and isinstance(x.term.args[0], str) if isinstance(x, Sc) else \
        isinstance(x, Tup) and bool(x.items) and isinstance(x.items[0], Sc) and named(x.items[0])



class Event:
    __slots__ = ('kind', 'node', 'module', 'func', 'pc', 'stack', 'data', 'seq')

    def __init__(self, kind, node, module, func, pc, stack, data, seq):
        self.kind, self.node, self.module, self.func = kind, node, module, func
        self.pc, self.stack, self.data, self.seq = pc, stack, data, seq

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)

    @property
    def where(self):
        return '%s:%d' % (self.module.rel if self.module else '?', getattr(self.node, 'lineno', 0))

    def trace(self):
        return ' > '.join(s for s, _ in self.stack)

    def __repr__(self):
        return 'Event(%s @%s %s)' % (self.kind, self.where, {k: v for k, v in self.data.items()})


class St:
    __slots__ = ('d', 'pc', 'it')

    def __init__(self, it, d=None, pc=()):
        self.it, self.d, self.pc = it, {} if d is None else d, pc

    def copy(self):
        return St(self.it, dict(self.d), self.pc)

    def get(self, k, default=None):
        v = self.d.get(k, _MISS)
        if v is _MISS:
            v = self.it.gheap.get(k, default)
        return v

    def has(self, k):
        return k in self.d or k in self.it.gheap

    def set(self, k, v):
        self.d[k] = v

    def pop(self, k):
        self.d.pop(k, None)

    def lc(self, oid):
        return self.get(('l', oid)) or LC()

    def dc(self, oid):
        return self.get(('d', oid)) or DC()


_MISS = object()
ABSENT = object()


class Flow:
    __slots__ = ('normal', 'rets', 'brks', 'conts')

    def __init__(self, normal=None):
        self.normal, self.rets, self.brks, self.conts = normal, [], [], []


class Args:
    def __init__(self, pos=(), kw=None, star=None, dstar=None):
        self.pos, self.kw, self.star, self.dstar = list(pos), dict(kw or {}), star, dstar


class Frame:
    __slots__ = ('fid', 'parent', 'module', 'fn', 'closure', 'yields', 'globals', 'cls', 'name')


class Interp:
    def __init__(self, prog: Program, inline_filter=None):
        self.discarded = set()      # call nodes whose value nothing uses
        self.prog = prog
        self.gheap = {}
        self.events = []
        self._evkeys = set()
        self.frames = {}
        self._fidtab = {}
        self.stack = []          # (name, node, fnnode)
        self.kinds = {}          # sym name -> kind
        self.nonnull = set()
        self.loops = 0              # how many loops are being analysed
        self.opaque_funcs = set()   # qualified names (module.func or Class.method) treated as external
        self.opaque_handler = {}    # qualified name -> handler(it, fv, cargs, st, node) -> V
        self.inlined = set()        # functions analysed (for evidence)
        self.calls = 0
        self.force = {}             # cond term -> bool (configuration assumption)
        self._gcache = {}
        self._deco = {}
        self._ginprog = set()
        self.silent = 0
        self.budget = 400000
        self.hooks = []
        self._reg_terms = {}

    # ------------------------------------------------------------------ utilities
    def fresh_id(self, *key):
        k = tuple(id(x) if isinstance(x, ast.AST) else x for x in key)
        return self._fidtab.setdefault(k, len(self._fidtab) + 1)

    def cur(self):
        return self.frames[self.stack[-1][3]] if self.stack else None

    def site(self, node, tag=''):
        fid = self.stack[-1][3] if self.stack else 0
        return self.fresh_id(tag, node, fid)

    def emit(self, kind, node, st, **data):
        if self.silent:
            return
        fr = self.cur()
        stack = tuple((s[0], s[1]) for s in self.stack)
        key = (kind, id(node), tuple(id(s[1]) for s in self.stack),
               tuple((k, v if isinstance(v, (str, int, T, V, tuple, frozenset, type(None), bool)) else id(v))
                     for k, v in sorted(data.items())))
        try:
            if key in self._evkeys:
                return
            self._evkeys.add(key)
        except TypeError:
            pass
        self.events.append(Event(kind, node, fr.module if fr else None, fr.name if fr else '', st.pc, stack,
                                 data, len(self.events)))

    def new_list(self, node, st, items=(), star=None, over=None, tag='L'):
        oid = self.site(node, tag)
        st.set(('l', oid), LC(items, star, over))
        return Lst(oid)

    def new_dict(self, node, st, items=(), star=None, starkey=None, tag='D'):
        oid = self.site(node, tag)
        st.set(('d', oid), DC(items, star, starkey))
        return Dct(oid)

    def fresh(self, node, st, term, kind=None, bases=frozenset(), tag='R'):
        if kind is None:
            kind = self.kind_of(term)
        rid = self.site(node, tag)
        st.pop(('c', rid))
        self._reg_terms[rid] = term
        return Sc(term, rid, bases, kind)

    def sc(self, term, kind=None):
        return Sc(term, None, frozenset(), kind if kind is not None else self.kind_of(term))

    # ------------------------------------------------------------------ terms of values
    def term(self, v, st, depth=0):
        if isinstance(v, Sc):
            if v.rid is not None:
                c = st.get(('c', v.rid))
                if c is not None:
                    return c
            return v.term
        if depth > 8:
            return mk('deep', type(v).__name__)
        if isinstance(v, Tup):
            return mk('tuple', tuple(self.term(x, st, depth + 1) for x in v.items))
        if isinstance(v, Lst):
            lc = st.lc(v.oid)
            items = tuple(self.term(x, st, depth + 1) for x in lc.items)
            if lc.star is None:
                return mk('list', items)
            return mk('listof', items, self.term(lc.star, st, depth + 1), lc.over if lc.over is not None else NONE)
        if isinstance(v, Dct):
            dc = st.dc(v.oid)
            items = tuple((k if isinstance(k, T) else const(k), self.term(x, st, depth + 1)) for k, x in dc.items)
            return mk('dict', tuple(mk('kv', k, x) for k, x in items),
                      self.term(dc.star, st, depth + 1) if dc.star is not None else NONE,
                      self.term(dc.starkey, st, depth + 1) if dc.starkey is not None else NONE)
        if isinstance(v, Inst):
            return mk('inst', v.cls.qual, v.oid)
        if isinstance(v, Fn):
            return mk('fn', v.name, self.fresh_id('fnid', v.node))
        if isinstance(v, Bound):
            return mk('bound', self.term(v.fn, st, depth + 1), self.term(v.recv, st, depth + 1))
        if isinstance(v, BoundExt):
            return mk('attr', self.term(v.recv, st, depth + 1), v.name)
        if isinstance(v, Cls):
            return mk('cls', v.ci.qual)
        if isinstance(v, Mod):
            return mk('mod', v.name)
        if isinstance(v, Ext):
            return mk('ext', v.path)
        if isinstance(v, Part):
            return mk('partial', self.term(v.fn, st, depth + 1),
                      tuple(self.term(a, st, depth + 1) for a in v.args),
                      tuple(mk('kv', k, self.term(a, st, depth + 1)) for k, a in v.kwargs))
        if isinstance(v, Wrapped):
            return mk('wrapped', v.how, self.term(v.fn, st, depth + 1))
        if isinstance(v, Sup):
            return mk('super', self.term(v.recv, st, depth + 1))
        if isinstance(v, Phi):
            r = None
            for g, a in reversed(v.alts):
                t = self.term(a, st, depth + 1)
                if r is None:
                    r = t
                elif g:
                    c, p = g[-1]
                    r = mk('ite', c, t, r) if p else mk('ite', c, r, t)
                else:
                    r = mk('phi', tuple(sorted({t, r}, key=lambda z: z.uid)))
            return r
        return mk('opaque', type(v).__name__)

    def deps(self, v, st, seen=None):
        """Names of all symbolic sources reachable from the value, through the heap."""
        seen = set() if seen is None else seen
        if isinstance(v, Sc):
            return tm.deps(self.term(v, st)) | frozenset(
                x for b in v.bases for x in (tm.deps(st.get(('c', b))) if st.get(('c', b)) is not None else ()))
        if v in seen:
            return frozenset()
        seen.add(v)
        out = set()
        if isinstance(v, Tup):
            for x in v.items:
                out |= self.deps(x, st, seen)
        elif isinstance(v, Lst):
            lc = st.lc(v.oid)
            for x in lc.items + ((lc.star,) if lc.star is not None else ()):
                out |= self.deps(x, st, seen)
            if lc.over is not None:
                out |= tm.deps(lc.over)
        elif isinstance(v, Dct):
            dc = st.dc(v.oid)
            for k, x in dc.items:
                out |= self.deps(x, st, seen)
                if isinstance(k, T):
                    out |= tm.deps(k)
            for x in (dc.star, dc.starkey):
                if x is not None:
                    out |= self.deps(x, st, seen)
        elif isinstance(v, Inst):
            for a, x in self.fields(v, st).items():
                out |= self.deps(x, st, seen)
        elif isinstance(v, (Bound,)):
            out |= self.deps(v.recv, st, seen)
        elif isinstance(v, BoundExt):
            out |= self.deps(v.recv, st, seen)
        elif isinstance(v, Part):
            for x in v.args:
                out |= self.deps(x, st, seen)
            for _, x in v.kwargs:
                out |= self.deps(x, st, seen)
            out |= self.deps(v.fn, st, seen)
        elif isinstance(v, Wrapped):
            out |= self.deps(v.fn, st, seen)
        elif isinstance(v, Phi):
            for g, x in v.alts:
                out |= self.deps(x, st, seen)
                for c, _ in g:
                    out |= tm.deps(c)
        return frozenset(out)

    def fields(self, inst, st):
        out = {}
        for src in (self.gheap, st.d):
            for k, x in src.items():
                if k[0] == 'f' and k[1] == inst.oid:
                    if x is ABSENT:
                        out.pop(k[2], None)
                    else:
                        out[k[2]] = x
        return out

    def regions(self, v, st, seen=None):
        """All storages the value may share (its own and those it is a view of)."""
        if isinstance(v, Sc):
            return (frozenset([v.rid]) if v.rid is not None else frozenset()) | v.bases
        if isinstance(v, Phi):
            out = frozenset()
            for _, a in v.alts:
                out |= self.regions(a, st)
            return out
        if isinstance(v, (Lst, Dct)):
            return frozenset([('o', v.oid)])
        if isinstance(v, Inst):
            return frozenset([('o', v.oid)])
        return frozenset()

    def reach_regions(self, v, st, seen=None):
        """Storages reachable through containers too."""
        seen = set() if seen is None else seen
        if v in seen:
            return frozenset()
        seen.add(v)
        out = set(self.regions(v, st))
        if isinstance(v, Tup):
            for x in v.items:
                out |= self.reach_regions(x, st, seen)
        elif isinstance(v, Lst):
            lc = st.lc(v.oid)
            for x in lc.items + ((lc.star,) if lc.star is not None else ()):
                out |= self.reach_regions(x, st, seen)
        elif isinstance(v, Dct):
            dc = st.dc(v.oid)
            for _, x in dc.items:
                out |= self.reach_regions(x, st, seen)
            if dc.star is not None:
                out |= self.reach_regions(dc.star, st, seen)
        elif isinstance(v, Phi):
            for _, a in v.alts:
                out |= self.reach_regions(a, st, seen)
        elif isinstance(v, Inst):
            for x in self.fields(v, st).values():
                out |= self.reach_regions(x, st, seen)
        return frozenset(out)

    # ------------------------------------------------------------------ kinds / truth
    def kind_of(self, t):
        return extlib.kind_of(t, self.kinds)

    def pick(self, t, over, k):
        return tm.subst(t, {mk('elem', over.args[0] if over.op == 'filter' else over): mk('idx', over, k)})

    def arrayish(self, t, depth=0):
        """Is (one alternative of) the term an array or a dataframe?"""
        if depth > 8:
            return False
        if t.op == 'ite':
            return any(self.arrayish(x, depth + 1) for x in t.args[1:])
        if t.op == 'attr' and t.args[1] == 'values':
            return True
        if t.op == 'idx' and t.args[1].op == 'slice':
            return self.arrayish(t.args[0], depth + 1)
        return self.kind_of(t) in ('df', 'series', 'ndarray')

    def known(self, v):
        """(True, python value) when the value is a known constant."""
        if isinstance(v, Sc) and v.term.op == 'const':
            return True, v.term.args[0]
        return False, None

    def is_none(self, v):
        if isinstance(v, Sc):
            if v.term is NONE:
                return True
            if v.term.op == 'const':
                return False
            if v.kind is not None and v.kind != 'unknown':
                return False
            if v.term.op == 'sym' and v.term.args[0] in self.nonnull:
                return False
            return None
        if isinstance(v, Phi):
            r = {self.is_none(a) for _, a in v.alts}
            return r.pop() if len(r) == 1 else None
        return False

    def truth(self, v, st):
        ok, c = self.known(v)
        if ok:
            return bool(c)
        if isinstance(v, Sc):
            if v.term in self.force:
                return self.force[v.term]
            for c, p in st.pc:
                if c is v.term:
                    return p
            if v.term.op == 'not':
                inner = self.truth(Sc(v.term.args[0]), st)
                return None if inner is None else not inner
            if v.term.op == 'boolop':
                vals = [self.truth(Sc(a), st) for a in v.term.args[1]]
                if v.term.args[0] == 'and':
                    if any(x is False for x in vals):
                        return False
                    if all(x is True for x in vals):
                        return True
                else:
                    if any(x is True for x in vals):
                        return True
                    if all(x is False for x in vals):
                        return False
            return None
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, Lst):
            lc = st.lc(v.oid)
            return True if lc.items else (False if lc.star is None else None)
        if isinstance(v, Dct):
            dc = st.dc(v.oid)
            return True if dc.items else (False if dc.star is None else None)
        if isinstance(v, Phi):
            r = {self.truth(a, st) for _, a in v.alts}
            return r.pop() if len(r) == 1 else None
        return True

    def cond(self, v, st):
        """(term, truth) of a value used as a condition."""
        t = self.truth(v, st)
        return self.term(v, st), t

    @staticmethod
    def assume(st, term, pol):
        """Add a decided condition to a path."""
        add = []

        def rec(t, p):
            if t.op == 'not':
                rec(t.args[0], not p)
                return
            if t.op == 'boolop' and ((t.args[0] == 'and' and p) or (t.args[0] == 'or' and not p)):
                for a in t.args[1]:
                    rec(a, p)
            add.append((t, p))
        rec(term, pol)
        for a in add:
            if a not in st.pc:
                st.pc = st.pc + (a,)
        return st

    def refine(self, v, st):
        """Select alternatives of a gated value consistent with the current path."""
        if not st.pc:
            return v
        if isinstance(v, Phi):
            pcs = set(st.pc)
            alts = [(g, a) for g, a in v.alts if not any((c, not p) in pcs for c, p in g)]
            if len(alts) < len(v.alts) and alts:
                return phi(alts)
            return v
        if isinstance(v, Sc) and v.term.op == 'ite' and (v.rid is None or st.get(('c', v.rid)) is None):
            t = v.term
            pcs = dict(st.pc)
            while t.op == 'ite' and t.args[0] in pcs:
                t = t.args[1] if pcs[t.args[0]] else t.args[2]
            if t is not v.term:
                return Sc(t, v.rid, v.bases, v.kind if t.op != 'const' else self.kind_of(t))
        return v

    # ------------------------------------------------------------------ joins
    def join_vals(self, a, b, guard_a, guard_b, key, st=None):
        if a is b or a == b:
            return a
        if isinstance(a, Sc) and isinstance(b, Sc):
            ga = guard_a[-1] if guard_a else None
            if ga is not None and guard_b and guard_b[-1] == (ga[0], not ga[1]):
                t = (mk('ite', ga[0], a.term, b.term) if ga[1] else mk('ite', ga[0], b.term, a.term)) \
                    if a.term is not b.term else a.term
            else:
                t = a.term if a.term is b.term else mk('phi', tuple(sorted({a.term, b.term}, key=lambda z: z.uid)))
            bases = a.bases | b.bases
            rid = a.rid if a.rid == b.rid else None
            if rid is None:
                for r in (a.rid, b.rid):
                    if r is not None:
                        bases = bases | {r}
            kind = a.kind if a.kind == b.kind else None
            if tm.size(t) > 10**12:
                t = mk('phi', (mk('big', tuple(sorted(mk('sym', d) for d in tm.deps(t)) if False else
                                             [mk('sym', d) for d in sorted(tm.deps(t))])),))
            if rid is None and (a.rid is not None or b.rid is not None):
                rid = ('j', key)
                bases = bases
            return Sc(t, rid, bases, kind)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup(self.join_vals(x, y, guard_a, guard_b, (key, i), st)
                       for i, (x, y) in enumerate(zip(a.items, b.items)))
        r = phi([(guard_a, a), (guard_b, b)])
        if isinstance(r, Phi) and len(r.alts) > 12:
            r = Phi(r.alts[:12])
        return r

    def join_lc(self, a, b, ga, gb, key):
        if a == b:
            return a
        n = 0
        while n < len(a.items) and n < len(b.items) and a.items[n] == b.items[n]:
            n += 1
        if len(a.items) == len(b.items) and a.star is None and b.star is None:
            return LC([self.join_vals(x, y, ga, gb, (key, i)) for i, (x, y) in enumerate(zip(a.items, b.items))])
        rest = list(a.items[n:]) + list(b.items[n:]) + [s for s in (a.star, b.star) if s is not None]
        star = rest[0]
        for x in rest[1:]:
            star = self.join_vals(star, x, (), (), (key, 'star'))
        over = a.over if a.over is not None else b.over
        if over is None or over.op == 'maybe':
            over = self.grown(a, b, ga, gb, n) if self.loops else None
        return LC(a.items[:n], star, over)

    def grown(self, a, b, ga, gb, n):
        """In an iteration a list grew on one of two branches only: under which conditions"""
        for x, y, g in ((a, b, ga), (b, a, gb)):
            if y.star is None and len(y.items) == n and len(g) == 1 and (x.star is None) == (x.over is None) and len(x.items) + (x.star is not None) == n + 1:
                c, p = g[0]
                return mk('maybe', (c if p else mk('not', c),) + (x.over.args[0] if x.over is not None else ()))
        return None

    def join_dc(self, a, b, ga, gb, key):
        if a == b:
            return a
        items = []
        keys = [k for k, _ in a.items] + [k for k, _ in b.items if a.get(k) is None]
        for k in keys:
            x, y = a.get(k), b.get(k)
            if x is None:
                items.append((k, y if b.star is None or True else y))
            elif y is None:
                items.append((k, x))
            else:
                items.append((k, self.join_vals(x, y, ga, gb, (key, str(k)))))
        star = a.star if b.star is None else (b.star if a.star is None else
                                              self.join_vals(a.star, b.star, ga, gb, (key, 'star')))
        sk = a.starkey if b.starkey is None else (b.starkey if a.starkey is None else
                                                  self.join_vals(a.starkey, b.starkey, ga, gb, (key, 'sk')))
        return DC(items, star, sk)

    def join2(self, s1, s2):
        """Join two states; returns (state, guard1, guard2)."""
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n] == s2.pc[n]:
            n += 1
        common = s1.pc[:n]
        g1, g2 = s1.pc[n:n + 1], s2.pc[n:n + 1]
        if not (g1 and g2 and g1[0][0] is g2[0][0] and g1[0][1] != g2[0][1]):
            # look for any opposed decision
            d2 = dict(s2.pc[n:])
            opp = [(c, p) for c, p in s1.pc[n:] if c in d2 and d2[c] != p]
            if opp:
                g1, g2 = (opp[0],), ((opp[0][0], not opp[0][1]),)
            else:
                g1, g2 = (), ()
        # conditions known on both paths survive
        set2 = set(s2.pc[n:])
        common = common + tuple(x for x in s1.pc[n:] if x in set2)
        out = St(self, {}, common)
        d1, d2 = s1.d, s2.d
        for k, v in d1.items():
            w = d2.get(k, _MISS)
            if w is v:
                out.d[k] = v
                continue
            if w is _MISS:
                if k[0] in ('c',):
                    base = None
                    out.d[k] = v if base is None else v
                    continue
                w = self.gheap.get(k, _MISS)
                if w is _MISS:
                    if k[0] == 'f':
                        out.d[k] = v
                    else:
                        out.d[k] = v
                    continue
            out.d[k] = self.join_key(k, v, w, g1, g2)
        for k, w in d2.items():
            if k not in d1:
                v = self.gheap.get(k, _MISS)
                out.d[k] = w if v is _MISS else self.join_key(k, v, w, g1, g2)
        return out, g1, g2

    def join_key(self, k, v, w, g1, g2):
        if k[0] == 'l':
            return self.join_lc(v, w, g1, g2, k)
        if k[0] == 'y':
            return self.join_lc(v, w, g1, g2, k)
        if k[0] == 'd':
            return self.join_dc(v, w, g1, g2, k)
        if k[0] == 'c':
            if v is w:
                return v
            if g1 and g2:
                return mk('ite', g1[0][0], v, w) if g1[0][1] else mk('ite', g1[0][0], w, v)
            return mk('phi', tuple(sorted({v, w}, key=lambda z: z.uid)))
        if v is ABSENT or w is ABSENT:
            return w if v is ABSENT else v
        if isinstance(v, V) and isinstance(w, V):
            return self.join_vals(v, w, g1, g2, k)
        return v

    def join_many(self, pairs, key):
        """pairs: list of (St, V or None). Joins those with the longest common path prefix first."""
        pairs = [p for p in pairs if p[0] is not None]
        if not pairs:
            return None, None
        pairs = list(pairs)
        while len(pairs) > 1:
            best, bi = -1, 0
            for i in range(len(pairs) - 1):
                a, b = pairs[i][0].pc, pairs[i + 1][0].pc
                n = 0
                while n < len(a) and n < len(b) and a[n] == b[n]:
                    n += 1
                if n > best:
                    best, bi = n, i
            (s1, v1), (s2, v2) = pairs[bi], pairs[bi + 1]
            s, g1, g2 = self.join2(s1, s2)
            if v1 is None or v2 is None:
                v = v1 if v2 is None else v2
            else:
                v = self.join_vals(v1, v2, g1, g2, (key, 'ret'), s)
            pairs[bi:bi + 2] = [(s, v)]
        return pairs[0]

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        fl = Flow(st)
        for s in stmts:
            if fl.normal is None:
                break
            f2 = self.exec_stmt(s, fl.normal)
            fl.rets += f2.rets
            fl.brks += f2.brks
            fl.conts += f2.conts
            fl.normal = f2.normal
        return fl

    def exec_stmt(self, s, st):
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisError('analysis budget exhausted')
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            return Flow(st)
        return m(s, st)

    def x_Expr(self, s, st):
        self.discarded.add(id(s.value))
        self.ev(s.value, st)
        return Flow(st)

    def x_Pass(self, s, st):
        return Flow(st)

    x_Global = x_Nonlocal = x_Pass

    def x_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            path = a.name if a.asname else a.name.split('.')[0]
            self.setvar(nm, Mod(path) if path in self.prog.modules else Ext(path), st)
        return Flow(st)

    def x_ImportFrom(self, s, st):
        base = self.prog.resolve_from(self.cur().module, s)
        for a in s.names:
            r = self.prog.lookup(base, a.name) if base in self.prog.modules else ('ext', base + '.' + a.name)
            self.setvar(a.asname or a.name, self.global_value(r, st) if r else Sc(mk('opaque', a.name)), st)
        return Flow(st)

    def x_FunctionDef(self, s, st):
        fr = self.cur()
        fr.closure = True
        v = Fn(s, fr.module, fr.fid, fr.cls)
        v = self.decorate(v, s, st)
        self.setvar(s.name, v, st)
        return Flow(st)

    def x_ClassDef(self, s, st):
        ci = ClassInfo(s.name, s, self.cur().module)
        self.setvar(s.name, Cls(ci), st)
        return Flow(st)

    def x_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else Sc(NONE)
        fl = Flow(None)
        fl.rets.append((st, v))
        self.emit('return', s, st, value=v)
        return fl

    def x_Raise(self, s, st):
        self.emit('raise', s, st, exc=self.ev(s.exc, st) if s.exc is not None else None)
        return Flow(None)

    def x_Break(self, s, st):
        fl = Flow(None)
        fl.brks.append(st)
        return fl

    def x_Continue(self, s, st):
        fl = Flow(None)
        fl.conts.append(st)
        return fl

    def x_Delete(self, s, st):
        for tg in s.targets:
            if isinstance(tg, ast.Name):
                st.pop(('v', self.stack[-1][3], tg.id))
            elif isinstance(tg, ast.Subscript):
                b = self.ev(tg.value, st)
                k = self.ev(tg.slice, st)
                if isinstance(b, Dct):
                    ok, kk = self.known(k)
                    if ok:
                        st.set(('d', b.oid), st.dc(b.oid).drop(kk))
                    self.mutate(b, st, s, 'del', struct=True)
                else:
                    self.mutate(b, st, s, 'del', struct=True,
                                new=mk('delitem', self.term(b, st), self.term(k, st)))
            elif isinstance(tg, ast.Attribute):
                b = self.ev(tg.value, st)
                if isinstance(b, Inst):
                    st.set(('f', b.oid, tg.attr), ABSENT)
                    self.emit('setattr', s, st, obj=b, attr=tg.attr, value=None, old=None)
        return Flow(st)

    def x_Assert(self, s, st):
        v = self.ev(s.test, st)
        t, r = self.cond(v, st)
        self.emit('assert', s, st, test=t)
        if r is False:
            return Flow(None)
        if r is None:
            self.assume(st, t, True)
        return Flow(st)

    def x_Assign(self, s, st):
        v = self.ev(s.value, st)
        for tg in s.targets:
            self.assign(tg, v, st, s)
        return Flow(st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return Flow(st)

    def x_AugAssign(self, s, st):
        tg = s.target
        old = self.ev(tg, st) if not isinstance(tg, ast.Name) else self.getname(tg.id, st, tg)
        rhs = self.ev(s.value, st)
        op = type(s.op).__name__
        if isinstance(old, Lst) and op == 'Add':
            self.list_extend(old, rhs, st, s)
            self.assign(tg, old, st, s)
            return Flow(st)
        new_t = self.binop_term(op, old, rhs, st)
        if isinstance(old, Sc) and old.kind is None and old.rid is not None and isinstance(tg, ast.Name) and self.arrayish(old.term):
            # one of several arrays: in-place on whichever it is
            self.mutate(old, st, s, 'augassign', struct=False, new=new_t)
            return Flow(st)
        if isinstance(old, Sc) and old.kind in ('df', 'series', 'ndarray'):
            # in-place on the same storage
            self.mutate(old, st, s, 'augassign', struct=False, new=new_t)
            if isinstance(tg, ast.Name):
                if old.rid is None:
                    self.assign(tg, self.fresh(s, st, new_t, old.kind, old.bases), st, s)
                return Flow(st)
            if isinstance(tg, ast.Subscript):
                base = self.ev(tg.value, st)
                self.store_item(base, self.ev(tg.slice, st), Sc(new_t, kind=old.kind), st, s, tg)
                return Flow(st)
            if isinstance(tg, ast.Attribute):
                self.assign(tg, self.fresh(s, st, new_t, old.kind), st, s)
            return Flow(st)
        v = self.binop(op, old, rhs, st, s)
        if isinstance(old, Sc) and isinstance(v, Sc) and old.rid is not None and isinstance(tg, ast.Name) \
                and old.kind is None and v.rid is not None:
            v = Sc(v.term, v.rid, v.bases, v.kind)
        self.assign(tg, v, st, s)
        return Flow(st)

    def x_If(self, s, st):
        v = self.ev(s.test, st)
        t, r = self.cond(v, st)
        self.emit('branch', s, st, test=t, known=r)
        if r is True:
            return self.exec_block(s.body, st)
        if r is False:
            return self.exec_block(s.orelse, st)
        a, b = st.copy(), st
        self.assume(a, t, True)
        self.assume(b, t, False)
        if t.op == 'not':
            pass
        f1 = self.exec_block(s.body, a)
        f2 = self.exec_block(s.orelse, b)
        return self.merge_flows(f1, f2, s)

    def merge_flows(self, f1, f2, node):
        fl = Flow(None)
        fl.rets = f1.rets + f2.rets
        fl.brks = f1.brks + f2.brks
        fl.conts = f1.conts + f2.conts
        if f1.normal is None:
            fl.normal = f2.normal
        elif f2.normal is None:
            fl.normal = f1.normal
        else:
            fl.normal = self.join2(f1.normal, f2.normal)[0]
        return fl

    def x_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        return self.exec_block(s.body, st)

    x_AsyncWith = x_With

    def x_Try(self, s, st):
        start = st.copy()
        f1 = self.exec_block(s.body, st)
        if f1.normal is not None and s.orelse:
            f2 = self.exec_block(s.orelse, f1.normal)
            f2.rets = f1.rets + f2.rets
            f2.brks = f1.brks + f2.brks
            f2.conts = f1.conts + f2.conts
            f1 = f2
        res = f1
        for h in s.handlers:
            hs = start.copy()
            if f1.normal is not None:
                hs = self.join2(hs, f1.normal)[0]
            ct = mk('except', self.fresh_id('exc', h))
            self.assume(hs, ct, True)
            if res.normal is not None:
                res.normal = res.normal.copy()
                self.assume(res.normal, ct, False)
            if h.name:
                self.setvar(h.name, Sc(mk('exc', self.fresh_id('excv', h))), hs)
            fh = self.exec_block(h.body, hs)
            self.emit('handler', h, hs, falls_through=fh.normal is not None,
                      bare=h.type is None, type=ast.dump(h.type) if h.type is not None else None)
            res = self.merge_flows(res, fh, s)
        if s.finalbody and res.normal is not None:
            f3 = self.exec_block(s.finalbody, res.normal)
            f3.rets = res.rets + f3.rets
            f3.brks = res.brks + f3.brks
            f3.conts = res.conts + f3.conts
            res = f3
        return res

    x_TryStar = x_Try

    def x_While(self, s, st):
        v = self.ev(s.test, st)
        t, r = self.cond(v, st)
        if r is False:
            return self.exec_block(s.orelse, st)
        return self.loop(s, st, None, None)

    def x_For(self, s, st):
        itv = self.ev(s.iter, st)
        return self.for_over(s, itv, st)

    x_AsyncFor = x_For

    def for_over(self, s, itv, st):
        exact = self.exact_iter(itv, st)
        if exact is not None and len(exact) <= (UNROLL_NAMES if all(named(x) for x in exact) else UNROLL):
            fl = Flow(st)
            brks = []
            for x in exact:
                if fl.normal is None:
                    break
                cur = fl.normal
                self.assign(s.target, x, cur, s)
                f = self.exec_block(s.body, cur)
                fl.rets += f.rets
                brks += f.brks
                nxt = [(z, None) for z in f.conts] + ([(f.normal, None)] if f.normal is not None else [])
                fl.normal = self.join_many(nxt, s)[0] if nxt else None
            if fl.normal is not None and s.orelse:
                f = self.exec_block(s.orelse, fl.normal)
                fl.rets += f.rets
                fl.brks += f.brks
                fl.conts += f.conts
                fl.normal = f.normal
            outs = [(z, None) for z in brks] + ([(fl.normal, None)] if fl.normal is not None else [])
            fl.normal = self.join_many(outs, s)[0] if outs else None
            return fl
        elem = self.elem_of(itv, st, s)
        return self.loop(s, st, elem, itv)

    def loop(self, s, st, elem, itv):
        self.loops += 1
        try:
            return self.loop_(s, st, elem, itv)
        finally:
            self.loops -= 1

    def loop_(self, s, st, elem, itv):
        fl = Flow(None)
        over = self.term(itv, st) if itv is not None else mk('while', self.fresh_id('w', s))
        pc0 = st.pc
        # the condition "the loop has run at least once"
        ran = mk('ran', over if itv is not None else mk('w', self.fresh_id('w', s)))
        cur = st
        exits = []
        rets = []
        first = None
        widened = set()
        for p in range(4):
            body = cur.copy()
            body.pc = pc0
            self.assume(body, ran, True)
            if s.__class__ is ast.While:
                v = self.ev(s.test, body)
                t, r = self.cond(v, body)
                if r is None:
                    self.assume(body, t, True)
            else:
                self.assign(s.target, elem, body, s)
            f = self.exec_block(s.body, body)
            brks = f.brks
            rets = f.rets
            nxt = [(z, None) for z in f.conts] + ([(f.normal, None)] if f.normal is not None else [])
            after = self.join_many(nxt, s)[0] if nxt else None
            cands = [(z, None) for z in brks] + ([(after, None)] if after is not None else [])
            if not cands:
                # body always leaves the function: the loop runs at most once
                break
            out = self.join_many(cands, s)[0]
            out.pc = pc0 + ((ran, True),)
            base = cur.copy()
            base.pc = pc0 + ((ran, False),)
            joined = self.loop_join(base, out, over, p, widened)
            joined.pc = pc0
            if p > 0 and self.same_state(joined, cur):
                cur = joined
                break
            cur = joined
        else:
            pass
        fl.rets = rets
        cur.pc = pc0
        if getattr(s, 'orelse', None):
            f = self.exec_block(s.orelse, cur)
            fl.rets += f.rets
            fl.normal = f.normal
        else:
            fl.normal = cur
        return fl

    def same_state(self, a, b):
        if a.d.keys() != b.d.keys():
            return False
        for k, v in a.d.items():
            w = b.d[k]
            if v is not w and v != w:
                return False
        return True

    def loop_join(self, a, b, over, p, widened):
        """Join the state before (a) and after (b) one iteration; list growth becomes a star element and other
        loop-carried values are widened."""
        out = St(self, {}, a.pc)
        for k in list(a.d.keys()) + [k for k in b.d if k not in a.d]:
            v = a.d.get(k, _MISS)
            w = b.d.get(k, _MISS)
            if v is _MISS:
                v = self.gheap.get(k, _MISS)
            if w is _MISS:
                w = self.gheap.get(k, _MISS)
            if v is _MISS or w is _MISS:
                out.d[k] = w if v is _MISS else v
                continue
            if v is w or v == w:
                out.d[k] = v
                continue
            if k[0] in ('l', 'y'):
                j = self.join_lc(v, w, (), (), k)
                if j.star is not None and (j.over is None or j.over.op == 'maybe'):
                    grew = w.over if v.star is None and w.star is not None and isinstance(w, LC) and w.over is not None and w.over.op == 'maybe' else None
                    j = LC(j.items, j.star, mk('filter', over, grew.args[0]) if grew is not None else over)
                if p >= 1 and j.star is not None and v.star is not None and j.star != v.star:
                    j = LC(j.items, self.widen(v.star, j.star, k, over), j.over)
                out.d[k] = j
            elif k[0] == 'd':
                out.d[k] = self.join_dc(v, w, (), (), k)
            elif k[0] == 'c':
                dv = v.args[2] if v.op == 'loop' else None
                if v.op == 'loop' and v.args[0] == str(k):
                    s2 = tuple(sorted(set(v.args[1]) | {mk('iter', str(k))} if p >= 2 else set(v.args[1]) | {w},
                                      key=lambda z: z.uid))
                    if p >= 2:
                        out.d[k] = v
                    else:
                        out.d[k] = mk('loop', str(k), s2, over)
                else:
                    out.d[k] = mk('loop', str(k), tuple(sorted({v, w}, key=lambda z: z.uid)), over)
            elif isinstance(v, V) and isinstance(w, V):
                out.d[k] = self.widen(v, w, k, over, p)
            else:
                out.d[k] = w
        return out

    def widen(self, v, w, k, over, p=2):
        if v == w:
            return v
        if isinstance(v, Sc) and isinstance(w, Sc):
            if v.term.op == 'loop' and v.term.args[0] == str(k):
                if p >= 2 or len(v.term.args[1]) > 6 or tm.contains(w.term, lambda u: u is v.term):
                    # already loop-carried: keep the summary, add any new dependencies
                    extra = tm.deps(w.term) - tm.deps(v.term)
                    if extra:
                        t = mk('loop', str(k), v.term.args[1] + tuple(sym(e) for e in sorted(extra)), over)
                    else:
                        t = v.term
                else:
                    t = mk('loop', str(k), tuple(sorted(set(v.term.args[1]) | {w.term}, key=lambda z: z.uid)), over)
            elif v.term is w.term:
                t = v.term
            else:
                t = mk('loop', str(k), (v.term, w.term), over)
            rid = v.rid if v.rid == w.rid else (('j', k) if (v.rid is not None or w.rid is not None) else None)
            bases = v.bases | w.bases
            if v.rid != w.rid:
                bases = bases | frozenset(r for r in (v.rid, w.rid) if r is not None)
            bases = bases - {rid}
            return Sc(t, rid, bases, v.kind if v.kind == w.kind else None)
        if isinstance(v, Tup) and isinstance(w, Tup) and len(v.items) == len(w.items):
            return Tup(self.widen(x, y, (k, i), over, p) for i, (x, y) in enumerate(zip(v.items, w.items)))
        r = phi([((), v), ((), w)])
        if isinstance(r, Phi) and len(r.alts) > 6:
            return v
        return r

    # ------------------------------------------------------------------ assignment
    def setvar(self, name, v, st):
        fid = self.stack[-1][3]
        fr = self.frames[fid]
        if fr.globals and name in fr.globals:
            # nonlocal: write into the defining frame
            p = fr.parent
            while p is not None:
                if st.has(('v', p, name)):
                    st.set(('v', p, name), v)
                    return
                p = self.frames[p].parent if p in self.frames else None
        st.set(('v', fid, name), v)

    def assign(self, tg, v, st, node):
        if isinstance(tg, ast.Name):
            self.setvar(tg.id, v, st)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            self.unpack(tg.elts, v, st, node)
        elif isinstance(tg, ast.Attribute):
            self.store_attr(self.ev(tg.value, st), tg.attr, v, st, node)
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value, st)
            k = self.ev(tg.slice, st)
            self.store_item(b, k, v, st, node, tg)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, st, node)

    def unpack(self, elts, v, st, node):
        if isinstance(v, Phi):
            # alternatives of the same arity unpack pointwise
            rows = []
            for g, a in v.alts:
                x = self.exact_iter(a, st)
                if x is None or len(x) != len(elts):
                    rows = None
                    break
                rows.append((g, x))
            if rows:
                for i, e in enumerate(elts):
                    self.assign(e, phi([(g, x[i]) for g, x in rows]) if not all(isinstance(x[i], Sc) for _, x in rows)
                                else self.fold_sc([(g, x[i]) for g, x in rows], (id(node), i)), st, node)
                return
        ex = self.exact_iter(v, st)
        if ex is not None:
            si = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if not si and len(ex) == len(elts):
                for e, x in zip(elts, ex):
                    self.assign(e, x, st, node)
                return
            if si:
                i = si[0]
                n_after = len(elts) - i - 1
                for e, x in zip(elts[:i], ex[:i]):
                    self.assign(e, x, st, node)
                mid = ex[i:len(ex) - n_after]
                self.assign(elts[i].value, self.new_list(elts[i], st, mid), st, node)
                for e, x in zip(elts[i + 1:], ex[len(ex) - n_after:]):
                    self.assign(e, x, st, node)
                return
        t = self.term(v, st)
        for i, e in enumerate(elts):
            if isinstance(v, Sc):
                x = self.index(v, Sc(const(i)), st, e)
            elif isinstance(v, Lst) and st.lc(v.oid).star is not None:
                x = st.lc(v.oid).star
            else:
                x = self.sc(mk('idx', t, const(i)))
            self.assign(e, x, st, node)

    def fold_sc(self, alts, key):
        g, v = alts[0]
        for g2, v2 in alts[1:]:
            ga = next(((c, p) for c, p in g if (c, not p) in g2), None)
            if ga is not None:
                v = self.join_vals(v, v2, (ga,), ((ga[0], not ga[1]),), key)
            else:
                v = self.join_vals(v, v2, (), (), key)
        return v

    def store_attr(self, b, attr, v, st, node):
        if isinstance(b, Phi):
            alts = [a for _, a in b.alts]
            for a in alts:
                if isinstance(a, Inst):
                    old = st.get(('f', a.oid, attr))
                    s2 = st.copy()
                    self.store_attr(a, attr, v, s2, node)
                    new = s2.get(('f', a.oid, attr))
                    for k, x in s2.d.items():
                        st.d[k] = x
                    if isinstance(old, V) and isinstance(new, V):
                        st.set(('f', a.oid, attr), self.join_vals(old, new, (), (), ('f', a.oid, attr)))
                else:
                    self.store_attr(a, attr, v, st, node)
            return
        if isinstance(b, Inst):
            for c in self.prog.mro(b.cls):
                if attr in c.setters:
                    fn = Fn(c.setters[attr], c.module, None, c)
                    self.call_fn(fn, Args([b, v]), st, node)
                    return
            old = st.get(('f', b.oid, attr))
            st.set(('f', b.oid, attr), v)
            self.emit('setattr', node, st, obj=b, attr=attr, value=v, vterm=self.term(v, st),
                      old=old if isinstance(old, V) else None)
            return
        if isinstance(b, Sc):
            self.mutate(b, st, node, 'attr:' + attr, struct=attr in ('columns', 'index', 'name', 'names', 'attrs'),
                        new=mk('setattr', self.term(b, st), attr, self.term(v, st)), value=v)
            return
        if isinstance(b, Cls):
            st.set(('ca', b.ci.qual, attr), v)
            self.emit('setclassattr', node, st, cls=b, attr=attr, value=v)

    def store_item(self, b, k, v, st, node, tg=None):
        if isinstance(b, Phi):
            for _, a in b.alts:
                if isinstance(a, (Dct, Lst)):
                    s2 = st.copy()
                    self.store_item(a, k, v, s2, node, tg)
                    j, _, _ = self.join2(s2, st.copy())
                    st.d = j.d
                else:
                    self.store_item(a, k, v, st, node, tg)
            return
        if isinstance(b, Dct):
            dc = st.dc(b.oid)
            ok, kk = self.known(k)
            self.emit('setitem', node, st, obj=b, key=k, value=v, vterm=self.term(v, st))
            self.mutate(b, st, node, 'setitem', struct=True)
            if ok:
                st.set(('d', b.oid), dc.put(kk, v))
            else:
                kt = self.term(k, st)
                if kt.op in ('elem', 'loop', 'phi', 'ite', 'sym', 'idx', 'call', 'meth', 'fstr', 'bin', 'attr', 'tuple') or True:
                    star = v if dc.star is None else self.join_vals(dc.star, v, (), (), ('d', b.oid, '*'))
                    sk = k if dc.starkey is None else self.join_vals(dc.starkey, k, (), (), ('d', b.oid, '*k'))
                    st.set(('d', b.oid), DC(dc.items, star, sk))
            return
        if isinstance(b, Lst):
            lc = st.lc(b.oid)
            ok, kk = self.known(k)
            self.mutate(b, st, node, 'setitem', struct=True)
            if ok and isinstance(kk, int) and lc.star is None and -len(lc.items) <= kk < len(lc.items):
                items = list(lc.items)
                items[kk] = v
                st.set(('l', b.oid), LC(items))
            else:
                allv = list(lc.items) + ([lc.star] if lc.star is not None else []) + [v]
                star = allv[0]
                for x in allv[1:]:
                    star = self.join_vals(star, x, (), (), ('l', b.oid, '*'))
                st.set(('l', b.oid), LC((), star, lc.over))
            return
        if isinstance(b, Sc):
            bt = self.term(b, st)
            # x.loc[...] = v / x.iloc[...] = v / x.values[...] = v write into x
            new = mk('upd', bt, self.term(k, st), self.term(v, st))
            struct = False
            if b.kind == 'df':
                struct = True      # df[col] = ... replaces or adds a column of that object
            self.mutate(b, st, node, 'setitem', struct=struct, new=new, key=k, value=v)
            return
        self.emit('setitem', node, st, obj=b, key=k, value=v)

    def mutate(self, b, st, node, how, struct=False, new=None, key=None, value=None):
        regs = self.regions(b, st)
        if struct and isinstance(b, Sc) and b.rid is not None and not (isinstance(b.rid, tuple) and b.rid[0] == 'j'):
            regs = frozenset([b.rid])
        self.emit('mutate', node, st, target=b, regs=regs, how=how, struct=struct, key=key, value=value,
                  tterm=self.term(b, st))
        if isinstance(b, Sc):
            bt = self.term(b, st)
            if new is None:
                new = mk('mutated', bt, how)
            # writes through .loc/.iloc/.values/.T land in the owner
            if b.rid is not None:
                st.set(('c', b.rid), new)
            for r in regs:
                if r == b.rid or isinstance(r, tuple) and r and r[0] == 'o':
                    continue
                owner = st.get(('c', r))
                if owner is None:
                    owner = self._reg_terms.get(r)
                st.set(('c', r), mk('upd', owner if owner is not None else mk('reg', str(r)),
                                    mk('via', bt if bt.op != 'upd' else bt.args[0]), new))

    def rekey(self, v, old, new, st):
        """The generic element v (filled for the loop variable `old`) read at `new`."""
        if not (isinstance(v, Sc) and isinstance(old, Sc) and isinstance(new, Sc)):
            return v
        o, n = old.term, self.term(new, st)
        if o.op != 'elem' or o is n:
            return v
        t = self.term(v, st)
        t2 = tm.subst(t, {o: n})
        if t2 is t:
            return v
        if v.rid is not None and st.get(('c', v.rid)) is not None:
            return Sc(t2, None, v.bases | {v.rid}, v.kind)
        return Sc(t2, v.rid, v.bases, v.kind)

    # ------------------------------------------------------------------ iteration helpers
    def exact_iter(self, v, st):
        """The exact sequence of values an iterable yields, or None."""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Lst):
            lc = st.lc(v.oid)
            return list(lc.items) if lc.star is None else None
        if isinstance(v, Dct):
            dc = st.dc(v.oid)
            if dc.star is not None:
                return None
            return [self.keyval(k) for k, _ in dc.items]
        if isinstance(v, Sc):
            t = v.term
            if t.op == 'const' and isinstance(t.args[0], str):
                return None
            if t.op == 'const' and isinstance(t.args[0], tuple):
                return [Sc(const(x)) for x in t.args[0]]
            if t.op == 'range' and all(a.op == 'const' for a in t.args):
                a = [x.args[0] for x in t.args]
                try:
                    r = range(*a)
                except (TypeError, ValueError):
                    return None
                return [Sc(const(i), kind='int') for i in r] if len(r) <= UNROLL else None
            if t.op in ('set', 'list', 'tuple') and all(isinstance(x, T) for x in t.args[0]):
                return [self.sc(x) for x in t.args[0]]
        if isinstance(v, Inst):
            return None
        return None

    @staticmethod
    def keyval(k):
        if isinstance(k, T):
            return Sc(k)
        return Sc(const(k), kind=extlib.kind_of_const(k))

    def elem_of(self, v, st, node):
        """A representative element of an iterable."""
        if isinstance(v, Tup):
            return self.join_list(list(v.items), node) if v.items else Sc(mk('opaque', 'empty'))
        if isinstance(v, Lst):
            lc = st.lc(v.oid)
            al = list(lc.items) + ([lc.star] if lc.star is not None else [])
            return self.join_list(al, node) if al else Sc(mk('opaque', 'empty'))
        if isinstance(v, Dct):
            dc = st.dc(v.oid)
            al = [self.keyval(k) for k, _ in dc.items]
            if dc.starkey is not None:
                al.append(dc.starkey)
            elif dc.star is not None:
                al.append(self.sc(mk('elem', mk('keys', self.term(v, st)))))
            return self.join_list(al, node) if al else Sc(mk('opaque', 'empty'))
        if isinstance(v, Phi):
            return self.join_list([self.elem_of(a, st, node) for _, a in v.alts], node)
        if isinstance(v, Sc):
            t = self.term(v, st)
            if t.op == 'zip':
                return Tup(self.elem_term(x, st, node) for x in t.args[0])
            if t.op == 'enumerate':
                return Tup([self.sc(mk('elem', mk('range', const(0), mk('len', t.args[0]), const(1))), 'int'),
                            self.elem_term(t.args[0], st, node)])
            if t.op == 'product':
                return Tup(self.elem_term(x, st, node) for x in t.args[0])
            r = self.elem_term(t, st, node)
            if isinstance(r, Sc) and v.kind in ('df', 'ndarray', 'series', None, 'list') and (v.rid is not None or v.bases):
                return Sc(r.term, self.site(node, 'E'), v.bases | (frozenset([v.rid]) if v.rid is not None else frozenset()),
                          r.kind)
            return r
        if isinstance(v, Inst):
            m = self.prog.find_method(v.cls, '__iter__')
            if m:
                r = self.call_fn(Fn(m[1], m[0].module, None, m[0]), Args([v]), st, node)
                return self.elem_of(r, st, node)
        return Sc(mk('elem', self.term(v, st)))

    def elem_term(self, t, st, node):
        if t.op == 'call' and t.args[0] in ('numpy.arange', 'jax.numpy.arange') and not t.args[2]:
            a = t.args[1]
            if len(a) == 1:
                return self.sc(mk('elem', mk('range', const(0), a[0], const(1))), 'int')
            if len(a) == 2:
                return self.sc(mk('elem', mk('range', a[0], a[1], const(1))), 'int')
        if t.op == 'range':
            return self.sc(mk('elem', t), 'int')
        if t.op in ('list', 'tuple', 'set'):
            return self.join_list([self.sc(x) for x in t.args[0]], node) if t.args[0] else Sc(mk('opaque', 'empty'))
        if t.op == 'listof':
            al = [self.sc(x) for x in t.args[0]] + [self.sc(t.args[1])]
            return self.join_list(al, node)
        if t.op == 'zip':
            return Tup(self.elem_term(x, st, node) for x in t.args[0])
        if t.op == 'enumerate':
            return Tup([self.sc(mk('elem', mk('range', const(0), mk('len', t.args[0]), const(1))), 'int'),
                        self.elem_term(t.args[0], st, node)])
        if t.op == 'meth' and t.args[0] == 'items' or t.op == 'dictitems':
            b = t.args[1] if t.op == 'meth' else t.args[0]
            key = self.sc(mk('elem', mk('keys', b)))
            return Tup([key, self.sc(mk('elem', b) if False else mk('idx', b, mk('elem', mk('keys', b))))])
        if t.op == 'meth' and t.args[0] in ('iterrows', 'iteritems'):
            return Tup([self.sc(mk('elem', mk('keys', t))), self.sc(mk('elem', t), 'series')])
        return self.sc(mk('elem', t))

    def join_list(self, vs, node):
        r = vs[0]
        for x in vs[1:]:
            r = self.join_vals(r, x, (), (), (id(node), 'jl'))
        return r

    def list_extend(self, lst, v, st, node):
        lc = st.lc(lst.oid)
        ex = self.exact_iter(v, st)
        self.mutate(lst, st, node, 'extend', struct=True)
        if ex is not None and lc.star is None:
            st.set(('l', lst.oid), LC(lc.items + tuple(ex)))
            return
        if isinstance(v, Lst) and lc.star is None and not lc.items:
            st.set(('l', lst.oid), st.lc(v.oid))
            return
        e = self.elem_of(v, st, node)
        star = e if lc.star is None else self.join_vals(lc.star, e, (), (), ('l', lst.oid, '*'))
        st.set(('l', lst.oid), LC(lc.items, star, lc.over if lc.over is not None else self.term(v, st)))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisError('analysis budget exhausted')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return Sc(mk('opaque', type(e).__name__, self.fresh_id('op', e)))
        v = m(e, st)
        if st.pc:
            v = self.refine(v, st)
        return v

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return Sc(mk('ellipsis'))
        return Sc(const(e.value), kind=extlib.kind_of_const(e.value))

    def e_Name(self, e, st):
        return self.getname(e.id, st, e)

    def getname(self, name, st, node):
        fid = self.stack[-1][3] if self.stack else None
        while fid is not None:
            v = st.get(('v', fid, name))
            if v is not None:
                return v
            fr = self.frames.get(fid)
            fid = fr.parent if fr else None
        mod = self.cur().module if self.stack else None
        if mod is not None:
            r = self.prog.lookup(mod.name, name)
            if r is not None:
                return self.global_value(r, st)
        if hasattr(builtins, name):
            if name in ('True', 'False', 'None'):
                return Sc(const({'True': True, 'False': False, 'None': None}[name]))
            return Ext('builtins.' + name)
        self.emit('unbound', node, st, name=name)
        return Sc(mk('unbound', name))

    def global_value(self, r, st):
        k = r[0]
        if k == 'def':
            key = ('def', id(r[2]))
            if key not in self._gcache:
                fn = Fn(r[2], r[1], None, None)
                self._gcache[key] = fn
                if r[2].decorator_list:
                    self._gcache[key] = self.in_module(r[1], lambda s: self.decorate(fn, r[2], s))
            return self._gcache[key]
        if k == 'class':
            return Cls(r[1])
        if k == 'module':
            return Mod(r[1])
        if k == 'ext':
            return Ext(r[1])
        if k in ('assign', 'unpack'):
            key = (k, r[1].name, id(r[2]) if k == 'assign' else (id(r[2][0]), r[2][1]))
            if key in self._gcache:
                return self._gcache[key]
            if key in self._ginprog:
                return Sc(mk('opaque', 'recursive-global'))
            self._ginprog.add(key)
            expr = r[2] if k == 'assign' else r[2][0]
            v = self.in_module(r[1], lambda s: self.ev(expr, s))
            if k == 'unpack':
                ex = self.exact_iter(v, St(self))
                v = ex[r[2][1]] if ex is not None and r[2][1] < len(ex) else Sc(mk('opaque', 'global'))
            self._gcache[key] = v
            self._ginprog.discard(key)
            return v
        return Sc(mk('opaque', 'global'))

    def in_module(self, mod, fun):
        """Evaluate something in module context; its heap becomes part of the global heap."""
        fid = self.fresh_id('modframe', mod.name)
        if fid not in self.frames:
            fr = Frame()
            fr.fid, fr.parent, fr.module, fr.fn, fr.closure, fr.yields, fr.globals, fr.cls, fr.name = \
                fid, None, mod, None, True, False, set(), None, '<module>'
            self.frames[fid] = fr
        saved = self.stack
        self.stack = [('<module %s>' % mod.name, mod.tree, None, fid)]
        self.silent += 1
        st = St(self)
        try:
            v = fun(st)
        finally:
            self.stack = saved
            self.silent -= 1
        self.gheap.update(st.d)
        return v

    def decorate(self, fn, node, st):
        v = fn
        for d in reversed(node.decorator_list):
            if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod', 'abstractmethod'):
                continue
            if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'compact', 'deleter'):
                continue
            dv = self.ev(d, st)
            if isinstance(dv, (Fn, Bound, Cls)):
                v = self.call(dv, Args([v]), st, d)
            elif isinstance(dv, Ext) and dv.path in extlib.WRAPPERS:
                v = Wrapped(v, dv.path)
            elif isinstance(dv, (Part,)) and isinstance(dv.fn, Ext) and dv.fn.path in extlib.WRAPPERS:
                v = Wrapped(v, dv.fn.path)
        return v

    def e_Tuple(self, e, st):
        return Tup(self.seq_items(e.elts, st))

    def seq_items(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                ex = self.exact_iter(v, st)
                if ex is not None:
                    out += ex
                else:
                    out.append(self.elem_of(v, st, x))
            else:
                out.append(self.ev(x, st))
        return out

    def e_List(self, e, st):
        star = None
        over = None
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                ex = self.exact_iter(v, st)
                if ex is not None and star is None:
                    items += ex
                else:
                    el = self.elem_of(v, st, x)
                    star = el if star is None else self.join_vals(star, el, (), (), (id(e), 's'))
                    over = self.term(v, st)
            else:
                v = self.ev(x, st)
                if star is None:
                    items.append(v)
                else:
                    star = self.join_vals(star, v, (), (), (id(e), 's'))
        return self.new_list(e, st, items, star, over)

    def e_Set(self, e, st):
        return Sc(mk('set', tuple(self.term(x, st) for x in self.seq_items(e.elts, st))), kind='set')

    def merge_dc(self, dc, m, st, key):
        """dc updated with the entries of the mapping m (dict.update, {**m})."""
        if isinstance(m, Phi):
            r = None
            for g, x in m.alts:
                d = self.merge_dc(dc, x, st, key)
                r = d if r is None else self.join_dc(r, d, (), (), ('md', key))
            return r
        if isinstance(m, Sc) and m.term is NONE:
            return dc
        if isinstance(m, Dct):
            d2 = st.dc(m.oid)
            for k, v in d2.items:
                dc = dc.put(k, v)
            star, sk = d2.star, d2.starkey
        else:
            t = self.term(m, st)
            star, sk = self.sc(mk('elem', t)), self.sc(mk('elem', mk('keys', t)))
        if star is None:
            return dc
        if dc.star is not None:
            star = self.join_vals(dc.star, star, (), (), ('md', key, 's'))
            sk = sk if dc.starkey is None else dc.starkey if sk is None else \
                self.join_vals(dc.starkey, sk, (), (), ('md', key, 'k'))
        return DC(dc.items, star, sk)

    def e_Dict(self, e, st):
        dc = DC()
        for k, v in zip(e.keys, e.values):
            if k is None:
                dc = self.merge_dc(dc, self.ev(v, st), st, id(e))
                continue
            kv = self.ev(k, st)
            vv = self.ev(v, st)
            ok, kk = self.known(kv)
            if ok:
                dc = dc.put(kk, vv)
            else:
                dc = dc.put(self.term(kv, st), vv)
        d = self.new_dict(e, st)
        st.set(('d', d.oid), dc)
        return d

    def e_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            elif isinstance(x, ast.FormattedValue):
                t = self.term(self.ev(x.value, st), st)
                spec = ''
                if x.format_spec is not None:
                    spec = ''.join(str(y.value) if isinstance(y, ast.Constant) else '?' for y in x.format_spec.values)
                parts.append(mk('fmt', t, spec))
        return self.mkfstr(parts)

    def mkfstr(self, parts):
        out = []
        for p in parts:
            if p.op == 'fmt' and p.args[0].op == 'const' and p.args[1] == '' :
                p = const(str(p.args[0].args[0]))
            if p.op == 'const' and out and out[-1].op == 'const':
                out[-1] = const(out[-1].args[0] + p.args[0])
            elif p.op == 'const' and p.args[0] == '':
                continue
            else:
                out.append(p)
        if not out:
            return Sc(const(''), kind='str')
        if len(out) == 1 and out[0].op == 'const':
            return Sc(out[0], kind='str')
        return Sc(mk('fstr', tuple(out)), kind='str')

    def fmt_string(self, s, pos, kw):
        """'{}_{}'.format(a, b) in the same normal form as the f-string."""
        parts, auto = [], 0
        import string
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if field == '':
                    t = pos[auto]
                    auto += 1
                elif field.isdigit():
                    t = pos[int(field)]
                else:
                    t = kw[re.split(r'[.\[]', field)[0]]
                parts.append(mk('fmt', t, spec or ''))
        except (IndexError, KeyError, ValueError):
            return None
        return self.mkfstr(parts)

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.getattr(b, e.attr, st, e)

    def getattr(self, b, name, st, node, default=_MISS):
        if isinstance(b, Phi):
            return self.map_phi(b, st, lambda a, s: self.getattr(a, name, s, node, default), node)
        if isinstance(b, Inst):
            v = st.get(('f', b.oid, name))
            if v is not None and v is not ABSENT:
                return v
            if name == '__dict__':
                return self.new_dict(node, st, [(k, x) for k, x in self.fields(b, st).items()], tag='dunder')
            if name == '__class__':
                return Cls(b.cls)
            m = self.prog.find_method(b.cls, name)
            if m:
                c, fnode = m
                deco = {d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in fnode.decorator_list
                        if isinstance(d, (ast.Name, ast.Attribute))}
                fv = self.method_value(c, fnode)
                if 'property' in deco or 'cached_property' in deco:
                    return self.call(fv, Args([b]), st, node)
                if 'staticmethod' in deco:
                    return fv
                if 'classmethod' in deco:
                    return Bound(fv, Cls(b.cls))
                return Bound(fv, b)
            ca = self.prog.find_class_attr(b.cls, name)
            if ca and ca[1] is not None:
                key = ('ca', ca[0].qual, name)
                v = st.get(key)
                if v is not None:
                    return v
                v = self.in_module(ca[0].module, lambda s: self.ev(ca[1], s))
                self.gheap[key] = v
                return v
            if default is not _MISS:
                if st.get(('open', b.oid)):
                    return self.sc(mk('attr', self.term(b, st), name))
                return default
            if not (st.get(('open', b.oid)) or self.prog.ext_bases(b.cls)) or v is ABSENT:
                self.emit('noattr', node, st, obj=b, attr=name)
            elif not st.get(('open', b.oid)):
                self.emit('noattr', node, st, obj=b, attr=name, ext=True)
            return self.fresh(node, st, mk('attr', self.term(b, st), name))
        if isinstance(b, Mod):
            r = self.prog.lookup(b.name, name) if b.name in self.prog.modules else ('ext', b.name + '.' + name)
            if r is None:
                return Sc(mk('opaque', b.name + '.' + name))
            return self.global_value(r, st)
        if isinstance(b, Ext):
            return Ext(b.path + '.' + name)
        if isinstance(b, Cls):
            if name == '__name__':
                return Sc(const(b.ci.name), kind='str')
            v = st.get(('ca', b.ci.qual, name))
            if v is not None:
                return v
            m = self.prog.find_method(b.ci, name)
            if m:
                return self.method_value(*m)
            ca = self.prog.find_class_attr(b.ci, name)
            if ca and ca[1] is not None:
                return self.in_module(ca[0].module, lambda s: self.ev(ca[1], s))
            if default is not _MISS:
                return default
            return Sc(mk('attr', mk('cls', b.ci.qual), name))
        if isinstance(b, Sup):
            m = self.prog.find_method(self.cls_of(b.recv), name, after=b.ci)
            if m:
                return Bound(self.method_value(*m), b.recv)
            return BoundExt(b, name)
        if isinstance(b, (Lst, Dct, Tup)):
            return BoundExt(b, name)
        if isinstance(b, Part):
            if name == 'func':
                return b.fn
            if name == 'keywords':
                return self.new_dict(node, st, list(b.kwargs))
        if isinstance(b, (Fn, Bound)):
            f = b if isinstance(b, Fn) else b.fn
            if name == '__name__' and isinstance(f, Fn):
                return Sc(const(f.name), kind='str')
            return Sc(mk('attr', self.term(b, st), name))
        if isinstance(b, Sc):
            t = self.term(b, st)
            if t.op == 'signature' and name == 'parameters':
                return self.new_dict(node, st, [(p, Sc(mk('param', p))) for p in t.args[1]], tag='sig')
            nt = mk('attr', t, name)
            if name == 'T' and t.op == 'attr' and t.args[1] == 'T':
                nt = t.args[0]
            if name == 'at' or name == 'iat':
                nt = mk('attr', t, 'loc' if name == 'at' else 'iloc')
            kind = extlib.kind_of_attr(b.kind, name) or self.kind_of(nt)
            if name in extlib.VIEW_ATTRS:
                bases = b.bases | (frozenset([b.rid]) if b.rid is not None else frozenset())
                return Sc(nt, None, bases, kind)
            if name in ('index', 'columns'):
                bases = (frozenset([b.rid]) if b.rid is not None else frozenset())
                return Sc(nt, None, bases, kind)
            return Sc(nt, None, frozenset(), kind)
        return Sc(mk('attr', self.term(b, st), name))

    def cls_of(self, v):
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, Cls):
            return v.ci
        return None

    def method_value(self, ci, fnode):
        key = ('meth', id(fnode))
        if key not in self._deco:
            fn = Fn(fnode, ci.module, None, ci)
            self._deco[key] = fn
            real = [d for d in fnode.decorator_list
                    if not (isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod', 'abstractmethod'))]
            if real:
                self._deco[key] = self.in_module(ci.module, lambda s: self.decorate(fn, fnode, s))
        return self._deco[key]

    def map_phi(self, p, st, fun, node):
        """Apply fun(alternative, state) to each alternative, joining values and states."""
        outs = []
        base = st.copy()
        for g, a in p.alts:
            s = base.copy()
            for c, pol in g:
                self.assume(s, c, pol)
            r = fun(a, s)
            outs.append((g, r, s))
        # join the states back
        states = []
        pc0 = base.pc
        for g, r, s in outs:
            if r is None:
                continue
            states.append((s, r))
        if not states:
            return Sc(mk('opaque', 'never'))
        js, jv = self.join_many(states, ('phi', id(node)))
        st.d = js.d
        st.pc = pc0
        return jv

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        k = self.ev(e.slice, st)
        return self.index(b, k, st, e)

    def e_Slice(self, e, st):
        a = [self.term(self.ev(x, st), st) if x is not None else NONE for x in (e.lower, e.upper, e.step)]
        if a[0] is const(0):
            a[0] = NONE
        return Sc(mk('slice', *a), kind='slice')

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def index(self, b, k, st, node):
        if isinstance(b, Phi):
            return self.map_phi(b, st, lambda a, s: self.index(a, k, s, node), node)
        if isinstance(k, Phi) and isinstance(b, (Tup, Lst, Dct)):
            return self.map_phi(k, st, lambda a, s: self.index(b, a, s, node), node)
        ok, kk = self.known(k)
        if isinstance(b, (Tup, Lst)):
            lc = LC(b.items) if isinstance(b, Tup) else st.lc(b.oid)
            if ok and isinstance(kk, int):
                if lc.star is None and -len(lc.items) <= kk < len(lc.items):
                    return lc.items[kk]
                if 0 <= kk < len(lc.items):
                    return lc.items[kk]
            kt = self.term(k, st)
            if kt.op == 'slice':
                s = kt.args
                if lc.star is None and all(x.op == 'const' for x in s):
                    vals = [x.args[0] for x in s]
                    try:
                        it = lc.items[slice(*vals)]
                        return Tup(it) if isinstance(b, Tup) else self.new_list(node, st, it)
                    except (TypeError, ValueError):
                        pass
                al = list(lc.items) + ([lc.star] if lc.star is not None else [])
                if al:
                    bt = self.term(b, st)
                    if lc.star is not None and not lc.items and not all(x is NONE for x in s):
                        bt = mk('idx', bt, kt)
                    return self.new_list(node, st, (), self.join_list(al, node), bt)
                return self.new_list(node, st)
            al = list(lc.items) + ([lc.star] if lc.star is not None else [])
            if not al:
                return Sc(mk('idx', self.term(b, st), kt))
            r = self.join_list(al, node)
            if ok and isinstance(kk, int) and isinstance(r, Sc) and not lc.items and lc.over is not None and lc.over.op not in ('nest', 'while') and r.term.op == 'elem':
                # a certain element, not the one an iteration is at
                return Sc(self.pick(r.term, lc.over, kt), r.rid, r.bases, r.kind)
            return r
        if isinstance(b, Dct):
            dc = st.dc(b.oid)
            if ok:
                v = dc.get(kk)
                if v is not None:
                    return v
            else:
                v = dc.get(self.term(k, st))
                if v is not None:
                    return v
            if not ok or dc.star is not None:
                al = [v for _, v in dc.items] if not ok else []
                if dc.star is not None:
                    al.append(self.rekey(dc.star, dc.starkey, k, st))
                if al:
                    self.emit('dictread', node, st, obj=b, key=k)
                    return self.join_list(al, node)
            self.emit('keymiss', node, st, obj=b, key=self.term(k, st))
            return Sc(mk('idx', self.term(b, st), self.term(k, st)))
        if isinstance(b, Inst):
            m = self.prog.find_method(b.cls, '__getitem__')
            if m:
                return self.call_fn(Fn(m[1], m[0].module, None, m[0]), Args([b, k]), st, node)
            return Sc(mk('idx', self.term(b, st), self.term(k, st)))
        bt, kt = self.term(b, st), self.term(k, st)
        if bt.op in ('tuple', 'list') and ok and isinstance(kk, int) and -len(bt.args[0]) <= kk < len(bt.args[0]):
            return self.sc(bt.args[0][kk])
        if bt.op == 'listof' and not bt.args[0] and kt.op != 'slice':
            if kt.op == 'const' and bt.args[2].op not in ('const', 'nest'):
                # a certain element, not the one an iteration is at
                return self.sc(self.pick(bt.args[1], bt.args[2], kt))
            return self.sc(bt.args[1])
        self.emit('index', node, st, base=b, key=k, bterm=bt, kterm=kt)
        nt = mk('idx', bt, kt)
        # each(range(len(x))) indexing is iteration over x
        if kt.op == 'elem' and kt.args[0].op == 'range':
            r = kt.args[0]
            if r.args[0] is const(0) and r.args[2] is const(1) and r.args[1].op == 'len' and r.args[1].args[0] is bt:
                nt = mk('elem', bt)
        if isinstance(b, Sc):
            kind = extlib.kind_of_index(b, k, bt, kt) or self.kind_of(nt)
            bases = frozenset()
            own = b.bases | (frozenset([b.rid]) if b.rid is not None else frozenset())
            if extlib.index_is_view(b, k, bt, kt):
                bases = own
            if kind in ('int', 'float', 'str', 'bool', 'timedelta', 'timestamp'):
                return Sc(nt, None, frozenset(), kind)
            return Sc(nt, self.site(node, 'I'), bases, kind)
        return Sc(nt)

    def e_Lambda(self, e, st):
        fr = self.cur()
        fr.closure = True
        return Fn(e, fr.module, fr.fid, fr.cls)

    def e_IfExp(self, e, st):
        v = self.ev(e.test, st)
        t, r = self.cond(v, st)
        self.emit('branch', e, st, test=t, known=r)
        if r is True:
            return self.ev(e.body, st)
        if r is False:
            return self.ev(e.orelse, st)
        a, b = st.copy(), st.copy()
        pc0 = st.pc
        self.assume(a, t, True)
        self.assume(b, t, False)
        va = self.ev(e.body, a)
        vb = self.ev(e.orelse, b)
        js, jv = self.join_many([(a, va), (b, vb)], id(e))
        st.d = js.d
        st.pc = pc0
        return jv

    def e_BoolOp(self, e, st):
        op = 'and' if isinstance(e.op, ast.And) else 'or'
        vals = []
        guards = []         # under which outcomes of the tests before it a value is the result
        sofar = ()
        pc0 = st.pc
        for x in e.values:
            v = self.ev(x, st)
            t, r = self.cond(v, st)
            if r is not None:
                if (op == 'and' and r is False) or (op == 'or' and r is True):
                    vals.append(v)
                    guards.append(sofar)
                    break
                if x is e.values[-1]:
                    vals.append(v)
                    guards.append(sofar)
                continue
            vals.append(v)
            guards.append(sofar if x is e.values[-1] else sofar + ((t, op == 'or'),))
            sofar += ((t, op == 'and'),)
            self.assume(st, t, op == 'and')
        st.pc = pc0
        if len(vals) == 1:
            return vals[0]
        if not vals:
            return v
        if all(isinstance(x, Sc) for x in vals):
            ts = [self.term(x, st) for x in vals]
            kinds = {x.kind for x in vals}
            if op == 'or' and vals[-1].kind not in ('bool', None):
                return Sc(mk('ite', ts[0], ts[0], mk('boolop', op, tuple(ts[1:])) if len(ts) > 2 else ts[1]),
                          None, frozenset().union(*[self.regions(x, st) for x in vals]))
            last = vals[-1]
            if ts[-1].op == 'const' and isinstance(ts[-1].args[0], bool) and len(ts) > 1:
                # `c and False` is False, `c or True` is True
                if ts[-1].args[0] is (op == 'or'):
                    return last
            return Sc(mk('boolop', op, tuple(ts)), kind='bool' if kinds <= {'bool'} else None)
        return phi(list(zip(guards, vals)))

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        op = type(e.op).__name__
        if op == 'Not':
            r = self.truth(v, st)
            if r is not None:
                return Sc(const(not r), kind='bool')
            t = self.term(v, st)
            return Sc(t.args[0] if t.op == 'not' else mk('not', t), kind='bool')
        ok, c = self.known(v)
        if ok and isinstance(c, (int, float)) and op == 'USub':
            return Sc(const(-c), kind=extlib.kind_of_const(c))
        t = self.term(v, st)
        name = {'USub': '-', 'UAdd': '+', 'Invert': '~'}[op]
        kind = v.kind if isinstance(v, Sc) else None
        return self.fresh(e, st, mk('un', name, t), kind)

    OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**', 'MatMult': '@',
           'BitAnd': '&', 'BitOr': '|', 'BitXor': '^', 'LShift': '<<', 'RShift': '>>'}

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(type(e.op).__name__, a, b, st, e)

    def binop_term(self, op, a, b, st):
        return mk('bin', self.OPS[op], self.term(a, st), self.term(b, st))

    def binop(self, op, a, b, st, node):
        oka, ca = self.known(a)
        okb, cb = self.known(b)
        if oka and okb:
            try:
                if op == 'Add':
                    return Sc(const(ca + cb), kind=extlib.kind_of_const(ca + cb))
                if op == 'Sub':
                    return Sc(const(ca - cb), kind=extlib.kind_of_const(ca - cb))
                if op == 'Mult' and not isinstance(ca, str) or op == 'Mult' and isinstance(cb, int) and cb < 200:
                    r = ca * cb
                    return Sc(const(r), kind=extlib.kind_of_const(r))
                if op == 'Div':
                    return Sc(const(ca / cb), kind='float')
                if op == 'FloorDiv':
                    return Sc(const(ca // cb), kind=extlib.kind_of_const(ca // cb))
                if op == 'Pow' and abs(cb) < 64:
                    return Sc(const(ca ** cb), kind=extlib.kind_of_const(ca ** cb))
                if op == 'Mod' and not isinstance(ca, str):
                    return Sc(const(ca % cb), kind=extlib.kind_of_const(ca % cb))
            except Exception:
                pass
        if op == 'Add' and isinstance(a, (Lst, Tup)) and isinstance(b, (Lst, Tup)):
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            la = st.lc(a.oid) if isinstance(a, Lst) else LC(a.items)
            lb = st.lc(b.oid) if isinstance(b, Lst) else LC(b.items)
            if la.star is None:
                return self.new_list(node, st, la.items + (lb.items if lb.star is None or not la.items or True else ()), lb.star, lb.over)
            al = [la.star] + list(lb.items) + ([lb.star] if lb.star is not None else [])
            return self.new_list(node, st, la.items, self.join_list(al, node), la.over)
        if op == 'Add' and (self.kindv(a) == 'str' or self.kindv(b) == 'str'):
            pa, pb = self.str_parts(a, st), self.str_parts(b, st)
            if pa is not None and pb is not None:
                return self.mkfstr(pa + pb)
        if op == 'Mod' and oka and isinstance(ca, str):
            r = self.percent_format(ca, b, st)
            if r is not None:
                return r
        if isinstance(a, Inst):
            dn = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__'}.get(op)
            m = dn and self.prog.find_method(a.cls, dn)
            if m:
                return self.call_fn(Fn(m[1], m[0].module, None, m[0]), Args([a, b]), st, node)
        t = self.binop_term(op, a, b, st)
        kind = extlib.kind_binop(op, self.kindv(a), self.kindv(b))
        if kind in ('int', 'float', 'str', 'bool', 'timedelta', 'timestamp'):
            return Sc(t, None, frozenset(), kind)
        return self.fresh(node, st, t, kind)

    def str_parts(self, v, st):
        if not isinstance(v, Sc):
            return None
        if v.term.op == 'fstr':
            return list(v.term.args[0])
        if v.term.op == 'const' and isinstance(v.term.args[0], str):
            return [v.term]
        return [mk('fmt', self.term(v, st), '')]

    def percent_format(self, s, b, st):
        args = list(b.items) if isinstance(b, Tup) else [b]
        parts, i, pos = [], 0, 0
        for m in re.finditer(r'%(%|[-#0 +]*\d*(?:\.\d+)?[sdrfgei])', s):
            if m.start() > pos:
                parts.append(const(s[pos:m.start()]))
            pos = m.end()
            if m.group(1) == '%':
                parts.append(const('%'))
                continue
            if i >= len(args):
                return None
            spec = m.group(1)
            parts.append(mk('fmt', self.term(args[i], st), '' if spec in ('s', 'd') else spec))
            i += 1
        if pos < len(s):
            parts.append(const(s[pos:]))
        return self.mkfstr(parts)

    def kindv(self, v):
        if isinstance(v, Sc):
            return v.kind
        if isinstance(v, (Lst,)):
            return 'list'
        if isinstance(v, Tup):
            return 'tuple'
        if isinstance(v, Dct):
            return 'dict'
        return None

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        parts = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            parts.append(self.compare(type(op).__name__, left, right, st, e))
            left = right
        if len(parts) == 1:
            return parts[0]
        rs = [self.truth(p, st) for p in parts]
        if any(r is False for r in rs):
            return Sc(const(False), kind='bool')
        if all(r is True for r in rs):
            return Sc(const(True), kind='bool')
        return Sc(mk('boolop', 'and', tuple(self.term(p, st) for p in parts)), kind='bool')

    def compare(self, op, a, b, st, node):
        if op in ('Is', 'IsNot', 'Eq', 'NotEq'):
            neg = op in ('IsNot', 'NotEq')
            if self.is_none(b) is True or self.is_none(a) is True:
                x = a if self.is_none(b) is True else b
                n = self.is_none(x)
                if n is not None and (op in ('Is', 'IsNot') or n is False and not self.arraylike(x) or n is True):
                    return Sc(const(n != neg), kind='bool')
                if isinstance(x, Phi):
                    r = self.map_phi(x, st, lambda al, s: self.compare(op, al, Sc(NONE), s, node) if not isinstance(al, Phi) else None, node)
                    return r
                t = mk('cmp', 'is', self.term(x, st), NONE)
                return self.boolsc(t, neg, st)
            oka, ca = self.known(a)
            okb, cb = self.known(b)
            if oka and okb and not isinstance(ca, tuple):
                return Sc(const((ca == cb) != neg), kind='bool')
            if isinstance(a, Cls) and isinstance(b, Cls):
                return Sc(const((a.ci is b.ci) != neg), kind='bool')
            if isinstance(a, Phi) and (okb or isinstance(b, Cls)):
                return self.map_phi(a, st, lambda al, s: self.compare(op, al, b, s, node), node)
            if isinstance(a, Dct) and isinstance(b, Dct):
                da, db = st.dc(a.oid), st.dc(b.oid)
                if not db.items and db.star is None and not (not da.items and da.star is not None):
                    return Sc(const((not da.items) != neg), kind='bool')
            ta, tb = self.term(a, st), self.term(b, st)
            if ta is tb and not self.arraylike(a) and op in ('Is', 'IsNot'):
                return Sc(const(not neg), kind='bool')
            arr = self.arraylike(a) or self.arraylike(b)
            if op in ('Eq', 'NotEq') and (oka and not okb):
                ta, tb = tb, ta
            cs = cb if okb else ca if oka else None
            if isinstance(cs, str) and cs.isalpha():
                u = ta if okb else tb
                w = u.args[0][0] if u.op == 'fstr' and len(u.args[0]) == 1 else None
                w = w.args[0] if isinstance(w, T) and w.op == 'fmt' else None
                if isinstance(w, T) and w.op == 'sym' and self.kinds.get(w.args[0]) in ('ndarray', 'df', 'series'):
                    return Sc(const(neg), kind='bool')      # an array never prints as a word
            t = mk('cmp', 'is' if op in ('Is', 'IsNot') else '==', ta, tb)
            if arr:
                if neg:
                    t = mk('cmp', '!=', ta, tb)
                return self.fresh(node, st, t, 'series' if 'series' in (self.kindv(a), self.kindv(b)) else
                                  ('df' if 'df' in (self.kindv(a), self.kindv(b)) else 'ndarray'))
            return self.boolsc(t, neg, st)
        if op in ('In', 'NotIn'):
            neg = op == 'NotIn'
            r = self.contains(a, b, st)
            if r is not None:
                return Sc(const(r != neg), kind='bool')
            t = mk('cmp', 'in', self.term(a, st), self.term(b, st))
            return self.boolsc(t, neg, st)
        oka, ca = self.known(a)
        okb, cb = self.known(b)
        if oka and okb:
            try:
                r = {'Lt': lambda: ca < cb, 'LtE': lambda: ca <= cb, 'Gt': lambda: ca > cb, 'GtE': lambda: ca >= cb}[op]()
                return Sc(const(bool(r)), kind='bool')
            except TypeError:
                pass
        ta, tb = self.term(a, st), self.term(b, st)
        t = {'Lt': lambda: mk('cmp', '<', ta, tb), 'LtE': lambda: mk('cmp', '<=', ta, tb),
             'Gt': lambda: mk('cmp', '<', tb, ta), 'GtE': lambda: mk('cmp', '<=', tb, ta)}[op]()
        if self.arraylike(a) or self.arraylike(b):
            ks = (self.kindv(a), self.kindv(b))
            return self.fresh(node, st, t, 'df' if 'df' in ks else 'series' if 'series' in ks else 'ndarray')
        return Sc(t, kind='bool')

    def boolsc(self, t, neg, st):
        if t in self.force:
            return Sc(const(self.force[t] != neg), kind='bool')
        for c, p in st.pc:
            if c is t:
                return Sc(const(p != neg), kind='bool')
        return Sc(mk('not', t) if neg else t, kind='bool')

    def arraylike(self, v):
        return isinstance(v, Sc) and v.kind in ('df', 'series', 'ndarray', 'index', 'dtindex')

    def contains(self, a, b, st):
        ok, ca = self.known(a)
        if isinstance(b, Dct) and ok:
            dc = st.dc(b.oid)
            if dc.get(ca) is not None:
                return True
            return False if dc.star is None and all(not isinstance(k, T) for k, _ in dc.items) else None
        if isinstance(b, Dct):
            dc = st.dc(b.oid)
            if not dc.items and dc.star is None:
                return False
        ex = self.exact_iter(b, st)
        if ex is not None and ok:
            ks = [self.known(x) for x in ex]
            if any(o and type(c) is type(ca) and c == ca for o, c in ks):
                return True
            if all(o for o, _ in ks):
                return any(c == ca for _, c in ks)
            return None
        if ok and isinstance(b, Sc):
            okb, cb = self.known(b)
            if okb and isinstance(cb, (str, tuple)) and isinstance(ca, type(cb) if isinstance(cb, str) else object):
                return ca in cb
            if b.term.op == 'set':
                if any(x is const(ca) for x in b.term.args[0]):
                    return True
                if all(x.op == 'const' for x in b.term.args[0]):
                    return False
        return None

    # comprehensions ---------------------------------------------------------------------------
    def comp(self, e, st, body):
        """Evaluates a comprehension; body(st) -> V for one element. Returns (exact list | None, star, over)."""
        # the targets are local to the comprehension: an outer variable of the same name keeps its value
        fid = self.stack[-1][3]
        names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        old = {n: st.d[('v', fid, n)] for n in names if ('v', fid, n) in st.d}
        r = self.comp_rec(e.generators, 0, st, body, e)
        for n in old:
            st.set(('v', fid, n), old[n])
        return r

    def comp_rec(self, gens, i, st, body, node):
        if i == len(gens):
            return [body(st)], None, None
        g = gens[i]
        itv = self.ev(g.iter, st)
        exact = self.exact_iter(itv, st)
        if exact is not None and len(exact) <= 64:
            items, star, over = [], None, None
            for x in exact:
                s = st
                self.assign(g.target, x, s, node)
                keep = True
                for c in g.ifs:
                    cv = self.ev(c, s)
                    t, r = self.cond(cv, s)
                    if r is False:
                        keep = False
                        break
                    if r is None:
                        keep = None
                if keep is False:
                    continue
                it, sr, ov = self.comp_rec(gens, i + 1, s, body, node)
                if keep is None or sr is not None or star is not None:
                    al = ([star] if star is not None else []) + it + ([sr] if sr is not None else [])
                    if al:
                        star = self.join_list(al, node)
                        over = over or ov or self.term(itv, st)
                else:
                    items += it
            return items, star, over
        el = self.elem_of(itv, st, g.target)
        over = self.term(itv, st)
        pc0 = st.pc
        self.assign(g.target, el, st, node)
        conds = []
        for c in g.ifs:
            cv = self.ev(c, st)
            t, r = self.cond(cv, st)
            if r is False:
                st.pc = pc0
                return [], None, None
            if r is None:
                conds.append(t)
                self.assume(st, t, True)
        if conds:
            over = mk('filter', over, tuple(conds))
        it, sr, ov = self.comp_rec(gens, i + 1, st, body, node)
        st.pc = pc0
        al = it + ([sr] if sr is not None else [])
        if ov is not None:
            over = mk('nest', over, ov)
        return [], (self.join_list(al, node) if al else None), over

    def e_ListComp(self, e, st):
        # like a loop: effects of the body on the heap may happen zero or more times
        self.discarded.add(id(e.elt))
        snap = dict(st.d)
        items, star, over = self.comp(e, st, lambda s: self.ev(e.elt, s))
        return self.new_list(e, st, items, star, over)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        items, star, over = self.comp(e, st, lambda s: self.ev(e.elt, s))
        ts = tuple(self.term(x, st) for x in items)
        if star is None:
            return Sc(mk('set', ts), kind='set')
        return Sc(mk('setof', ts, self.term(star, st), over or NONE), kind='set')

    def e_DictComp(self, e, st):
        def body(s):
            return Tup([self.ev(e.key, s), self.ev(e.value, s)])
        items, star, over = self.comp(e, st, body)
        d = self.new_dict(e, st)
        dc = DC()
        for kv in items:
            ok, k = self.known(kv.items[0])
            dc = dc.put(k if ok else self.term(kv.items[0], st), kv.items[1])
        if star is not None and isinstance(star, Tup):
            dc = DC(dc.items, star.items[1], star.items[0])
        st.set(('d', d.oid), dc)
        return d

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else Sc(NONE)
        fid = self.stack[-1][3]
        lc = st.get(('y', fid)) or LC()
        st.set(('y', fid), LC(lc.items + (v,), lc.star, lc.over) if lc.star is None else
               LC(lc.items, self.join_vals(lc.star, v, (), (), ('y', fid)), lc.over))
        self.emit('yield', e, st, value=v, vterm=self.term(v, st))
        return Sc(NONE)

    def e_YieldFrom(self, e, st):
        return self.ev(e.value, st)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.make_super(e, st)
        fv = None
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value, st)
            cargs = self.eval_args(e, st)
            return self.call_method(recv, e.func.attr, cargs, st, e)
        fv = self.ev(e.func, st)
        cargs = self.eval_args(e, st)
        if isinstance(fv, Ext) and fv.path in ('eval', 'builtins.eval') and self.stack:
            # an expression reads the variables of the function it is evaluated in
            fid = self.stack[-1][3]
            if len(cargs.pos) == 3 and isinstance(cargs.pos[2], Dct):
                for k, v in st.dc(cargs.pos[2].oid).items:
                    if isinstance(k, str):
                        cargs.kw.setdefault(k, v)
                cargs.pos = cargs.pos[:1]
            elif len(cargs.pos) == 1:
                for k in [k for k in st.d if isinstance(k, tuple) and len(k) == 3 and k[0] == 'v' and k[1] == fid]:
                    if isinstance(st.d[k], Sc) and k[2] != 'self':
                        cargs.kw.setdefault(k[2], st.d[k])
        return self.call(fv, cargs, st, e)

    def make_super(self, e, st):
        if e.args:
            c = self.ev(e.args[0], st)
            r = self.ev(e.args[1], st) if len(e.args) > 1 else None
            if isinstance(c, Cls):
                return Sup(c.ci, r)
        fid = self.stack[-1][3]
        while fid is not None:
            fr = self.frames[fid]
            if fr.cls is not None and fr.fn is not None and getattr(fr.fn, 'args', None) and fr.fn.args.args:
                r = st.get(('v', fid, fr.fn.args.args[0].arg))
                if r is not None:
                    return Sup(fr.cls, r)
            fid = fr.parent
        return Sc(mk('opaque', 'super'))

    def eval_args(self, e, st):
        a = Args()
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                ex = self.exact_iter(v, st)
                if ex is not None and a.star is None:
                    a.pos += ex
                else:
                    a.star = v
            else:
                a.pos.append(self.ev(x, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if isinstance(v, Dct):
                    dc = st.dc(v.oid)
                    for kk, vv in dc.items:
                        if isinstance(kk, str):
                            a.kw[kk] = vv
                    if dc.star is not None:
                        a.dstar = v
                else:
                    a.dstar = v
            else:
                a.kw[k.arg] = v
        return a

    def call_method(self, recv, name, ca, st, node):
        if isinstance(recv, Phi):
            return self.map_phi(recv, st, lambda a, s: self.call_method(a, name, ca, s, node), node)
        if isinstance(recv, (Lst, Dct, Tup)):
            return extlib.container_method(self, recv, name, ca, st, node)
        if isinstance(recv, Sc):
            return extlib.sc_method(self, recv, name, ca, st, node)
        if isinstance(recv, Sup):
            m = self.prog.find_method(self.cls_of(recv.recv), name, after=recv.ci) if self.cls_of(recv.recv) else None
            if m:
                fv = self.method_value(*m)
                deco = {getattr(d, 'id', getattr(d, 'attr', '')) for d in m[1].decorator_list}
                if 'staticmethod' in deco:
                    return self.call(fv, ca, st, node)
                return self.call(fv, Args([recv.recv] + ca.pos, ca.kw, ca.star, ca.dstar), st, node)
            if name == '__init__' or name == '__setattr__':
                return Sc(NONE)
            self.emit('ext', node, st, path='super.' + name, args=tuple(ca.pos), kwargs=tuple(ca.kw.items()), term=None)
            return self.fresh(node, st, mk('meth', name, mk('super', self.term(recv.recv, st)),
                                           tuple(self.term(x, st) for x in ca.pos),
                                           tuple((k, self.term(x, st)) for k, x in sorted(ca.kw.items()))))
        if isinstance(recv, Inst):
            if st.get(('f', recv.oid, name)) is None and self.prog.find_method(recv.cls, name) is None:
                if name == '__setattr__':
                    ok, k = self.known(ca.pos[0])
                    if ok:
                        self.store_attr(recv, k, ca.pos[1], st, node)
                    else:
                        self.emit('setattr', node, st, obj=recv, attr='*', value=ca.pos[1], vterm=self.term(ca.pos[1], st), old=None)
                    return Sc(NONE)
                if name == '__getattribute__':
                    ok, k = self.known(ca.pos[0])
                    if ok:
                        return self.getattr(recv, k, st, node)
                r = extlib.inst_ext_method(self, recv, name, ca, st, node)
                if r is not None:
                    return r
        if name == 'remote' and isinstance(recv, (Fn, Bound, Part)):      # ray: runs in a worker, ray.get has its result
            self.emit('ext', node, st, path='.remote', recv=recv, rterm=self.term(recv, st), args=tuple(ca.pos), kwargs=tuple(ca.kw.items()),
                      term=None, result=None)
            before = dict(st.d) if getattr(self, 'isolate', False) else None
            r = self.call(recv, ca, st, node)
            extlib.rejoin(st, before, r)
            return r
        f = self.getattr(recv, name, st, node)
        return self.call(f, ca, st, node)

    def call(self, fv, ca, st, node):
        if isinstance(fv, Phi):
            return self.map_phi(fv, st, lambda a, s: self.call(a, ca, s, node), node)
        if isinstance(fv, Fn):
            return self.call_fn(fv, ca, st, node)
        if isinstance(fv, Bound):
            return self.call(fv.fn, Args([fv.recv] + ca.pos, ca.kw, ca.star, ca.dstar), st, node)
        if isinstance(fv, BoundExt):
            return self.call_method(fv.recv, fv.name, ca, st, node)
        if isinstance(fv, Part):
            kw = dict(fv.kwargs)
            ds = kw.pop('**', None)
            kw.update(ca.kw)
            return self.call(fv.fn, Args(list(fv.args) + ca.pos, kw, ca.star, ca.dstar or ds), st, node)
        if isinstance(fv, Wrapped):
            return extlib.call_wrapped(self, fv, ca, st, node)
        if isinstance(fv, Cls):
            return self.instantiate(fv.ci, ca, st, node)
        if isinstance(fv, Ext):
            return extlib.call_ext(self, fv.path, ca, st, node)
        if isinstance(fv, Inst):
            m = self.prog.find_method(fv.cls, '__call__')
            if m:
                return self.call(self.method_value(*m), Args([fv] + ca.pos, ca.kw, ca.star, ca.dstar), st, node)
        if isinstance(fv, Sc):
            t = self.term(fv, st)
            if t.op == 'attr':
                b = Sc(t.args[0], None, fv.bases)
                return extlib.sc_method(self, b, t.args[1], ca, st, node)
        return extlib.opaque_call(self, fv, ca, st, node)

    def instantiate(self, ci, ca, st, node, open_=False):
        oid = self.site(node, 'O' + ci.qual)
        # a new object: forget stale contents of a previous iteration
        for k in [k for k in st.d if k[0] == 'f' and k[1] == oid]:
            st.d.pop(k)
        inst = Inst(oid, ci)
        self.emit('new', node, st, cls=ci.qual, args=tuple(ca.pos), kwargs=tuple(ca.kw.items()), obj=inst)
        m = self.prog.find_method(ci, '__init__')
        if m:
            self.call(self.method_value(*m), Args([inst] + ca.pos, ca.kw, ca.star, ca.dstar), st, node)
        else:
            names = []
            for c in reversed(self.prog.mro(ci)):
                for n in c.order:
                    if n not in names:
                        names.append(n)
            fixed = {}
            for n, v in zip(names, ca.pos):
                fixed[n] = v
            for k, v in ca.kw.items():
                fixed[k] = v
                if names and k not in names and k not in ('name', 'parent') and ca.dstar is None:
                    self.emit('argerror', node, st, callee=ci.qual, why='unexpected field %s' % k)
            for k, v in fixed.items():
                st.set(('f', oid, k), v)
        return inst

    def fn_qual(self, fv):
        n = fv.name
        if fv.cls is not None:
            return fv.module.name + '.' + fv.cls.name + '.' + n
        return fv.module.name + '.' + n

    def call_fn(self, fv, ca, st, node):
        fn = fv.node
        q = self.fn_qual(fv)
        self.calls += 1
        short = (fv.cls.name + '.' + fv.name) if fv.cls is not None else fv.name
        for name in (q, short):
            if name in self.opaque_handler:
                r = self.opaque_handler[name](self, fv, ca, st, node)
                if r is not None:
                    return r
        depth = len(self.stack)
        rec = sum(1 for s in self.stack if s[2] is fn)
        if depth > MAX_DEPTH or rec >= 2 or q in self.opaque_funcs or short in self.opaque_funcs:
            return extlib.opaque_call(self, fv, ca, st, node)
        # frame
        caller = self.stack[-1][3] if self.stack else 0
        fid = self.fresh_id('fr', node, caller, fn)
        fr = Frame()
        fr.fid, fr.parent, fr.module, fr.fn = fid, fv.fid, fv.module, fn
        fr.closure, fr.cls, fr.name = False, fv.cls, short
        fr.globals = set()
        fr.yields = False
        self.frames[fid] = fr
        bound = self.bind(fv, ca, st, node, short)
        self.inlined.add(q)
        self.prog.consulted.add(fv.module.rel)
        if isinstance(fn, ast.Lambda):
            self.stack.append((short, node, fn, fid))
            try:
                for k, v in bound.items():
                    st.set(('v', fid, k), v)
                r = self.ev(fn.body, st)
            finally:
                self.stack.pop()
            if not fr.closure:
                for k in bound:
                    st.pop(('v', fid, k))
            return r
        is_gen = self.is_generator(fn)
        for n in ast.walk(fn):
            if isinstance(n, (ast.Nonlocal, ast.Global)):
                fr.globals.update(n.names)
        for k in [k for k in st.d if k[0] == 'v' and k[1] == fid]:
            st.d.pop(k)
        if is_gen:
            st.set(('y', fid), LC())
        self.stack.append((short, node, fn, fid))
        pc0 = st.pc
        try:
            for k, v in bound.items():
                st.set(('v', fid, k), v)
            self.emit('enter', node, st, qual=q, bound=tuple(sorted(bound.items(), key=lambda z: z[0])),
                      terms=tuple((k, self.term(v, st)) for k, v in sorted(bound.items(), key=lambda z: z[0])))
            fl = self.exec_block(fn.body, st.copy())
            outs = list(fl.rets)
            if fl.normal is not None:
                outs.append((fl.normal, Sc(NONE)))
            if not outs:
                # never returns (always raises)
                self.emit('noreturn', node, st, qual=q)
                r = Sc(mk('bottom'))
                js = st
            else:
                js, r = self.join_many(outs, ('fn', fid))
            if is_gen:
                lc = js.get(('y', fid)) or LC()
                oid = self.site(fn, 'gen')
                js.set(('l', oid), lc)
                r = Lst(oid)
            self.emit('exit', node, js, qual=q, value=r, vterm=self.term(r, js))
        finally:
            self.stack.pop()
        st.d = js.d
        # keep only what was known before plus conditions decided on every returning path
        st.pc = js.pc if js is not st else pc0
        if not fr.closure:
            for k in [k for k in st.d if k[0] in ('v', 'y') and k[1] == fid]:
                st.d.pop(k)
        return r

    _gen_cache = {}

    def is_generator(self, fn):
        k = id(fn)
        if k not in self._gen_cache:
            res = False
            todo = list(fn.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    res = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                todo.extend(ast.iter_child_nodes(n))
            self._gen_cache[k] = (res, fn)
        return self._gen_cache[k][0]

    def bind(self, fv, ca, st, node, short):
        a = fv.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        kwonly = [p.arg for p in a.kwonlyargs]
        out = {}
        pos = list(ca.pos)
        kw = dict(ca.kw)
        for p in params:
            if pos:
                out[p] = pos.pop(0)
                if p in kw:
                    self.emit('argerror', node, st, callee=short, why='multiple values for %s' % p)
                    kw.pop(p)
        if pos:
            if a.vararg:
                out[a.vararg.arg] = Tup(pos)
            else:
                self.emit('argerror', node, st, callee=short, why='%d positional arguments too many' % len(pos))
        elif a.vararg:
            if ca.star is not None:
                out[a.vararg.arg] = self.new_list(node, st, (), self.elem_of(ca.star, st, node), self.term(ca.star, st), tag='va')
            else:
                out[a.vararg.arg] = Tup(())
        for p in params + kwonly:
            if p in kw and p not in out:
                out[p] = kw.pop(p)
        dflt = {}
        nd = len(a.defaults)
        for p, d in zip(params[len(params) - nd:], a.defaults):
            dflt[p] = d
        for p, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                dflt[p] = d
        for p in params + kwonly:
            if p in out:
                continue
            if ca.star is not None and p in params:
                out[p] = self.elem_of(ca.star, st, node)
                continue
            if p in dflt:
                out[p] = self.default_value(fv, dflt[p], st)
                if ca.dstar is not None:
                    dv = self.sc(mk('dstar', self.term(ca.dstar, st), p))
                    out[p] = self.join_vals(out[p], dv, (), (), ('dst', id(node), p)) if isinstance(out[p], Sc) else \
                        phi([((), out[p]), ((), dv)])
            elif ca.dstar is not None:
                out[p] = self.sc(mk('dstar', self.term(ca.dstar, st), p))
            else:
                self.emit('argerror', node, st, callee=short, why='missing argument %s' % p)
                out[p] = Sc(mk('missing', p))
        if a.kwarg:
            d = self.new_dict(node, st, list(kw.items()), tag='kwargs' + short)
            if ca.dstar is not None:
                ds = ca.dstar
                if isinstance(ds, Dct):
                    dc = st.dc(ds.oid)
                    st.set(('d', d.oid), DC(list(kw.items()), dc.star, dc.starkey))
                else:
                    t = self.term(ds, st)
                    st.set(('d', d.oid), DC(list(kw.items()), self.sc(mk('elem', t)), self.sc(mk('elem', mk('keys', t)))))
            out[a.kwarg.arg] = d
        elif kw:
            self.emit('argerror', node, st, callee=short, why='unexpected keyword %s' % ', '.join(sorted(kw)))
        return out

    def default_value(self, fv, d, st):
        if isinstance(d, ast.Constant):
            return Sc(const(d.value), kind=extlib.kind_of_const(d.value))
        if fv.fid is not None:
            return self.ev_in(fv.fid, d, st)
        # default expressions are evaluated once, at definition: a mutable default is one shared object
        return self.in_module(fv.module, lambda s: self.ev(d, s))

    def ev_in(self, fid, e, st):
        fr = self.frames[fid]
        self.stack.append((fr.name, e, None, fid))
        try:
            return self.ev(e, st)
        finally:
            self.stack.pop()

    # ------------------------------------------------------------------ entry points
    def entry_frame(self, module):
        fid = self.fresh_id('entry', module.name)
        if fid not in self.frames:
            fr = Frame()
            fr.fid, fr.parent, fr.module, fr.fn, fr.closure, fr.yields, fr.globals, fr.cls, fr.name = \
                fid, None, module, None, True, False, set(), None, '<entry>'
            self.frames[fid] = fr
        return fid

    def run(self, fun, module=None):
        """Run fun(interp) inside an entry frame."""
        module = module or next(iter(self.prog.modules.values()))
        fid = self.entry_frame(module)
        self.stack.append(('<entry>', module.tree, None, fid))
        try:
            return fun()
        finally:
            self.stack.pop()

    def symval(self, name, kind=None, nonnull=True, rid=True):
        if kind:
            self.kinds[name] = kind
        if nonnull:
            self.nonnull.add(name)
        t = sym(name)
        scalar = kind in ('int', 'float', 'str', 'bool')
        r = None if scalar or not rid else ('s', name)
        if r is not None:
            self._reg_terms[r] = t
        return Sc(t, r, frozenset(), kind)

    def new_instance(self, ci, st, label, fields=None, open_=True):
        oid = ('ent', label)
        inst = Inst(oid, ci)
        if open_:
            st.set(('open', oid), True)
        for k, v in (fields or {}).items():
            st.set(('f', oid, k), v)
        return inst

    def invoke(self, recv, name, ca, st, label=None):
        """Call a method from the entry frame through a synthetic call node."""
        key = ('synthetic', label or name)
        node = self._synth(key)
        return self.call_method(recv, name, ca, st, node)

    def invoke_fn(self, fv, ca, st, label):
        return self.call(fv, ca, st, self._synth(('synthetic', label)))

    def construct(self, ci, ca, st, label):
        return self.instantiate(ci, ca, st, self._synth(('synthetic-new', label)))

    def _synth(self, key):
        if not hasattr(self, '_synths'):
            self._synths = {}
        if key not in self._synths:
            n = ast.Pass()
            n.lineno = 0
            n.col_offset = 0
            self._synths[key] = n
        return self._synths[key]
