"""C17: parallel execution gives the same result as sequential execution.

  same        with a parallel option on, every operation returns what it returns with the option off
  partition   splitting a table into chunks loses, repeats and reorders nothing
  whole       a function applied chunk by chunk is applied to every chunk, and the pieces are put back in order, with their own labels
  lost-write  what runs in another process does not rely on changing objects of this one
"""
from __future__ import annotations
import ast
import re
from ..loader import Program, AnalysisError
from ..interp import Interp, St, Args
from ..values import Sc, Tup
from ..terms import const, mk
from .. import algebra, drive, entries, extlib, terms as tm
from ..par import pmap
from ..report import Report
from . import c01

MINIMUM = 20
OPAQUE = {'ScenredTree.gen_tree', 'NeuralGas.gen_tree', 'DiffTree.gen_tree', 'QuantileTree.gen_tree', 'ScenarioTree.gen_tree', 'superimpose_signal_to_tree',
          'interp_scens', 'refine_scenarios', 'fit_sample'}


def named(it, fv, ca, st, node):
    """A call of a function that is not looked into: its arguments by name, however they are passed"""
    if ca.star is not None or ca.dstar is not None:
        return extlib.opaque_call(it, fv, ca, st, node)
    names = [a.arg for a in fv.node.args.posonlyargs + fv.node.args.args]
    kw = {n: it.term(v, st) for n, v in zip(names, ca.pos)}
    kw.update({k: it.term(v, st) for k, v in ca.kw.items()})
    a = fv.node.args
    for p, d in list(zip([q.arg for q in a.posonlyargs + a.args][::-1], a.defaults[::-1])) + [(q.arg, d) for q, d in zip(a.kwonlyargs, a.kw_defaults)]:
        if isinstance(d, ast.Constant) and kw.get(p) == const(d.value):
            kw.pop(p)
    it.__dict__.setdefault('asked', set()).add((fv.name, tuple(sorted(kw.items(), key=lambda x: x[0]))))
    return it.fresh(node, st, mk('call', fv.name, (), tuple(sorted(kw.items(), key=lambda x: x[0]))))


def options(p, ci):
    """Switches of the constructor (and of what it passes its remaining keywords to) that ask for parallel work"""
    out, seen, todo = [], set(), list(p.mro(ci))
    while todo:
        c = todo.pop(0)
        f = c.methods.get('__init__')
        if f is None or c in seen:
            continue
        seen.add(c)
        for a, d in entries.params(f, True):
            if 'parallel' in a.arg and isinstance(d, ast.Constant) and isinstance(d.value, bool) and a.arg not in out:
                out.append(a.arg)
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and any(k.arg is None for k in n.keywords):
                b = p.lookup(c.module.name, n.func.id)
                k = b[-1] if isinstance(b, tuple) else b
                if hasattr(k, 'methods'):
                    todo += [q for q in p.mro(k)]
    return out


# ------------------------------------------------------------------------------------------- canonical terms

def rename(t):
    """Identities of functions, loops and objects, numbered by where they first appear."""
    ids, memo = {}, {}

    def num(k):
        return ids.setdefault(k, len(ids))

    def key(k):
        return re.sub(r'\d+', lambda m: '#%d' % num(m.group()), str(k))

    def go(u):
        if isinstance(u, tuple):
            return tuple(go(x) for x in u)
        if not isinstance(u, tm.T):
            return u
        r = memo.get(u)
        if r is not None:
            return r
        if u.op == 'fn':
            v = mk('fn', u.args[0])
        elif u.op == 'inst':
            v = mk('inst', u.args[0])
        elif u.op in ('loop', 'cell', 'var') and not isinstance(u.args[0], tm.T):
            v = mk(u.op, key(u.args[0]), *[go(x) for x in u.args[1:]])
        else:
            v = mk(u.op, *[go(x) for x in u.args])
        memo[u] = v
        return v
    return go(t)


def canon(t, memo=None):
    """A term up to how a loop is written: arange / range, loops over loops, chunks of a whole."""
    memo = {} if memo is None else memo

    def go(u):
        if isinstance(u, tuple):
            return tuple(go(x) for x in u)
        if not isinstance(u, tm.T):
            return u
        r = memo.get(u)
        if r is not None:
            return r
        memo[u] = u
        v = step(mk(u.op, *[go(x) for x in u.args]))
        memo[u] = v
        return v
    return go(t)


def same(a, b):
    return a == b or rename(a) == rename(b)


def base(name):
    return name.rsplit('.', 1)[-1]


def rng(u):
    """(lower, upper) of a range with step one"""
    if u.op == 'range' and u.args[2] == const(1):
        return u.args[0], u.args[1]
    return None


def poly(t):
    try:
        return algebra.Algebra().poly(t)
    except Exception:
        return None


def equal(a, b):
    if a == b:
        return True
    pa, pb = poly(a), poly(b)
    return pa is not None and pa == pb


def untype(t):
    """Without conversions to whole numbers (of whole numbers)."""
    while t.op == 'meth' and t.args[0] == 'astype' or t.op == 'call' and base(t.args[0]) in ('int', 'int64', 'asarray', 'array') and len(t.args[1]) == 1:
        t = t.args[1] if t.op == 'meth' else t.args[1][0]
    return t


def length(x, axis):
    """The terms that mean the length of x along an axis"""
    out = {mk('idx', mk('attr', x, 'shape'), const(axis))}
    if axis == 0:
        out |= {mk('len', x), mk('call', 'builtins.len', (x,), ())}
    if axis == 1:
        out |= {mk('len', mk('attr', x, 'columns'))}
    return out


def bounds(x, lo, hi, axis):
    """Do the pieces x[lo(i):hi(i)], i = 0 .. N-1, follow each other from the start to the end of x?"""
    es = {u for u in tm.walk(mk('tuple', lo, hi)) if u.op == 'elem' and isinstance(u.args[0], tm.T) and rng(u.args[0]) and
          rng(u.args[0])[0] == const(0)}
    for i in es:
        n = rng(i.args[0])[1]
        nxt = mk('bin', '+', i, const(1))
        at = lambda t, v: canon(tm.subst(t, {i: v}))
        # cut points taken from a table
        if lo.op == 'idx' and hi.op == 'idx' and lo.args[0] == hi.args[0]:
            sp = untype(lo.args[0])
            if lo.args[1] == i and equal(hi.args[1], nxt) and sp.op == 'call' and base(sp.args[0]) == 'linspace':
                a = list(sp.args[1]) + [None] * 3
                kw = dict(sp.args[2])
                start, stop, num = a[0], a[1], a[2] or kw.get('num')
                if start in (const(0), const(0.0)) and stop in length(x, axis) and num is not None and equal(num, mk('bin', '+', n, const(1))) and \
                        kw.get('endpoint', const(True)) == const(True):
                    return i
            continue
        # computed cut points
        if equal(at(lo, nxt), hi) and equal(at(lo, const(0)), const(0)):
            m = untype(n)
            step_ = at(hi, const(0))
            if m.op == 'call' and base(m.args[0]) == 'ceil' and len(m.args[1]) == 1:
                q = m.args[1][0]
                if q.op == 'bin' and q.args[0] == '/' and q.args[1] in length(x, axis) and equal(q.args[2], step_) and equal(hi, mk('bin', '*', step_, nxt)):
                    return i
    return None


def chunk(u):
    """(table, axis, i) when u is the i-th of consecutive pieces that make up the table"""
    if u.op != 'idx':
        return None
    x, k = u.args
    loc = x.op == 'attr' and x.args[1] == 'iloc'
    t = x.args[0] if loc else x
    parts = k.args[0] if k.op == 'tuple' else (k,)
    for axis, part in enumerate(parts):
        others = [q for j, q in enumerate(parts) if j != axis]
        if not all(q.op == 'slice' and all(z == const(None) for z in q.args) for q in others):
            continue
        if part.op == 'range' and rng(part):
            lo, hi = rng(part)
        elif part.op == 'slice' and part.args[2] == const(None):
            lo, hi = part.args[0], part.args[1]
        else:
            continue
        i = bounds(t, lo, hi, axis) if isinstance(lo, tm.T) and isinstance(hi, tm.T) else None
        if i is not None:
            return t, axis, i
    return None


def whole(inner, outer, axis=0):
    """inner: what is iterated for every element of outer.  When those are the pieces of a table, one after the other: {piece: table}"""
    cs = {x for x in tm.walk(inner) if x.op == 'chunkof'}
    if len(cs) != 1:
        return None
    c = next(iter(cs))
    return {c: c.args[0]} if c.args[1] == const(axis) and every(outer, c.args[2], c.args[0]) else None


def every(outer, i, x):
    """Does the iteration go over every value of i (or once, over the whole x)?"""
    while outer.op == 'listof' and not outer.args[0]:
        outer = outer.args[2]
    if outer.op == 'phi':
        return all(every(a, i, x) for a in outer.args[0])
    if outer.op == 'ite':
        return every(outer.args[1], i, x) and every(outer.args[2], i, x)
    if outer.op == 'list':
        return len(outer.args[0]) == 1 and outer.args[0][0] == x
    return i.op == 'elem' and outer == i.args[0]


def loose(t):
    """A single element of a piece is a single element of the table."""
    cs = {x for x in tm.walk(t) if x.op == 'chunkof' and x.args[1] == const(0)}
    if not cs:
        return t
    core = lambda z: core(z.args[0]) if z.op in ('keys', 'enumerate') and isinstance(z.args[0], tm.T) else z
    overs = {core(u.args[2]) for u in tm.walk(t) if u.op == 'listof' and isinstance(u.args[2], tm.T)}
    m = {}
    for u in tm.walk(t):
        if u.op == 'elem' and isinstance(u.args[0], tm.T) and core(u.args[0]) not in overs:
            z = core(u.args[0])
            own = z.args[1] if z.op == 'meth' and z.args[0] in ('iterrows', 'itertuples') else z
            if own in cs:
                m[own] = own.args[0]
    return canon(tm.subst(t, m)) if m else t


def step(u):
    if u.op == 'call' and base(u.args[0]) == 'arange' and not u.args[2]:
        a = u.args[1]
        if len(a) == 1:
            return mk('range', const(0), a[0], const(1))
        if len(a) == 2:
            return mk('range', a[0], a[1], const(1))
        if len(a) == 3:
            return mk('range', *a)
    if u.op == 'idx':
        x, j = u.args
        x = untype(x) if isinstance(x, tm.T) else x
        if isinstance(x, tm.T) and x.op == 'bin' and x.args[0] in ('*', '+') and isinstance(j, tm.T) and j.op != 'slice' and \
                any(z.op == 'range' and rng(z) and rng(z)[0] == const(0) for z in x.args[1:]) and all(z.op == 'range' or plain(z) for z in x.args[1:]):
            return mk('bin', x.args[0], *[j if z.op == 'range' else z for z in x.args[1:]])
        c = chunk(u)
        if c:
            return mk('chunkof', c[0], const(c[1]), c[2])
    if u.op == 'elem' and isinstance(u.args[0], tm.T) and u.args[0].op == 'call' and base(u.args[0].args[0]) == 'array_split' and u.args[0].args[1]:
        kw = dict(u.args[0].args[2])
        return mk('chunkof', u.args[0].args[1][0], kw.get('axis', const(0)), u)
    if u.op == 'phi':
        al = u.args[0]
        ch = [x for x in al if isinstance(x, tm.T) and x.op == 'chunkof']
        if len(ch) == 1 and all(x is ch[0] or x == ch[0].args[0] for x in al):
            return ch[0]
        if len(set(al)) == 1:
            return al[0]
    if u.op == 'listof' and isinstance(u.args[2], tm.T):
        over = u.args[2]
        if over.op == 'listof' and not over.args[0]:
            return step(mk('listof', u.args[0], u.args[1], over.args[2]))
        if not u.args[0] and u.args[1] == mk('elem', over):
            return over
        if over.op == 'chunkof':
            m = {over: over.args[0]}
            return step(mk('listof', u.args[0], canon(tm.subst(u.args[1], m)), over.args[0]))
        if over.op == 'nest' and isinstance(over.args[0], tm.T) and isinstance(over.args[1], tm.T):
            inner = over.args[1]
            while inner.op == 'listof' and not inner.args[0]:
                inner = inner.args[2]
            m = whole(inner, over.args[0])
            if m:
                return step(mk('listof', u.args[0], canon(tm.subst(u.args[1], m)), canon(tm.subst(inner, m))))
    if u.op == 'call' and base(u.args[0]) == 'concat' and u.args[1] and u.args[1][0].op == 'listof':
        inner = u.args[1][0]
        e = inner.args[1]
        if not inner.args[0] and isinstance(e, tm.T) and e.op == 'call' and base(e.args[0]) == 'concat' and e.args[1] and e.args[1][0].op == 'listof' and \
                not e.args[1][0].args[0] and dict(e.args[2]).get('axis', const(0)) == dict(u.args[2]).get('axis', const(0)):
            li = e.args[1][0]
            ax = dict(u.args[2]).get('axis', const(0))
            m = whole(li.args[2], inner.args[2], ax.args[0] if ax.op == 'const' else None)
            if m:
                return mk('call', u.args[0], (canon(tm.subst(li, m)),) + u.args[1][1:], tuple(k for k in u.args[2] if k != ('axis', const(0))))
        if ('axis', const(0)) in u.args[2]:
            return mk('call', u.args[0], u.args[1], tuple(k for k in u.args[2] if k != ('axis', const(0))))
    if u.op == 'ite' and same(loose(u.args[1]), loose(u.args[2])):
        return loose(u.args[1])
    return u


# ------------------------------------------------------------------------------------------- comparing two results

COMBINE = {'concat', 'hstack', 'vstack', 'concatenate', 'stack', 'array', 'asarray', 'list', 'tuple', 'zip', 'enumerate', 'range', 'arange', 'len', 'tqdm',
           'cpu_count', 'min', 'max', 'minimum', 'maximum', 'ceil', 'floor', 'int', 'linspace', 'array_split', 'partial', 'dict', 'copy', 'deepcopy', 'get_logger',
           'isinstance', 'next', 'iter', 'map', 'print', 'reshape', 'squeeze', 'ravel', 'atleast_2d', 'atleast_1d', 'append', 'chunkof', 'append', 'DataFrame', 'Series',
           'items', 'keys', 'values', 'reset_index', 'to_numpy', 'column_stack', 'r_', 'c_', 'float', 'bool', 'str', 'set', 'split', 'join', 'fromkeys', 'empty', 'zeros',
           'empty_like', 'zeros_like', 'chain', 'from_iterable', 'collections', 'count', 'format', 'astype', 'size', 'shape', 'hasattr', 'getattr', 'type', 'repeat',
           'tile', 'ones', 'full', 'index', 'columns'}
REORDER = {'sorted', 'reversed', 'sort_index', 'sort_values', 'shuffle', 'permutation', 'flip', 'flipud', 'sample', 'unique', 'sort'}


def steps(t):
    """The external operations a term is made of"""
    out = set()
    for u in tm.walk(t):
        if u.op == 'call' and isinstance(u.args[0], str):
            out.add(base(u.args[0]))
        elif u.op == 'meth' and isinstance(u.args[0], str):
            out.add(u.args[0])
    return out


def inputs(t):
    """The arguments, and parts of arguments, a term depends on"""
    out = set()
    for u in tm.walk(t):
        if u.op == 'sym' and isinstance(u.args[0], str) and not tm.show(u).startswith('ext'):
            out.add(u.args[0])
    return out


def pairs(x, y, seen=None, up=()):
    """The places where two terms part ways: (path, x', y')"""
    seen = set() if seen is None else seen
    if x == y or (x, y) in seen:
        return
    seen.add((x, y))
    if isinstance(x, tm.T) and isinstance(y, tm.T) and x.op == 'ite' and (y.op != 'ite' or y in x.args[1:]):
        for i in x.args[1:]:
            yield from pairs(i, y, seen, up)
        return
    if isinstance(x, tm.T) and isinstance(y, tm.T) and x.op == y.op == 'ite':
        for i, j in zip(x.args[1:], y.args[1:]):
            yield from pairs(i, j, seen, up + (x,))
        return
    if isinstance(x, tm.T) and isinstance(y, tm.T) and x.op == y.op and len(x.args) == len(y.args):
        a, b = x.args, y.args
        hit = False
        if x.op == 'call' and a[0] != b[0] or x.op == 'meth' and a[0] != b[0]:
            yield up, x, y
            return
        for i, j in zip(a, b):
            if i == j:
                continue
            hit = True
            if isinstance(i, tm.T) and isinstance(j, tm.T):
                yield from pairs(i, j, seen, up + (x,))
            elif isinstance(i, tuple) and isinstance(j, tuple) and len(i) == len(j):
                for k, l in zip(i, j):
                    if isinstance(k, tuple) and isinstance(l, tuple) and len(k) == 2 and len(l) == 2 and k[0] == l[0] and isinstance(k[1], tm.T) and isinstance(l[1], tm.T):
                        yield from pairs(k[1], l[1], seen, up + (x,))
                    elif isinstance(k, tm.T) and isinstance(l, tm.T):
                        yield from pairs(k, l, seen, up + (x,))
                    elif k != l:
                        yield up, x, y
            elif i != j:
                yield up, x, y
        if not hit:
            return
        return
    yield up, x, y


def sure(a, b):
    """Why two results certainly differ (a: parallel, b: sequential), or None"""
    lost = {s for s in inputs(b) - inputs(a)}
    if lost:
        return 'it does not use %s, which the sequential path uses' % ', '.join(sorted(lost))
    gone, new = steps(b) - steps(a) - COMBINE, steps(a) - steps(b) - COMBINE
    if gone and not new:
        return 'it leaves out %s, which the sequential path does' % ', '.join(sorted(gone))
    if new and not gone:
        n = sorted(new & REORDER) or sorted(new)
        return 'it does %s, which the sequential path does not' % ', '.join(n)
    w = local(a) - local(b)
    if w:
        return sorted(w)[0]
    if backwards(a) != backwards(b):
        return 'one of the two paths goes through its work in reverse'
    for up, x, y in pairs(a, b):
        if not isinstance(x, tm.T) or not isinstance(y, tm.T):
            continue
        if up and up[-1].op == 'range' and plain(x) and plain(y) and not equal(x, y):
            return 'its work goes up to %s, the sequential path goes up to %s' % (tm.show(x, 4), tm.show(y, 4))
        if x.op == 'const' and y.op == 'const' and type(x.args[0]) is type(y.args[0]) and x.args[0] is not None:
            return 'it uses %r where the sequential path uses %r' % (x.args[0], y.args[0])
        for u, v in ((x, y), (y, x)):
            if u.op == 'list' and not u.args[0] and v.op == 'sym':
                return 'it uses %s where the sequential path uses %s' % (tm.show(x, 3), tm.show(y, 3))
            if u.op == 'const' and u.args[0] is not None and (v.op == 'sym' or isinstance(u.args[0], str) and v.op == 'call' and base(v.args[0]) in COMBINE):
                return 'it uses %s where the sequential path uses %s' % (tm.show(x, 3), tm.show(y, 3))
        if x.op == y.op == 'call' and x.args[0] == y.args[0]:
            ka, kb = {k for k, _ in x.args[2]}, {k for k, _ in y.args[2]}
            if ka != kb and len(x.args[1]) == len(y.args[1]) and (ka < kb or kb < ka):
                return '%s is called with %s in one path only' % (base(x.args[0]), ', '.join(sorted(ka ^ kb)))
        px, py = (poly(x), poly(y)) if x.op in ('bin', 'const', 'un') and y.op in ('bin', 'const', 'un') else (None, None)
        if px is not None and py is not None:
            if constant(mk('bin', '-', x, y)) not in (None, 0):
                return 'it uses %s where the sequential path uses %s' % (tm.show(x, 4), tm.show(y, 4))
    return None


def plain(t):
    """A whole number made of arguments, fields of arguments and constants alone"""
    return all(u.op in ('sym', 'const', 'bin', 'attr', 'un') or u.op == 'idx' and u.args[0].op == 'attr' and u.args[0].args[1] == 'shape' for u in tm.walk(t)) and poly(t) is not None


def backwards(t):
    n = 0
    for u in tm.walk(t):
        if u.op == 'slice' and u.args[2] == const(-1) or u.op == 'call' and base(str(u.args[0])) == 'reversed':
            n = 1
    return n


WITHIN = {'mean', 'std', 'var', 'sum', 'cumsum', 'shift', 'diff', 'rolling', 'rank', 'median', 'quantile', 'cumprod', 'pct_change', 'ewm', 'ffill', 'bfill', 'interpolate', 'head', 'tail'}


def local(t):
    """What a result takes from a piece of a table as if it were the table"""
    out = set()

    def piece(z):
        while z.op == 'attr' and z.args[1] in ('index', 'values', 'iloc', 'columns', 'loc', 'T', 'shape') or z.op == 'ite' and piece(z.args[1]):
            z = z.args[0] if z.op == 'attr' else z.args[1]
        return z if z.op == 'chunkof' else None

    for u in tm.walk(t):
        if u.op == 'idx' and isinstance(u.args[1], tm.T) and u.args[1].op == 'const' and isinstance(u.args[1].args[0], int):
            z = piece(u.args[0])
            if z is not None and not (u.args[0].op == 'attr' and u.args[0].args[1] in ('columns', 'shape')):
                out.add('it takes element %s of each piece of %s' % (u.args[1].args[0], tm.show(z.args[0], 2)))
        if u.op == 'meth' and u.args[0] in ('iterrows', 'itertuples') and isinstance(u.args[1], tm.T):
            z = piece(u.args[1])
            if z is not None and z.args[1] == const(1):
                out.add('it goes through the rows of pieces that only hold some of the columns of %s' % tm.show(z.args[0], 2))
        if u.op == 'meth' and u.args[0] in WITHIN and isinstance(u.args[1], tm.T):
            z = piece(u.args[1])
            if z is not None:
                out.add('it takes the %s of each piece of %s' % (u.args[0], tm.show(z.args[0], 2)))
    return out


def gaps(t):
    """A table cut into pieces by computed cut points that leave something out or repeat it: (place, why)"""
    for u in tm.walk(t):
        if u.op != 'idx':
            continue
        x, k = u.args
        parts = k.args[0] if k.op == 'tuple' else (k,)
        for axis, part in enumerate(parts):
            if not isinstance(part, tm.T):
                continue
            if part.op == 'range' and rng(part):
                lo, hi = rng(part)
            elif part.op == 'slice' and part.args[2] == const(None):
                lo, hi = part.args[0], part.args[1]
            else:
                continue
            w = gap(x.args[0] if x.op == 'attr' and x.args[1] == 'iloc' else x, lo, hi, axis)
            if w:
                yield u, w


def gap(x, lo, hi, axis):
    if not (isinstance(lo, tm.T) and isinstance(hi, tm.T)):
        return None
    es = {u for u in tm.walk(mk('tuple', lo, hi)) if u.op == 'elem' and isinstance(u.args[0], tm.T) and rng(u.args[0])}
    for i in es:
        first, n = rng(i.args[0])
        if not any(i in set(tm.walk(z)) for z in (lo, hi)):
            continue
        nxt = mk('bin', '+', i, const(1))
        at = lambda t, v: canon(tm.subst(t, {i: v}))
        # cut points from a table of n + 1 values
        if lo.op == 'idx' and hi.op == 'idx' and lo.args[0] == hi.args[0]:
            d = constant(mk('bin', '-', hi.args[1], lo.args[1]))
            if d is not None and d != 1:
                return 'piece i ends at cut point i%+d' % d
            sp = untype(lo.args[0])
            if lo.args[1] == i and sp.op == 'call' and base(sp.args[0]) == 'linspace' and len(sp.args[1]) >= 3:
                if first != const(0) and constant(first) not in (None, 0):
                    return 'the first piece is left out'
                e = constant(mk('bin', '-', sp.args[1][2], mk('bin', '+', n, const(1))))
                if e is not None and e != 0:
                    return 'there are n%+d cut points for n pieces' % (e + 1)
                e = constant(sp.args[1][0])
                if e is not None and e != 0:
                    return 'the pieces start at %s' % e
                ln = length(x, axis)
                for z in ln:
                    e = constant(mk('bin', '-', sp.args[1][1], z))
                    if e is not None and e != 0:
                        return 'the pieces end %d away from the end' % e
                kw = dict(sp.args[2])
                if kw.get('endpoint') == const(False):
                    return 'the last cut point is not the end'
            continue
        if i not in set(tm.walk(lo)) or i not in set(tm.walk(hi)):
            continue
        d = constant(mk('bin', '-', at(lo, nxt), hi))
        if d is not None and d != 0:
            return 'the next piece starts %+d after this one ends' % d
        if d == 0:
            e = constant(at(lo, first))
            if e is not None and e != 0:
                return 'the first piece starts at %s' % e
            m = untype(n)
            for width in tm.walk(hi):
                if width.op == 'bin' and width.args[0] == '//' and width.args[1] in length(x, axis) and equal(width.args[2], n) and equal(hi, mk('bin', '*', width, nxt)):
                    return 'what is left after whole pieces is lost'
            step_ = constant(mk('bin', '-', at(hi, const(1)), at(hi, const(0))))
            if m.op == 'bin' and m.args[0] == '//' and m.args[1] in length(x, axis) and equal(mk('bin', '*', m.args[2], nxt), hi):
                return 'what is left after whole pieces is lost'
            if m.op == 'call' and base(m.args[0]) in ('floor',) and m.args[1] and m.args[1][0].op == 'bin' and m.args[1][0].args[0] == '/' and \
                    m.args[1][0].args[1] in length(x, axis):
                return 'what is left after whole pieces is lost'
    return None


def constant(t):
    p = poly(t)
    if p is None:
        return None
    if not p.d:
        return 0
    if list(p.d) == [()]:
        return p.d[()]
    return None


# ------------------------------------------------------------------------------------------- tasks

UNORDERED = {'.imap_unordered', 'concurrent.futures.as_completed', '.as_completed', '.map_unordered'}


def where(p, ci, name):
    m = p.find_method(ci, name)
    return '%s:%d' % (m[0].module.rel, m[1].lineno) if m else ci.module.rel


def compare(rep, key, a, b, wh, rule='same'):
    a, b = canon(a), canon(b)
    if same(a, b):
        rep.holds(rule, key, wh, '%d terms alike' % sum(1 for _ in tm.walk(a)))
        return
    ra, rb = rename(a), rename(b)
    w = sure(ra, rb)
    if w:
        rep.violated(rule, key, wh, 'in parallel ' + w)
    else:
        rep.unknown(rule, key, wh, 'the two results are not comparable')
    return


def pieces(rep, key, t, wh):
    n = 0
    for u in tm.walk(canon(t)):
        if u.op == 'chunkof':
            n += 1
    bad = list(gaps(canon(t)))
    for u, w in bad:
        rep.violated('partition', key, wh, '%s: %s' % (tm.show(u, 3)[:120], w))
    if n and not bad:
        rep.holds('partition', key, wh, '%d pieces of a table' % n)


def calls(rep, key, it, it2, wh):
    """Calls that cannot be made, in the parallel path alone"""
    seq = {(e.callee, e.why) for e in it2.events if e.kind == 'argerror'}
    bad = [e for e in it.events if e.kind == 'argerror' and (e.callee, e.why) not in seq]
    for e in bad:
        rep.violated('calls', '%s: %s' % (key, e.callee), e.where, 'in parallel %s is called with %s' % (e.callee, e.why))
    if not bad:
        rep.holds('calls', key, wh, '%d functions called' % len(it.inlined))


def order(rep, key, it, wh):
    bad = [e for e in it.events if e.kind == 'ext' and e.path in UNORDERED]
    par = [e for e in it.events if e.kind == 'ext' and e.path in ('.map', '.starmap', '.imap', '.submit', '.apply_async', '.remote', '.starmap_async', '.map_async')]
    for e in bad:
        rep.violated('order', key, e.where, '%s gives the results in the order in which the workers finish' % e.path)
    for e in par:
        if e.path in ('.map', '.imap', '.starmap', '.starmap_async', '.map_async') and len(e.args) > 1:
            w = part(e.work) if getattr(e, 'work', None) is not None else None
            if w:
                rep.violated('whole', '%s: %s' % (key, e.path), e.where, 'the workers are given %s' % w)
    if par and not bad:
        rep.holds('order', key, wh, '%d parallel calls' % len(par))


def wanted(fn):
    """Keywords a method looks for in its **kwargs"""
    out = []
    if fn.args.kwarg is None:
        return out
    k = fn.args.kwarg.arg
    for n in ast.walk(fn):
        c = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == k and n.args:
            c = n.args[0]
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == k:
            c = n.slice
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.comparators[0], ast.Name) and n.comparators[0].id == k:
            c = n.left
        if isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value not in out:
            out.append(c.value)
    return out


def more(p, run):
    """The operations once more, with everything they accept"""
    it, st, obj = run.it, run.st, run.obj
    n = 0

    def go():
        for o in ('fit', 'predict', 'predict_quantiles', 'predict_scenarios', 'predict_trees'):
            m = p.find_method(run.cls, o)
            if m is None:
                continue
            kw = {}
            for i, (a, d) in enumerate(entries.params(m[1], True)):
                if i >= (2 if o == 'fit' else 1) and isinstance(d, ast.Constant):
                    kw[a.arg] = entries.symarg(it, st, a, d)
            for k in wanted(m[1]):
                if k not in kw:
                    kw[k] = it.symval('arg:' + k, 'ndarray' if k == 'quantiles' else entries.SCALARS.get(k), nonnull=True)
            if o in ('predict', 'predict_quantiles') and 'dataframe' in kw:
                kw.pop('dataframe')
            if kw:
                pos = [it.symval('arg:x', 'df'), it.symval('arg:y', 'df')] if o == 'fit' else [it.symval('arg:x_te', 'df')]
                run.op(o + ' with options', lambda: it.invoke(obj, o, Args(pos, kw), st, o + '+'))
    it.run(go, run.cls.module)


def fields(run, st):
    o = run.obj.oid
    out = {}
    for k, v in st.d.items():
        if isinstance(k, tuple) and len(k) == 3 and k[0] == 'f' and k[1] == o and isinstance(k[2], str):
            out[k[2]] = v
    return out


def state(rep, key, run, st, run2, st2, opt, wh):
    """What the operation leaves in the model"""
    a, b = fields(run, st), fields(run2, st2)
    for n in sorted(set(a) | set(b)):
        if n == opt:
            continue
        k = '%s: self.%s' % (key, n)
        if n not in a or n not in b:
            rep.violated('state', k, wh, 'self.%s is only set %s' % (n, 'sequentially' if n in b else 'in parallel'))
            continue
        try:
            x, y = run.it.term(a[n], st), run2.it.term(b[n], st2)
        except Exception:
            continue
        compare(rep, k, x, y, wh, 'state')


def task_forecaster(t):
    _, cname, opt, cfg = t
    p = c01.prog()
    rep = Report('C17')
    ci = [c for c in drive.forecasters(p) if c.name == cname][0]
    runs = []
    for v in (True, False):
        it = Interp(p)
        it.opaque_handler.update({n: named for n in OPAQUE})
        it.isolate = True
        extra = {}
        if 'formatter' in cfg:
            extra = {n: (lambda it, st, n=n: it.symval('p:' + n, nonnull=True)) for n, d in drive.ctor_params(p, ci) if n == 'metadata_features'}
            extra['formatter'] = lambda it, st: c01.formatter(it, st, cfg['formatter'])
            it.opaque_handler['Formatter.prune_dataset_at_stepahead'] = named
        run = drive.drive(p, ci, dict(cfg, **{opt: v}, **extra), it=it)
        if run.error:
            raise AnalysisError('%s: %s' % (run.label, run.error))
        more(p, run)
        runs.append(run)
    lab = '%s(%s)' % (cname, ', '.join(['%s=%s' % kv for kv in sorted(cfg.items())] + [opt]))
    for (n, _, _, r, s), (n2, _, _, r2, s2) in zip(runs[0].ops, runs[1].ops):
        key = '%s.%s' % (lab, n)
        wh = where(p, ci, n) if n != 'new' else ci.module.rel
        if r is None or r2 is None:
            if (r is None) != (r2 is None):
                rep.violated('same', key, wh, 'one of the two paths returns nothing')
            continue
        a, b = runs[0].it.term(r, s), runs[1].it.term(r2, s2)
        rep.analysed.add('%s.%s' % (cname, n))
        compare(rep, key, a, b, wh)
        pieces(rep, key, a, wh)
        if n in ('fit', 'fit with options', 'predict', 'predict_trees'):
            state(rep, key, runs[0], s, runs[1], s2, opt, wh)
    order(rep, lab, runs[0].it, ci.module.rel)
    calls(rep, lab, runs[0].it, runs[1].it, ci.module.rel)
    return rep.export()


def transformed(it, fv, ca, st, node):
    b = [it.term(a, st) for a in ca.pos[1:]]
    kw = tuple(sorted((k, it.term(v, st)) for k, v in ca.kw.items()))
    return Tup([Sc(mk('call', 'transformed.x', tuple(b), kw), kind='df'), Sc(mk('call', 'transformed.y', tuple(b), kw), kind='df')])


def tables(it, fv, ca, st, node):
    return it.new_list(node, st, (), Sc(mk('elem', mk('sym', 'tables')), kind='df'), mk('sym', 'tables'))


def task_formatter(t):
    _, opts = t
    p = c01.prog()
    rep = Report('C17')
    fc = p.need_class('Formatter')
    out = []
    for par in (True, False):
        it = Interp(p)
        it.isolate = True
        it.opaque_funcs |= {'Formatter._simulate_transform'}
        it.opaque_handler['Formatter._transform'] = transformed
        it.opaque_handler['Formatter.global_form_preprocess'] = tables
        st = St(it)

        def go():
            f = c01.formatter(it, st, 'plain')
            kw = {'global_form': Sc(const(True), kind='bool'), 'parallel': Sc(const(par), kind='bool')}
            kw['state_code'] = it.symval('arg:state_code', 'str')
            for k, v in opts.items():
                kw[k] = it.symval('arg:' + k, 'bool') if v == 'any' else Sc(const(v), kind='bool')
            r = it.invoke(f, 'transform', Args([it.symval('arg:x', 'df')], kw), st, 'transform')
            out.append((it.term(r, st), it))
        it.run(go, fc.module)
    key = 'Formatter.transform(global_form%s)' % ''.join(', %s=%s' % kv for kv in sorted(opts.items()))
    wh = where(p, fc, 'transform')
    rep.analysed.add('Formatter.transform')
    compare(rep, key, out[0][0], out[1][0], wh)
    work = [{n: [mk('call', n, (), kw) for m_, kw in getattr(i, 'asked', ()) if m_ == n] for n, _ in getattr(i, 'asked', ())} for _, i in out]
    for n in sorted(set(work[0]) | set(work[1])):
        a, b = [w.get(n, []) for w in work]
        if len(a) == len(b) == 1:
            compare(rep, '%s: calls of %s' % (key, n), a[0], b[0], wh)
        elif not a or not b:
            rep.violated('same', '%s: calls of %s' % (key, n), wh, '%s is only called in one of the two paths' % n)
    pieces(rep, key, out[0][0], wh)
    order(rep, key, out[0][1], wh)
    calls(rep, key, out[0][1], out[1][1], wh)
    return rep.export()


def task_function(t):
    """Functions with a switch of their own"""
    _, mod, name, opt, fixed = t
    p = c01.prog()
    rep = Report('C17')
    m = p.modules[mod]
    out = []
    for v in (True, False):
        it = Interp(p)
        it.isolate = True
        it.opaque_handler.update({n: named for n in OPAQUE})
        st = St(it)

        def go():
            fv = it.global_value(p.lookup(m.name, name), st)
            fx = {opt: Sc(const(v), kind='bool')}
            for k, c in fixed.items():
                fx[k] = Sc(const(c), kind='bool')
            fn = m.bindings[name][1]
            if any(a.arg == 'model_class' for a, _ in entries.params(fn, False)):
                fx['model_class'] = it.global_value(p.lookup('pyforecaster.forecasting_models.holtwinters', 'HoltWinters'), st)
            r = it.invoke_fn(fv, entries.arglist(it, st, fn, False, fx), st, name)
            out.append((it.term(r, st), it))
        it.run(go, m)
    key = '%s(%s)' % (name, opt)
    wh = '%s:%d' % (m.rel, m.bindings[name][1].lineno)
    rep.analysed.add(name)
    compare(rep, key, out[0][0], out[1][0], wh)
    work = [{n: [mk('call', n, (), kw) for m_, kw in getattr(i, 'asked', ()) if m_ == n] for n, _ in getattr(i, 'asked', ())} for _, i in out]
    for n in sorted(set(work[0]) | set(work[1])):
        a, b = [w.get(n, []) for w in work]
        if len(a) == len(b) == 1:
            compare(rep, '%s: calls of %s' % (key, n), a[0], b[0], wh)
        elif not a or not b:
            rep.violated('same', '%s: calls of %s' % (key, n), wh, '%s is only called in one of the two paths' % n)
    pieces(rep, key, out[0][0], wh)
    order(rep, key, out[0][1], wh)
    calls(rep, key, out[0][1], out[1][1], wh)
    return rep.export()


# ------------------------------------------------------------------------------------------- functions applied piece by piece

JOIN = {'concat': None, 'vstack': 0, 'hstack': 1, 'concatenate': None, 'row_stack': 0}
POOLED = {'starmap_async', 'map_async', 'starmap', 'map', 'imap'}


def mapped(t):
    """(element, what it is taken over) of a list built piece by piece, or ('part', why) when some pieces are missing or out of order"""
    if t.op == 'meth' and t.args[0] == 'get' and isinstance(t.args[1], tm.T):
        t = t.args[1]
    if t.op == 'meth' and t.args[0] in POOLED:
        a = [x for x in t.args[2] if isinstance(x, tm.T)] if isinstance(t.args[2], tuple) else []
        if len(a) >= 2:
            return mapped(a[1])
        return None
    if t.op == 'listof' and not t.args[0] and isinstance(t.args[2], tm.T):
        over = t.args[2]
        b = part(over)
        return ('part', b) if b else (t.args[1], over)
    b = part(t)
    return ('part', b) if b else None


def part(t):
    """Why a list of pieces does not hold all of them in order"""
    if t.op == 'idx' and isinstance(t.args[1], tm.T) and t.args[1].op == 'slice':
        if any(z != const(None) for z in t.args[1].args[:2]):
            return 'only %s of the pieces' % tm.show(t.args[1], 2)
        if t.args[1].args[2] == const(-1):
            return 'the pieces in reverse'
    if t.op == 'call' and base(t.args[0]) in REORDER:
        return 'the pieces reordered by %s' % base(t.args[0])
    return None


def joined(rep, key, t, wh):
    for u in tm.walk(t):
        if u.op != 'call' or base(u.args[0]) not in JOIN or not u.args[1]:
            continue
        cs = [x for x in tm.walk(u.args[1][0]) if x.op == 'chunkof' and x.args[0].op == 'sym']
        if not cs:
            continue
        c = cs[0]
        k = '%s: %s' % (key, base(u.args[0]))
        m = mapped(u.args[1][0])
        if m is None:
            rep.unknown('whole', k, wh, tm.show(u, 3)[:150])
            continue
        if m[0] == 'part':
            rep.violated('whole', k, wh, 'the result is joined from %s' % m[1])
            continue
        ax = JOIN[base(u.args[0])]
        kw = dict(u.args[2])
        if ax is None:
            ax = kw.get('axis', u.args[1][1] if len(u.args[1]) > 1 else const(0))
            ax = ax.args[0] if ax.op == 'const' else None
        cut = c.args[1].args[0] if c.args[1].op == 'const' else None
        if ax is not None and cut is not None and ax != cut:
            rep.violated('whole', k, wh, 'pieces cut along axis %s are joined along axis %s' % (cut, ax))
        elif ax is None or cut is None:
            rep.unknown('whole', k, wh, 'axis not decided')
        elif any(every(m[1], x.args[2], x.args[0]) for x in cs):
            rep.holds('whole', k, wh, 'every piece of %s' % tm.show(c.args[0], 2))
        else:
            rep.unknown('whole', k, wh, tm.show(m[1], 4)[:150])
        if kw.get('ignore_index') == const(True):
            rep.violated('labels', k, wh, 'the labels are dropped (ignore_index)')


def first(t):
    """Is t one piece (the first), possibly the only one?"""
    if t.op == 'ite':
        return first(t.args[1]) and first(t.args[2])
    if t.op == 'phi':
        return all(isinstance(a, tm.T) and first(a) for a in t.args[0])
    return t.op == 'chunkof' or t.op == 'sym'


def labelled(rep, key, t, wh):
    for u in tm.walk(t):
        if u.op != 'call' or base(u.args[0]) != 'DataFrame' or not u.args[1]:
            continue
        cs = [x for x in tm.walk(u.args[1][0]) if x.op == 'chunkof' and x.args[0].op == 'sym']
        if not cs or cs[0].args[1].op != 'const':
            continue
        axis, src = cs[0].args[1].args[0], cs[0].args[0]
        kw = dict(u.args[2])
        a = list(u.args[1]) + [None, None]
        for n, (name, v) in enumerate((('index', kw.get('index', a[1])), ('columns', kw.get('columns', a[2])))):
            k = '%s: %s' % (key, name)
            if v is None or v == const(None):
                rep.violated('labels', k, wh, 'the joined table has no %s of its own' % name)
                continue
            w = label(v, name, n == axis, src)
            if w is None:
                rep.unknown('labels', k, wh, tm.show(v, 4)[:160])
            elif w == '':
                rep.holds('labels', k, wh, 'the %s of %s' % (name, 'all the pieces, in order' if n == axis else 'the pieces'))
            else:
                rep.violated('labels', k, wh, w)


def label(v, name, along, src):
    """'' when v is the name labels the joined table has to carry, a reason when it is not, None when undecided"""
    if v.op == 'attr':
        if v.args[1] != name and v.args[1] in ('index', 'columns'):
            return 'the %s are the %s of the pieces' % (name, v.args[1])
        if v.args[1] == name:
            if v.args[0] == src:
                return ''
            if first(v.args[0]):
                return 'the %s are those of one piece only' % name if along else ''
        return None
    if v.op == 'meth' and v.args[0] == 'append' and isinstance(v.args[1], tm.T) and v.args[2]:
        if not along:
            return 'the %s of the pieces follow each other across the cut' % name
        h, rest = v.args[1], v.args[2][0]
        if h.op != 'attr' or h.args[1] not in ('index', 'columns') or not first(h.args[0]):
            return None
        if h.args[1] != name:
            return 'the %s are the %s of the pieces' % (name, h.args[1])
        if rest.op != 'listof' or rest.args[0] or rest.args[1].op != 'attr':
            return None
        if rest.args[1].args[1] != name:
            return 'the %s are the %s of the pieces' % (name, rest.args[1].args[1])
        o = rest.args[2]
        cs = [x for x in tm.walk(h) if x.op == 'chunkof'] or [x for x in tm.walk(o) if x.op == 'chunkof']
        if o.op == 'idx' and o.args[1].op == 'slice':
            sl = o.args[1].args
            if sl[0] == const(1) and sl[1] == const(None) and sl[2] in (const(None), const(1)):
                return ''
            return 'after the %s of the first piece come those of the pieces %s' % (name, tm.show(o.args[1], 2))
        if any(every(o, x.args[2], x.args[0]) for x in cs):
            return 'the %s of the first piece come twice' % name
        return None
    if v.op == 'call' and base(v.args[0]) in ('hstack', 'concatenate') and v.args[1]:
        if not along:
            return 'the %s of the pieces follow each other across the cut' % name
        m = mapped(v.args[1][0])
        if m is None:
            return None
        if m[0] == 'part':
            return 'the %s come from %s' % (name, m[1])
        e = m[0]
        while e.op == 'meth' and e.args[0] in ('ravel', 'to_numpy', 'tolist', 'copy') or e.op == 'attr' and e.args[1] in ('values', 'array'):
            e = e.args[1] if e.op == 'meth' else e.args[0]
        if e.op != 'attr' or e.args[1] not in ('index', 'columns'):
            return None
        if e.args[1] != name:
            return 'the %s are the %s of the pieces' % (name, e.args[1])
        return '' if any(every(m[1], x.args[2], x.args[0]) for x in tm.walk(e) if x.op == 'chunkof') else None
    if v.op == 'call' and base(v.args[0]) in REORDER:
        return 'the %s are reordered by %s' % (name, base(v.args[0]))
    return None


def task_pieces(t):
    _, ray, ax = t
    p = c01.prog()
    rep = Report('C17')
    m = p.modules['pyforecaster.big_data_utils']
    it, st, r = entries.call_function(p, m, 'fdf_parallel', {'use_ray': Sc(const(ray), kind='bool'), 'axis': Sc(const(ax), kind='int'),
                                                             'n_splits': lambda it, st: it.symval('arg:n_splits', 'int'),
                                                             'df': lambda it, st: it.symval('arg:df', 'df')})
    key = 'fdf_parallel(use_ray=%s, axis=%s)' % (ray, ax)
    wh = '%s:%d' % (m.rel, m.bindings['fdf_parallel'][1].lineno)
    rep.analysed.add('fdf_parallel')
    x = canon(it.term(r, st))
    pieces(rep, key, x, wh)
    joined(rep, key, x, wh)
    labelled(rep, key, x, wh)
    order(rep, key, it, wh)
    return rep.export()


# ------------------------------------------------------------------------------------------- smaller types

SIZES = {'int8': (0, 8), 'int16': (0, 16), 'int32': (0, 32), 'int64': (0, 64), 'float16': (1, 16), 'float32': (1, 32), 'float64': (1, 64)}


def typename(t):
    if t.op in ('ext', 'sym') and isinstance(t.args[0], str):
        return base(t.args[0])
    return str(t.args[0]) if t.op == 'const' else base(tm.show(t, 2).rstrip(')'))


def limit(t):
    """(type, 'min' | 'max') of a limit of a number type"""
    if t.op == 'attr' and t.args[1] in ('min', 'max') and isinstance(t.args[0], tm.T) and t.args[0].op == 'call' and base(t.args[0].args[0]) in ('iinfo', 'finfo') and t.args[0].args[1]:
        return typename(t.args[0].args[1][0]), t.args[1]
    return None


def extreme(t):
    if t.op == 'meth' and t.args[0] in ('min', 'max'):
        return t.args[0]
    if t.op == 'call' and base(t.args[0]) in ('min', 'max', 'amin', 'amax', 'nanmin', 'nanmax') and len(t.args[1]) == 1:
        return base(t.args[0])[-3:]
    return None


def conditions(pc):
    """Conditions on the extreme values of a column as a formula over (side, type): within the limit"""
    def go(c):
        if c.op == 'boolop':
            q = [go(x) for x in c.args[1]]
            return (c.args[0],) + tuple(q)
        if c.op == 'not' or c.op == 'un' and c.args[0] == 'not':
            return ('not', go(c.args[-1]))
        if c.op == 'ite':
            return ('ite',) + tuple(go(x) for x in c.args)
        if c.op == 'const' and isinstance(c.args[0], bool):
            return c.args[0]
        if c.op in ('cmp', 'bin') and c.args[0] in ('<', '<=', '>', '>='):
            a, b = c.args[1], c.args[2]
            lo, hi = (a, b) if c.args[0] in ('<', '<=') else (b, a)
            l, h = limit(lo), limit(hi)
            if l and l[1] == 'min' and extreme(hi) == 'min':
                return ('atom', 'min', l[0])
            if h and h[1] == 'max' and extreme(lo) == 'max':
                return ('atom', 'max', h[0])
            if h and h[1] == 'min' and extreme(lo) == 'min':
                return ('not', ('atom', 'min', h[0]))
            if l and l[1] == 'max' and extreme(hi) == 'max':
                return ('not', ('atom', 'max', l[0]))
        if any(limit(u) or extreme(u) for u in tm.walk(c)):
            return ('unclear', c)
        return ('free', c)
    return [go(c) if v else ('not', go(c)) for c, v in pc if isinstance(c, tm.T)]


def leaves(f, out):
    if isinstance(f, tuple):
        if f[0] in ('atom', 'free', 'unclear'):
            out.add(f)
        else:
            for x in f[1:]:
                leaves(x, out)
    return out


def truth(f, env):
    if isinstance(f, bool):
        return f
    if f[0] in ('atom', 'free', 'unclear'):
        return env[f]
    if f[0] == 'not':
        return not truth(f[1], env)
    if f[0] == 'ite':
        return truth(f[2] if truth(f[1], env) else f[3], env)
    q = [truth(x, env) for x in f[1:]]
    return all(q) if f[0] == 'and' else any(q)


def implied(fs, side, kind):
    """Do the conditions make the extreme value lie within the limit of the type?  True / False / None (undecided)"""
    import itertools
    goal = ('atom', side, kind)
    ls = set()
    for f in fs:
        leaves(f, ls)
    ls = sorted(ls | {goal}, key=str)
    if len(ls) > 14:
        return None
    for vs in itertools.product((True, False), repeat=len(ls)):
        env = dict(zip(ls, vs))
        ok = all(not env[x] or y[0] != 'atom' or env[y] for x in ls if x[0] == 'atom' for y in ls
                 if y[0] == 'atom' and x[1] == y[1] and x[2] in SIZES and y[2] in SIZES and SIZES[x[2]][0] == SIZES[y[2]][0] and SIZES[x[2]][1] <= SIZES[y[2]][1])
        if ok and not env[goal] and all(truth(f, env) for f in fs):
            return None if any(x[0] == 'unclear' for x in ls) else False
    return True


def task_fits(t):
    p = c01.prog()
    rep = Report('C17')
    m = p.modules['pyforecaster.big_data_utils']
    name = 'reduce_mem_usage_series'
    it, st, r = entries.call_function(p, m, name, {'s': lambda it, st: it.symval('arg:s', 'series')})
    rep.analysed.add(name)
    for e in it.events:
        if e.kind != 'ext' or not e.path.endswith('astype') or not e.args:
            continue
        k = typename(it.term(e.args[0], st))
        if k not in SIZES or SIZES[k][1] == 64:
            continue
        fs = conditions([c for c in e.pc if isinstance(c, tuple) and len(c) == 2])
        key = '%s: %s' % (name, k)
        for side in ('min', 'max'):
            v = implied(fs, side, k)
            if v:
                rep.holds('fits', key + ' ' + side, e.where, 'the %s lies within the range of %s' % (side, k))
            elif v is None:
                rep.unknown('fits', key + ' ' + side, e.where, 'converted to %s under conditions that are not understood' % k)
            else:
                rep.violated('fits', key + ' ' + side, e.where, 'the %s of the column may lie outside the range of %s it is converted to' % (side, k))
    return rep.export()


TREES = ({}, {'online_tree_reduction': False}, {'online_tree_reduction': False, 'additional_node': True}, {'tree_type': 'QuantileTree', 'online_tree_reduction': False},
         {'tree_type': 'NeuralGas'}, {'online_tree_reduction': False, 'copula_type': 'ConditionalGaussianCopula'})


def tasks(p):
    out, seen = [], set()
    fs = drive.forecasters(p)
    for ci in sorted(fs, key=lambda c: (c.name != 'LinearForecaster', c.name)):
        for opt in options(p, ci):
            if opt == 'parallel_preds':
                k = tuple((p.find_method(ci, m) or (None,))[0] for m in ('predict_trees', 'predict_scenarios'))
                if k in seen:
                    continue
                seen.add(k)
                cfgs = TREES
            else:
                base_ = [{k: v for k, v in c.items() if k != opt} for c in drive.configs(ci, p)]
                cfgs = [c for i, c in enumerate(base_) if c not in base_[:i]]
                if any(n == 'formatter' for n, _ in drive.ctor_params(p, ci)):
                    cfgs.append(dict(formatter='plain'))
            out += [('forecaster', ci.name, opt, dict(c)) for c in cfgs]
    out += [('formatter', o) for o in ({}, {'reduce_memory': True}, {'reduce_memory': False}, {'corr_reorder': True}, {'corr_reorder': True, 'reduce_memory': False})]
    out += [('pieces', ray, ax) for ray in (True, False) for ax in (0, 1)] + [('fits',)]
    out.append(('function', 'pyforecaster.forecasting_models.holtwinters', 'tune_hyperpars', 'parallel', {'return_model': False}))
    return out


def one(t):
    try:
        return globals()['task_' + t[0]](t)
    except RecursionError:
        r = Report('C17')
        r.errors.append('%s: recursion limit' % (t,))
        return r.export()


def run(rep):
    rep.rule('same', 'with a parallel switch on, an operation returns what it returns with the switch off')
    rep.rule('state', 'with a parallel switch on, an operation leaves in the model what it leaves with the switch off')
    rep.rule('calls', 'the parallel path passes every function the arguments it requires')
    rep.rule('partition', 'the pieces a table is cut into follow each other from its start to its end')
    rep.rule('order', 'results of parallel workers are put together in the order of the work, not in the order in which they finish')
    rep.rule('whole', 'a function applied piece by piece is applied to every piece, and the pieces are joined in order along the axis they were cut on')
    rep.rule('labels', 'the joined result carries the labels of the pieces, all of them and in order')
    rep.rule('fits', 'a column is only converted to a smaller type whose range holds its smallest and its largest value')
    rep.assumptions += ['process pools, ray and multiprocessing return the value of the function they are given, on a copy of its arguments',
                        'tree reduction, sampling and learning are functions of their arguments (C06)']
    for r in pmap(one, tasks(c01.prog())):
        rep.merge(r)
