"""What the analysis assumes of code outside the package: kinds of results, storage sharing, in-place effects,
higher-order calls.  Anything not listed is a pure function returning a fresh value."""
from __future__ import annotations
import ast
from . import terms as tm
from .terms import T, mk, const, NONE
from .values import (V, Sc, Tup, Lst, Dct, Inst, Fn, Bound, BoundExt, Cls, Mod, Ext, Part, Sup, Wrapped, Phi, phi,
                     LC, DC)

# decorators / wrappers that leave the semantics of the function as they are
TRANSPARENT = {'numba.jit', 'numba.njit', 'functools.wraps', 'functools.lru_cache', 'functools.cache',
               'flax.linen.compact', 'abc.abstractmethod', 'jax.jit', 'ray.remote', 'joblib.delayed',
               'contextlib.contextmanager', 'staticmethod', 'classmethod', 'property'}
WRAPPERS = {'jax.vmap', 'jax.grad', 'jax.value_and_grad', 'jax.jacfwd', 'jax.jacrev', 'numpy.vectorize', 'jax.jit'}

VIEW_ATTRS = {'values', 'T', 'iloc', 'loc', 'at', 'iat', 'flat', 'real', 'imag', 'array', 'data', 'nodes', 'edges',
              '_values', '__dict__'}
VIEW_METHODS = {'reshape', 'ravel', 'squeeze', 'view', 'swapaxes', 'transpose', 'to_numpy', 'diagonal', 'items', 'iterrows',
                'itertuples', 'get', 'get_group', 'nodes', 'setdefault'}
VIEW_FUNCS = {'numpy.asarray', 'numpy.asanyarray', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.atleast_3d', 'numpy.ravel',
              'numpy.reshape', 'numpy.squeeze', 'numpy.expand_dims', 'numpy.swapaxes', 'numpy.transpose', 'numpy.rollaxis',
              'numpy.moveaxis', 'numpy.broadcast_to', 'numpy.ascontiguousarray', 'numpy.diagonal'}
MUT_METHODS = {'append', 'extend', 'insert', 'remove', 'clear', 'sort', 'reverse', 'update', 'add', 'discard', 'fill',
               'partial_fit', 'setflags', 'itemset', 'put', 'resize', 'add_node', 'add_nodes_from', 'add_edge',
               'add_edges_from', 'remove_node', 'remove_nodes_from', 'remove_edge', 'add_weighted_edges_from', 'partition', 'popitem',
               '__setitem__', 'set_params', 'seed', 'setstate'}
# in-place methods that return None: when the program uses the value of such a call on an object of unknown type, the
# receiver is not a list/dict/set and the method is a functional one (optax `update`, statsmodels `append`, ...)
NONE_METHODS = {'append', 'extend', 'insert', 'remove', 'clear', 'sort', 'reverse', 'update', 'add', 'discard', 'put'}
LEARN_METHODS = {'fit', 'fit_transform', 'fit_predict', 'partial_fit'}
MUT_FUNCS = {'numpy.random.shuffle': 0, 'numpy.fill_diagonal': 0, 'numpy.copyto': 0, 'numpy.put': 0, 'numpy.place': 0,
             'numpy.putmask': 0, 'random.shuffle': 0, 'networkx.set_node_attributes': 0, 'networkx.set_edge_attributes': 0,
             'networkx.relabel_nodes': None, 'heapq.heappush': 0, 'numpy.put_along_axis': 0, 'numpy.add.at': 0}

ND, DF, SR = 'ndarray', 'df', 'series'
CALL_KIND = {
    'pandas.DataFrame': DF, 'pandas.Series': SR, 'pandas.concat': None, 'pandas.date_range': 'dtindex',
    'pandas.Timedelta': 'timedelta', 'pandas.to_timedelta': None, 'pandas.Timestamp': 'timestamp', 'pandas.Index': 'index',
    'pandas.MultiIndex.from_product': 'multiindex', 'pandas.MultiIndex.from_tuples': 'multiindex', 'pandas.DatetimeIndex': 'dtindex',
    'pandas.TimedeltaIndex': 'index', 'pandas.qcut': SR, 'pandas.read_csv': DF, 'pandas.read_pickle': None,
    'builtins.int': 'int', 'builtins.float': 'float', 'builtins.str': 'str', 'builtins.bool': 'bool', 'builtins.len': 'int',
    'builtins.set': 'set', 'builtins.sum': None, 'builtins.isinstance': 'bool', 'builtins.hasattr': 'bool',
    'numpy.linalg.pinv': ND, 'numpy.linalg.inv': ND, 'numpy.random.default_rng': 'rng', 'numpy.array': ND,
    'time.time': 'float', 'inspect.signature': 'signature', 'numpy.isscalar': 'bool', 'builtins.callable': 'bool',
    'builtins.any': 'bool', 'builtins.all': 'bool', 'numpy.random.RandomState': 'rng',
}
NP_ND = {'zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'asarray', 'asanyarray', 'array', 'arange',
         'linspace', 'hstack', 'vstack', 'dstack', 'stack', 'concatenate', 'quantile', 'reshape', 'expand_dims', 'swapaxes', 'rollaxis',
         'moveaxis', 'transpose', 'squeeze', 'tile', 'repeat', 'eye', 'diag', 'diff', 'cumsum', 'argsort', 'sort', 'unique', 'where',
         'digitize', 'outer', 'dot', 'kron', 'isin', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'flatnonzero', 'bincount', 'copy', 'corrcoef',
         'cov', 'meshgrid', 'ravel', 'broadcast_to', 'cos', 'sin', 'triu', 'tril', 'roll', 'histogram', 'percentile', 'column_stack', 'block',
         'random.rand', 'random.randn', 'random.choice', 'random.uniform', 'random.normal', 'random.permutation', 'random.randint', 'fft.fft',
         'append', 'delete', 'insert', 'convolve', 'split', 'array_split', 'nonzero', 'argwhere', 'interp', 'frombuffer', 'flip', 'fliplr'}
METH_DF = {'copy', 'rename', 'astype', 'fillna', 'dropna', 'reset_index', 'set_index', 'sort_index', 'sort_values', 'drop', 'join', 'merge',
           'shift', 'asfreq', 'abs', 'apply', 'resample', 'head', 'tail', 'reindex', 'droplevel', 'swaplevel', 'add', 'sub', 'mul', 'div',
           'interpolate', 'ffill', 'bfill', 'isna', 'notna', 'isnull', 'corr', 'pivot', 'clip', 'round', 'replace', 'transform', 'select_dtypes',
           'assign', 'add_suffix', 'add_prefix', 'filter', 'set_axis', 'drop_duplicates', 'diff', 'cumsum', 'sample', 'isin', 'where', 'mask', 'tz_convert',
           'tz_localize', 'infer_objects', 'pop_'}
METH_ND = {'reshape', 'ravel', 'flatten', 'squeeze', 'swapaxes', 'transpose', 'astype', 'copy', 'repeat', 'dot', 'cumsum', 'round', 'clip', 'tolist_'}
REDUCE = {'mean', 'sum', 'std', 'max', 'min', 'median', 'quantile', 'var', 'prod', 'any', 'all', 'nunique', 'count', 'idxmax', 'idxmin'}


def kind_of_const(v):
    if v is None:
        return None
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'float'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, bytes):
        return 'bytes'
    return type(v).__name__


_kmemo = {}


def kind_of(t, symkinds, depth=0):
    if t.op == 'const':
        return kind_of_const(t.args[0])
    if t.op == 'sym':
        return symkinds.get(t.args[0])
    if depth > 40:
        return None

    def K(u):
        return kind_of(u, symkinds, depth + 1)
    op = t.op
    if op == 'call':
        p = t.args[0]
        if p in CALL_KIND and CALL_KIND[p]:
            return CALL_KIND[p]
        if p.startswith('numpy.') and p[6:] in NP_ND:
            return ND
        if p.startswith('jax.numpy.') and p[10:] in NP_ND:
            return ND
        if p == 'pandas.concat':
            return DF
        return None
    if op == 'meth':
        nm, rk = t.args[0], K(t.args[1])
        if rk == DF and nm in METH_DF:
            return DF
        if rk == SR and nm in METH_DF:
            return SR
        if rk == ND and nm in METH_ND:
            return ND
        if rk == DF and nm in REDUCE:
            return SR
        if nm == 'to_numpy':
            return ND
        if nm in ('unique', 'drop_duplicates') and rk in ('index', 'dtindex'):
            return rk
        if nm in ('get_level_values',):
            return 'index'
        if nm in ('format', 'join', 'replace', 'lower', 'upper', 'strip', 'split_') and rk == 'str':
            return 'str'
        if nm in ('to_frame',):
            return DF
        if nm == 'to_series':
            return SR
        return None
    if op == 'attr':
        return kind_of_attr(K(t.args[0]), t.args[1])
    if op == 'idx':
        return kind_of_index(None, None, t.args[0], t.args[1], K(t.args[0]), K)
    if op == 'bin':
        return kind_binop(t.args[0], K(t.args[1]), K(t.args[2]))
    if op == 'un':
        return K(t.args[1])
    if op in ('not', 'boolop'):
        return 'bool'
    if op == 'cmp':
        ks = (K(t.args[1]), K(t.args[2]))
        for k in (DF, SR, ND):
            if k in ks:
                return k
        if 'index' in ks or 'dtindex' in ks:
            return ND
        return 'bool' if t.args[0] in ('is', 'in') else None
    if op in ('ite',):
        a, b = K(t.args[1]), K(t.args[2])
        return a if a == b else None
    if op == 'upd':
        return K(t.args[0])
    if op == 'setattr':
        return K(t.args[0])
    if op == 'fstr':
        return 'str'
    if op == 'len':
        return 'int'
    if op in ('list', 'listof'):
        return 'list'
    if op == 'tuple':
        return 'tuple'
    if op == 'dict':
        return 'dict'
    if op == 'elem' and t.args[0].op == 'range':
        return 'int'
    if op == 'elem':
        # elements of a 2-d array: unknown rank
        return None
    return None


def kind_of_attr(k, name):
    if name in ('values',) and k in (DF, SR, 'index', 'dtindex'):
        return ND
    if name == 'T':
        return k
    if name == 'index' and k in (DF, SR):
        return 'index'
    if name == 'columns':
        return 'index'
    if name in ('hour', 'dayofweek', 'minute', 'date', 'time', 'year', 'month') and k in ('dtindex', 'index'):
        return 'index'
    if name in ('shape',):
        return 'tuple'
    if name in ('size', 'ndim'):
        return 'int'
    if name in ('loc', 'iloc') and k in (DF, SR):
        return 'loc' + k
    return None


def kind_of_index(b, k, bt, kt, bk=None, K=None):
    if b is not None:
        bk = b.kind if isinstance(b, Sc) else None
    kk = (k.kind if isinstance(k, Sc) else ('tuple' if isinstance(k, Tup) else None)) if b is not None else (K(kt) if K else None)
    if bk in ('locdf', 'locseries'):
        if kt.op == 'tuple' and bk == 'locdf':
            def scalar(x):
                return (x.op == 'const' and isinstance(x.args[0], (int, str))) or (x.op == 'elem' and x.args[0].op == 'range')
            sc = [scalar(x) for x in kt.args[0]]
            if all(sc):
                return None
            if any(sc):
                return SR
            if all(x.op in ('slice', 'list', 'listof') or (kind_of(x, {}) in (ND, SR, 'list', 'index')) for x in kt.args[0]):
                return DF
            return DF if kt.args[0][0].op in ('slice',) and kt.args[0][-1].op == 'slice' else None
        if kt.op == 'slice' or kk in (ND, SR, 'list', 'index', 'dtindex', 'slice'):
            return DF if bk == 'locdf' else SR
        return None
    if bk == DF:
        if kk in ('list', 'index', DF, 'slice', ND, SR):
            return DF
        if kt.op == 'slice' or kt.op in ('list', 'listof'):
            return DF
        return None
    if bk == ND:
        if kt.op == 'slice' or kk in (ND, 'list', SR):
            return ND
        if kt.op == 'tuple' and any(x.op in ('slice', 'ellipsis') or x is NONE for x in kt.args[0]):
            return ND
        if kt is NONE:
            return ND
        return None
    if bk == SR and kt.op == 'slice':
        return SR
    if bk in ('index', 'dtindex') and kt.op == 'slice':
        return bk
    if bk == 'tuple' and kt.op == 'const' and bt.op == 'attr' and bt.args[1] == 'shape':
        return 'int'
    return None


def index_is_view(b, k, bt, kt):
    """May writing into b[k] write into b?"""
    bk = b.kind

    def basic(x):
        return x.op in ('slice', 'ellipsis') or (x.op == 'const' and (x.args[0] is None or isinstance(x.args[0], (int, str)))) \
            or (x.op == 'elem' and x.args[0].op == 'range')
    parts = kt.args[0] if kt.op == 'tuple' else (kt,)
    if bk == DF:
        # df[label] is a column view; df[list]/df[mask] copies
        return kt.op == 'const' or kt.op == 'slice'
    if bk in ('locdf', 'locseries', ND, SR):
        return all(basic(x) for x in parts)
    if bk in ('index', 'dtindex', 'int', 'float', 'str', 'tuple'):
        return False
    return not any(kind_of(x, {}) in (ND, SR, 'list', DF) for x in parts)


def kind_binop(op, a, b):
    ks = (a, b)
    for k in (DF, SR, ND):
        if k in ks:
            return k
    if 'index' in ks or 'dtindex' in ks:
        return 'index'
    num = ('int', 'float', 'bool')
    if a in num and b in num:
        if op in ('Div', '/'):
            return 'float'
        return 'float' if 'float' in ks else 'int'
    if 'list' in ks:
        return 'list' if op in ('Add', '+', 'Mult', '*') and None not in ks else None
    if a == 'str' or (b == 'str' and op in ('Add', '+')):
        return 'str'
    return None


def KW(ca, st, it):
    kw = {k: it.term(v, st) for k, v in ca.kw.items()}
    out = [(k, v) for k, v in sorted(kw.items())]
    if ca.dstar is not None:
        out.append(('**', it.term(ca.dstar, st)))
    return tuple(out)


def PA(ca, st, it):
    out = [it.term(v, st) for v in ca.pos]
    if ca.star is not None:
        out.append(mk('star', it.term(ca.star, st)))
    return tuple(out)


def callbacks(it, ca, st, node, src):
    """Functions handed to external code are analysed with opaque arguments; their term becomes what they compute."""
    def one(v):
        f = v
        extra = 0
        if isinstance(f, Part):
            extra = len(f.args)
            f = f.fn
        if isinstance(f, Bound):
            extra += 1
            f = f.fn
        if not isinstance(f, Fn):
            return v
        a = f.node.args
        n = len(a.posonlyargs + a.args) - len(a.defaults) - extra
        kwb = {k for k, _ in v.kwargs} if isinstance(v, Part) else set()
        names = [p.arg for p in (a.posonlyargs + a.args)][extra:extra + max(n, 0)]
        args = [Sc(mk('cbarg', i, src)) for i, nm in enumerate(names) if nm not in kwb]
        before = len(it.events)
        r = it.call(v, type(ca)(args), st, node)
        it.events[before:] = [e for e in it.events[before:] if e.kind != 'argerror']
        return Sc(mk('applied', it.term(r, st)))
    pos = [one(v) if isinstance(v, (Fn, Bound, Part)) else v for v in ca.pos]
    kw = {k: (one(v) if isinstance(v, (Fn, Bound, Part)) else v) for k, v in ca.kw.items()}
    return pos, kw


def is_true(it, v):
    ok, c = it.known(v)
    return ok and c is True


def separate(it, bt, st):
    """The objects of this process, when what follows runs in another one and the analysis tells them apart (it.isolate)"""
    if not getattr(it, 'isolate', False):
        return None
    own = any(u.op == 'call' and ('ProcessPool' in u.args[0] or u.args[0].endswith('multiprocessing.Pool') or u.args[0].endswith('pool.Pool'))
              for u in tm.walk(bt) if isinstance(u.args[0], str))
    return dict(st.d) if own else None


def rejoin(st, before, result):
    """What another process changed in objects it received stays there, except in the objects it sends back."""
    if before is None:
        return
    back, todo = set(), [result]
    while todo:
        v = todo.pop()
        i = getattr(v, 'oid', None)
        if i is not None and i in back:
            continue
        if i is not None:
            back.add(i)
        if isinstance(v, Tup):
            todo += list(v.items)
        elif isinstance(v, Lst):
            c = st.lc(v.oid)
            todo += [x for x in list(c.items) + [c.star] if x is not None]
    have = {k[1] for k in before if isinstance(k, tuple) and len(k) > 1}
    for k in list(st.d):
        if not isinstance(k, tuple) or len(k) < 2 or k[1] in back or k[1] not in have:
            continue
        if k in before:
            st.d[k] = before[k]
        else:
            del st.d[k]


def do_map(it, f, iters, st, node):
    """[f(x, ...) for x, ... in zip(iters)] as a list value."""
    ex = [it.exact_iter(x, st) for x in iters]
    from .interp import Args
    if all(x is not None for x in ex) and ex and len(ex[0]) <= 64:
        items = [it.call(f, Args(list(z)), st, node) for z in zip(*ex)]
        return it.new_list(node, st, items, tag='map')
    el = [it.elem_of(x, st, node) for x in iters]
    r = it.call(f, Args(el), st, node)
    return it.new_list(node, st, (), r, it.term(iters[0], st), tag='map')


def container_method(it, b, name, ca, st, node):
    if isinstance(b, Lst):
        lc = st.lc(b.oid)
        if name == 'append':
            v = ca.pos[0]
            it.emit('append', node, st, obj=b, value=v, vterm=it.term(v, st))
            it.mutate(b, st, node, 'append', struct=True)
            if lc.star is None:
                st.set(('l', b.oid), LC(lc.items + (v,)))
            else:
                st.set(('l', b.oid), LC(lc.items, lc.star if lc.star == v else it.join_vals(lc.star, v, (), (), ('l', b.oid, '*')), lc.over))
            return Sc(NONE)
        if name == 'extend':
            it.list_extend(b, ca.pos[0], st, node)
            return Sc(NONE)
        if name in ('clear',):
            it.mutate(b, st, node, 'clear', struct=True)
            st.set(('l', b.oid), LC())
            return Sc(NONE)
        if name == 'insert':
            it.mutate(b, st, node, 'insert', struct=True)
            v = ca.pos[1]
            ok, i = it.known(ca.pos[0])
            if ok and lc.star is None and isinstance(i, int):
                items = list(lc.items)
                items.insert(i, v)
                st.set(('l', b.oid), LC(items))
            else:
                al = list(lc.items) + ([lc.star] if lc.star is not None else []) + [v]
                st.set(('l', b.oid), LC((), it.join_list(al, node), lc.over))
            return Sc(NONE)
        if name == 'pop':
            it.mutate(b, st, node, 'pop', struct=True)
            ok, i = it.known(ca.pos[0]) if ca.pos else (True, -1)
            if ok and lc.star is None and lc.items and isinstance(i, int) and -len(lc.items) <= i < len(lc.items):
                items = list(lc.items)
                v = items.pop(i)
                st.set(('l', b.oid), LC(items))
                return v
            al = list(lc.items) + ([lc.star] if lc.star is not None else [])
            return it.join_list(al, node) if al else Sc(mk('opaque', 'pop'))
        if name in ('remove', 'sort', 'reverse'):
            it.mutate(b, st, node, name, struct=True)
            if name == 'remove' or lc.star is not None or len(lc.items) > 1:
                al = list(lc.items) + ([lc.star] if lc.star is not None else [])
                if name == 'reverse' and lc.star is None:
                    st.set(('l', b.oid), LC(tuple(reversed(lc.items))))
                elif al:
                    st.set(('l', b.oid), LC((), it.join_list(al, node), lc.over or mk(name)))
            return Sc(NONE)
        if name == 'copy':
            return it.new_list(node, st, lc.items, lc.star, lc.over)
    if isinstance(b, Dct):
        dc = st.dc(b.oid)
        if name == 'update':
            it.mutate(b, st, node, 'update', struct=True)
            for m in ca.pos:
                dc = it.merge_dc(dc, m, st, ('d', b.oid))
            for k, v in ca.kw.items():
                dc = dc.put(k, v)
            st.set(('d', b.oid), dc)
            return Sc(NONE)
        if name == 'keys':
            if dc.star is None:
                return it.new_list(node, st, [it.keyval(k) for k, _ in dc.items])
            return it.new_list(node, st, [it.keyval(k) for k, _ in dc.items], dc.starkey or Sc(mk('elem', mk('keys', it.term(b, st)))))
        if name == 'values':
            return it.new_list(node, st, [v for _, v in dc.items], dc.star, mk('keys', it.term(b, st)) if dc.star is not None else None)
        if name == 'items':
            return it.new_list(node, st, [Tup([it.keyval(k), v]) for k, v in dc.items],
                               Tup([dc.starkey or Sc(mk('elem', mk('keys', it.term(b, st)))), dc.star]) if dc.star is not None else None)
        if name in ('get', 'pop', 'setdefault'):
            ok, k = it.known(ca.pos[0])
            d = ca.pos[1] if len(ca.pos) > 1 else ca.kw.get('default', Sc(NONE))
            v = dc.get(k) if ok else dc.get(it.term(ca.pos[0], st))
            if name == 'pop':
                it.mutate(b, st, node, 'pop', struct=True)
                if ok:
                    st.set(('d', b.oid), dc.drop(k))
            if v is not None:
                return v
            if name == 'setdefault':
                it.mutate(b, st, node, 'setdefault', struct=True)
                if ok:
                    st.set(('d', b.oid), dc.put(k, d))
            if ok and dc.star is None:
                return d
            al = ([dc.star] if dc.star is not None else []) + ([x for _, x in dc.items] if not ok else []) + [d]
            return it.join_list(al, node)
        if name == 'copy':
            n = it.new_dict(node, st)
            st.set(('d', n.oid), dc)
            return n
        if name == 'clear':
            it.mutate(b, st, node, 'clear', struct=True)
            st.set(('d', b.oid), DC())
            return Sc(NONE)
    if isinstance(b, Tup) and name == 'index':
        return Sc(mk('meth', 'index', it.term(b, st), PA(ca, st, it), ()))
    t = mk('meth', name, it.term(b, st), PA(ca, st, it), KW(ca, st, it))
    return it.fresh(node, st, t)


LOGGERS = {'debug', 'info', 'warning', 'error', 'critical', 'setLevel', 'addHandler'}


def sc_method(it, b, name, ca, st, node):
    if isinstance(b, Sc) and b.term.op == 'const' and isinstance(b.term.args[0], str):
        s = b.term.args[0]
        if name == 'format':
            r = it.fmt_string(s, [it.term(x, st) for x in ca.pos], {k: it.term(v, st) for k, v in ca.kw.items()})
            if r is not None:
                return r
        if name == 'join' and ca.pos:
            ex = it.exact_iter(ca.pos[0], st)
            if ex is not None and all(it.known(x)[0] for x in ex):
                return Sc(const(s.join(str(it.known(x)[1]) for x in ex)), kind='str')
        if name in ('lower', 'upper', 'strip', 'split', 'replace', 'startswith', 'endswith', 'isdigit', 'title') and all(it.known(x)[0] for x in ca.pos) and not ca.kw:
            try:
                r = getattr(s, name)(*[it.known(x)[1] for x in ca.pos])
                if isinstance(r, list):
                    return it.new_list(node, st, [Sc(const(x), kind='str') for x in r])
                return Sc(const(r), kind=kind_of_const(r))
            except Exception:
                pass
    bt = it.term(b, st)
    # executors
    if name in ('map', 'imap', 'imap_unordered', 'starmap') and ca.pos and isinstance(ca.pos[0], (Fn, Bound, Part, Phi, Cls, Ext)) \
            and (b.kind is None):
        it.emit('ext', node, st, path='.' + name, recv=b, rterm=bt, args=tuple(ca.pos), kwargs=tuple(ca.kw.items()), term=None, result=None,
                work=it.term(ca.pos[1], st) if len(ca.pos) > 1 else None)
        apart = separate(it, bt, st)
        if name == 'starmap':
            el = it.elem_of(ca.pos[1], st, node)
            ex = it.exact_iter(el, st)
            from .interp import Args
            r = it.call(ca.pos[0], Args(ex) if ex is not None else Args([], star=el), st, node)
            rejoin(st, apart, r)
            return it.new_list(node, st, (), r, it.term(ca.pos[1], st), tag='map')
        r = do_map(it, ca.pos[0], ca.pos[1:], st, node)
        rejoin(st, apart, r)
        return r
    if name in ('submit', 'apply_async') and ca.pos and isinstance(ca.pos[0], (Fn, Bound, Part)):
        from .interp import Args
        apart = separate(it, bt, st)
        if name == 'apply_async':
            pos = it.exact_iter(ca.pos[1], st) if len(ca.pos) > 1 else []
            r = it.call(ca.pos[0], Args(pos or []), st, node)
        else:
            r = it.call(ca.pos[0], Args(ca.pos[1:], ca.kw, ca.star, ca.dstar), st, node)
        rejoin(st, apart, r)
        return r
    if name in ('result',) and not ca.pos and (bt.op != 'call'):
        return b
    pos, kw = callbacks(it, ca, st, node, bt)
    ca2 = type(ca)(pos, kw, ca.star, ca.dstar)
    pa, kwa = PA(ca2, st, it), KW(ca2, st, it)
    t = mk('meth', name, bt, pa, kwa)
    inplace = 'inplace' in kw and is_true(it, kw['inplace'])
    kind = it.kind_of(t)
    own = b.bases | (frozenset([b.rid]) if b.rid is not None else frozenset())
    res = None
    if name in LEARN_METHODS:
        ft = mk('fitted', unfitted(bt) if name.startswith('fit') else bt, pa, kwa)
        it.mutate(b, st, node, name, struct=True, new=ft)
        if name == 'fit':
            res = Sc(ft, b.rid, b.bases, b.kind) if b.rid is not None else it.fresh(node, st, ft)
        else:
            res = it.fresh(node, st, t)
    elif inplace:
        it.mutate(b, st, node, name + '(inplace)', struct=True, new=t)
        res = Sc(NONE)
    elif name in MUT_METHODS and not (name == 'append' and b.kind in ('df', 'series', 'index')) and \
            not (name == 'add' and b.kind in ('df', 'series')) and \
            (name not in NONE_METHODS or b.kind in ('list', 'dict', 'set', 'ndarray') or id(node) in it.discarded
             or node in getattr(it, '_synths', {}).values()):
        it.mutate(b, st, node, name, struct=name not in ('fill', 'sort', 'put', 'itemset', 'partition'), new=t)
        res = Sc(NONE)
    elif name == 'pop':
        it.mutate(b, st, node, 'pop', struct=True, new=mk('mutated', bt, 'pop'))
        res = it.fresh(node, st, t)
    elif name == 'insert' and b.kind == 'df':
        it.mutate(b, st, node, 'insert', struct=True, new=t)
        res = Sc(NONE)
    elif name in ('copy', '__copy__', '__deepcopy__'):
        deep = kw.get('deep', pos[0] if pos and b.kind in ('df', 'series') else None)
        if deep is not None and it.known(deep) == (True, False):
            res = Sc(bt, it.site(node, 'cp'), own, b.kind)
        else:
            res = it.fresh(node, st, bt, b.kind)
    elif name in ('astype', 'infer_objects') and 'copy' in kw and it.known(kw['copy']) == (True, False):
        res = Sc(t, it.site(node, 'vw'), own, kind)
    elif name in ('rename', 'set_axis', 'reindex', 'tz_convert', 'tz_localize') and 'copy' in kw and it.known(kw['copy']) == (True, False):
        res = Sc(t, it.site(node, 'vw'), own, kind)
    elif name in VIEW_METHODS:
        res = Sc(t, it.site(node, 'vw'), own, kind)
        st.pop(('c', res.rid))
    else:
        if name in ('mean', 'sum', 'std', 'max', 'min', 'median', 'any', 'all', 'item', 'tolist') and not kwa and not pa and kind is None:
            res = Sc(t, it.site(node, 'red'), frozenset(), None)
        else:
            res = it.fresh(node, st, t, kind)
    if 'out' in kw:
        it.mutate(kw['out'], st, node, name + '(out)', struct=False, new=t)
    it.emit('ext', node, st, path='.' + name, recv=b, rterm=bt, args=tuple(pos), kwargs=tuple(sorted(kw.items(), key=lambda z: z[0])),
            term=t, result=res, dstar=ca.dstar)
    return res


def inst_ext_method(it, recv, name, ca, st, node):
    """Method of an external base class called on an instance of a package class."""
    if not it.prog.ext_bases(recv.cls) and not st.get(('open', recv.oid)):
        return None
    pos, kw = callbacks(it, ca, st, node, it.term(recv, st))
    ca2 = type(ca)(pos, kw, ca.star, ca.dstar)
    t = mk('meth', name, it.term(recv, st), PA(ca2, st, it), KW(ca2, st, it))
    it.emit('ext', node, st, path='.' + name, recv=recv, rterm=it.term(recv, st), args=tuple(pos),
            kwargs=tuple(sorted(kw.items(), key=lambda z: z[0])), term=t, result=None, dstar=ca.dstar)
    return it.fresh(node, st, t)


def opaque_call(it, fv, ca, st, node):
    pos, kw = callbacks(it, ca, st, node, it.term(fv, st))
    ca2 = type(ca)(pos, kw, ca.star, ca.dstar)
    ft = it.term(fv, st)
    if isinstance(fv, Sc) and ft.op == 'call' and ft.args[0] == 'joblib.Parallel' and pos:
        return pos[0]
    if isinstance(fv, Ext) and fv.path == 'identity' and pos:
        return pos[0]
    t = mk('call', fv.path if isinstance(fv, Ext) else '*' + (ft.args[0] if ft.op in ('fn',) else tm.show(ft, 3)), PA(ca2, st, it), KW(ca2, st, it))
    if not isinstance(fv, Ext):
        t = mk('apply', ft, PA(ca2, st, it), KW(ca2, st, it))
    it.emit('ext', node, st, path='()' if not isinstance(fv, Ext) else fv.path, recv=fv, rterm=ft, args=tuple(pos),
            kwargs=tuple(sorted(kw.items(), key=lambda z: z[0])), term=t, result=None, dstar=ca.dstar)
    return it.fresh(node, st, t)


def call_wrapped(it, w, ca, st, node):
    """jax transforms: analyse the wrapped function on (mapped) arguments; result tagged with the transform."""
    base = w.how
    if base in ('jax.jit', 'numpy.vectorize'):
        return it.call(w.fn, ca, st, node)
    if base == 'jax.vmap':
        args = []
        axes = dict(w.extra).get('in_axes')
        for i, a in enumerate(ca.pos):
            mapped = True
            if isinstance(axes, Tup) and i < len(axes.items) and it.known(axes.items[i]) == (True, None):
                mapped = False
            if mapped and not isinstance(a, (Inst, Fn, Bound)):
                args.append(it.elem_of(a, st, node) if not isinstance(a, Sc) else Sc(mk('elem', it.term(a, st))))
            else:
                args.append(a)
        r = it.call(w.fn, type(ca)(args, ca.kw, ca.star, ca.dstar), st, node)
        return it.fresh(node, st, mk('vmap', it.term(r, st)))
    if base in ('jax.grad', 'jax.value_and_grad', 'jax.jacfwd', 'jax.jacrev'):
        r = it.call(w.fn, ca, st, node)
        rt = it.term(r, st)
        if base == 'jax.value_and_grad':
            return Tup([r, it.fresh(node, st, mk('grad', rt), tag='g')])
        return it.fresh(node, st, mk('grad', rt))
    return it.call(w.fn, ca, st, node)


def arr_call(it, path, ca, st, node):
    pos, kw = callbacks(it, ca, st, node, mk('ext', path))
    ca2 = type(ca)(pos, kw, ca.star, ca.dstar)
    pa, kwa = PA(ca2, st, it), KW(ca2, st, it)
    t = mk('call', path, pa, kwa)
    kind = it.kind_of(t)
    bases = frozenset()
    if path in VIEW_FUNCS and pos and isinstance(pos[0], Sc):
        bases = pos[0].bases | (frozenset([pos[0].rid]) if pos[0].rid is not None else frozenset())
    elif path in ('pandas.DataFrame', 'pandas.Series') and (pos or 'data' in kw):
        d = pos[0] if pos else kw['data']
        if isinstance(d, Sc) and d.kind in ('ndarray', None) and not is_true(it, kw.get('copy')):
            bases = d.bases | (frozenset([d.rid]) if d.rid is not None else frozenset())
    elif path == 'numpy.array' and 'copy' in kw and it.known(kw['copy']) == (True, False) and isinstance(pos[0], Sc):
        bases = pos[0].bases | (frozenset([pos[0].rid]) if pos[0].rid is not None else frozenset())
    if kind is None and path in ('numpy.asarray', 'numpy.array'):
        kind = 'ndarray'
    if path in ('numpy.abs', 'numpy.exp', 'numpy.log', 'numpy.sqrt', 'numpy.maximum', 'numpy.minimum', 'numpy.sign', 'numpy.ceil', 'numpy.floor',
                'numpy.round', 'numpy.isnan') and pos:
        ks = [x.kind for x in pos if isinstance(x, Sc)]
        for k in ('df', 'series', 'ndarray'):
            if k in ks:
                kind = k
                break
    if path in ('numpy.mean', 'numpy.sum', 'numpy.max', 'numpy.min', 'numpy.std', 'numpy.argmax', 'numpy.argmin', 'numpy.any', 'numpy.all') \
            and len(pos) == 1 and 'axis' not in kw:
        kind = None
    res = it.fresh(node, st, t, kind, bases)
    if path in MUT_FUNCS and MUT_FUNCS[path] is not None and len(pos) > MUT_FUNCS[path]:
        it.mutate(pos[MUT_FUNCS[path]], st, node, path, struct=False, new=t)
        res = Sc(NONE)
    if 'out' in kw:
        it.mutate(kw['out'], st, node, path + '(out)', struct=False, new=t)
    it.emit('ext', node, st, path=path, recv=None, rterm=None, args=tuple(pos), kwargs=tuple(sorted(kw.items(), key=lambda z: z[0])),
            term=t, result=res, dstar=ca.dstar)
    return res


RESETTING = ('sklearn.', 'quantile_forest.', 'lightgbm.')


def unfitted(t):
    """The estimator as it was constructed, when its class documents that fit() forgets the previous fit."""
    if t.op == 'loop' or t.op == 'phi':
        alts = {unfitted(a) for a in (t.args[1] if t.op == 'loop' else t.args[0]) if isinstance(a, T)}
        if len(alts) == 1:
            return alts.pop()
        return t
    u = t
    while u.op == 'fitted' or (u.op == 'meth' and u.args[0] in ('set_output', 'set_params')):
        u = u.args[0] if u.op == 'fitted' else u.args[1]
    if u is not t and u.op == 'call' and str(u.args[0]).startswith(RESETTING) and not any(k == 'warm_start' for k, _ in u.args[2]):
        v = t
        while v.op == 'fitted':
            v = v.args[0]
        return v
    return t


def _deepcopy(it, v, st, node, memo, tag):
    if isinstance(v, Sc):
        if v.rid is None and not v.bases:
            return v
        return Sc(it.term(v, st), it.fresh_id('dc', node, it.stack[-1][3], tag, str(v.rid)), frozenset(), v.kind)
    if v in memo:
        return memo[v]
    if isinstance(v, Tup):
        return Tup(_deepcopy(it, x, st, node, memo, (tag, i)) for i, x in enumerate(v.items))
    if isinstance(v, Lst):
        n = Lst(it.fresh_id('dcl', node, it.stack[-1][3], v.oid))
        memo[v] = n
        lc = st.lc(v.oid)
        st.set(('l', n.oid), LC([_deepcopy(it, x, st, node, memo, (tag, i)) for i, x in enumerate(lc.items)],
                                _deepcopy(it, lc.star, st, node, memo, (tag, '*')) if lc.star is not None else None, lc.over))
        return n
    if isinstance(v, Dct):
        n = Dct(it.fresh_id('dcd', node, it.stack[-1][3], v.oid))
        memo[v] = n
        dc = st.dc(v.oid)
        st.set(('d', n.oid), DC([(k, _deepcopy(it, x, st, node, memo, (tag, str(k)))) for k, x in dc.items],
                                _deepcopy(it, dc.star, st, node, memo, (tag, '*')) if dc.star is not None else None, dc.starkey))
        return n
    if isinstance(v, Inst):
        n = Inst(it.fresh_id('dci', node, it.stack[-1][3], v.oid), v.cls)
        memo[v] = n
        if st.get(('open', v.oid)):
            st.set(('open', n.oid), True)
        for k, x in it.fields(v, st).items():
            st.set(('f', n.oid, k), _deepcopy(it, x, st, node, memo, (tag, k)))
        return n
    if isinstance(v, Phi):
        return Phi([(g, _deepcopy(it, x, st, node, memo, (tag, i))) for i, (g, x) in enumerate(v.alts)])
    return v


KIND_CLASS = {'df': 'pandas.DataFrame', 'series': 'pandas.Series', 'ndarray': 'numpy.ndarray', 'str': 'builtins.str', 'int': 'builtins.int',
              'float': 'builtins.float', 'bool': 'builtins.bool', 'dtindex': 'pandas.DatetimeIndex', 'multiindex': 'pandas.MultiIndex',
              'list': 'builtins.list', 'tuple': 'builtins.tuple', 'dict': 'builtins.dict', 'timedelta': 'pandas.Timedelta',
              'timestamp': 'pandas.Timestamp', 'set': 'builtins.set'}
SUBCLASS = {'pandas.DatetimeIndex': {'pandas.Index'}, 'pandas.MultiIndex': {'pandas.Index'}, 'builtins.bool': {'builtins.int'}}


def isinstance_(it, v, c, st):
    if isinstance(c, Tup):
        rs = [isinstance_(it, v, x, st) for x in c.items]
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None
    if isinstance(v, Phi):
        rs = {isinstance_(it, a, c, st) for _, a in v.alts}
        return rs.pop() if len(rs) == 1 else None
    if isinstance(c, Cls):
        if isinstance(v, Inst):
            return c.ci in it.prog.mro(v.cls)
        if isinstance(v, Sc) and v.kind is None and not it.known(v)[0]:
            return None
        return False
    if not isinstance(c, Ext):
        return None
    k = None
    if isinstance(v, Lst):
        k = 'builtins.list'
    elif isinstance(v, Tup):
        k = 'builtins.tuple'
    elif isinstance(v, Dct):
        k = 'builtins.dict'
    elif isinstance(v, Inst):
        return c.path in it.prog.ext_bases(v.cls) or (None if it.prog.ext_bases(v.cls) else False)
    elif isinstance(v, Sc):
        if v.term is NONE:
            return False
        if v.kind is None:
            return None
        k = KIND_CLASS.get(v.kind)
        if v.kind == 'index':
            return True if c.path == 'pandas.Index' else (None if c.path in ('pandas.DatetimeIndex', 'pandas.MultiIndex') else False)
    elif isinstance(v, Part):
        return c.path == 'functools.partial'
    elif isinstance(v, (Fn, Bound, Cls)):
        return False
    if k is None:
        return None
    if c.path == k or c.path in SUBCLASS.get(k, ()):
        return True
    if c.path in KIND_CLASS.values() or c.path.startswith('numpy.') or c.path.startswith('pandas.') or c.path.startswith('builtins.'):
        return False
    return None


def call_ext(it, path, ca, st, node):
    p = path
    pos, kw = ca.pos, ca.kw
    if p.startswith('builtins.') or '.' not in p:
        r = builtin(it, p.split('.')[-1], ca, st, node)
        if r is not None:
            return r
    if p in ('functools.partial',):
        f = pos[0]
        k = dict(kw)
        if ca.dstar is not None:
            k['**'] = ca.dstar
        if isinstance(f, Ext) and (f.path in TRANSPARENT or f.path in WRAPPERS):
            return Ext('identity') if f.path in TRANSPARENT else Part(f, pos[1:], k.items())
        return Part(f, pos[1:], k.items())
    if p in TRANSPARENT:
        if pos and isinstance(pos[0], (Fn, Bound, Part, Wrapped, Cls, Phi)) and p not in ('functools.wraps',):
            return pos[0]
        return Ext('identity')
    if p == 'identity':
        return pos[0] if pos else Ext('identity')
    if p in WRAPPERS and pos:
        return Wrapped(pos[0], p, tuple(sorted(kw.items(), key=lambda z: z[0])) if p != 'jax.vmap' else
                       tuple(sorted(dict(kw, **({'in_axes': pos[1]} if len(pos) > 1 else {})).items(), key=lambda z: z[0])))
    if p in WRAPPERS:
        return Part(Ext(p), (), kw.items())
    if p.split('.')[-1] in ('tqdm', 'trange') and p.startswith('tqdm'):
        if pos:
            return pos[0]
        if 'iterable' in kw:
            return kw['iterable']
    if p in ('copy.deepcopy',):
        return _deepcopy(it, pos[0], st, node, {}, 0)
    if p in ('copy.copy',):
        v = pos[0]
        if isinstance(v, Phi):
            return Phi([(g, call_ext(it, p, type(ca)([x] + list(pos[1:]), kw), st, node)) for g, x in v.alts])
        if isinstance(v, Lst):
            lc = st.lc(v.oid)
            return it.new_list(node, st, lc.items, lc.star, lc.over)
        if isinstance(v, Dct):
            n = it.new_dict(node, st)
            st.set(('d', n.oid), st.dc(v.oid))
            return n
        if isinstance(v, Inst):
            n = Inst(it.fresh_id('shc', node, it.stack[-1][3], v.oid), v.cls)
            if st.get(('open', v.oid)):
                st.set(('open', n.oid), True)
            for k, x in it.fields(v, st).items():
                st.set(('f', n.oid, k), x)
            return n
        if isinstance(v, Sc):
            if v.kind in ('df', 'series', 'ndarray'):
                return it.fresh(node, st, it.term(v, st), v.kind)
            # shallow: shares nested storage
            return Sc(it.term(v, st), it.site(node, 'shc'), it.regions(v, st), v.kind)
    if p == 'itertools.product':
        ex = [it.exact_iter(x, st) for x in pos]
        if all(x is not None for x in ex) and not kw:
            import itertools
            rows = list(itertools.product(*ex))
            if len(rows) <= 64:
                return it.new_list(node, st, [Tup(r) for r in rows])
        return Sc(mk('product', tuple(it.term(x, st) for x in pos)))
    if p == 'itertools.chain':
        l = it.new_list(node, st)
        for x in pos:
            it.list_extend(l, x, st, node)
        return l
    if p == 'functools.reduce':
        ex = it.exact_iter(pos[1], st)
        from .interp import Args
        acc = pos[2] if len(pos) > 2 else None
        if ex is not None:
            seq = list(ex)
            if acc is None and seq:
                acc = seq.pop(0)
            for x in seq:
                acc = it.call(pos[0], Args([acc, x]), st, node)
            return acc if acc is not None else Sc(NONE)
        el = it.elem_of(pos[1], st, node)
        acc0 = acc if acc is not None else el
        r = it.call(pos[0], Args([acc0, el]), st, node)
        return it.join_vals(acc0, r, (), (), ('red', id(node)))
    if p == 'inspect.signature' and pos:
        v = pos[0]
        if isinstance(v, Cls):
            m = it.prog.find_method(v.ci, '__init__')
            if m:
                a = m[1].args
                names = [x.arg for x in (a.posonlyargs + a.args)][1:] + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])
                return Sc(mk('signature', v.ci.qual, tuple(names)), kind='signature')
        f = v.fn if isinstance(v, Bound) else v
        if isinstance(f, Fn):
            a = f.node.args
            names = [x.arg for x in (a.posonlyargs + a.args)]
            if isinstance(v, Bound):
                names = names[1:]
            names += ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])
            return Sc(mk('signature', it.fn_qual(f), tuple(names)), kind='signature')
        if isinstance(v, Phi):
            return it.map_phi(v, st, lambda a, s: call_ext(it, path, type(ca)([a]), s, node), node)
    if p in ('concurrent.futures.as_completed', 'ray.get', 'ray.put', 'numpy.nditer'):
        return pos[0]
    if p == 'concurrent.futures.wait':
        return Tup([pos[0], pos[0]])
    if p.startswith('logging.') and p != 'logging.getLogger':
        return Sc(mk('ext', p))
    if p in ('numpy.apply_along_axis', 'jax.lax.fori_loop', 'jax.lax.scan'):
        pass
    if p in ('numpy.any', 'numpy.all') and len(pos) == 1 and not kw and isinstance(pos[0], (Lst, Tup)):
        ex = it.exact_iter(pos[0], st)
        if ex is not None and all(isinstance(x, Sc) for x in ex):
            rs = [it.truth(x, st) if x.kind == 'bool' or x.t.op == 'const' else None for x in ex]
            stop = p == 'numpy.any'
            if stop in rs:
                return Sc(const(stop), kind='bool')
            if all(r is (not stop) for r in rs):
                return Sc(const(not stop), kind='bool')
    return arr_call(it, p, ca, st, node)


def builtin(it, name, ca, st, node):
    from .interp import Args
    pos, kw = ca.pos, ca.kw
    if name == 'len' and pos:
        ex = it.exact_iter(pos[0], st)
        if ex is not None:
            return Sc(const(len(ex)), kind='int')
        ok, c = it.known(pos[0])
        if ok and isinstance(c, str):
            return Sc(const(len(c)), kind='int')
        if isinstance(pos[0], Phi):
            return it.map_phi(pos[0], st, lambda a, s: builtin(it, 'len', Args([a]), s, node), node)
        t = it.term(pos[0], st)
        if t.op == 'listof' and not t.args[0]:
            u = t.args[2]
            if u.op == 'range' and u.args[0] is const(0) and u.args[2] is const(1):
                return Sc(u.args[1], kind='int')
        if isinstance(pos[0], Sc) and pos[0].kind in ('df', 'ndarray', 'series', 'index', 'dtindex'):
            # len(a) is a.shape[0]; rows are counted the same way whatever the spelling
            b = t
            if b.op == 'attr' and b.args[1] in ('index', 'values'):
                b = b.args[0]
            return Sc(mk('idx', mk('attr', b, 'shape'), const(0)), kind='int')
        return Sc(mk('len', t), kind='int')
    if name in ('any', 'all') and len(pos) == 1:
        ex = it.exact_iter(pos[0], st)
        if ex is not None and not isinstance(pos[0], Sc):
            rs = [it.truth(x, st) for x in ex]
            stop = name == 'any'
            if stop in rs:
                return Sc(const(stop), kind='bool')
            if all(r is (not stop) for r in rs):
                return Sc(const(not stop), kind='bool')
    if name == 'range':
        a = [it.term(x, st) for x in pos]
        if len(a) == 1:
            a = [const(0), a[0], const(1)]
        elif len(a) == 2:
            a = a + [const(1)]
        return Sc(mk('range', *a), kind='range')
    if name == 'enumerate':
        ex = it.exact_iter(pos[0], st)
        start = pos[1] if len(pos) > 1 else kw.get('start', Sc(const(0)))
        ok, s0 = it.known(start)
        if ex is not None and ok:
            return it.new_list(node, st, [Tup([Sc(const(s0 + i), kind='int'), x]) for i, x in enumerate(ex)])
        el = it.elem_of(pos[0], st, node)
        t = it.term(pos[0], st)
        n = mk('len', t)
        if t.op == 'range' and t.args[0] is const(0) and t.args[2] is const(1):
            i = Sc(mk('elem', t), kind='int')
        elif t.op == 'listof' and not t.args[0] and t.args[2].op == 'range' and t.args[2].args[0] is const(0):
            i = Sc(mk('elem', t.args[2]), kind='int')
        else:
            i = Sc(mk('elem', mk('range', const(0), n, const(1))), kind='int')
        if ok and s0 != 0:
            i = Sc(mk('bin', '+', i.term, const(s0)), kind='int')
        return it.new_list(node, st, (), Tup([i, el]), t)
    if name == 'zip':
        ex = [it.exact_iter(x, st) for x in pos]
        if pos and all(x is not None for x in ex):
            return it.new_list(node, st, [Tup(r) for r in zip(*ex)])
        if pos and any(x is not None for x in ex):
            # at least one exact: length bounded by it, elements of the others are positional
            n = min(len(x) for x in ex if x is not None)
            if n <= 16:
                rows = []
                for i in range(n):
                    row = []
                    for x, v in zip(ex, pos):
                        if x is not None:
                            row.append(x[i])
                        elif isinstance(v, Sc):
                            row.append(it.index(v, Sc(const(i), kind='int'), st, node))
                        else:
                            row.append(it.elem_of(v, st, node))
                    rows.append(Tup(row))
                return it.new_list(node, st, rows)
        els = [it.elem_of(x, st, node) for x in pos]
        return it.new_list(node, st, (), Tup(els), it.term(pos[0], st) if pos else None)
    if name in ('list', 'tuple', 'sorted', 'reversed', 'iter', 'set', 'frozenset'):
        if not pos:
            if name == 'list':
                return it.new_list(node, st)
            if name == 'tuple':
                return Tup(())
            if name in ('set', 'frozenset'):
                return Sc(mk('set', ()), it.site(node, 'set'), frozenset(), 'set')
            return None
        v = pos[0]
        ex = it.exact_iter(v, st)
        if name in ('list', 'iter', 'tuple', 'reversed'):
            if ex is not None:
                if name == 'reversed':
                    ex = list(reversed(ex))
                return Tup(ex) if name == 'tuple' else it.new_list(node, st, ex)
            if name == 'reversed':
                if isinstance(v, Lst):
                    lc = st.lc(v.oid)
                    return it.new_list(node, st, (), it.elem_of(v, st, node), mk('reversed', it.term(v, st)))
                return Sc(mk('call', 'builtins.reversed', (it.term(v, st),), ()))
            if isinstance(v, Lst):
                lc = st.lc(v.oid)
                return it.new_list(node, st, lc.items, lc.star, lc.over)
            if isinstance(v, Sc) and v.kind in ('range', None, 'index', 'dtindex', 'ndarray', 'set', 'series'):
                el = it.elem_of(v, st, node)
                return it.new_list(node, st, (), el, it.term(v, st))
            if isinstance(v, Phi):
                return it.map_phi(v, st, lambda a, s: builtin(it, name, Args([a]), s, node), node)
            return it.new_list(node, st, (), it.elem_of(v, st, node), it.term(v, st))
        if name in ('set', 'frozenset'):
            if ex is not None:
                return Sc(mk('set', tuple(it.term(x, st) for x in ex)), it.site(node, 'set'), frozenset(), 'set')
            return Sc(mk('call', 'builtins.set', (it.term(v, st),), ()), it.site(node, 'set'), frozenset(), 'set')
        if name == 'sorted':
            if ex is not None and all(it.known(x)[0] for x in ex) and not kw:
                try:
                    return it.new_list(node, st, sorted(ex, key=lambda x: it.known(x)[1]))
                except TypeError:
                    pass
            pos2, kw2 = callbacks(it, ca, st, node, it.term(v, st))
            return it.new_list(node, st, (), it.elem_of(v, st, node),
                               mk('call', 'builtins.sorted', (it.term(v, st),), tuple((k, it.term(x, st)) for k, x in sorted(kw2.items()))))
    if name == 'dict':
        d = it.new_dict(node, st)
        dc = DC()
        if pos:
            if isinstance(pos[0], Dct):
                dc = st.dc(pos[0].oid)
            else:
                ex = it.exact_iter(pos[0], st)
                if ex is not None and all(isinstance(x, Tup) and len(x.items) == 2 for x in ex):
                    for x in ex:
                        ok, k = it.known(x.items[0])
                        dc = dc.put(k if ok else it.term(x.items[0], st), x.items[1])
                elif isinstance(pos[0], Lst) and isinstance(it.elem_of(pos[0], st, node), Tup):
                    el = it.elem_of(pos[0], st, node)
                    dc = DC((), el.items[1], el.items[0])
                else:
                    t = it.term(pos[0], st)
                    dc = DC((), Sc(mk('elem', t)), Sc(mk('elem', mk('keys', t))))
        for k, v in kw.items():
            dc = dc.put(k, v)
        if ca.dstar is not None:
            t = it.term(ca.dstar, st)
            dc = DC(dc.items, Sc(mk('elem', t)), Sc(mk('elem', mk('keys', t))))
        st.set(('d', d.oid), dc)
        return d
    if name == 'isinstance' and len(pos) == 2:
        r = isinstance_(it, pos[0], pos[1], st)
        if r is not None:
            return Sc(const(r), kind='bool')
        t = mk('isinstance', it.term(pos[0], st), it.term(pos[1], st))
        return it.boolsc(t, False, st)
    if name == 'hasattr' and len(pos) == 2:
        ok, a = it.known(pos[1])
        v = pos[0]
        if ok and isinstance(v, Inst):
            from .interp import ABSENT
            x = st.get(('f', v.oid, a))
            if (x is not None and x is not ABSENT) or it.prog.find_method(v.cls, a) or it.prog.find_class_attr(v.cls, a):
                return Sc(const(True), kind='bool')
            if not st.get(('open', v.oid)):
                return Sc(const(False), kind='bool')
        return it.boolsc(mk('hasattr', it.term(v, st), it.term(pos[1], st)), False, st)
    if name == 'getattr' and len(pos) >= 2:
        ok, a = it.known(pos[1])
        if ok and isinstance(a, str):
            if len(pos) == 3:
                if isinstance(pos[0], (Inst, Cls)):
                    return it.getattr(pos[0], a, st, node, default=pos[2])
                v = it.getattr(pos[0], a, st, node)
                return it.join_vals(v, pos[2], (), (), ('ga', id(node)))
            return it.getattr(pos[0], a, st, node)
        return it.sc(mk('getattr', it.term(pos[0], st), it.term(pos[1], st)))
    if name == 'setattr' and len(pos) == 3:
        ok, a = it.known(pos[1])
        if ok:
            it.store_attr(pos[0], a, pos[2], st, node)
        elif isinstance(pos[0], Inst):
            it.emit('setattr', node, st, obj=pos[0], attr='*', value=pos[2], vterm=it.term(pos[2], st), old=None)
        return Sc(NONE)
    if name == 'delattr' and len(pos) == 2:
        ok, a = it.known(pos[1])
        if ok and isinstance(pos[0], Inst):
            from .interp import ABSENT
            st.set(('f', pos[0].oid, a), ABSENT)
        return Sc(NONE)
    if name == 'vars' and len(pos) == 1:
        return it.getattr(pos[0], '__dict__', st, node)
    if name == 'type' and len(pos) == 1:
        if isinstance(pos[0], Inst):
            return Cls(pos[0].cls)
        return Sc(mk('type', it.term(pos[0], st)))
    if name == 'map' and len(pos) >= 2:
        return do_map(it, pos[0], pos[1:], st, node)
    if name == 'filter' and len(pos) == 2:
        el = it.elem_of(pos[1], st, node)
        if not it.known(pos[0])[0]:
            c = it.call(pos[0], Args([el]), st, node)
            return it.new_list(node, st, (), el, mk('filter', it.term(pos[1], st), (it.term(c, st),)))
    if name in ('print',):
        return Sc(NONE)
    if name == 'callable' and pos:
        if isinstance(pos[0], (Fn, Bound, Part, Cls, Ext, Wrapped)):
            return Sc(const(True), kind='bool')
    if name in ('int', 'float', 'bool', 'str', 'abs', 'round', 'min', 'max', 'sum') and pos:
        vals = [it.known(x) for x in pos]
        if all(o for o, _ in vals) and not kw and name != 'sum' and (name not in ('min', 'max') or len(pos) > 1):
            try:
                import builtins as B
                r = getattr(B, name)(*[c for _, c in vals])
                return Sc(const(r), kind=kind_of_const(r))
            except Exception:
                pass
        if name == 'bool':
            r = it.truth(pos[0], st)
            if r is not None:
                return Sc(const(r), kind='bool')
            return Sc(it.term(pos[0], st), kind='bool')
        if name in ('int', 'float', 'str') and isinstance(pos[0], Sc) and pos[0].kind == name:
            return pos[0]
        if name == 'str' and isinstance(pos[0], Sc):
            return it.mkfstr([mk('fmt', it.term(pos[0], st), '')])
        return Sc(mk('call', 'builtins.' + name, PA(ca, st, it), KW(ca, st, it)), kind=name if name in ('int', 'float', 'str') else None)
    if name == 'object':
        return Sc(mk('object', it.site(node)))
    if name == 'next' and pos:
        ex = it.exact_iter(pos[0], st)
        if ex:
            return ex[0]
        return it.elem_of(pos[0], st, node)
    if name == 'dir' and pos:
        v = pos[0]
        if isinstance(v, (Fn, Cls, Bound)):
            return it.new_list(node, st, [Sc(const('__name__'), kind='str')])
        if isinstance(v, Part):
            return it.new_list(node, st, [Sc(const('func'), kind='str'), Sc(const('keywords'), kind='str')])
        if isinstance(v, Inst):
            names = list(it.fields(v, st)) + [m for c in it.prog.mro(v.cls) for m in c.methods]
            return it.new_list(node, st, [Sc(const(n), kind='str') for n in names])
    return None
