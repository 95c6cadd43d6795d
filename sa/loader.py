"""Loads every module of the analysed package and resolves imports, classes and methods (no execution)."""
from __future__ import annotations
import ast
import os


class AnalysisError(Exception):
    """The analysis itself cannot give a verdict (missing anchor, unparsable source)."""


REPO = os.environ.get('SA_REPO', '/repo')
PKG = 'pyforecaster'


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.rel = os.path.relpath(path, REPO)
        self.bindings = {}     # name -> ('def'|'class'|'import'|'from'|'assign', node/extra)
        self.is_pkg = os.path.basename(path) == '__init__.py'

    def __repr__(self):
        return '<module %s>' % self.name


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.methods = {}
        self.setters = {}
        self.attrs = {}        # class-level assignments: name -> expr (None for a bare annotation)
        self.order = []
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in st.decorator_list):
                    self.setters[st.name] = st
                else:
                    self.methods[st.name] = st
            elif isinstance(st, ast.Assign):
                for tg in st.targets:
                    if isinstance(tg, ast.Name):
                        self.attrs[tg.id] = st.value
                        self.order.append(tg.id)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st.value
                self.order.append(st.target.id)
        self._mro = None
        self.ext_bases = []

    @property
    def qual(self):
        return self.module.name + '.' + self.name

    def __repr__(self):
        return '<class %s>' % self.name


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.consulted = set()
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisError('package %s not found' % root)
        for d, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(x for x in dirs if not x.startswith(('.', '__')))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, '.')
                name = rel[:-9] if rel.endswith('.__init__') else rel
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (p, e))
                m = Module(name, p, tree, src)
                m.rel = os.path.relpath(p, self.repo)
                self.modules[name] = m
        for m in self.modules.values():
            self._bind(m)
        self.classes = {}
        for m in self.modules.values():
            for nm, (k, v) in list(m.bindings.items()):
                if k == 'class':
                    self.classes[m.name + '.' + nm] = ClassInfo(nm, v, m)
        self._parents = None

    # -- name binding ---------------------------------------------------------------------------
    def _bind(self, m):
        def visit(stmts):
            for st in stmts:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.bindings[st.name] = ('def', st)
                elif isinstance(st, ast.ClassDef):
                    m.bindings[st.name] = ('class', st)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            m.bindings[a.asname] = ('import', a.name)
                        else:
                            m.bindings[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
                elif isinstance(st, ast.ImportFrom):
                    base = self.resolve_from(m, st)
                    for a in st.names:
                        m.bindings[a.asname or a.name] = ('from', (base, a.name))
                elif isinstance(st, ast.Assign):
                    for tg in st.targets:
                        if isinstance(tg, ast.Name):
                            m.bindings[tg.id] = ('assign', st.value)
                        elif isinstance(tg, (ast.Tuple, ast.List)):
                            for i, e in enumerate(tg.elts):
                                if isinstance(e, ast.Name):
                                    m.bindings[e.id] = ('unpack', (st.value, i))
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    m.bindings[st.target.id] = ('assign', st.value)
                elif isinstance(st, (ast.If, ast.Try, ast.With)):
                    visit(st.body)
                    for h in getattr(st, 'handlers', []):
                        visit(h.body)
                    visit(getattr(st, 'orelse', []))
                    visit(getattr(st, 'finalbody', []))
        visit(m.tree.body)

    def resolve_from(self, m, st):
        if st.level == 0:
            return st.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        return '.'.join(parts + ([st.module] if st.module else []))

    def lookup(self, modname, name, _seen=()):
        """Resolve a global: ('def', Module, node) | ('class', ClassInfo) | ('module', name) | ('ext', path)
        | ('assign', Module, expr) | ('unpack', Module, (expr, i)) | None"""
        m = self.modules.get(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        if (modname, name) in _seen:
            return None
        b = m.bindings.get(name)
        if b is None:
            sub = modname + '.' + name
            if sub in self.modules:
                return ('module', sub)
            return None
        k, v = b
        if k == 'def':
            return ('def', m, v)
        if k == 'class':
            return ('class', self.classes[modname + '.' + name])
        if k == 'import':
            return ('module', v) if v in self.modules else ('ext', v)
        if k == 'from':
            base, nm = v
            if base in self.modules:
                r = self.lookup(base, nm, _seen + ((modname, name),))
                if r is not None:
                    return r
                if base + '.' + nm in self.modules:
                    return ('module', base + '.' + nm)
                return ('ext', base + '.' + nm)
            if base + '.' + nm in self.modules:
                return ('module', base + '.' + nm)
            return ('ext', (base + '.' + nm) if base else nm)
        if k == 'assign':
            return ('assign', m, v)
        if k == 'unpack':
            return ('unpack', m, v)
        return None

    # -- classes --------------------------------------------------------------------------------
    def class_named(self, name, module=None):
        c = [x for x in self.classes.values() if x.name == name and (module is None or x.module.name == module)]
        return c[0] if c else None

    def need_class(self, name, module=None):
        c = self.class_named(name, module)
        if c is None:
            raise AnalysisError('anchor class %s not found in the package' % name)
        return c

    def need_func(self, modname, name):
        r = self.lookup(modname, name)
        if r is None or r[0] != 'def':
            raise AnalysisError('anchor function %s.%s not found' % (modname, name))
        return r

    def base_refs(self, ci):
        """Bases as ClassInfo or external dotted path."""
        out = []
        for b in ci.node.bases:
            out.append(self._resolve_expr(ci.module, b))
        return [b for b in out if b is not None]

    def _resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            r = self.lookup(m.name, e.id)
            if r is None:
                return 'builtins.' + e.id
            if r[0] == 'class':
                return r[1]
            if r[0] == 'ext':
                return r[1]
            if r[0] == 'module':
                return r[1]
            return None
        if isinstance(e, ast.Attribute):
            b = self._resolve_expr(m, e.value)
            if isinstance(b, str):
                if b in self.modules:
                    r = self.lookup(b, e.attr)
                    if r and r[0] == 'class':
                        return r[1]
                    if r and r[0] in ('ext', 'module'):
                        return r[1]
                    return None
                return b + '.' + e.attr
        return None

    def mro(self, ci):
        if ci._mro is not None:
            return ci._mro

        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in t if x is not h] for t in seqs]
                seqs = [t for t in seqs if t]
            return out
        bases = [b for b in self.base_refs(ci) if isinstance(b, ClassInfo)]
        ci._mro = [ci] + merge([self.mro(b) for b in bases] + [bases])
        return ci._mro

    def ext_bases(self, ci):
        out = []
        for c in self.mro(ci):
            out += [b for b in self.base_refs(c) if isinstance(b, str)]
        return out

    def find_method(self, ci, name, after=None):
        """(defining class, FunctionDef) following the MRO (strictly after `after` for super())."""
        mro = self.mro(ci)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if name in c.methods:
                return c, c.methods[name]
        return None

    def find_class_attr(self, ci, name):
        for c in self.mro(ci):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def subclasses(self, ci, strict=False):
        return [c for c in self.classes.values() if ci in self.mro(c) and not (strict and c is ci)]

    def func_at(self, module, lineno):
        best = None
        for n in ast.walk(module.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.lineno <= lineno <= (n.end_lineno or n.lineno):
                if best is None or n.lineno >= best.lineno:
                    best = n
        return best
