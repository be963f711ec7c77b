"""The resolved program: modules, imports, functions, classes of the package."""
import ast, os, hashlib

PKG = 'pyebsdindex'


class AnalysisError(Exception):
    """anchor vanished / construct not analysable: the check must not answer"""


class Func:
    __slots__ = ('qual', 'node', 'module', 'cls', 'parent', 'decorators', 'nested')

    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.nested = {}
        self.decorators = []

    @property
    def static(self):
        return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in self.node.decorator_list)

    @property
    def isclassmethod(self):
        return any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in self.node.decorator_list)

    @property
    def isproperty(self):
        return any(isinstance(d, ast.Name) and d.id == 'property' for d in self.node.decorator_list)

    def loc(self, node=None):
        n = node or self.node
        return '%s:%d' % (self.module.path, getattr(n, 'lineno', 0))

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


class Class:
    __slots__ = ('qual', 'node', 'module', 'methods', 'bases', 'attrs')

    def __init__(self, qual, node, module):
        self.qual = qual
        self.node = node
        self.module = module
        self.methods = {}
        self.bases = []
        self.attrs = {}


class Module:
    __slots__ = ('name', 'path', 'tree', 'src', 'names', 'assigns', 'ispkg', 'imports')

    def __init__(self, name, path, tree, src, ispkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.names = {}      # name -> ('func', Func) | ('class', Class) | ('module', name) | ('ext', dotted) | ('assign', [nodes]) | ('from', mod, name)
        self.assigns = {}
        self.ispkg = ispkg
        self.imports = []


class Program:
    def __init__(self, repo='/repo', skip=('tests',), overlay=None):
        self.repo = repo
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.files = []
        self.overlay = overlay or {}
        base = os.path.join(repo, PKG)
        if not os.path.isdir(base):
            raise AnalysisError('package directory %s is missing' % base)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in skip and not d.startswith('.') and d != '__pycache__')
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, repo)
                parts = rel[:-3].split(os.sep)
                ispkg = parts[-1] == '__init__'
                if ispkg:
                    parts = parts[:-1]
                src = self.read(rel)
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (rel, e))
                self.add(Module('.'.join(parts), rel, tree, src, ispkg))
        self.digest = hashlib.sha256('\0'.join(m.name + m.src for m in self.modules.values()).encode()).hexdigest()

    def read(self, rel):
        if rel in self.overlay:
            return self.overlay[rel]
        try:
            with open(os.path.join(self.repo, rel), encoding='utf8') as fh:
                return fh.read()
        except OSError as e:
            raise AnalysisError('cannot read %s: %s' % (rel, e))

    def add(self, m):
        self.modules[m.name] = m
        self.files.append(m.path)
        self._collect(m, m.tree.body, m.names)

    def _collect(self, m, body, names):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m.name + '.' + st.name, st, m)
                self._func(f)
                names[st.name] = ('func', f)
            elif isinstance(st, ast.ClassDef):
                c = Class(m.name + '.' + st.name, st, m)
                self.classes[c.qual] = c
                names[st.name] = ('class', c)
                for s in st.body:
                    if isinstance(s, ast.FunctionDef):
                        f = Func(c.qual + '.' + s.name, s, m, c)
                        self._func(f)
                        c.methods[s.name] = f
                    elif isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = s.value
                    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                        c.attrs[s.target.id] = s.value
            elif isinstance(st, ast.Import):
                m.imports.append(st)
                for a in st.names:
                    self._bindimport(m, names, a.name, a.asname)
            elif isinstance(st, ast.ImportFrom):
                m.imports.append(st)
                src = self._fromsrc(m, st)
                for a in st.names:
                    names.setdefault('*imports', [])
                    if a.name == '*':
                        names.setdefault('*star', []).append(src)
                    else:
                        self._bindfrom(names, a.asname or a.name, src, a.name)
            elif isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in ts:
                    for nm in ast.walk(t):
                        if isinstance(nm, ast.Name) and isinstance(nm.ctx, ast.Store):
                            names.setdefault(nm.id, ('assign', []))
                            if names[nm.id][0] == 'assign':
                                names[nm.id][1].append(st)
                            else:
                                names[nm.id] = ('assign', [st])
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for fld in ('body', 'orelse', 'finalbody'):
                    self._collect(m, getattr(st, fld, []) or [], names)
                for h in getattr(st, 'handlers', []):
                    self._collect(m, h.body, names)

    def _bindimport(self, m, names, name, asname):
        if asname:
            names[asname] = ('mod', name)
        else:
            names[name.split('.')[0]] = ('mod', name.split('.')[0])

    def _bindfrom(self, names, local, src, name):
        names[local] = ('from', src, name)

    def _fromsrc(self, m, st):
        if st.level:
            base = m.name.split('.')
            if not m.ispkg:
                base = base[:-1]
            base = base[:len(base) - (st.level - 1)]
            return '.'.join(base + ([st.module] if st.module else []))
        return st.module

    def _func(self, f):
        self.funcs[f.qual] = f
        for n in ast.walk(f.node):
            if isinstance(n, (ast.FunctionDef,)) and n is not f.node:
                q = f.qual + '.<locals>.' + n.name
                if q not in self.funcs:
                    g = Func(q, n, f.module, None, f)
                    self.funcs[q] = g
                    f.nested[n.name] = g

    # ------------------------------------------------------------ resolution
    def lookup(self, modname, name, seen=()):
        """-> ('func',Func) ('class',Class) ('module',Module) ('ext',dotted) ('assign',Module,[nodes]) or None"""
        m = self.modules.get(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        if (modname, name) in seen:
            return None
        seen = seen + ((modname, name),)
        b = m.names.get(name)
        if b is None:
            sub = modname + '.' + name
            for src in m.names.get('*star', []):
                r = self.lookup(src, name, seen)
                if r is not None:
                    return r
            if sub in self.modules:
                return ('module', self.modules[sub])
            return None
        if b[0] in ('func', 'class'):
            return b
        if b[0] == 'assign':
            return ('assign', m, b[1])
        if b[0] == 'mod':
            if b[1] in self.modules:
                return ('module', self.modules[b[1]])
            return ('ext', b[1])
        if b[0] == 'from':
            src, nm = b[1], b[2]
            if src in self.modules:
                if src + '.' + nm in self.modules and nm not in self.modules[src].names:
                    return ('module', self.modules[src + '.' + nm])
                r = self.lookup(src, nm, seen)
                if r is None and src + '.' + nm in self.modules:
                    return ('module', self.modules[src + '.' + nm])
                return r
            return ('ext', src + '.' + nm)
        return None

    def mro(self, cls):
        out = [cls]
        todo = list(cls.node.bases)
        for b in todo:
            r = None
            if isinstance(b, ast.Name):
                r = self.lookup(cls.module.name, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                mm = self.lookup(cls.module.name, b.value.id)
                if mm and mm[0] == 'module':
                    r = self.lookup(mm[1].name, b.attr)
            if r and r[0] == 'class':
                for c in self.mro(r[1]):
                    if c not in out:
                        out.append(c)
        return out

    def extbases(self, cls):
        out = []
        for c in self.mro(cls):
            for b in c.node.bases:
                if isinstance(b, ast.Name):
                    r = self.lookup(c.module.name, b.id)
                    if r is None or r[0] != 'class':
                        if b.id != 'object':
                            out.append(b)
                else:
                    r = None
                    if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                        mm = self.lookup(c.module.name, b.value.id)
                        if mm and mm[0] == 'module':
                            r = self.lookup(mm[1].name, b.attr)
                    if not (r and r[0] == 'class'):
                        out.append(b)
        return out

    def method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def classattr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def func(self, qual):
        f = self.funcs.get(qual) or self.funcs.get(PKG + '.' + qual)
        if f is None:
            # an inherited method named through a subclass
            head, _, nm = qual.rpartition('.')
            c = self.classes.get(head) or self.classes.get(PKG + '.' + head)
            if c is not None:
                f = self.method(c, nm)
        if f is None:
            # moved behind a re-export
            head, _, nm = (PKG + '.' + qual if not qual.startswith(PKG) else qual).rpartition('.')
            r = self.lookup(head, nm) if head in self.modules else None
            if r and r[0] == 'func':
                f = r[1]
        if f is None:
            raise AnalysisError('anchor vanished: function %s' % qual)
        return f

    def cls(self, qual):
        c = self.classes.get(qual) or self.classes.get(PKG + '.' + qual)
        if c is None:
            raise AnalysisError('anchor vanished: class %s' % qual)
        return c

    def subclasses(self, cls):
        return [c for c in self.classes.values() if cls in self.mro(c) and c is not cls]
