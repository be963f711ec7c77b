"""What importing a module does, by cases: the module-level statements are executed abstractly, with the optional packages present or absent and
every answer of a call into an optional package tried (including that it fails).  Values are tracked only as far as they decide imports:
booleans, modules, lists of names."""
import ast, builtins
PKG = 'pyebsdindex'
MODATTRS = {'__name__', '__file__', '__doc__', '__package__', '__path__', '__spec__', '__loader__', '__builtins__', '__dict__'}
UNK = ('unk', None)


class Err(Exception):
    def __init__(self, kind, msg, loc):
        super().__init__(msg)
        self.kind, self.msg, self.loc, self.chain = kind, msg, loc, []


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


KIND = {'ImportError': ('ImportError', 'Exception', 'BaseException'), 'ModuleNotFoundError': ('ModuleNotFoundError', 'ImportError', 'Exception', 'BaseException'),
        'NameError': ('NameError', 'Exception', 'BaseException'), 'AttributeError': ('AttributeError', 'Exception', 'BaseException'), 'DeviceError': ('Exception', 'BaseException', 'Error', 'LogicError', 'RuntimeError of pyopencl')}


def bound_in(n):
    """names bound by comprehensions and lambdas inside an expression"""
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.comprehension):
            out |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
        elif isinstance(x, ast.Lambda):
            out |= {a.arg for a in x.args.args + x.args.kwonlyargs + x.args.posonlyargs + [z for z in (x.args.vararg, x.args.kwarg) if z]}
        elif isinstance(x, ast.NamedExpr):
            out.add(x.target.id)
    return out


class World:
    def __init__(self, prog, optional, installed, choices):
        self.prog, self.optional, self.installed = prog, optional, installed
        self.choices, self.taken = choices, []
        self.mods, self.stack = {}, []

    def fork(self, what):
        i = len(self.taken)
        c = self.choices[i] if i < len(self.choices) else False
        self.taken.append((c, what))
        return c

    def loc(self, n):
        return '%s:%d' % (self.stack[-1].path, getattr(n, 'lineno', 0)) if self.stack else '?'

    # modules
    def load(self, name, node=None):
        """the namespace of a module of the package"""
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0], node)
        m = self.prog.modules.get(name)
        if m is None:
            raise Err('ModuleNotFoundError', 'no module %s' % name, self.loc(node))
        ns = self.mods[name] = {}
        self.stack.append(m)
        try:
            self.block(m.tree.body, ns, ns)
        except Err as e:
            del self.mods[name]
            e.chain.append(name)
            raise
        finally:
            self.stack.pop()
        if '.' in name:
            p, s = name.rsplit('.', 1)
            if p in self.mods:
                self.mods[p][s] = ('mod', name)
        return ns

    def external(self, dotted, node):
        root = dotted.split('.')[0]
        if root in self.optional and root not in self.installed:
            raise Err('ModuleNotFoundError', "'%s' is not installed" % root, self.loc(node))
        return ('ext', root)

    def st_import(self, s, ns):
        for a in s.names:
            if a.name.split('.')[0] == PKG:
                self.load(a.name, s)
                ns[a.asname or PKG] = ('mod', a.name if a.asname else PKG)
            else:
                v = self.external(a.name, s)
                ns[a.asname or a.name.split('.')[0]] = v

    def st_importfrom(self, s, ns):
        base = s.module or ''
        if s.level:
            m = self.stack[-1]
            parts = m.name.split('.')
            parts = parts[:len(parts) - s.level + (1 if m.ispkg else 0)]
            base = '.'.join(parts + ([base] if base else []))
        if base.split('.')[0] != PKG:
            v = self.external(base, s)
            for a in s.names:
                if a.name != '*':
                    ns[a.asname or a.name] = v
            return
        src = self.load(base, s)
        for a in s.names:
            if a.name == '*':
                al = src.get('__all__')
                names = al[1] if isinstance(al, tuple) and al[0] == 'names' else [k for k in src if not k.startswith('_')]
                for n in names:
                    if n not in src:
                        raise Err('AttributeError', 'module %s lists %s in __all__ but does not define it' % (base, n), self.loc(s))
                    ns[n] = src[n]
                continue
            if a.name in src:
                ns[a.asname or a.name] = src[a.name]
            elif base + '.' + a.name in self.prog.modules:
                self.load(base + '.' + a.name, s)
                ns[a.asname or a.name] = ('mod', base + '.' + a.name)
            else:
                raise Err('ImportError', 'cannot import name %s from %s' % (a.name, base), self.loc(s))

    # statements
    def block(self, body, ns, gl):
        for s in body:
            self.stmt(s, ns, gl)

    def stmt(self, s, ns, gl):
        if isinstance(s, ast.Import):
            return self.st_import(s, ns)
        if isinstance(s, ast.ImportFrom):
            return self.st_importfrom(s, ns)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.ev(d, ns, gl)
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                self.ev(d, ns, gl)
            for a in s.args.args + s.args.posonlyargs + s.args.kwonlyargs:
                if a.annotation is not None and not self.lazyannotations():
                    self.ev(a.annotation, ns, gl)
            if s.returns is not None and not self.lazyannotations():
                self.ev(s.returns, ns, gl)
            ns[s.name] = ('def', s.name)
        elif isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.ev(d, ns, gl)
            self.block(s.body, {}, _Chain(gl, ns))
            ns[s.name] = ('def', s.name)
        elif isinstance(s, ast.If):
            t = self.truth(self.ev(s.test, ns, gl))
            if t is None:
                t = self.fork('line %d' % s.lineno)
            self.block(s.body if t else s.orelse, ns, gl)
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.ev(s.iter, ns, gl)
                go = self.fork('line %d' % s.lineno)
            else:
                t = self.truth(self.ev(s.test, ns, gl))
                go = self.fork('line %d' % s.lineno) if t is None else t
            if go:
                try:
                    if isinstance(s, ast.For):
                        self.bind(s.target, UNK, ns)
                    self.block(s.body, ns, gl)
                except _Continue:
                    pass
                except _Break:
                    return
            self.block(s.orelse, ns, gl)
        elif isinstance(s, ast.Break):
            raise _Break()
        elif isinstance(s, ast.Continue):
            raise _Continue()
        elif isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            try:
                try:
                    self.block(s.body, ns, gl)
                except Err as e:
                    for h in s.handlers:
                        if self.takes(h, e):
                            if h.name:
                                ns[h.name] = UNK
                            self.block(h.body, ns, gl)
                            break
                    else:
                        raise
                else:
                    self.block(s.orelse, ns, gl)
            finally:
                self.block(s.finalbody, ns, gl)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.ev(i.context_expr, ns, gl)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, UNK, ns)
            supp = any('suppress' in ast.dump(i.context_expr) and ('ImportError' in ast.dump(i.context_expr) or "id='Exception'" in ast.dump(i.context_expr)) for i in s.items)
            try:
                self.block(s.body, ns, gl)
            except Err as e:
                if not supp:
                    raise
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, ns, gl)
            for t in s.targets:
                self.bind(t, v, ns, gl)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, ns, gl), ns, gl)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, ns, gl)
            if isinstance(s.target, ast.Name):
                o = ns.get(s.target.id, UNK)
                if s.target.id not in ns and s.target.id not in gl:
                    raise Err('NameError', 'name %s is not defined' % s.target.id, self.loc(s))
                ns[s.target.id] = ('names', o[1] + v[1]) if o[0] == v[0] == 'names' else UNK
        elif isinstance(s, ast.Raise):
            n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            n = getattr(n, 'id', getattr(n, 'attr', 'Exception'))
            raise Err(n, 'raised by the module', self.loc(s))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    ns.pop(t.id, None)
        elif isinstance(s, (ast.Expr, ast.Assert)):
            self.ev(s.value if isinstance(s, ast.Expr) else s.test, ns, gl)

    def lazyannotations(self):
        return any(isinstance(x, ast.ImportFrom) and x.module == '__future__' and any(a.name == 'annotations' for a in x.names) for x in self.stack[-1].tree.body)

    def takes(self, h, e):
        ts = [None] if h.type is None else (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])
        for t in ts:
            if t is None:
                return True
            if isinstance(t, ast.Name):
                if e.kind == 'DeviceError' and t.id not in ('Exception', 'BaseException'):
                    continue
                c, k = getattr(builtins, e.kind, Exception), getattr(builtins, t.id, None)
                if k is not None and isinstance(c, type) and isinstance(k, type) and issubclass(c, k):
                    return True
            elif isinstance(t, ast.Attribute) and t.attr in ('Error', 'LogicError') and e.kind == 'DeviceError':
                return True
        return False

    def bind(self, t, v, ns, gl=None):
        if isinstance(t, ast.Name):
            ns[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, UNK, ns, gl)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, UNK, ns, gl)
        elif gl is not None:
            self.ev(t.value, ns, gl)

    # expressions
    def truth(self, v):
        if v[0] == 'const':
            return bool(v[1])
        if v[0] in ('mod', 'def'):
            return True
        if v[0] == 'names':
            return bool(v[1])
        return None

    def ev(self, e, ns, gl, local=frozenset()):
        if isinstance(e, ast.Constant):
            return ('const', e.value)
        if isinstance(e, ast.Name):
            if e.id in local:
                return UNK
            if e.id in ns:
                return ns[e.id]
            if e.id in gl:
                return gl[e.id]
            if hasattr(builtins, e.id) or e.id in MODATTRS or e.id in ('__qualname__', '__module__', '__class__'):
                return UNK
            raise Err('NameError', 'name %s is not defined' % e.id, self.loc(e))
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            v = None
            for x in e.values:
                v = self.ev(x, ns, gl, local)
                t = self.truth(v)
                if t is None:
                    t = self.fork('line %d' % e.lineno)
                    v = ('const', t)
                if t != isand:
                    return v
            return v
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(self.ev(e.operand, ns, gl, local))
            return UNK if t is None else ('const', not t)
        if isinstance(e, ast.IfExp):
            t = self.truth(self.ev(e.test, ns, gl, local))
            if t is None:
                t = self.fork('line %d' % e.lineno)
            return self.ev(e.body if t else e.orelse, ns, gl, local)
        if isinstance(e, ast.Compare):
            vs = [self.ev(x, ns, gl, local) for x in [e.left] + e.comparators]
            if len(vs) == 2:
                a, b = vs
                if isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                    r = None
                    if a[0] == 'const' and b[0] == 'const':
                        r = a[1] == b[1]
                    elif b == ('const', None) and a[0] in ('mod', 'def', 'ext', 'names'):
                        r = False
                    if r is not None:
                        return ('const', r if isinstance(e.ops[0], (ast.Is, ast.Eq)) else not r)
            return UNK
        if isinstance(e, (ast.List, ast.Tuple)):
            vs = [self.ev(x, ns, gl, local) for x in e.elts]
            if all(v[0] == 'const' and isinstance(v[1], str) for v in vs):
                return ('names', tuple(v[1] for v in vs))
            if isinstance(e, ast.List) and any(isinstance(x, ast.Starred) for x in e.elts):
                out = ()
                for x, v in zip(e.elts, vs):
                    if isinstance(x, ast.Starred):
                        v = self.ev(x.value, ns, gl, local)
                        if v[0] != 'names':
                            return UNK
                        out += v[1]
                    elif v[0] == 'const':
                        out += (v[1],)
                return ('names', out)
            return UNK
        if isinstance(e, ast.Starred):
            self.ev(e.value, ns, gl, local)
            return UNK
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, ns, gl, local), self.ev(e.right, ns, gl, local)
            if isinstance(e.op, ast.Add) and a[0] == b[0] == 'names':
                return ('names', a[1] + b[1])
            return UNK
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value, ns, gl, local)
            if v[0] == 'mod':
                m = self.mods.get(v[1], {})
                if e.attr in m:
                    return m[e.attr]
                if e.attr in MODATTRS:
                    return UNK
                raise Err('AttributeError', 'module %s has no attribute %s' % (v[1], e.attr), self.loc(e))
            return v if v[0] == 'ext' else UNK
        if isinstance(e, ast.Call):
            f = self.ev(e.func, ns, gl, local)
            vs = [self.ev(a, ns, gl, local) for a in e.args] + [self.ev(k.value, ns, gl, local) for k in e.keywords]
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.attr in ('append', 'extend') and len(vs) == 1:
                d = ns if e.func.value.id in ns else gl
                o = d.get(e.func.value.id, UNK)
                if o[0] == 'names':
                    d[e.func.value.id] = ('names', o[1] + ((vs[0][1],) if e.func.attr == 'append' else vs[0][1])) if vs[0][0] in ('const', 'names') else UNK
            if f[0] == 'ext' and f[1] in self.optional or f[0] == 'unk' and f[1] in self.optional:
                if f[1] == 'pyopencl' and self.fork('failure at line %d' % e.lineno):
                    raise Err('DeviceError', 'a device query fails', self.loc(e))
                return ('unk', f[1])
            if isinstance(e.func, ast.Name) and e.func.id in ('bool',) and len(vs) == 1:
                t = self.truth(vs[0])
                return UNK if t is None else ('const', t)
            return self.libcall(e, f, vs)
        if isinstance(e, ast.Lambda):
            return ('def', 'lambda')
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, ns, gl, local)
            self.ev(e.slice, ns, gl, local)
            return ('unk', v[1]) if v[0] in ('ext', 'unk') else UNK
        loc2 = set(local) | bound_in(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, ns, gl, loc2)
            elif isinstance(c, ast.comprehension):
                for x in [c.iter] + c.ifs:
                    self.ev(x, ns, gl, loc2)
            elif isinstance(c, ast.keyword):
                self.ev(c.value, ns, gl, loc2)
        return UNK

    def libcall(self, e, f, vs):
        """importlib.util.find_spec('x') tells whether x is there"""
        n = ast.unparse(e.func)
        if n.endswith('find_spec') and vs and vs[0][0] == 'const' and isinstance(vs[0][1], str):
            r = vs[0][1].split('.')[0]
            if r in self.optional:
                return ('def', r) if r in self.installed else ('const', None)
        if n.endswith('import_module') and vs and vs[0][0] == 'const' and isinstance(vs[0][1], str):
            if vs[0][1].split('.')[0] == PKG:
                self.load(vs[0][1], e)
                return ('mod', vs[0][1])
            return self.external(vs[0][1], e)
        if f[0] == 'def' and isinstance(e.func, ast.Name):
            r = self.helper(e.func.id, e)
            if r is not None:
                return r
        return UNK

    def helper(self, name, e):
        """a module-level call of one of the module's own functions: executed when it needs no arguments"""
        m = self.stack[-1]
        fs = [x for x in m.tree.body if isinstance(x, ast.FunctionDef) and x.name == name]
        if len(fs) != 1 or e.args or e.keywords or fs[0].args.args or fs[0].args.vararg or len(self.stack) > 40:
            return None
        gl = self.mods[m.name]
        g = [n for x in ast.walk(fs[0]) if isinstance(x, ast.Global) for n in x.names]
        loc = _Local(gl, g)
        try:
            self.fblock(fs[0].body, loc, gl)
        except _Return as r:
            return r.v
        return ('const', None)

    def fblock(self, body, ns, gl):
        old, self.stmt = self.stmt, self._fstmt(self.stmt)
        try:
            self.block(body, ns, gl)
        finally:
            self.stmt = old

    def _fstmt(self, base):
        def st(s, ns, gl):
            if isinstance(s, ast.Return):
                raise _Return(('const', None) if s.value is None else self.ev(s.value, ns, gl))
            return base(s, ns, gl)
        return st


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Local(dict):
    def __init__(self, gl, names):
        self.gl, self.names_ = gl, set(names)

    def __setitem__(self, k, v):
        if k in self.names_:
            self.gl[k] = v
        else:
            dict.__setitem__(self, k, v)


class _Chain(dict):
    """the names visible in a class body"""

    def __init__(self, gl, ns):
        super().__init__(gl)
        self.update(ns)


def worlds(prog, optional, installed, entry, limit=4000):
    """every way importing entry can go: (namespaces or None, error, decisions)"""
    todo, n = [()], 0
    while todo:
        ch = todo.pop()
        w = World(prog, optional, installed, ch)
        err = None
        try:
            w.load(entry)
        except Err as e:
            err = e
        except (_Break, _Continue):
            err = Err('SyntaxError', 'break outside a loop', '?')
        n += 1
        for i in range(len(ch), len(w.taken)):
            todo.append(tuple(c for c, _ in w.taken[:i]) + (not w.taken[i][0],))
        yield w, err
        if n > limit:
            raise RuntimeError('too many cases')


def deadcode(test, ns):
    """the value of a test on module globals that are fixed when the module is imported"""
    if isinstance(test, ast.Name) and test.id in ns and ns[test.id][0] == 'const':
        return bool(ns[test.id][1])
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        r = deadcode(test.operand, ns)
        return None if r is None else not r
    if isinstance(test, ast.BoolOp):
        rs = [deadcode(v, ns) for v in test.values]
        if isinstance(test.op, ast.And):
            return False if False in rs else (True if all(r is True for r in rs) else None)
        return True if True in rs else (False if all(r is False for r in rs) else None)
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.left.id in ns and ns[test.left.id][0] == 'const':
        r = ns[test.left.id][1] == test.comparators[0].value
        if isinstance(test.ops[0], (ast.Eq, ast.Is)):
            return r
        if isinstance(test.ops[0], (ast.NotEq, ast.IsNot)):
            return not r
    if isinstance(test, ast.Attribute) and isinstance(test.value, ast.Name) and False:
        return None
    return None


def missing(fn, ns, absent):
    """global names a function body uses that the module does not define, and optional packages it imports where absent: (node, name)"""
    loc = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.arg):
            loc.add(x.arg)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            loc.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn:
            loc.add(x.name)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            loc.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            loc |= {(a.asname or a.name.split('.')[0]) for a in x.names}
    glob = {n for x in ast.walk(fn) if isinstance(x, ast.Global) for n in x.names}
    loc -= glob
    out = []

    def go(n, safe):
        if isinstance(n, (ast.If, ast.IfExp)):
            go(n.test, safe)
            d = None if {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)} & loc else deadcode(n.test, ns)
            for part, skip in ((n.body, d is False), (n.orelse, d is True)):
                if not skip:
                    for x in part if isinstance(part, list) else [part]:
                        go(x, safe)
            return
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.And):
            for v in n.values:
                if not {x.id for x in ast.walk(v) if isinstance(x, ast.Name)} & loc and deadcode(v, ns) is False:
                    return
                go(v, safe)
            return
        if isinstance(n, ast.Try):
            s2 = safe or any(h.type is None or any(y in ast.dump(h.type) for y in ("'ImportError'", "'Exception'", "'NameError'", "'BaseException'", "'ModuleNotFoundError'")) for h in n.handlers)
            for x in n.body:
                go(x, s2)
            for h in n.handlers:
                for x in h.body:
                    go(x, safe)
            for x in n.orelse + n.finalbody:
                go(x, safe)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)) and not safe:
            names = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module or '']
            for m in names:
                if m.split('.')[0] in absent:
                    out.append((n, m.split('.')[0]))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and not safe and n.id not in loc and n.id not in ns and not hasattr(builtins, n.id) and n.id not in MODATTRS and n.id not in ('__class__',):
            out.append((n, n.id))
        for c in ast.iter_child_nodes(n):
            go(c, safe)
    for s in fn.body:
        go(s, False)
    return out
