"""Name, attribute and call resolution over the package: scopes from the symbol table, light type inference for the package's own classes
(constructors, attributes assigned from constructors, documented parameters, call sites), and the package's own signatures."""
import ast, builtins, re, symtable

BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__builtins__', '__class__', '__qualname__', '__module__'}
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
# what the package's own variable names stand for where nothing else says so: (module suffix, name pattern) -> class
CONVENTION = [('', r'(ebsd_)?indexer(_obj)?', '_ebsd_index_single.EBSDIndexer'), ('', r'(self\.)?(clparams?|openCLParams)', 'opencl.openclparam.OpenClParam'),
              ('_ebsd_index_parallel', r'[gc]?job', '_ebsd_index_parallel.CPUGPUJob'), ('opencl.nlpar_clray', r'(gpu)?job', 'opencl.nlpar_clray.NLPARGPUJob'),
              ('opencl.nlpar_clray', r'nlparobj', 'opencl.nlpar_clray.NLPAR')]


class Scope:
    """bindings of one function or module body"""

    def __init__(self, node, kind, parent, module, cls=None):
        self.node, self.kind, self.parent, self.module, self.cls = node, kind, parent, module, cls
        self.bind = {}          # name -> list of ('param'|'assign'|'import'|'other'|'def'|'class', payload)
        self.globals = set()
        self.nonlocals = set()
        self.types = {}

    def add(self, name, what, payload=None):
        self.bind.setdefault(name, []).append((what, payload))


def own(node):
    """child nodes of a scope body, not descending into nested scopes (which are yielded themselves)"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, SCOPES):
            # decorators, defaults and the first iterable are evaluated outside
            if isinstance(n, FUNCS):
                a = n.args
                todo += [d for d in a.defaults + a.kw_defaults if d is not None]
                todo += getattr(n, 'decorator_list', [])
            elif isinstance(n, ast.ClassDef):
                todo += n.bases + [k.value for k in n.keywords] + n.decorator_list
            else:
                todo.append(n.generators[0].iter)
            continue
        todo += list(ast.iter_child_nodes(n))


class Resolver:
    def __init__(self, prog):
        self.prog = prog
        self.scopes = {}        # node -> Scope
        self.of = {}            # any expression node -> Scope
        self.attrdefs = {}      # class qual -> set of attribute names
        self.foreign = set()    # attribute names stored on anything but self
        self.busy = set()
        self.cache = {}
        for m in prog.modules.values():
            self.build(m.tree, 'module', None, m)
        for s in self.scopes.values():
            for n in own(s.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if isinstance(n.value, ast.Name) and n.value.id == 'self':
                        c = self.selfclass(s)
                        if c is not None:
                            self.attrdefs.setdefault(c.qual, set()).add(n.attr)
                            continue
                    self.foreign.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3:
                    if isinstance(n.args[1], ast.Constant):
                        self.foreign.add(n.args[1].value)
                    else:
                        self.foreign.add('*')
        self.stores = {}        # attribute name -> [(target, value or None, scope)]
        for s in self.scopes.values():
            for n in own(s.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute):
                            self.stores.setdefault(t.attr, []).append((t, n.value, s))
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for x in ast.walk(t):
                                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                    self.stores.setdefault(x.attr, []).append((x, None, s))

    # ------------------------------------------------------------ scopes
    def build(self, node, kind, parent, m, cls=None):
        s = Scope(node, kind, parent, m, cls)
        self.scopes[node] = s
        if kind == 'func':
            a = node.args
            for i, x in enumerate(a.posonlyargs + a.args):
                s.add(x.arg, 'param', i)
            for x in a.kwonlyargs:
                s.add(x.arg, 'param', -1)
            for x in (a.vararg, a.kwarg):
                if x:
                    s.add(x.arg, 'other')
        simple = {}
        for n in own(node):
            self.of[n] = s
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        simple[t] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                simple[n.target] = n.value
            elif isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name):
                simple[n.optional_vars] = ('with', n.context_expr)
        for n in own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if n in simple and not isinstance(simple[n], tuple):
                    s.add(n.id, 'assign', simple[n])
                else:
                    s.add(n.id, 'other')
            elif isinstance(n, ast.Import):
                for a in n.names:
                    s.add(a.asname or a.name.split('.')[0], 'import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                src = self.prog._fromsrc(m, n)
                for a in n.names:
                    if a.name == '*':
                        s.add('*', 'star', src)
                    else:
                        s.add(a.asname or a.name, 'from', (src, a.name))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                s.add(n.name, 'def', n)
            elif isinstance(n, ast.ClassDef):
                s.add(n.name, 'class', n)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                s.add(n.name, 'other')
            elif isinstance(n, ast.Global):
                s.globals |= set(n.names)
            elif isinstance(n, ast.Nonlocal):
                s.nonlocals |= set(n.names)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                s.add(n.name, 'other')
        for n in own(node):
            if isinstance(n, FUNCS):
                self.build(n, 'func', s, m, cls if kind == 'class' else None)
            elif isinstance(n, ast.ClassDef):
                c = self.prog.classes.get(m.name + '.' + n.name) if kind == 'module' else None
                self.build(n, 'class', s, m, c)
            elif isinstance(n, SCOPES):
                self.build(n, 'comp', s, m)

    def modscope(self, s):
        while s.parent is not None:
            s = s.parent
        return s

    def selfclass(self, s):
        while s is not None:
            if s.kind == 'func' and s.cls is not None:
                return s.cls
            s = s.parent
        return None

    def where(self, name, s):
        """scope that binds the name, or None"""
        first = True
        while s is not None:
            if s.kind == 'func' and name in s.globals:
                s = self.modscope(s)
                return s if self.ismodname(name, s) else None
            if name in s.bind and not (s.kind == 'class' and not first) and name not in s.nonlocals:
                return s
            if s.kind == 'module' and self.ismodname(name, s):
                return s
            first = False
            s = s.parent
        return None

    def ismodname(self, name, s):
        if name in s.bind:
            return True
        for w, src in s.bind.get('*', ()):
            if src not in self.prog.modules:
                return True          # star import of something external
            if self.ismodname(name, self.scopes[self.prog.modules[src].tree]) and not name.startswith('_'):
                return True
        # assigned through a global statement
        if not hasattr(s, 'glob'):
            s.glob = set()
            for t in self.scopes.values():
                if t.module is s.module:
                    s.glob |= {g for g in t.globals if g in t.bind}
        return name in s.glob

    # ------------------------------------------------------------ kinds
    def kind(self, e, s, depth=0):
        """('inst', classes) ('class', C) ('func', F) ('bound', [F]) ('module', M) ('ext', dotted) or None"""
        if depth > 12:
            return None
        if isinstance(e, ast.Name):
            w = self.where(e.id, s)
            return None if w is None else self.nkind(e.id, w, depth) or self.convention(e.id, s)
        if isinstance(e, ast.Attribute):
            b = self.kind(e.value, s, depth + 1)
            return self.akind(b, e.attr, depth)
        if isinstance(e, ast.Call):
            f = self.kind(e.func, s, depth + 1)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('remote', 'options') and f is None:
                b = self.kind(e.func.value, s, depth + 1)
                if b and b[0] == 'class':
                    return ('class', b[1]) if e.func.attr == 'options' else ('actor', b[1])
                if b and b[0] == 'ext':
                    return b if e.func.attr == 'options' else None
                return None
            if f is None:
                return None
            if f[0] == 'class':
                return ('inst', (f[1],))
            if f[0] == 'classes':
                return ('inst', f[1])
            if f[0] == 'func':
                return self.rkind(f[1], depth + 1)
            if f[0] == 'bound':
                ks = {self.rkind(g, depth + 1) for g in f[1]}
                return ks.pop() if len(ks) == 1 else None
            if f[0] == 'ext' and f[1] in ('copy.copy', 'copy.deepcopy') and e.args:
                return self.kind(e.args[0], s, depth + 1)
            return None
        if isinstance(e, ast.IfExp):
            return self.join([self.kind(e.body, s, depth + 1) if not isnone(e.body) else 'none', self.kind(e.orelse, s, depth + 1) if not isnone(e.orelse) else 'none'])
        return None

    def convention(self, name, s):
        for mod, pat, cl in CONVENTION:
            if s.module.name.endswith(mod) and re.fullmatch(pat, name):
                c = self.prog.classes.get('pyebsdindex.' + cl)
                return ('inst', (c,)) if c is not None else None
        return None

    def join(self, ks):
        ks = [k for k in ks if k != 'none']
        if not ks or any(k is None for k in ks):
            return None
        if all(k[0] == 'inst' for k in ks):
            return ('inst', tuple(sorted({c for k in ks for c in k[1]}, key=lambda c: c.qual)))
        if len(set(ks)) > 1 and all(k[0] in ('class', 'classes') for k in ks):
            return ('classes', tuple(sorted({c for k in ks for c in (k[1] if k[0] == 'classes' else (k[1],))}, key=lambda c: c.qual)))
        if len(set(ks)) > 1 and all(k[0] in ('module', 'modules') for k in ks):
            return ('modules', tuple(sorted({c for k in ks for c in (k[1] if k[0] == 'modules' else (k[1],))}, key=lambda c: c.name)))
        return ks[0] if len(set(ks)) == 1 else None

    def nkind(self, name, w, depth):
        key = (name, w)
        if key in self.cache:
            return self.cache[key]
        if key in self.busy:
            return None
        self.busy.add(key)
        try:
            r = self.nkind_(name, w, depth)
        finally:
            self.busy.discard(key)
        self.cache[key] = r
        return r

    def nkind_(self, name, w, depth):
        ks = []
        if name not in w.bind:
            if w.kind == 'module':
                r = self.prog.lookup(w.module.name, name)
                return self.pk(r)
            return None
        for what, p in w.bind[name]:
            if what == 'param':
                ks.append(self.pkind(name, p, w, depth))
            elif what == 'assign':
                ks.append('none' if isnone(p) else self.kind(p, w, depth + 1))
            elif what == 'import':
                ks.append(('module', self.prog.modules[p]) if p in self.prog.modules else ('ext', p))
            elif what == 'from':
                src, nm = p
                if src in self.prog.modules:
                    r = self.prog.lookup(src, nm)
                    ks.append(self.pk(r))
                else:
                    ks.append(('ext', '%s.%s' % (src, nm)))
            elif what == 'def':
                f = next((f for f in self.prog.funcs.values() if f.node is p), None)
                ks.append(('func', f) if f else None)
            elif what == 'class':
                c = next((c for c in self.prog.classes.values() if c.node is p), None)
                ks.append(('class', c) if c else None)
            else:
                ks.append(None)
        # several conditional imports/definitions of one name: only if they agree
        return self.join(ks)

    def pk(self, r):
        if r is None:
            return None
        if r[0] == 'assign':
            s = self.scopes[r[1].tree]
            vals = [st.value for st in r[2] if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)]
            if len(vals) != len(r[2]):
                return None
            return self.join(['none' if isnone(v) else self.kind(v, s, 3) for v in vals])
        return r

    def pkind(self, name, i, w, depth):
        c = w.cls
        if i == 0 and c is not None and not isinstance(w.node, ast.Lambda):
            dec = {d.id for d in w.node.decorator_list if isinstance(d, ast.Name)}
            if 'staticmethod' not in dec:
                return ('class', c) if 'classmethod' in dec else ('inst', (c,))
        if isinstance(w.node, ast.Lambda):
            return None
        doc = ast.get_docstring(w.node) or ''
        m = re.search(r'^\s*%s\s*:\s*([\w.]+)' % re.escape(name), doc, re.M)
        if m:
            cl = self.classnamed(m.group(1))
            if cl:
                return ('inst', (cl,))
        return None

    def classnamed(self, dotted):
        if '.' in dotted:
            mod, nm = dotted.rsplit('.', 1)
            if mod in self.prog.modules:
                r = self.prog.lookup(mod, nm)
                return r[1] if r and r[0] == 'class' else None
        return None

    def rkind(self, f, depth):
        key = ('ret', f.qual)
        if key in self.cache:
            return self.cache[key]
        if key in self.busy:
            return None
        self.busy.add(key)
        try:
            s = self.scopes.get(f.node)
            rets = [n.value for n in own(f.node) if isinstance(n, ast.Return)]
            r = self.join(['none' if v is None or isnone(v) or code(v) else self.kind(v, s, depth) for v in rets]) if rets and s else None
        finally:
            self.busy.discard(key)
        self.cache[key] = r
        return r

    def family(self, c):
        return self.prog.mro(c) + self.prog.subclasses(c)

    def attrkind(self, c, attr):
        key = ('attr', c.qual, attr)
        if key in self.cache:
            return self.cache[key]
        if key in self.busy:
            return None
        self.busy.add(key)
        try:
            fam = {x.qual for x in self.family(c)}
            ks = []
            for t, value, s in self.stores.get(attr, ()):
                if isinstance(t.value, ast.Name) and t.value.id == 'self':
                    k = self.selfclass(s)
                    if k is None or k.qual not in fam:
                        continue
                else:
                    b = self.kind(t.value, s, 4)
                    if b is not None and b[0] == 'inst' and not any(x.qual in fam for x in b[1]):
                        continue
                k = None if value is None else 'none' if isnone(value) else self.kind(value, s, 4)
                if k is None and isinstance(value, ast.Name) and [w for w, _ in s.bind.get(value.id, ())] == ['param']:
                    k = 'none'           # handed in by the caller: of the type it has elsewhere
                ks.append(k)
            r = self.join(ks) if ks else None
            if r is not None and r[0] not in ('inst',):
                r = None
        finally:
            self.busy.discard(key)
        self.cache[key] = r
        return r

    def akind(self, b, attr, depth):
        if b is None:
            return None
        if b[0] == 'module':
            return self.modattr(b[1], attr)
        if b[0] == 'modules':
            return self.join([self.modattr(m, attr) for m in b[1]])
        if b[0] == 'ext':
            return ('ext', b[1] + '.' + attr)
        if b[0] in ('inst', 'actor'):
            cs = b[1] if b[0] == 'inst' else (b[1],)
            ms = []
            for c in cs:
                own_ = self.prog.method(c, attr)
                if own_ is not None:
                    ms.append(own_)
                for sub in self.prog.subclasses(c):
                    if attr in sub.methods and sub.methods[attr] not in ms:
                        ms.append(sub.methods[attr])
            if ms:
                if all(m.isproperty for m in ms):
                    return None
                return ('bound' if b[0] == 'inst' else 'actorbound', tuple(ms))
            ks = [self.attrkind(c, attr) for c in cs]
            return self.join(ks)
        if b[0] == 'class':
            m = self.prog.method(b[1], attr)
            if m is not None:
                return ('bound', (m,)) if m.isclassmethod else ('func', m)
            return None
        return None

    def modattr(self, m, attr):
        s = self.scopes[m.tree]
        if attr in s.bind:
            return self.nkind(attr, s, 2)
        return self.pk(self.prog.lookup(m.name, attr))

    def hasattr_(self, c, attr):
        """can an instance of the class (or of a class in its family) have the attribute"""
        fam = self.family(c)
        for x in list(fam):
            if self.prog.extbases(x):
                return True
            if attr in x.methods or attr in x.attrs or attr in self.attrdefs.get(x.qual, ()):
                return True
            for mm in x.methods:
                if mm in ('__getattr__', '__getattribute__'):
                    return True
        return attr in self.foreign or '*' in self.foreign or attr.startswith('__')


def isnone(e):
    return isinstance(e, ast.Constant) and e.value is None


def code(e):
    """a negative number returned in place of an object: an error code"""
    return isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant)


def accepts(f, call, bound):
    """None if the function takes the arguments of the call, else the reason it does not"""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound and pos and not f.static:
        pos = pos[1:]
    nd = len(a.defaults)
    req = pos[:len(pos) - nd] if nd <= len(pos) else []
    kwo = [x.arg for x in a.kwonlyargs]
    kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = sum(1 for x in call.args if not isinstance(x, ast.Starred))
    if npos > len(pos) and a.vararg is None:
        return 'takes %d positional arguments, %d given' % (len(pos), npos)
    given = set(pos[:npos]) if not star else set()
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in pos and k.arg not in kwo and a.kwarg is None:
            return 'has no parameter %s' % k.arg
        if k.arg in given:
            return 'is given %s twice' % k.arg
        given.add(k.arg)
    if not star and not dstar:
        miss = [p for p in req + kwreq if p not in given]
        if miss:
            return 'is not given %s' % ', '.join(miss)
    return None


class Assigned:
    """may-be-assigned analysis of one function: loads of a local name no assignment can have reached"""

    def __init__(self, fn, local):
        self.local = local
        self.bad = []
        a = fn.args
        init = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        self.loops = []
        self.block(fn.body, set(init))

    def use(self, e, st):
        if e is None or st is None:
            return
        todo = [e]
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load) and n.id in self.local and n.id not in st:
                    self.bad.append(n)
                continue
            if isinstance(n, ast.NamedExpr):
                self.use(n.value, st)
                st.add(n.target.id)
                continue
            if isinstance(n, FUNCS):
                todo += [d for d in n.args.defaults + n.args.kw_defaults if d is not None]
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                inner = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                self.use(n.generators[0].iter, st)
                rest = [getattr(n, 'elt', None), getattr(n, 'key', None), getattr(n, 'value', None)] + [i for g in n.generators for i in g.ifs] + [g.iter for g in n.generators[1:]]
                for r in rest:
                    if r is not None:
                        self.use(r, st | inner)
                continue
            todo += list(ast.iter_child_nodes(n))

    def targets(self, t, st):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st.add(n.id)
        for n in ast.walk(t):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                self.use(n.value, st)
                if isinstance(n, ast.Subscript):
                    self.use(n.slice, st)

    def block(self, body, st):
        """st: names that may be assigned, None when the point is not reached"""
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    @staticmethod
    def merge(*ss):
        ss = [s for s in ss if s is not None]
        return set().union(*ss) if ss else None

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            self.use(s.value, st)
            for t in s.targets:
                self.targets(t, st)
        elif isinstance(s, ast.AnnAssign):
            self.use(s.value, st)
            if s.value is not None:
                self.targets(s.target, st)
        elif isinstance(s, ast.AugAssign):
            self.use(s.value, st)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.local and s.target.id not in st:
                    self.bad.append(s.target)
            self.targets(s.target, st)
        elif isinstance(s, ast.Expr):
            self.use(s.value, st)
        elif isinstance(s, ast.Return):
            self.use(s.value, st)
            return None
        elif isinstance(s, ast.Raise):
            self.use(s.exc, st)
            return None
        elif isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1].append(set(st))
            return None
        elif isinstance(s, ast.If):
            self.use(s.test, st)
            return self.merge(self.block(s.body, set(st)), self.block(s.orelse, set(st)))
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                pass
            else:
                self.use(s.iter, st)
            start = set(st)
            seen = set(st)
            for _ in (0, 1):
                self.loops.append([])
                save = list(self.bad)
                b = set(seen)
                if isinstance(s, ast.While):
                    self.use(s.test, b)
                else:
                    self.targets(s.target, b)
                e = self.block(s.body, b)
                ex = self.loops.pop()
                n = self.merge(e, *ex) or set()
                if _ == 0:
                    self.bad = save          # the second round sees what the body assigns
                seen = seen | n
            self.bad = self.bad
            out = self.block(s.orelse, set(seen)) if s.orelse else set(seen)
            infinite = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            return self.merge(out, set(seen), start)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    self.targets(i.optional_vars, st)
            return self.block(s.body, st)
        elif isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            allb = set(st)
            for n in s.body:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        allb.add(x.id)
            b = self.block(s.body, set(st))
            if b is not None and s.orelse:
                b = self.block(s.orelse, b)
            outs = [b]
            for h in s.handlers:
                e = set(allb)
                self.use(h.type, e)
                if h.name:
                    e.add(h.name)
                outs.append(self.block(h.body, e))
            m = self.merge(*outs)
            if s.finalbody:
                fin = set(allb)
                for o in outs:
                    fin |= o or set()
                for h in s.handlers:
                    for x in ast.walk(h):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            fin.add(x.id)
                f = self.block(s.finalbody, fin)
                return None if m is None or f is None else m | f
            return m
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if t.id in self.local and t.id not in st:
                        self.bad.append(t)
                    st.discard(t.id)
                else:
                    self.use(t, st)
        elif isinstance(s, ast.Assert):
            self.use(s.test, st)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.use(d, st)
            st.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                st.add(a.asname or a.name.split('.')[0])
        elif s.__class__.__name__ == 'Match':
            self.use(s.subject, st)
            outs = [set(st)]
            for c in s.cases:
                b = set(st)
                for x in ast.walk(c.pattern):
                    if getattr(x, 'name', None):
                        b.add(x.name)
                outs.append(self.block(c.body, b))
            return self.merge(*outs)
        return st
