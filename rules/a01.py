"""Names, attributes and calls.  Scopes, imports, classes and light types of the whole package are resolved (sa/resolve.py): every name that is
read has a binding in scope that can have reached it, every attribute asked of one of the package's modules, classes or instances is defined
there, every call of one of the package's functions fits its signature, every tuple taken from one of them has the right length, and every
NumPy name and keyword exists in the NumPy the package supports (spec/numpy_api.json, from its stubs)."""
import ast, json, os
from sa.ctx import *
from sa.resolve import Resolver, Assigned, own, accepts, isnone, BUILTIN, FUNCS
P = 'pyebsdindex.'
ASSUMES = ['the supported NumPy is the 2.x installed here', 'objects of unknown type have the attributes asked of them',
           'a name bound on some path to its use may be bound there; only a use no binding can reach is reported']
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'numpy_api.json')
_R = {}


def res(ctx):
    k = id(ctx.prog)
    if k not in _R:
        _R[k] = Resolver(ctx.prog)
    return _R[k]


def label(s):
    out = []
    while s is not None and s.parent is not None:
        if s.kind in ('func', 'class'):
            out.append(getattr(s.node, 'name', 'lambda'))
        s = s.parent
    return '.'.join([s.module.name.replace(P, '', 1)] + out[::-1])


def optional(R, n, s):
    """the load is protected: the enclosing try handles NameError/AttributeError/ImportError by falling back -- only for imports"""
    return False


def r_names(ctx):
    R = ctx.rule('names', 'every name that is read has a binding that can have reached it', 6000)
    r = res(ctx)
    for s in r.scopes.values():
        n_ok = 0
        for n in own(s.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if r.where(n.id, s) is not None or n.id in BUILTIN or (s.kind == 'class' and n.id in s.bind):
                    n_ok += 1
                    ctx.ok(R, '')
                else:
                    ctx.bad(R, '%s: %s' % (label(s), n.id), '%s:%d' % (s.module.path, n.lineno), 'the name %s is not defined' % n.id)
        if s.kind == 'func' and not isinstance(s.node, ast.Lambda):
            loc = {x for x in s.bind if x not in s.globals and x not in s.nonlocals}
            seen = set()
            for n in Assigned(s.node, loc).bad:
                if n.id not in seen:
                    seen.add(n.id)
                    ctx.bad(R, '%s: %s' % (label(s), n.id), '%s:%d' % (s.module.path, n.lineno), 'no assignment of %s reaches this use' % n.id)
    ctx.analysed |= set(ctx.prog.funcs)


def r_imports(ctx):
    R = ctx.rule('imports', 'every import of one of the package\'s modules resolves', 80)
    r = res(ctx)
    tops = {m.rsplit('.', 1)[-1] for m in ctx.prog.modules}
    import sys
    std = set(sys.stdlib_module_names)
    for s in r.scopes.values():
        for n in own(s.node):
            if isinstance(n, ast.Import):
                for a in n.names:
                    c = '%s: import %s' % (label(s), a.name)
                    loc = '%s:%d' % (s.module.path, n.lineno)
                    if a.name.split('.')[0] == 'pyebsdindex':
                        ctx.verdict(a.name in ctx.prog.modules or a.name.startswith('pyebsdindex.tests'), R, c, loc, 'the package has no module %s' % a.name)
                    else:
                        ctx.verdict(a.name in std or a.name not in tops, R, c, loc, '%s is a module of the package, not a top-level module' % a.name)
            elif isinstance(n, ast.ImportFrom):
                src = ctx.prog._fromsrc(s.module, n)
                loc = '%s:%d' % (s.module.path, n.lineno)
                if src.split('.')[0] != 'pyebsdindex':
                    ctx.verdict(src in std or src not in tops, R, '%s: from %s' % (label(s), src), loc, '%s is a module of the package, not a top-level module' % src)
                    continue
                if src not in ctx.prog.modules:
                    ctx.bad(R, '%s: from %s' % (label(s), src), loc, 'the package has no module %s' % src)
                    continue
                for a in n.names:
                    if a.name == '*':
                        continue
                    ctx.verdict(r.ismodname(a.name, r.scopes[ctx.prog.modules[src].tree]) or src + '.' + a.name in ctx.prog.modules or a.name.startswith('__'), R, '%s: from %s import %s' % (label(s), src, a.name), loc, '%s has no %s' % (src, a.name))


def guarded(ctx, s, n):
    """inside hasattr(obj, 'name') or a try that catches AttributeError"""
    return n.attr in hasattrs(ctx)


_H = {}
def hasattrs(ctx):
    k = id(ctx.prog)
    if k not in _H:
        out = set()
        for m in ctx.prog.modules.values():
            for c in ast.walk(m.tree):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ('hasattr', 'getattr', 'delattr') and len(c.args) > 1 and isinstance(c.args[1], ast.Constant):
                    out.add(c.args[1].value)
        _H[k] = out
    return _H[k]


def r_attributes(ctx):
    R = ctx.rule('attributes', 'every attribute asked of one of the package\'s modules, classes or instances is defined there', 2500)
    r = res(ctx)
    api = json.load(open(SPEC))
    for s in r.scopes.values():
        for n in own(s.node):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
                continue
            b = r.kind(n.value, s)
            if b is None:
                continue
            c = '%s: %s' % (label(s), ast.unparse(n)[:80])
            loc = '%s:%d' % (s.module.path, n.lineno)
            if b[0] in ('module', 'modules'):
                for m in b[1] if b[0] == 'modules' else (b[1],):
                    ok = r.ismodname(n.attr, r.scopes[m.tree]) or m.name + '.' + n.attr in ctx.prog.modules or n.attr.startswith('__')
                    ctx.verdict(ok, R, c, loc, 'module %s has no %s' % (m.name, n.attr))
            elif b[0] == 'inst' or b[0] == 'actor':
                cs = b[1] if b[0] == 'inst' else (b[1],)
                if guarded(ctx, s, n):
                    continue
                ctx.verdict(any(r.hasattr_(k, n.attr) for k in cs), R, c, loc, '%s has no attribute %s' % (' / '.join(k.qual.replace(P, '', 1) for k in cs), n.attr))
            elif b[0] == 'class':
                if n.attr in ('remote', 'options', 'mro') or ctx.prog.extbases(b[1]):
                    continue
                ctx.verdict(ctx.prog.method(b[1], n.attr) is not None or ctx.prog.classattr(b[1], n.attr) is not None or n.attr.startswith('__') or r.hasattr_(b[1], n.attr), R, c, loc, 'class %s has no %s' % (b[1].qual, n.attr))
            elif b[0] == 'ext' and b[1] in api and b[1] != 'ndarray':
                ctx.verdict(n.attr in api[b[1]] or n.attr.startswith('_'), R, c, loc, '%s has no %s' % (b[1], n.attr))


def dispatchable(f):
    for d in f.node.decorator_list:
        t = ast.unparse(d)
        if not ('jit' in t or t in ('staticmethod', 'classmethod', 'property') or 'ray.remote' in t or 'njit' in t):
            return False
    return True


def abstract(f):
    """does nothing but, perhaps, raise"""
    def idle(x):
        if isinstance(x, (ast.Pass, ast.Raise)):
            return True
        if isinstance(x, ast.Return):
            return x.value is None
        if isinstance(x, ast.If):
            return all(map(idle, x.body + x.orelse))
        if isinstance(x, (ast.Expr, ast.Assign, ast.AnnAssign, ast.Delete)):
            return not any(isinstance(y, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await)) or isinstance(y, (ast.Attribute, ast.Subscript)) and not isinstance(y.ctx, ast.Load) for y in ast.walk(x))
        return False
    return all(map(idle, f.node.body))


def kernelnames(ctx):
    import re
    out = set()
    base = os.path.join(ctx.prog.repo, 'pyebsdindex')
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith('.cl'):
                out |= set(re.findall(r'\bvoid\s+(\w+)\s*\(', open(os.path.join(d, f), encoding='utf8', errors='replace').read()))
    return out


def ctor(ctx, c):
    return ctx.prog.method(c, '__init__')


def r_calls(ctx):
    R = ctx.rule('calls', 'every call of one of the package\'s functions fits its signature', 450)
    r = res(ctx)
    api = json.load(open(SPEC))
    bymeth = {}
    for c in ctx.prog.classes.values():
        for nm, f in c.methods.items():
            bymeth.setdefault(nm, []).append(f)
    import builtins
    common = set(api['ndarray'])
    for t in (str, bytes, list, dict, set, tuple, int, float, object):
        common |= set(dir(t))
    common |= kernelnames(ctx)          # kernels of an OpenCL program object
    common |= {'read', 'write', 'close', 'open', 'seek', 'tell', 'flush', 'append', 'run', 'remote', 'options', 'release', 'wait', 'finish', 'put', 'get'}
    for s in r.scopes.values():
        for n in own(s.node):
            if not isinstance(n, ast.Call):
                continue
            c = '%s: %s' % (label(s), ast.unparse(n.func)[:80])
            loc = '%s:%d' % (s.module.path, n.lineno)
            k = r.kind(n.func, s)
            if k is None and isinstance(n.func, ast.Attribute) and n.func.attr == 'remote':
                b = r.kind(n.func.value, s)
                if b and b[0] == 'class':
                    k = b
                elif b and b[0] == 'actorbound':
                    k = ('bound', b[1])
                elif b and b[0] == 'func':
                    k = b
                elif b is None and isinstance(n.func.value, ast.Attribute) and n.func.value.attr in bymeth and n.func.value.attr not in common:
                    k = ('duck', tuple(bymeth[n.func.value.attr]))
            if k is None and isinstance(n.func, ast.Attribute) and n.func.attr in bymeth and n.func.attr not in common and r.kind(n.func.value, s) is None:
                k = ('duck', tuple(bymeth[n.func.attr]))
            if k is None:
                continue
            if k[0] == 'func':
                if dispatchable(k[1]):
                    why = accepts(k[1], n, False)
                    ctx.verdict(why is None, R, c, loc, '%s %s' % (k[1].qual.replace(P, '', 1), why))
            elif k[0] == 'bound':
                cand = [f for f in k[1] if dispatchable(f)]
                cand = [f for f in cand if not abstract(f)] or cand
                # an override only counts if the caller can be the overriding class
                why = [(f, accepts(f, n, True)) for f in cand]
                mine = r.selfclass(s)
                badw = [(f, w) for f, w in why if w is not None]
                ctx.verdict(not badw, R, c, loc, '%s %s' % (badw[0][0].qual.replace(P, '', 1), badw[0][1]) if badw else '')
            elif k[0] == 'duck':
                why = [accepts(f, n, True) for f in k[1]]
                if any(w is None for w in why):
                    ctx.ok(R, c, loc)
                else:
                    ctx.bad(R, c, loc, '%s %s' % (k[1][0].qual.replace(P, '', 1), why[0]))
            elif k[0] in ('class', 'classes'):
                for kc in k[1] if k[0] == 'classes' else (k[1],):
                    if ctx.prog.extbases(kc):
                        continue
                    f = ctor(ctx, kc)
                    if f is None:
                        ctx.verdict(not n.args and not n.keywords, R, c, loc, '%s takes no arguments' % kc.qual)
                    else:
                        why = accepts(f, n, True)
                        ctx.verdict(why is None, R, c, loc, '%s %s' % (f.qual.replace(P, '', 1), why))
            elif k[0] == 'ext':
                mod, _, nm = k[1].rpartition('.')
                kws = api.get(mod, {}).get(nm) if mod in api and mod != 'ndarray' else None
                if kws:
                    wrong = [x.arg for x in n.keywords if x.arg is not None and x.arg not in kws]
                    ctx.verdict(not wrong, R, c, loc, '%s has no parameter %s' % (k[1], wrong))


def arity(f):
    """lengths of the tuples a function returns: set, with None for unknown and 0 for something that is no tuple"""
    out = set()
    rets = [n for n in own(f.node) if isinstance(n, ast.Return)]
    if not rets:
        return {0}
    for n in rets:
        v = n.value
        if v is None or (isinstance(v, ast.Constant)) or (isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Constant)):
            out.add(0)
        elif isinstance(v, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in v.elts):
            out.add(len(v.elts))
        else:
            out.add(None)
    return out


def r_unpack(ctx):
    R = ctx.rule('unpacking', 'a tuple taken from one of the package\'s functions has as many elements as it is taken apart into', 50)
    r = res(ctx)
    for s in r.scopes.values():
        for n in own(s.node):
            if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Call)):
                continue
            if any(isinstance(x, ast.Starred) for x in n.targets[0].elts):
                continue
            k = r.kind(n.value.func, s)
            if k is None or k[0] not in ('func', 'bound'):
                continue
            want = len(n.targets[0].elts)
            for f in (k[1],) if k[0] == 'func' else k[1]:
                ar = arity(f)
                c = '%s: %s' % (label(s), ast.unparse(n.value.func)[:60])
                loc = '%s:%d' % (s.module.path, n.lineno)
                if None in ar or abstract(f):
                    continue
                # a constant is an error code, other lengths belong to other options: one return must fit
                wrong = set() if want in ar else ar - {0} or ar
                ctx.verdict(not wrong, R, c, loc, '%s returns %s, taken apart into %d' % (f.qual.replace(P, '', 1), ' or '.join('a tuple of %d' % w if w else 'no tuple' for w in sorted(wrong)), want))


RULES = [r_names, r_imports, r_attributes, r_calls, r_unpack]
