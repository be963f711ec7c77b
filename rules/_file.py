"""Shared: symbolic runs of the pattern-file classes over the abstract file model (sa/filemodel.py)."""
from sa.ctx import *
from sa.filemodel import *
from sa.term import rebuild
EP = 'pyebsdindex.ebsd_pattern.'
ATTRS = ('patternW', 'patternH', 'nCols', 'nRows', 'nPatterns', 'filePos', 'extraPatterns', 'hexflag', 'xStep', 'yStep', 'bitdepth', 'background')
INTS = ('patternW', 'patternH', 'nCols', 'nRows', 'nPatterns', 'filePos')


def syms(names=ATTRS):
    d = {}
    for a in names:
        s = sym('a_' + a)
        if a in INTS:
            declare_int(s)
        elif a != 'background':
            declare_scalar(s)
        d[a] = s
    return d


def scalarise(t):
    """one-element arrays stand for their element in a test"""
    def f(x):
        if x.op == 'list' and len(x.args) == 1 and x.args[0].op != 'list':
            return x.args[0]
        if x.op == 'is' and x.args[1] is NONE and x.args[0].op == 'sym' and x.args[0].args[0].startswith('a_'):
            return FALSE
        return None
    return rebuild(t, f)


def brancher(isfile=False, ext='.up2', true=(), false=()):
    """decide the tests that the scenario fixes: file existence, file name extension, given attributes"""
    def br(t, node):
        for x in subterms(t):
            if x.op == 'call' and x.args[0] in ('os.path.isfile', 'os.path.exists') and (t is x or t.op in ('truthy', 'not') and len(list(subterms(t))) < 400):
                if t is x or (t.op == 'truthy' and t.args[0] is x):
                    return isfile
                if t.op == 'not' and t.args[0] in (x, mk('truthy', x)):
                    return not isfile
            if x.op == 'const' and x.args[0] == 'str' and x.args[1] in ('.up1', '.up2'):
                y = rebuild(t, lambda z: const(ext) if z.op in ('call', 'ret', 'attr', 'method') and contains(z, lambda w: w.op == 'attr' and w.args[1] == 'suffix') else None)
                if y in (TRUE, FALSE):
                    return y is TRUE
                return x.args[1] == ext
        y = scalarise(t)
        if y in (TRUE, FALSE):
            return y is TRUE
        if y in true or t in true:
            return True
        if y in false or t in false:
            return False
        return None
    return br


def run(ctx, cls, meth, attrs=None, args=None, content=None, files=None, **k):
    F = files or Files(content=content)
    k.setdefault('branch', brancher())
    k.setdefault('optimistic_try', True)
    k.setdefault('lit', True)
    q = EP + cls + '.' + meth
    f = ctx.prog.funcs.get(q)
    kw = {}
    if f is None:
        # inherited
        m = ctx.prog.method(ctx.prog.cls(EP + cls), meth)
        need(m is not None, q + ' not found')
        q = m.qual
        kw['selfcls'] = EP + cls
    hk = dict(F.hooks())
    hk.update(k.pop('hooks', {}))
    it = ctx.analyse(q, selfattrs=attrs or {}, args=args or {}, hooks=hk, **kw, **k)
    return F, it


def attr(it, name):
    v = it.state.heap.get(('a', it.self, name))
    if v is None:
        return None
    return scalarise(it.deep(it.V(v, it.state), it.state.heap))
