"""Flow-sensitive value-flow analysis (gated value numbering) over the structured AST.

One pass per statement, joins at merge points (no path enumeration, no solver, nothing executed).
Package functions are analysed in the calling context (inlined), so extracting a helper or moving
statements does not change what a rule sees.  Output: value terms and an ordered list of events
(calls, stores, returns, raises ...) with their guards, loops and try context.
"""
import ast
from .term import *
from . import term as tm
from . import lit as L_
from .program import AnalysisError, Func, Class, Module, PKG


class Ev:
    __slots__ = ('kind', 'd', 'pc', 'loops', 'trys', 'node', 'func', 'chain', 'seq', 'heap')

    def __init__(self, kind, d, pc, loops, trys, node, func, chain, seq, heap):
        self.kind, self.d, self.pc, self.loops, self.trys = kind, d, pc, loops, trys
        self.node, self.func, self.chain, self.seq, self.heap = node, func, chain, seq, heap

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            if k in ('bound', 'kw', 'vals', 'args', 'callee', 'result'):
                return None
            raise AttributeError(k)

    @property
    def loc(self):
        return '%s:%d' % (self.func.module.path if self.func else '?', getattr(self.node, 'lineno', 0))

    @property
    def where(self):
        return '%s (%s)' % (self.loc, self.func.qual.replace(PKG + '.', '') if self.func else '?')

    def __repr__(self):
        return '<%s %s %s>' % (self.kind, self.loc, {k: (show(v, 4) if isinstance(v, (T, tuple)) else v) for k, v in self.d.items()})


class Loop:
    _n = 0

    def __init__(self, node, kind, parent):
        self.node = node
        self.kind = kind
        self.parent = parent
        self.iter = None
        self.cond = None
        self.id = None
        self.ind = {}      # induction vars name -> (init, step)
        self.final = {}    # name -> value at end of an iteration (in terms of mu)
        self.init = {}
        self.breaks = []
        self.parallel = False

    def __repr__(self):
        return 'Loop@%s' % self.id


class PyRaise(Exception):
    """a modelled library call (a hook) fails: the statement it is in is abandoned and the handlers around it run.  The exception is named so
    that handlers for other exceptions do not take it."""

    def __init__(self, name, text=''):
        super().__init__(name)
        self.name, self.text, self.seen = name, text, None


class State:
    __slots__ = ('env', 'heap', 'pc')

    def __init__(self, env, heap, pc=()):
        self.env, self.heap, self.pc = env, heap, pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc)


class Frame:
    def __init__(self, func, parent, env):
        self.func = func
        self.parent = parent
        self.exits = []       # (kind, state, value, node)
        self.closure_env = env
        self.loopstack = []
        self.stack = (parent.stack if parent else ()) + (func.qual if func else '?',)


PURE_METHODS = {'sum', 'mean', 'std', 'min', 'max', 'argmin', 'argmax', 'argsort', 'all', 'any', 'dot', 'prod', 'cumsum', 'round',
                'clip', 'reshape', 'ravel', 'flatten', 'squeeze', 'transpose', 'swapaxes', 'nonzero', 'conj', 'tolist', 'item',
                'lower', 'upper', 'strip', 'split', 'rstrip', 'lstrip', 'replace', 'startswith', 'endswith', 'format', 'join', 'encode',
                'decode', 'keys', 'values', 'items', 'index', 'count', 'get', 'repeat', 'view', 'isdigit', 'with_suffix', 'exists',
                'is_file', 'title', 'tobytes', 'take', 'byteswap', 'newbyteorder', 'expanduser', 'resolve', 'absolute', 'newbyteorder', 'rfind', 'find',
                'splitlines', 'zfill', 'ljust', 'rjust', 'astype', 'copy', 'trace', 'diagonal', 'var', 'ptp', 'searchsorted', 'is_dir',
                'joinpath', 'as_posix', 'isoformat', 'strftime', 'isspace', 'bit_length', 'union', 'intersection', 'hex'}
MUT_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'fill', 'update', 'clear', 'reverse', 'setdefault', 'popitem',
               'resize', 'put', 'partition', 'setflags', 'add', 'discard', 'itemset', 'write_direct'}
ALIAS_METHODS = {'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'view'}
COPY_METHODS = {'copy', 'flatten', 'astype', 'tolist', 'repeat', 'take'}
IMPURE_NP = {'numpy.fromfile', 'numpy.load', 'numpy.loadtxt', 'numpy.genfromtxt', 'numpy.memmap', 'numpy.save', 'numpy.savetxt'}
MATH1 = {'sqrt', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'abs', 'floor', 'ceil', 'exp', 'log', 'round', 'sign', 'log2', 'log10',
         'isfinite', 'isnan', 'isinf', 'square', 'radians', 'degrees', 'sinh', 'cosh', 'tanh', 'cbrt', 'absolute', 'deg2rad', 'rad2deg', 'fabs', 'trunc', 'rint', 'around', 'round_'}
MATHALIAS = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'absolute': 'abs', 'fabs': 'abs', 'rint': 'round', 'around': 'round',
             'round_': 'round', 'deg2rad': 'radians', 'rad2deg': 'degrees', 'trunc': 'int'}
FLOATCAST = {'numpy.float32', 'numpy.float64', 'numpy.double', 'numpy.single', 'numpy.float_', 'float', 'numpy.longdouble', 'numpy.float16', 'numpy.half'}
INTCAST = {'int', 'numpy.int64', 'numpy.int32', 'numpy.int_', 'numpy.intp', 'numpy.uint64', 'numpy.uint32', 'numpy.longlong', 'numpy.uintp', 'numpy.int'}
NARROW = {'numpy.uint8', 'numpy.uint16', 'numpy.int16', 'numpy.int8', 'numpy.ubyte', 'numpy.bool_', 'numpy.ushort'}
ALLOC = {'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like',
         'numpy.full_like', 'numpy.arange', 'numpy.linspace', 'numpy.eye', 'numpy.identity', 'numpy.tile', 'numpy.repeat',
         'numpy.concatenate', 'numpy.vstack', 'numpy.hstack', 'numpy.stack', 'numpy.pad', 'numpy.where', 'numpy.append', 'numpy.delete',
         'numpy.roll', 'numpy.meshgrid', 'numpy.outer', 'numpy.cross', 'numpy.sort', 'numpy.unique', 'numpy.indices'}


class Interp:
    def __init__(self, prog, lit=False, freshops=False, inline=None, boundary=(), maxdepth=12, unroll=12, seeds=None, types=None, branch=None, budget=4_000_000, opaque=(),
                 optimistic_try=False, exact_try=False, zero_trip=True, recur=1, unroll_par=False, returns=None, hooks=None, while_unroll=0, hard_raise=False, grown=False):
        self.while_unroll = while_unroll
        self.returns = dict(returns or {})
        self.resized = set()
        self.exact_try = exact_try or hard_raise
        self.zero_trip = zero_trip              # False: every loop is entered
        self.grown = grown or hard_raise        # the length of a list that grows in a loop is not taken from before the loop
        self.hard_raise = hard_raise            # a call that always fails abandons its statement (see PyRaise)
        self.hooks = dict(hooks or {})          # call name or '.method' -> f(it, recv, args, vals, kv, st, node): a result term, or None for the usual model
        self.recur = recur
        self.unroll_par = unroll_par
        self.lit = lit
        self.prog = prog
        self.events = []
        self.muted = 0
        self.boundary = set(boundary)
        self.inlinef = inline
        self.maxdepth = maxdepth
        self.unroll = unroll
        self.n = 0
        self.objinit = {}
        self.types = dict(types or {})       # term -> Class
        self.arrays = set()                  # syms known to be arrays (in-place ops)
        self.dicts = set()
        self.branch = branch                 # callable(test_term, node) -> True/False/None
        if hasattr(branch, 'it'):
            branch.it = self
        self.loops = []
        self.trys = []
        self.loopid = 0
        self.budget = budget
        self.frames = []
        self.closures = {}
        self.globcache = {}
        self.notes = []
        self.funcs_seen = set()
        self.loopsmade = []
        self.exccount = 0
        self.optimistic_try = optimistic_try
        self.objkind = {}
        self.globinprogress = set()
        self.actors = set()
        self.promoted = {}                   # object -> the value it was made from when it was first written
        self.freshops = freshops             # the result of an operator is an object of its own even where its value is that of an operand
        self.shapedepth = 0
        self.viewsrc = {}                    # value of a view of one of several objects -> those views

    # ------------------------------------------------------------ helpers
    def fresh(self, op, *a):
        self.n += 1
        return mk(op, *(a + (self.n,)))

    def newobj(self, content, kind='array'):
        o = self.fresh('obj')
        self.objinit[o] = content
        self.objkind[o] = kind
        return o

    def newinst(self, cls, tag=None):
        self.n += 1
        return mk('new', cls.qual, tag or self.n)

    def event(self, kind, st, node, **d):
        if self.muted:
            return None
        fr = self.frames[-1] if self.frames else None
        e = Ev(kind, d, st.pc, tuple(self.loops), tuple(self.trys), node, fr.func if fr else None,
               tuple(f.callnode for f in self.frames if getattr(f, 'callnode', None) is not None), len(self.events), st.heap.copy() if kind in ('return', 'snap') else None)
        self.events.append(e)
        return e

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisError('analysis budget exhausted')

    # deref
    def V(self, t, st):
        c = st.heap.get(('c', t))
        if c is not None:
            return c
        if t.op == 'obj':
            return self.objinit[t]
        if t.op == 'default':
            return self.objinit.get(t, t)
        if t.op == 'view':
            return sel(self.V(t.args[0], st), t.args[1])
        if t.op == 'mcall' and t.args[1] in ALIAS_METHODS:
            b = self.V(t.args[0], st)
            if b is not t.args[0]:
                return mk('mcall', b, *t.args[1:])
        if t.op == 'ite':
            a, b = self.V(t.args[1], st), self.V(t.args[2], st)
            if a is not t.args[1] or b is not t.args[2]:
                return ite(t.args[0], a, b)
        return t

    def deep(self, t, heap, depth=12):
        st = State({}, heap)
        memo = {}

        def f(x):
            if x.op in ('obj', 'default', 'view') or ('c', x) in heap:
                v = self.V(x, st)
                if v is not x:
                    if x in memo:
                        return memo[x]
                    memo[x] = x
                    memo[x] = rebuild(v, f) if len(memo) < 20000 else v
                    return memo[x]
            return None
        return rebuild(t, f)

    def isref(self, t):
        return t.op in ('obj', 'default', 'view', 'new') or t in self.arrays or (t.op == 'mcall' and t.args[1] in ALIAS_METHODS)

    # ------------------------------------------------------------ attributes
    def getattr(self, base, name, st, node=None):
        v = st.heap.get(('a', base, name))
        if v is not None:
            return v
        if 'attr' in self.hooks:
            r = self.hooks['attr'](self, base, name, st, node)
            if r is not None:
                return r
        op = base.op
        if op == 'ite':
            if base.args[1] is NONE:
                return self.getattr(base.args[2], name, st, node)
            if base.args[2] is NONE:
                return self.getattr(base.args[1], name, st, node)
            return ite(base.args[0], self.getattr(base.args[1], name, st, node), self.getattr(base.args[2], name, st, node))
        cls = self.classof(base)
        if cls is not None:
            m = self.prog.method(cls, name)
            if m is not None:
                if m.isproperty:
                    return self.call_func(m, [base], {}, st, node)
                if m.static:
                    return mk('func', m.qual)
                return mk('bound', base, m.qual)
            ca = self.prog.classattr(cls, name)
            if ca is not None and base.op in ('new', 'class'):
                return self.evalglobal(ca[0].module, ca[1], 'classattr:' + ca[0].qual + '.' + name)
        if op == 'class':
            c = self.prog.classes[base.args[0]]
            m = self.prog.method(c, name)
            if m is not None:
                if m.isclassmethod:
                    return mk('bound', base, m.qual)
                return mk('func', m.qual)
            ca = self.prog.classattr(c, name)
            if ca is not None:
                return self.evalglobal(ca[0].module, ca[1], 'classattr:' + ca[0].qual + '.' + name)
        if op == 'module':
            return self.modattr(base.args[0], name, st)
        if op == 'ext':
            return self.ext(base.args[0] + '.' + name)
        if name == 'shape':
            s = self.shape(base, st)
            if s is not None:
                return s
        if name == 'size':
            s = self.shape(base, st)
            if s is not None and s.op == 'tuple':
                return mul(*s.args) if s.args else ONE
        if name == 'ndim':
            s = self.shape(base, st)
            if s is not None and s.op == 'tuple':
                return const(len(s.args))
        if name == 'T':
            b = self.V(base, st)
            r = self.transpose(b, st)
            if r is not None:
                return r
        return mk('attr', base, name)

    def small(self, v, st):
        """an array of small known shape as literal rows"""
        s = self.shape(v, st)
        if s is None or s.op != 'tuple' or not s.args or not all(is_num(d) and cval(d) <= 12 for d in s.args) or len(s.args) > 2:
            return v
        n = [cval(d) for d in s.args]
        if len(n) == 1:
            return mk('list', *[sel(v, const(i)) for i in range(n[0])])
        return mk('list', *[mk('list', *[sel(v, mk('tuple', const(i), const(j))) for j in range(n[1])]) for i in range(n[0])])

    def transpose(self, b, st=None):
        if st is not None and b.op in ('sel', 'store', 'ite'):
            s = self.shape(b, st)
            if s is not None and s.op == 'tuple' and len(s.args) == 2 and all(is_num(d) and cval(d) <= 12 for d in s.args):
                return mk('list', *[mk('list', *[sel(b, mk('tuple', const(i), const(j))) for i in range(cval(s.args[0]))]) for j in range(cval(s.args[1]))])
        if b.op == 'list' and b.args and not any(x.op in ('list', 'starred') or rank(x) != 0 for x in b.args):
            return b
        if b.op == 'list' and b.args and all(x.op == 'list' for x in b.args) and len(set(len(x.args) for x in b.args)) == 1:
            return mk('list', *[mk('list', *[r.args[j] for r in b.args]) for j in range(len(b.args[0].args))])
        return None

    def classof(self, t):
        if t.op == 'new':
            return self.prog.classes.get(t.args[0])
        return self.types.get(t)

    def shape(self, t, st):
        if self.shapedepth > 40:
            return None
        self.shapedepth += 1
        try:
            return self.shape_(t, st)
        finally:
            self.shapedepth -= 1

    def shape_(self, t, st):
        v = self.V(t, st)
        seen = 0
        while seen < 50:
            seen += 1
            if v.op == 'after' and (v.args[1].args[0] if isinstance(v.args[1], T) else v.args[1], v.args[0]) in self.resized:
                return None
            if v.op == 'store' or v.op == 'after':
                v = v.args[0]
                v = self.V(v, st) if v.op == 'obj' else v
                continue
            if v.op == 'call' and v.args[0] == 'alloc':
                s = v.args[1][1]
                s = self.V(s, st)
                if s.op == 'list':
                    s = mk('tuple', *s.args)
                if s.op == 'tuple':
                    return s
                if _scalarlike(s):
                    return mk('tuple', s)
                if s.op == 'attr' or s.op == 'sel' or s.op == 'ite':
                    return s
                return None
            if v.op == 'list' and not any(a.op == 'starred' for a in v.args):
                dims = [const(len(v.args))]
                if v.args and v.args[0].op == 'list':
                    inner = self.shape(v.args[0], st)
                    if inner is not None and inner.op == 'tuple':
                        return mk('tuple', *(tuple(dims) + inner.args))
                return mk('tuple', *dims)
            if v.op == 'mcall' and v.args[1] == 'reshape':
                a = v.args[2]
                if len(a) == 1 and a[0].op in ('tuple', 'list'):
                    a = a[0].args
                if a and not any(is_num(x) and x.args[1] < 0 for x in a):
                    return mk('tuple', *a)
                return None
            if v.op == 'poly':
                cand = set()
                for m, c in v.args[0]:
                    for a, e in m:
                        s = self.shape(a, st) if a.op in ('obj', 'store', 'call', 'list') else None
                        if s is not None:
                            cand.add(s)
                if len(cand) == 1:
                    return cand.pop()
                return None
            if v.op == 'cast':
                v = v.args[1]
                continue
            if v.op == 'sel':
                s = self.shape(v.args[0], st)
                ks = keytuple(v.args[1])
                if s is not None and s.op == 'tuple' and len(ks) <= len(s.args) and ELL not in ks:
                    out = []
                    for i, d in enumerate(s.args):
                        if i >= len(ks) or ks[i] is FULL:
                            out.append(d)
                        elif not (is_num(ks[i]) or ks[i].op == 'it' or isint(ks[i])):
                            return None
                    return mk('tuple', *out)
                return None
            if v.op == 'ite':
                a = self.shape(v.args[1], st)
                return a if a is not None and a is self.shape(v.args[2], st) else None
            break
        return None

    def samelen(self, v, old, L):
        """the loop body left the number of elements of a list alone"""
        if old is None or old.op not in ('list', 'appended', 'after', 'concat', 'comp', 'mutated'):
            return True
        for _ in range(200):
            if v is old:
                return True
            if v.op == 'after':
                if (v.args[1].args[0] if isinstance(v.args[1], T) else v.args[1], v.args[0]) in self.resized:
                    return False
                if v.args[0] is old:
                    return True
                v = v.args[0]
            elif v.op == 'store':
                v = v.args[0]
            elif v.op == 'ite':
                return self.samelen(v.args[1], old, L) and self.samelen(v.args[2], old, L)
            elif v.op == 'list':
                return old.op == 'list' and len(v.args) == len(old.args)
            else:
                return v.op not in ('appended', 'mutated', 'concat')
        return False

    def setattr(self, base, name, val, st, node):
        self.event('setattr', st, node, base=base, name=name, value=val)
        if base.op == 'ite':
            for b, c in ((base.args[1], base.args[0]), (base.args[2], notb(base.args[0]))):
                if b is not NONE:
                    old = self.getattr(b, name, st) if ('a', b, name) in st.heap else mk('attr', b, name)
                    st.heap[('a', b, name)] = ite(c, val, old)
            return
        st.heap[('a', base, name)] = val

    # ------------------------------------------------------------ names
    def modattr(self, mod, name, st=None):
        r = self.prog.lookup(mod, name)
        return self.fromlookup(r, mod, name)

    def fromlookup(self, r, mod, name):
        if r is None:
            return None if mod is None else mk('unresolved', mod + '.' + name)
        k = r[0]
        if k == 'func':
            return mk('func', r[1].qual)
        if k == 'class':
            return mk('class', r[1].qual)
        if k == 'module':
            return mk('module', r[1].name)
        if k == 'ext':
            return self.ext(r[1])
        if k == 'assign':
            m, nodes = r[1], r[2]
            if len(nodes) == 1 and isinstance(nodes[0], ast.Assign) and len(nodes[0].targets) == 1 and isinstance(nodes[0].targets[0], ast.Name):
                return self.evalglobal(m, nodes[0].value, m.name + '.' + name)
            return mk('sym', 'global:' + m.name + '.' + name)
        return mk('unresolved', name)

    def ext(self, dotted):
        if dotted in ('numpy.pi', 'math.pi', 'scipy.pi'):
            return PI
        if dotted in ('numpy.newaxis',):
            return NONE
        if dotted in ('numpy.inf', 'math.inf', 'numpy.Inf', 'numpy.Infinity'):
            return mk('sym', 'inf')
        if dotted.startswith('math.') and dotted[5:] in MATHALIAS:
            dotted = 'math.' + MATHALIAS[dotted[5:]]
        return mk('ext', dotted)

    def evalglobal(self, module, node, key):
        if key in self.globcache:
            return self.globcache[key]
        if key in self.globinprogress:
            return mk('sym', 'global:' + key)
        self.globinprogress.add(key)
        self.muted += 1
        save, sl, stt = self.frames, self.loops, self.trys
        try:
            f = Func(module.name + '.<module>', ast.parse('def f(): pass').body[0], module)
            fr = Frame(f, None, None)
            fr.callnode = None
            self.frames = [fr]
            self.loops, self.trys = [], []
            st = State({}, {})
            try:
                v = self.ev(node, st)
                v = self.V(v, st)
            except RecursionError:
                raise
            # globals holding mutable containers keep identity
            if v.op in ('list', 'dict', 'call', 'store'):
                g = mk('default', key)
                self.objinit[g] = self.deep(v, st.heap)
                v = g
        finally:
            self.frames, self.loops, self.trys = save, sl, stt
            self.muted -= 1
            self.globinprogress.discard(key)
        self.globcache[key] = v
        return v

    BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)

    def name(self, id, st, node):
        if id in st.env:
            return st.env[id]
        # enclosing frames of closures
        fr = self.frames[-1]
        env = fr.closure_env
        while env is not None:
            d, up = env
            if id in d:
                return d[id]
            env = up
        f = fr.func
        if f is not None:
            # sibling nested functions
            p = f
            while p is not None:
                if id in p.nested:
                    return self.mkclosure(p.nested[id], st)
                p = p.parent
            r = self.prog.lookup(f.module.name, id)
            if r is not None:
                return self.fromlookup(r, f.module.name, id)
        if id in self.BUILTINS:
            if id == 'True':
                return TRUE
            return mk('ext', id)
        return mk('undef', id)

    def mkclosure(self, func, st, node=None):
        self.n += 1
        t = mk('closure', func.qual, self.n)
        fr = self.frames[-1]
        self.closures[t] = (func, (st.env, fr.closure_env))
        return t

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.tick()
        m = getattr(self, 'ev_' + e.__class__.__name__, None)
        if m is None:
            return self.fresh('opaque', e.__class__.__name__)
        return m(e, st)

    def rv(self, e, st):
        return self.V(self.ev(e, st), st)

    def ev_Constant(self, e, st):
        v = e.value
        if isinstance(v, (int, float, str, bytes, complex, bool)) or v is None or v is Ellipsis:
            return const(v)
        return self.fresh('opaque', 'const')

    def ev_Name(self, e, st):
        return self.name(e.id, st, e)

    def ev_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.getattr(b, e.attr, st, e)

    def ev_Starred(self, e, st):
        return mk('starred', self.ev(e.value, st))

    def _items(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.rv(x.value, st)
                if v.op in ('list', 'tuple'):
                    out.extend(v.args)
                else:
                    out.append(mk('starred', v))
            else:
                out.append(self.ev(x, st))
        return out

    def ev_Tuple(self, e, st):
        return mk('tuple', *self._items(e.elts, st))

    def ev_List(self, e, st):
        return self.newobj(mk('list', *self._items(e.elts, st)), 'list')

    def ev_Set(self, e, st):
        return mk('tuple', *sorted(set(self._items(e.elts, st)), key=lambda t: t.uid))

    def ev_Dict(self, e, st):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.rv(v, st)
                if d.op == 'dict':
                    items = [i for i in items if i[0] not in [j[0] for j in d.args]] + list(d.args)
                else:
                    items.append((mk('starred', d), d))
            else:
                items.append((self.ev(k, st), self.ev(v, st)))
        return self.newobj(mk('dict', *items), 'dict')

    def ev_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                sp = '' if v.format_spec is None else v.format_spec.values[0].value if len(v.format_spec.values) == 1 and isinstance(v.format_spec.values[0], ast.Constant) else None
                parts.append(fmtfield(self.rv(v.value, st), sp))
        if all(p.op == 'const' and p.args[0] == 'str' for p in parts):
            return const(''.join(p.args[1] for p in parts))
        return mk('fstr', *parts)

    def ev_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def ev_Lambda(self, e, st):
        fn_ = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)], decorator_list=[], returns=None)
        ast.copy_location(fn_, e)
        ast.fix_missing_locations(fn_)
        fr = self.frames[-1]
        f = Func((fr.func.qual if fr.func else '') + '.<lambda:%d>' % e.lineno, fn_, fr.func.module, None, fr.func)
        self.prog.funcs.setdefault(f.qual, f)
        return self.mkclosure(f, st)

    def ev_IfExp(self, e, st):
        c = self.cond(e.test, st)
        c = self.decide(c, st, e)
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = addpc(st.pc, c)
        s2.pc = addpc(st.pc, notb(c))
        a = self.ev(e.body, s1)
        b = self.ev(e.orelse, s2)
        m = self.merge(s1, s2)
        st.env, st.heap = m.env, m.heap
        return ite(c, a, b)

    def cond(self, e, st):
        if isinstance(e, ast.BoolOp):
            parts = []
            cur = st
            isand = isinstance(e.op, ast.And)
            for x in e.values:
                c = self.cond(x, cur)
                if isand and c is FALSE:
                    return FALSE
                if not isand and c is TRUE:
                    return TRUE if not parts else orb(*(parts + [TRUE]))
                parts.append(c)
            return andb(*parts) if isand else orb(*parts)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return notb(self.cond(e.operand, st))
        return truth(self.rv(e, st))

    def ev_BoolOp(self, e, st):
        vals = []
        isand = isinstance(e.op, ast.And)
        r = None
        for x in e.values:
            v = self.ev(x, st)
            if r is None:
                r = v
            else:
                c = truth(self.V(r, st))
                if c.op in ('lt', 'eq', 'is', 'not', 'and', 'or', 'gt', 'in', 'isinst') or c in (TRUE, FALSE):
                    if r is c or r.op in ('lt', 'eq', 'is', 'not', 'and', 'or', 'gt', 'in', 'isinst'):
                        r = andb(r, truth(self.V(v, st))) if isand else orb(r, truth(self.V(v, st)))
                        continue
                r = ite(c, v, r) if isand else ite(c, r, v)
        return r

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return notb(self.cond(e.operand, st))
        v = self.rv(e.operand, st)
        if isinstance(e.op, ast.USub):
            return self.vecop1(neg, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if v.op in ('lt', 'eq', 'not', 'and', 'or', 'is', 'gt'):
            return notb(v)
        return mk('fn', 'invert', v)

    def vecop1(self, f, v):
        if v.op == 'list':
            return mk('list', *[self.vecop1(f, x) for x in v.args])
        if v.op == 'ite' and (v.args[1].op == 'list' or v.args[2].op == 'list'):
            return ite(v.args[0], self.vecop1(f, v.args[1]), self.vecop1(f, v.args[2]))
        return f(v)

    def vecop2(self, f, a, b):
        """elementwise on literal vectors when shapes are evident"""
        if self.lit and (a.op == 'list' or b.op == 'list') and (a.op == 'list' or rank(a) == 0) and (b.op == 'list' or rank(b) == 0):
            r = L_.lmap(f, a, b)
            if r is not None:
                return r
        if a.op == 'list' and b.op == 'call':
            b = _smallalloc(b)
        elif b.op == 'list' and a.op == 'call':
            a = _smallalloc(a)
        if a.op == 'list' and b.op == 'list':
            if len(a.args) == len(b.args):
                an, bn = _nest(a), _nest(b)
                if an == bn:
                    return mk('list', *[self.vecop2(f, x, y) for x, y in zip(a.args, b.args)])
            if _nest(a) == 2 and _nest(b) == 1:
                return mk('list', *[self.vecop2(f, x, b) for x in a.args])
            if _nest(a) == 1 and _nest(b) == 2:
                return mk('list', *[self.vecop2(f, a, x) for x in b.args])
            if len(a.args) == 1 and _nest(a) == _nest(b):
                return mk('list', *[self.vecop2(f, a.args[0], y) for y in b.args])
            if len(b.args) == 1 and _nest(a) == _nest(b):
                return mk('list', *[self.vecop2(f, x, b.args[0]) for x in a.args])
            return f(a, b)
        if a.op == 'list' and rank(b) == 0:
            return mk('list', *[self.vecop2(f, x, b) for x in a.args])
        if b.op == 'list' and rank(a) == 0:
            return mk('list', *[self.vecop2(f, a, y) for y in b.args])
        if a.op == 'list' and rank(b) == 1 and _nest(a) == 1:
            return mk('list', *[self.vecop2(f, x, sel(b, const(i))) for i, x in enumerate(a.args)])
        if b.op == 'list' and rank(a) == 1 and _nest(b) == 1:
            return mk('list', *[self.vecop2(f, sel(a, const(i)), x) for i, x in enumerate(b.args)])
        return f(a, b)

    def ev_BinOp(self, e, st):
        ar, br = self.ev(e.left, st), self.ev(e.right, st)
        r = self.binop(e.op, ar, br, st, e)
        if self.freshops and r.op not in ('const', 'obj') and (r is ar or r is br or r is self.V(ar, st) or r is self.V(br, st)) and not is_num(r) and rank(r) != 0:
            r = self.newobj(r, 'array')
        elif self.freshops == 'alloc' and r.op != 'obj' and any(z.op == 'call' and z.args[0] == 'alloc' for z in (self.V(ar, st), self.V(br, st))):
            r = self.newobj(r, 'array')
        return r

    def binop(self, op, ar, br, st, node):
        a, b = self.V(ar, st), self.V(br, st)
        if 'binop' in self.hooks:
            r = self.hooks['binop'](self, op.__class__.__name__, a, b, st, node)
            if r is not None:
                return r
        if a.op == 'store':
            a = self.small(a, st)
        if b.op == 'store':
            b = self.small(b, st)
        o = op.__class__.__name__
        # python list semantics
        kinda = self.kind(ar, a)
        kindb = self.kind(br, b)
        if o == 'Add':
            if a.op == 'const' and b.op == 'const' and a.args[0] == 'str' and b.args[0] == 'str':
                return const(a.args[1] + b.args[1])
            if (a.op == 'const' and a.args[0] == 'str') or (b.op == 'const' and b.args[0] == 'str') or a.op == 'fstr' or b.op == 'fstr':
                return fcat(a, b)
            if kinda == 'list' and kindb == 'list':
                if a.op == 'list' and b.op == 'list':
                    return self.newobj(mk('list', *(a.args + b.args)), 'list')
                return self.newobj(mk('concat', a, b), 'list')
            if a.op == 'tuple' and b.op == 'tuple':
                return mk('tuple', *(a.args + b.args))
            return self.vecop2(add, a, b)
        if o == 'Sub':
            return self.vecop2(sub, a, b)
        if o == 'Mult':
            if kinda == 'list' and a.op == 'list' and is_num(b) and cval(b) == int(cval(b)) and 0 <= cval(b) < 4096:
                return self.newobj(mk('list', *(a.args * int(cval(b)))), 'list')
            if kinda == 'list' or kindb == 'list' or a.op == 'tuple' or b.op == 'tuple':
                if a.op == 'tuple' and is_num(b):
                    return mk('tuple', *(a.args * int(cval(b))))
                if not (a.op == 'list' and rank(b) is None):
                    if kinda == 'list' and rank(b) == 0 or kindb == 'list' and rank(a) == 0:
                        return self.newobj(mk('replist', a, b), 'list')
            return self.vecop2(mul, a, b)
        if o == 'Div':
            return self.vecop2(div, a, b)
        if o == 'FloorDiv':
            return self.vecop2(floordiv, a, b)
        if o == 'Mod':
            if a.op == 'const' and a.args[0] == 'str':
                return mk('fstr', a, b)
            return self.vecop2(lambda x, y: fn('mod', x, y), a, b)
        if o == 'Pow':
            return self.vecop2(power, a, b)
        if o == 'MatMult':
            return self.np_dot([a, b], {}, st)
        if o in ('BitAnd', 'BitOr'):
            if a.op in ('lt', 'eq', 'not', 'and', 'or', 'is', 'gt') and b.op in ('lt', 'eq', 'not', 'and', 'or', 'is', 'gt'):
                return andb(a, b) if o == 'BitAnd' else orb(a, b)
            if is_num(a) and is_num(b):
                return const(cval(a) & cval(b) if o == 'BitAnd' else cval(a) | cval(b))
            return mk('fn', o, *sorted((a, b), key=lambda t: t.uid))
        if is_num(a) and is_num(b) and o in ('LShift', 'RShift', 'BitXor'):
            x, y = cval(a), cval(b)
            return const({'LShift': x << y, 'RShift': x >> y, 'BitXor': x ^ y}[o])
        if o == 'LShift':
            return mul(a, power(const(2), b))
        return mk('fn', o, a, b)

    def kind(self, ref, v):
        if ref.op == 'obj':
            return self.objkind.get(ref)
        if v.op == 'comp' or v.op == 'concat' or v.op == 'replist':
            return 'list'
        return None

    def ev_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = []
        for op, rt in zip(e.ops, e.comparators):
            right = self.ev(rt, st)
            out.append(self.compare(op, left, right, st))
            left = right
        return andb(*out) if len(out) > 1 else out[0]

    def compare(self, op, lr, rr, st):
        a, b = self.V(lr, st), self.V(rr, st)
        o = op.__class__.__name__
        if o == 'Lt':
            return lt(a, b)
        if o == 'Gt':
            return lt(b, a)
        if o == 'LtE':
            return le(a, b)
        if o == 'GtE':
            return le(b, a)
        if o == 'Eq':
            return eq(a, b)
        if o == 'NotEq':
            return notb(eq(a, b))
        if o in ('Is', 'IsNot'):
            if b is NONE:
                r = self.isnone(a, st)
            elif a is NONE:
                r = self.isnone(b, st)
            elif b in (TRUE, FALSE):
                r = truth(a) if b is TRUE else notb(truth(a))
            else:
                r = TRUE if lr is rr else mk('is', lr, rr)
            return r if o == 'Is' else notb(r)
        if o in ('In', 'NotIn'):
            if 'contains' in self.hooks:
                r = self.hooks['contains'](self, rr, [lr], [a], {}, st, None)
                if r is not None:
                    return r if o == 'In' else notb(r)
            if b.op in ('list', 'tuple') and not any(x.op == 'starred' for x in b.args):
                r = orb(*[eq(a, self.V(x, st)) for x in b.args]) if b.args else FALSE
            elif b.op == 'dict' and a.op == 'const':
                r = const(any(k is a for k, v in b.args)) if all(k.op == 'const' for k, v in b.args) else mk('in', a, b)
            elif b.op == 'const' and a.op == 'const' and b.args[0] == 'str' == a.args[0]:
                r = const(a.args[1] in b.args[1])
            else:
                r = mk('in', a, b)
            return r if o == 'In' else notb(r)
        return self.fresh('opaque', o)

    def isnone(self, t, st):
        if t in self.arrays or t in self.types:
            return FALSE
        return isnone(t)

    def ev_Slice(self, e, st):
        f = lambda x: NONE if x is None else self.rv(x, st)
        return mk('slice', f(e.lower), f(e.upper), f(e.step))

    def key(self, e, st):
        k = self.ev(e, st)
        k = self.V(k, st)
        if k.op == 'tuple':
            k = mk('tuple', *[self.V(x, st) for x in k.args])
        return k

    def ev_Subscript(self, e, st):
        b = self.ev(e.value, st)
        k = self.key(e.slice, st)
        return self.subscript(b, k, st, e)

    def viewsof(self, b, k):
        if b.op == 'ite':
            return mk('ite', b.args[0], self.viewsof(b.args[1], k), self.viewsof(b.args[2], k))
        return mk('view', b, k)

    def subscript(self, b, k, st, node=None):
        if 'getitem' in self.hooks:
            r = self.hooks['getitem'](self, b, [k], [k], {}, st, node)
            if r is not None:
                return r
        bv = self.V(b, st)
        if bv.op == 'ite' and bv.args[1] is NONE:
            bv = bv.args[2]
        elif bv.op == 'ite' and bv.args[2] is NONE:
            bv = bv.args[1]
        hasslice = any(x.op == 'slice' or x is ELL for x in keytuple(k))
        if hasslice and bv.op not in ('tuple', 'const', 'fstr', 'attr') and self.objkind.get(b) != 'list' and bv.op != 'comp':
            if b.op in ('obj', 'default', 'view', 'sym', 'attr', 'sel', 'call', 'ret', 'mcall', 'after', 'ite'):
                r = sel(bv, k)
                if b in self.arrays or b.op in ('obj', 'default', 'view') or (b.op == 'mcall' and b.args[1] in ALIAS_METHODS):
                    if k is FULL or k is ELL:
                        return mk('view', b, k)
                    return mk('view', b, k)
                if b.op == 'ite':
                    self.viewsrc[r] = self.viewsof(b, k)
                return r
        if hasslice and bv.op == 'attr' and (b in self.arrays):
            return mk('view', b, k)
        if k.op == 'const' and k.args[0] == 'str' and self.fieldable(b) and bv.op in ('call', 'store', 'sel', 'poly', 'ite', 'sym', 'after', 'mcall', 'attr', 'ret'):
            return mk('view', b, k)
        if hasslice and self.objkind.get(b) == 'list':
            r = sel(bv, k)
            return self.newobj(r, 'list')
        if self.fieldable(b) and k.op in ('const', 'it', 'mu', 'poly', 'sym') and bv.op in ('call', 'store', 'ite', 'after', 'poly', 'sel'):
            sh = self.shape(b, st)
            if sh is not None and sh.op in ('tuple', 'list') and len(sh.args) > 1 and rank(k) == 0:
                return mk('view', b, k)
        r = sel(bv, k)
        if r.op == 'opaque' and r.args and r.args[0] == 'oob':
            self.event('oob', st, node, base=bv, key=k)
        # element of list of tracked instances
        return r

    # ------------------------------------------------------------ comprehensions
    def ev_ListComp(self, e, st):
        v = self.comp(e, st)
        return self.newobj(v, 'list')

    def ev_GeneratorExp(self, e, st):
        return self.newobj(self.comp(e, st), 'list')

    def ev_SetComp(self, e, st):
        return self.comp(e, st)

    def ev_DictComp(self, e, st):
        save = dict(st.env)
        v = self.fresh('opaque', 'dictcomp')
        return v

    def comp(self, e, st, gi=0):
        g = e.generators[gi]
        itv = self.iterterm(g.iter, st)
        n = trips(itv)
        save = dict(st.env)
        if is_num(n) and 0 <= cval(n) <= max(self.unroll, 64) and isinstance(cval(n), int):
            out = []
            ok = True
            for i in range(cval(n)):
                self.assign(g.target, self.elem(itv, const(i), st), st, e)
                c = andb(*[self.cond(x, st) for x in g.ifs]) if g.ifs else TRUE
                if c is FALSE:
                    continue
                if c is not TRUE:
                    ok = False
                    break
                if gi + 1 < len(e.generators):
                    r = self.comp(e, st, gi + 1)
                    if r.op != 'list':
                        ok = False
                        break
                    out.extend(r.args)
                else:
                    out.append(self.ev(e.elt, st))
            st.env = {**{k: v for k, v in save.items()}}
            if ok:
                return mk('list', *out)
        L = self.newloop(e, 'comp')
        L.iter = itv
        self.loops.append(L)
        itx = mk('it', L.id)
        self.assign(g.target, self.elem(itv, itx, st), st, e)
        cs = [self.cond(x, st) for x in g.ifs]
        st2 = st.copy()
        if cs:
            st2.pc = addpc(st.pc, andb(*cs))
        if gi + 1 < len(e.generators):
            body = self.comp(e, st2, gi + 1)
            body = mk('flat', body)
        else:
            body = self.ev(e.elt, st2)
            body = self.V(body, st2) if body.op == 'obj' else body
        st.heap = st2.heap
        self.loops.pop()
        st.env = save
        if cs:
            return mk('comp', mk('filter', itv, andb(*cs)), body, L.id)
        return mk('comp', itv, body, L.id)

    def newloop(self, node, kind):
        self.loopid += 1
        L = Loop(node, kind, self.loops[-1] if self.loops else None)
        L.id = self.loopid
        self.loopsmade.append(L)
        return L

    def iterterm(self, e, st):
        v = self.ev(e, st)
        return self.iterof(v, st)

    def iterof(self, v, st):
        x = self.V(v, st)
        if x.op == 'call' and x.args[0] == 'alloc' and x.args[1][0] is const('arange') and len(x.args[1]) > 2:
            return mk('range', *x.args[1][2:5])
        if x.op == 'dict':
            return mk('list', *[k for k, _ in x.args])
        return x

    def elem(self, itv, i, st):
        op = itv.op
        if op == 'range':
            return add(itv.args[0], mul(itv.args[2], i))
        if op == 'enumerate':
            return mk('tuple', add(itv.args[1], i), self.elem(self.iterof(itv.args[0], st), i, st))
        if op == 'zip':
            return mk('tuple', *[self.elem(self.iterof(a, st), i, st) for a in itv.args])
        if op == 'comp':
            body = itv.args[1]
            if itv.args[0].op != 'filter' and body.op != 'flat':
                return subst(body, {mk('it', itv.args[2]): i})
        if op == 'reversed':
            n = trips(itv.args[0])
            return self.elem(itv.args[0], sub(sub(n, ONE), i), st)
        if op == 'ite':
            pass
        return self.subscript(itv, i, st)

    # ------------------------------------------------------------ assignment
    def assign(self, tgt, val, st, node):
        if isinstance(tgt, ast.Name):
            fr = self.frames[-1]
            if tgt.id in getattr(fr, 'globals', ()):
                self.event('setglobal', st, node, name=tgt.id, value=val)
            st.env[tgt.id] = val
            if not self.muted:
                self.event('assign', st, node, name=tgt.id, value=val)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            v = self.V(val, st)
            n = len(tgt.elts)
            star = [i for i, x in enumerate(tgt.elts) if isinstance(x, ast.Starred)]
            if v.op == 'ite' and not star:
                a, b = self.V(v.args[1], st), self.V(v.args[2], st)
                if a.op in ('tuple', 'list') and b.op in ('tuple', 'list') and len(a.args) == len(b.args) == n:
                    for i, t in enumerate(tgt.elts):
                        self.assign(t, ite(v.args[0], a.args[i], b.args[i]), st, node)
                    return
            if v.op in ('tuple', 'list') and not star and not any(x.op == 'starred' for x in v.args) and len(v.args) != n:
                self.event('badunpack', st, node, want=n, got=len(v.args))
            for i, t in enumerate(tgt.elts):
                if isinstance(t, ast.Starred):
                    self.assign(t.value, sel(v, mk('slice', const(i), NONE, NONE)), st, node)
                else:
                    if v.op in ('tuple', 'list') and i < len(v.args) and not star:
                        self.assign(t, v.args[i], st, node)
                    else:
                        self.assign(t, self.subscript(val if val.op in ('obj', 'view') or val in self.arrays else v, const(i), st), st, node)
        elif isinstance(tgt, ast.Attribute):
            b = self.ev(tgt.value, st)
            self.setattr(b, tgt.attr, val, st, node)
        elif isinstance(tgt, ast.Subscript):
            b = self.ev(tgt.value, st)
            k = self.key(tgt.slice, st)
            b = self.promote(tgt.value, b, st)
            self.store(b, k, val, st, node)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, val, st, node)

    def promote(self, expr, b, st):
        """a fresh (arithmetic) value being stored into becomes an object"""
        if b.op in ('poly', 'fn', 'list', 'dict', 'ite', 'concat', 'comp', 'cast', 'store', 'inv') or (b.op == 'call' and b.args[0] in ('alloc',)) \
                or (b.op == 'call' and b.args[0].startswith('numpy.')) or (b.op == 'mcall' and b.args[1] not in ALIAS_METHODS):
            if b.op == 'ite' and any(self.isref(x) for x in b.args[1:]):
                # written before on some of the ways here: a fresh value on the others becomes an object now
                r = ite(b.args[0], *[x if self.isref(x) else self.promote(expr, x, st) for x in b.args[1:]])
                if r is not b:
                    for k, v in list(st.env.items()):
                        if v is b:
                            st.env[k] = r
                    for k, v in list(st.heap.items()):
                        if k[0] == 'a' and v is b:
                            st.heap[k] = r
                return r
            o = self.newobj(b, 'array')
            self.promoted[o] = self.viewsrc.get(b, b)
            for k, v in list(st.env.items()):
                if v is b:
                    st.env[k] = o
            for k, v in list(st.heap.items()):
                if k[0] == 'a' and v is b:
                    st.heap[k] = o
            return o
        return b

    def fieldable(self, b):
        """an array object of this run, or a view of one: a string key is a field of a structured array"""
        while b.op == 'view':
            b = b.args[0]
        return b.op == 'obj' and self.objkind.get(b) == 'array'

    def store(self, b, k, val, st, node, op=None):
        v = self.V(val, st)
        self.event('store', st, node, base=b, root=self.rootref(b), key=k, value=v, raw=val, op=op, full=self.fullkey(b, k))
        if 'setitem' in self.hooks and self.hooks['setitem'](self, b, [k, val], [k, v], {}, st, node):
            return
        self.write(b, k, v, st)

    def fullkey(self, b, k):
        """key relative to the root object, when composable"""
        if b.op == 'view':
            probe = sel(mk('sel', mk('sym', '?probe'), b.args[1]), k)
            inner = probe
            if inner.op == 'sel' and inner.args[0] is mk('sym', '?probe'):
                return self.fullkey(b.args[0], inner.args[1])
            return mk('tuple', mk('nested', b.args[1]), k)
        if b.op == 'sel':
            return self.fullkey(b.args[0], mk('tuple', *(keytuple(b.args[1]) + keytuple(k))))
        if b.op == 'store':
            return self.fullkey(b.args[0], k)
        return k

    def rootref(self, b):
        while True:
            if b.op == 'view' or (b.op == 'mcall' and b.args[1] in ALIAS_METHODS) or b.op in ('store', 'after', 'sel'):
                b = b.args[0]
            elif b.op == 'attr' and b.args[1] in ('T', 'flat', 'real', 'imag'):
                b = b.args[0]
            else:
                return b

    def write(self, b, k, v, st):
        op = b.op
        if op == 'ite':
            for x, c in ((b.args[1], b.args[0]), (b.args[2], notb(b.args[0]))):
                if x is NONE:
                    continue
                old = self.V(x, st)
                self.write(x, k, v, st)
                new = self.V(x, st)
                if x.op in ('obj', 'sym', 'default'):
                    st.heap[('c', x)] = ite(c, new, old)
            return
        if op == 'view':
            base, vk = b.args
            old = self.V(base, st)
            if self.lit:
                cur = sel(self.deeplist(old, st), vk)
                nd = L_.lshape(cur) if cur.op == 'list' else None
                ks = L_.litkeys(k, len(nd)) if nd else None
                r = L_.lput(cur, ks, self.deeplist(v, st)) if ks is not None else None
                if r is not None:
                    self.write(base, vk, r, st)
                    return
            fk = self.fullkey(b, k)
            if not (fk.op == 'tuple' and fk.args and fk.args[0].op == 'nested') and self.rootref(b) is base:
                self.write(base, fk, v, st)
            else:
                self.write(base, vk, mkstore(sel(old, vk), k, v), st)
            return
        if op == 'sel':
            r = b.args[0]
            self.write(r, mk('tuple', *(keytuple(b.args[1]) + keytuple(k))), v, st)
            return
        if op in ('store', 'after'):
            self.write(b.args[0], k, v, st)
            return
        if op == 'mcall' and b.args[1] in ALIAS_METHODS:
            r = self.rootref(b)
            st.heap[('c', r)] = mkstore(self.V(r, st), mk('via', const(b.args[1]), k, *[self.deeplist(self.V(x, st), st) for x in b.args[2]]), v)
            return
        if op == 'attr' and b.args[1] in ('T', 'flat', 'real', 'imag'):
            r = self.rootref(b)
            st.heap[('c', r)] = mkstore(self.V(r, st), mk('via', const(b.args[1]), k), v)
            return
        cur = self.V(b, st)
        if cur.op == 'dict' and k.op == 'const':
            items = [(kk, vv) for kk, vv in cur.args if kk is not k] + [(k, v)]
            st.heap[('c', b)] = mk('dict', *items)
            return
        if self.lit and cur.op == 'list':
            nd = L_.lshape(cur)
            ks = L_.litkeys(k, len(nd)) if nd else None
            if ks is not None:
                r = L_.lput(cur, ks, self.deeplist(v, st))
                if r is not None:
                    st.heap[('c', b)] = r
                    return
        if cur.op == 'list' and is_num(k) and isinstance(cval(k), int) and -len(cur.args) <= cval(k) < len(cur.args):
            l = list(cur.args)
            l[cval(k)] = v
            st.heap[('c', b)] = mk('list', *l)
            return
        if cur.op == 'list' and k.op == 'tuple' and len(k.args) == 2 and all(is_num(x) for x in k.args):
            i, j = cval(k.args[0]), cval(k.args[1])
            if isinstance(i, int) and isinstance(j, int) and -len(cur.args) <= i < len(cur.args) and cur.args[i].op == 'list' and -len(cur.args[i].args) <= j < len(cur.args[i].args):
                l = list(cur.args)
                r = list(l[i].args)
                r[j] = v
                l[i] = mk('list', *r)
                st.heap[('c', b)] = mk('list', *l)
                return
        if k.op in ('lt', 'gt', 'not', 'and', 'or', 'eq') and rank(v) == 0:
            c = self.small(cur, st) if cur.op == 'store' else cur
            if c.op == 'list':
                m = maskstore(c, k, v)
                if m is not None:
                    st.heap[('c', b)] = m
                    return
        st.heap[('c', b)] = mkstore(cur, k, v)

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, st):
        f = self.ev(e.func, st) if not isinstance(e.func, ast.Attribute) else None
        recv = None
        if f is None:
            recv = self.ev(e.func.value, st)
            f = self.attrcallee(recv, e.func.attr, st, e)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.rv(a.value, st)
                if v.op in ('list', 'tuple'):
                    args.extend(v.args)
                else:
                    args.append(mk('starred', v))
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                d = self.V(v, st)
                if d.op == 'dict' and all(kk.op == 'const' for kk, vv in d.args):
                    for kk, vv in d.args:
                        kw[kk.args[1]] = vv
                else:
                    kw['**'] = d
            else:
                kw[k.arg] = v
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not args and f.op == 'ext':
            return self.mksuper(st)
        return self.call(f, args, kw, st, e)

    def mksuper(self, st):
        fr = self.frames[-1]
        f = fr.func
        while f is not None and f.cls is None:
            f = f.parent
        selfname = f.params()[0] if f and f.params() else None
        selfv = st.env.get(selfname)
        return mk('super', f.cls.qual, selfv) if f and selfv is not None else self.fresh('opaque', 'super')

    def attrcallee(self, recv, name, st, node):
        if recv.op == 'super':
            selfv = recv.args[1]
            cls = self.classof(selfv)
            here = self.prog.classes[recv.args[0]]
            mro = self.prog.mro(cls) if cls is not None else self.prog.mro(here)
            if here in mro:
                for c in mro[mro.index(here) + 1:]:
                    if name in c.methods:
                        return mk('bound', selfv, c.methods[name].qual)
            return mk('ext', 'object.' + name)
        if recv.op in ('module', 'ext', 'class', 'new', 'ite') or recv in self.types:
            return self.getattr(recv, name, st, node) if recv.op != 'ite' else self.itemethod(recv, name, st, node)
        v = st.heap.get(('a', recv, name))
        if v is not None:
            return v
        return mk('method', recv, name)

    def itemethod(self, recv, name, st, node):
        a, b = recv.args[1], recv.args[2]
        if a is NONE:
            return self.attrcallee(b, name, st, node)
        if b is NONE:
            return self.attrcallee(a, name, st, node)
        return ite(recv.args[0], self.attrcallee(a, name, st, node), self.attrcallee(b, name, st, node))

    def call(self, f, args, kw, st, node):
        self.tick()
        op = f.op
        if op == 'ite':
            c = f.args[0]
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = addpc(st.pc, c), addpc(st.pc, notb(c))
            a = self.call(f.args[1], args, kw, s1, node)
            b = self.call(f.args[2], args, kw, s2, node)
            m = self.merge(s1, s2)
            st.env, st.heap = m.env, m.heap
            return ite(c, a, b)
        if op == 'func':
            return self.call_func(self.prog.funcs[f.args[0]], args, kw, st, node)
        if op == 'bound':
            return self.call_func(self.prog.funcs[f.args[1]], [f.args[0]] + args, kw, st, node)
        if op == 'closure':
            fu, env = self.closures[f]
            return self.call_func(fu, args, kw, st, node, env)
        if op == 'class':
            return self.instantiate(self.prog.classes[f.args[0]], args, kw, st, node)
        if op == 'ext':
            return self.call_ext(f.args[0], args, kw, st, node)
        if op == 'method':
            return self.call_method(f.args[0], f.args[1], args, kw, st, node)
        if op == 'partial':
            return self.call(f.args[0], list(f.args[1]) + args, {**dict(f.args[2]), **kw}, st, node)
        if op == 'actoropts':
            return self.call(f, args, kw, st, node)
        if 'dynamic' in self.hooks:
            r = self.hooks['dynamic'](self, f, args, [self.V(a, st) for a in args], kw, st, node)
            if r is not None:
                return r
        r = self.fresh('ret', 'dynamic', f)
        self.event('call', st, node, name='?dynamic', callee=f, args=args, kw=kw, vals=[self.V(a, st) for a in args], result=r)
        return r

    def instantiate(self, cls, args, kw, st, node):
        if self.prog.extbases(cls) and not self.prog.method(cls, '__init__'):
            o = self.newinst(cls)
            self.event('new', st, node, cls=cls.qual, args=args, kw=kw, result=o, bound={})
            return o
        o = self.newinst(cls)
        init = self.prog.method(cls, '__init__')
        bound = {}
        if init is not None:
            bound, err = self.bind(init, [o] + args, kw, st, node)
        self.event('new', st, node, cls=cls.qual, args=args, kw=kw, result=o, bound=bound)
        if init is not None:
            self.call_func(init, [o] + args, kw, st, node)
        return o

    def bind(self, func, args, kw, st, node, quiet=False):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        err = None
        extra = []
        stars = [x for x in args if x.op == 'starred']
        for i, v in enumerate(args):
            if v.op == 'starred':
                for nm in names[i:]:
                    if nm not in kw:
                        out[nm] = self.fresh('ret', 'starredarg', v)
                break
            if i < len(names):
                out[names[i]] = v
            else:
                extra.append(v)
        if extra and not a.vararg:
            err = 'takes %d positional arguments, given %d' % (len(names), len(args))
        konly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k == '**':
                continue
            if k in names or k in konly:
                if k in out and not stars:
                    err = "got multiple values for argument '%s'" % k
                out[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                err = "got an unexpected keyword argument '%s'" % k
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for nm in names + konly:
            if nm not in out:
                if '**' in kw and (nm in defaults or True):
                    d = kw['**']
                    if d.op == 'dict':
                        hit = [v for k, v in d.args if k is const(nm)]
                        if hit:
                            out[nm] = hit[0]
                            continue
                    if nm in defaults:
                        out[nm] = ite(mk('in', const(nm), d), sel(d, const(nm)), self.default(func, nm, defaults[nm]))
                    else:
                        out[nm] = sel(d, const(nm))
                elif nm in defaults:
                    out[nm] = self.default(func, nm, defaults[nm])
                else:
                    err = err or "missing argument '%s'" % nm
                    out[nm] = self.fresh('opaque', 'missing')
        if a.vararg:
            out[a.vararg.arg] = mk('tuple', *extra)
        if a.kwarg:
            if '**' in kw:
                d = kw['**']
                items = list(rest.items())
                if not items:
                    out[a.kwarg.arg] = d
                else:
                    out[a.kwarg.arg] = self.newobj(mk('dict', *([(mk('starred', d), d)] + [(const(k), v) for k, v in items])), 'dict')
            else:
                out[a.kwarg.arg] = self.newobj(mk('dict', *[(const(k), v) for k, v in rest.items()]), 'dict')
        return out, err

    def default(self, func, name, node):
        return self.evalglobal(func.module, node, 'default:%s.%s' % (func.qual, name))

    def shouldinline(self, func):
        if func.qual in self.boundary or func.qual.replace(PKG + '.', '', 1) in self.boundary:
            return False
        if len(self.frames) > self.maxdepth:
            return False
        if sum(1 for f in self.frames if f.func is func) >= self.recur:
            return False
        if self.inlinef is not None:
            return self.inlinef(func)
        return True

    def call_func(self, func, args, kw, st, node, cenv=None):
        bound, err = self.bind(func, args, kw, st, node)
        if err:
            self.event('badcall', st, node, name=func.qual, err=err)
        inl = self.shouldinline(func)
        ev = self.event('call', st, node, name=func.qual, callee=func, args=args, kw=kw, bound=bound,
                        vals=[self.V(a, st) for a in args], inlined=inl, result=None)
        if not inl or err:
            self.callstate = st
            self.callnode = node
            r = self.returns[func.qual](self, bound) if func.qual in self.returns else self.fresh('ret', func.qual, tuple(sorted(((k, self.V(v, st)) for k, v in bound.items()), key=lambda x: x[0])))
            if ev:
                ev.d['result'] = r
            return r
        r = self.run(func, bound, st, node, cenv)
        if ev:
            ev.d['result'] = r
        return r

    def run(self, func, bound, st, node=None, cenv=None):
        self.funcs_seen.add(func.qual)
        fr = Frame(func, self.frames[-1] if self.frames else None, cenv)
        fr.callnode = node
        fr.globals = set()
        for n in ast.walk(func.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                fr.globals.update(n.names)
        saved = st.env
        savedloops = self.loops
        s = State(dict(bound), st.heap, st.pc)
        basepc = st.pc
        self.frames.append(fr)
        isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(func.node))
        try:
            end = self.block(func.node.body, s)
            if end is not None:
                fr.exits.append(('return', end, NONE, func.node))
            rets = [x for x in fr.exits if x[0] == 'return']
            if not rets:
                # never returns normally
                r = mk('never', func.qual)
                st.heap = s.heap
                fr.dead = True
                self.lastdead = True
                if self.hard_raise and fr.exits and len(self.frames) > 1:
                    st.heap = fr.exits[-1][1].heap
                    x = PyRaise(self.excof(fr.exits[-1][2]))
                    x.seen = self.trys[-1] if self.trys else None
                    raise x
            else:
                stt, val = rets[-1][1], rets[-1][2]
                for k, s2, v2, nd in reversed(rets[:-1]):
                    c = andb(*s2.pc[len(basepc):]) if s2.pc[:len(basepc)] == basepc else andb(*[x for x in s2.pc if x not in basepc])
                    val = self.iteval(c, v2, val, s2, stt)
                    stt = self.merge(s2, stt, c)
                r = val
                st.heap = stt.heap
                # facts established by raising early
                gone = [x for x in fr.exits if x[0] == 'raise']
                if len(rets) == 1 and gone:
                    st.pc = tuple(x for x in rets[0][1].pc) if rets[0][1].pc[:len(basepc)] == basepc else st.pc
            fr.result = r
        finally:
            self.frames.pop()
            st.env = saved
            self.loops = savedloops
        fr.exits_all = fr.exits
        self.lastframe = fr
        if isgen:
            return self.fresh('ret', 'generator', func.qual)
        return r

    def iteval(self, c, a, b, sa, sb):
        if a is b:
            return a
        if a.op == 'tuple' and b.op == 'tuple' and len(a.args) == len(b.args):
            return mk('tuple', *[ite(c, x, y) for x, y in zip(a.args, b.args)])
        return ite(c, a, b)

    # ------------------------------------------------------------ external calls
    def call_ext(self, name, args, kw, st, node):
        vals = [self.V(a, st) for a in args]
        kv = {k: self.V(v, st) for k, v in kw.items()}
        ev = self.event('call', st, node, name=name, callee=None, args=args, kw=kw, vals=vals, kvals=kv, result=None)
        r = self._ext(name, args, vals, kw, kv, st, node)
        if ev:
            ev.d['result'] = r
        if 'out' in kw and kw['out'] is not NONE:
            self.event('store', st, node, base=kw['out'], root=self.rootref(kw['out']), key=FULL, value=r, raw=r, op='out', full=FULL)
            self.write(kw['out'], ELL, r, st)
        return r

    def _ext(self, name, args, vals, kw, kv, st, node):
        n = name
        if '*' in self.hooks:
            r = self.hooks['*'](self, mk('ext', n), args, vals, kv, st, node)
            if r is not None:
                return r
        if n in self.hooks:
            r = self.hooks[n](self, None, args, vals, kv, st, node)
            if r is not None:
                return r
        if n in self.returns:
            return self.returns[n](self, vals, kv)
        base = n.rsplit('.', 1)[-1]
        if n.startswith('numba.') and 'numpy.' + base in FLOATCAST | INTCAST | NARROW:
            n = 'numpy.' + base
        if n in FLOATCAST | INTCAST and len(vals) == 1 and vals[0] in (TRUE, FALSE):
            return ONE if vals[0] is TRUE else ZERO
        if n in ('len',) and len(vals) == 1:
            s = self.shape(args[0], st)
            if s is not None and s.op == 'tuple' and s.args:
                return s.args[0]
            return length(vals[0])
        if n in ('range', 'numba.prange', 'xrange') and vals:
            if len(vals) == 1:
                r = mk('range', ZERO, vals[0], ONE)
            elif len(vals) == 2:
                r = mk('range', vals[0], vals[1], ONE)
            else:
                r = mk('range', *vals[:3])
            return mk('prange', r) if False else r
        if n in FLOATCAST and len(vals) == 1:
            if vals[0].op == 'const' and vals[0].args[0] == 'str':
                try:
                    return const(float(vals[0].args[1]))
                except ValueError:
                    pass
            return vals[0]
        if n in INTCAST and len(vals) == 1:
            return self.vecop1(lambda x: fn('int', x), vals[0])
        if n in NARROW and len(vals) == 1:
            if is_num(vals[0]) and isint(vals[0]) and 0 <= cval(vals[0]) < 128:
                return vals[0]
            return mk('cast', base, vals[0])
        if n in ('bool',) and len(vals) == 1:
            return truth(vals[0])
        if n == 'str' and len(vals) == 1:
            if vals[0].op == 'const':
                return const(str(float(cval(vals[0])) if vals[0].args[0] == 'n' and not isinstance(cval(vals[0]), int) else cval(vals[0]))) if vals[0].args[0] in ('n', 'str', 'b') else mk('fstr', vals[0])
            if vals[0].op == 'fstr':
                return vals[0]
            return mk('fstr', vals[0])
        if n == 'enumerate' and vals:
            start = vals[1] if len(vals) > 1 else kv.get('start', ZERO)
            return mk('enumerate', vals[0], start)
        if n == 'zip':
            return mk('zip', *vals)
        if n == 'reversed' and len(vals) == 1:
            return mk('reversed', self.iterof(args[0], st))
        if n in ('list', 'tuple') and len(vals) <= 1:
            if not vals:
                return self.newobj(mk('list'), 'list') if n == 'list' else mk('tuple')
            v = vals[0]
            if v.op == 'range' and is_num(trips(v)) and cval(trips(v)) <= 256:
                v = mk('list', *[add(v.args[0], mul(v.args[2], const(i))) for i in range(cval(trips(v)))])
            if v.op in ('list', 'tuple'):
                return self.newobj(mk('list', *v.args), 'list') if n == 'list' else mk('tuple', *v.args)
            return self.newobj(v, 'list') if n == 'list' else v
        if n == 'dict':
            items = [(const(k), v) for k, v in kw.items() if k != '**']
            if vals and vals[0].op == 'dict':
                items = [i for i in vals[0].args if i[0] not in [j[0] for j in items]] + items
            elif vals:
                return self.newobj(mk('call', 'dict', tuple(vals), ()), 'dict')
            return self.newobj(mk('dict', *items), 'dict')
        if n == 'isinstance' and len(vals) == 2:
            return self.isinst(vals[0], args[0], args[1], st)
        if n == 'hasattr' and len(vals) == 2 and vals[1].op == 'const':
            b = args[0]
            if ('a', b, vals[1].args[1]) in st.heap:
                return TRUE
            if b.op == 'new':
                c = self.classof(b)
                if c is not None and self.prog.method(c, vals[1].args[1]):
                    return TRUE
            return mk('truthy', mk('call', 'hasattr', (vals[0], vals[1]), ()))
        if n == 'getattr' and len(vals) >= 2 and vals[1].op == 'const':
            return self.getattr(args[0], vals[1].args[1], st, node)
        if n == 'setattr' and len(vals) == 3 and vals[1].op == 'const':
            self.setattr(args[0], vals[1].args[1], args[2], st, node)
            return NONE
        if n == 'functools.partial' and args:
            return mk('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items())))
        if n in ('copy.copy', 'copy.deepcopy') and args:
            a = args[0]
            if a.op == 'new' or a in self.types:
                return self.copyinst(a, st, deep=n.endswith('deepcopy'))
            return self.newobj(vals[0], self.objkind.get(a, 'array'))
        if n == 'print':
            return NONE
        if n.startswith('str.') and vals and vals[0].op == 'const' and vals[0].args[0] == 'str':
            return self.call_method(vals[0], base, args[1:], kw, st, node, quiet=True)
        if n == 'functools.reduce' and vals and vals[0].op == 'ext' and vals[0].args[0] == 'math.gcd':
            r = mk('call', 'gcd', tuple(self.deep(v, st.heap) for v in vals[1:]), ())
            declare_scalar(r)
            return r
        if n == 'type':
            return mk('call', 'type', tuple(vals), ())
        if n == 'sum' and vals:
            r = self.reduce_sum(vals[0], st)
            if r is not None:
                return r
            return mk('call', 'sum', tuple(vals), ())
        if n in ('min', 'max', 'numpy.minimum', 'numpy.maximum', 'numpy.fmin', 'numpy.fmax', 'numpy.min', 'numpy.max', 'numpy.amin', 'numpy.amax', 'math.fmin'):
            mm = 'min' if 'min' in base else 'max'
            if n in ('min', 'max') or n.endswith('imum') or 'fm' in base:
                if len(vals) >= 2:
                    if n.startswith('numpy'):
                        return self.vecop2(lambda x, y: fn(mm, x, y), vals[0], vals[1])
                    return fn(mm, *vals)
            if len(vals) == 1 and not kv:
                if vals[0].op in ('list', 'tuple') and vals[0].args and all(x.op not in ('list', 'starred') for x in vals[0].args):
                    return fn(mm, *vals[0].args)
                return mk('fn', mm, vals[0])
            return mk('call', 'numpy.' + mm, tuple(vals), tuple(sorted(kv.items())))
        if n.startswith(('numpy.', 'math.', 'cmath.')) or n in ('abs', 'round'):
            r = self._np(n, base, args, vals, kw, kv, st, node)
            if r is not None:
                return r
        if n == 'sorted':
            return self.newobj(mk('call', 'sorted', tuple(vals), tuple(sorted(kv.items()))), 'list')
        pure = (n.startswith(('numpy.', 'math.', 'scipy.', 'os.path.', 'matplotlib.', 'skimage.')) and not n.startswith('numpy.random') and n not in IMPURE_NP) \
            or n in ('any', 'all', 'map', 'filter', 'set', 'frozenset', 'ord', 'chr', 'repr', 'divmod', 'slice', 'id', 'callable', 'issubclass', 'pathlib.Path', 'Path', 'bytes', 'platform.system')
        if n == 'divmod' and len(vals) == 2:
            return mk('tuple', floordiv(*vals), fn('mod', *vals))
        if n == 'slice' and vals:
            v = (vals + [NONE] * 3)[:3] if len(vals) > 1 else [NONE, vals[0], NONE]
            return mk('slice', *v)
        if pure:
            return mk('call', n, tuple(vals), tuple(sorted(kv.items())))
        return self.fresh('ret', n, tuple(vals), tuple(sorted(kv.items())))

    def copyinst(self, a, st, deep=True):
        c = self.classof(a)
        o = self.newinst(c)
        st.heap[('a', o, '*copyof')] = a
        for k, v in list(st.heap.items()):
            if k[0] == 'a' and k[1] is a:
                if deep and v.op in ('obj', 'default', 'view'):
                    v = self.newobj(self.V(v, st), self.objkind.get(v, 'array'))
                elif deep and v.op == 'new':
                    v = self.copyinst(v, st, True)
                st.heap[('a', o, k[2])] = v
        return o

    def isinst(self, v, raw, c, st):
        cs = self.V(c, st)
        if cs.op in ('tuple', 'list'):
            return orb(*[self.isinst(v, raw, x, st) for x in cs.args])
        nm = cs.args[0] if cs.op in ('class', 'ext') else None
        if nm is None:
            return mk('isinst', v, cs)
        cl = self.classof(raw)
        if cl is not None:
            if cs.op == 'class':
                return const(self.prog.classes[nm] in self.prog.mro(cl))
            return FALSE
        if v.op == 'const':
            k = v.args[0]
            if v is NONE:
                return FALSE
            if k == 'str':
                return const(nm == 'str')
            if k == 'n':
                if nm in ('int', 'float'):
                    return const((nm == 'int') == isint(v)) if nm == 'int' else const(not isint(v))
                return FALSE
            if k == 'b':
                return const(nm in ('bool', 'int'))
        if nm == 'numpy.ndarray':
            if raw in self.arrays:
                return TRUE
            if v.op in ('func', 'class', 'tuple', 'fstr'):
                return FALSE
            if raw.op == 'obj':
                return const(self.objkind.get(raw) == 'array')
        if nm == 'list' and raw.op == 'obj':
            return const(self.objkind.get(raw) == 'list')
        if nm == 'str' and (raw.op in ('obj', 'tuple', 'list') or v.op in ('list', 'tuple', 'poly') or raw in self.arrays):
            return FALSE
        if nm == 'str' and v.op == 'fstr':
            return TRUE
        return mk('isinst', v, cs)

    def reduce_sum(self, v, st):
        if v.op in ('list', 'tuple') and v.args and all(x.op not in ('list', 'starred') for x in v.args):
            return add(*[self.V(x, st) for x in v.args])
        return None

    def _np(self, n, base, args, vals, kw, kv, st, node):
        base = MATHALIAS.get(base, base)
        if base in MATH1 and len(vals) >= 1:
            v = vals[0]
            if base == 'square':
                return self.vecop1(lambda x: mul(x, x), v)
            if base == 'radians':
                return self.vecop1(lambda x: mul(x, PI, const(Fraction_(1, 180))), v)
            if base == 'degrees':
                return self.vecop1(lambda x: div(mul(x, const(180)), PI), v)
            if base == 'round' and len(vals) > 1:
                return mk('fn', 'roundn', *vals)
            return self.vecop1(lambda x: fn(base, x), v)
        if base in ('arctan2', 'atan2'):
            return fn('arctan2', *vals)
        if base in ('power', 'pow') and len(vals) == 2:
            return self.vecop2(power, vals[0], vals[1])
        if base in ('multiply', 'add', 'subtract', 'divide', 'true_divide', 'floor_divide', 'mod') and len(vals) == 2:
            f = {'multiply': mul, 'add': add, 'subtract': sub, 'divide': div, 'true_divide': div, 'floor_divide': floordiv,
                 'mod': lambda x, y: fn('mod', x, y)}[base]
            return self.vecop2(f, vals[0], vals[1])
        if base in ('less', 'greater', 'less_equal', 'greater_equal', 'equal', 'not_equal') and len(vals) == 2:
            a, b = vals
            return {'less': lambda: lt(a, b), 'greater': lambda: lt(b, a), 'less_equal': lambda: le(a, b), 'greater_equal': lambda: le(b, a),
                    'equal': lambda: eq(a, b), 'not_equal': lambda: notb(eq(a, b))}[base]()
        if base in ('logical_and', 'logical_or') and len(vals) == 2:
            return andb(truth(vals[0]), truth(vals[1])) if base.endswith('and') else orb(truth(vals[0]), truth(vals[1]))
        if base == 'logical_not':
            return notb(truth(vals[0]))
        if base == 'hypot' and len(vals) == 2:
            return fn('sqrt', add(mul(vals[0], vals[0]), mul(vals[1], vals[1])))
        if base in ('array', 'asarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d', 'asanyarray', 'atleast_2d', 'require'):
            if not args:
                return None
            v = vals[0]
            dt = self.dtypename(kv.get('dtype', vals[1] if len(vals) > 1 else None))
            v = self.deeplist(v, st)
            if base in ('atleast_1d',):
                if rank(v) == 0:
                    v = mk('list', v)
                elif v.op not in ('list', 'tuple') and rank(v) is None:
                    v = mk('call', 'numpy.atleast_1d', (v,), ())
            if base == 'atleast_2d' and v.op == 'list' and not (v.args and v.args[0].op == 'list'):
                v = mk('list', v)
            elif base == 'atleast_2d' and v.op != 'list':
                v = mk('call', 'numpy.atleast_2d', (v,), ())
            v = self.castto(v, dt)
            if base != 'array' and (self.isref(args[0]) or args[0].op in ('sym', 'attr', 'ret', 'sel')) and self.objkind.get(args[0]) != 'list' and v is vals[0]:
                return args[0]      # may alias
            if base != 'array' and v.op == 'call':
                return v
            return self.newobj(v, 'array')
        if base in ('copy',) and args:
            return self.newobj(vals[0], 'array')
        if self.lit:
            if base in ('zeros', 'ones', 'full', 'empty', 'zeros_like', 'ones_like', 'full_like', 'empty_like') and vals:
                d = L_.dims(self.deeplist(vals[0], st)) if not base.endswith('_like') else None
                if base.endswith('_like'):
                    sh = self.shape(args[0], st)
                    d = L_.dims(sh) if sh is not None else None
                    if d is None and vals[0].op == 'list':
                        d = L_.lshape(vals[0])
                if d is not None and L_.size(d) <= L_.CAP and (base[:4] != 'full' or len(vals) > 1 or 'fill_value' in kv):
                    fv = {'zero': ZERO, 'ones': ONE, 'empt': mk('undef', 'empty')}.get(base[:4])
                    if fv is None:
                        fv = vals[1] if len(vals) > 1 else kv['fill_value']
                    if fv.op != 'list':
                        return self.newobj(L_.full(d, fv), 'array')
            r = L_.call(base if not n.endswith('linalg.norm') else 'linalg.norm', [self.deeplist(v, st) for v in vals], kv)
            if r is not None:
                return self.newobj(r, 'array') if r.op == 'list' else r
        if base in ('zeros', 'ones', 'empty') and vals:
            return self.newobj(mk('call', 'alloc', (const(base), self.deeplist(vals[0], st)), ()), 'array')
        if base == 'full' and len(vals) >= 2:
            return self.newobj(mk('call', 'alloc', (const('full'), self.deeplist(vals[0], st), vals[1]), ()), 'array')
        if base in ('zeros_like', 'ones_like', 'empty_like', 'full_like') and vals:
            s = self.shape(args[0], st)
            if s is None:
                s = mk('attr', vals[0], 'shape')
            return self.newobj(mk('call', 'alloc', (const(base[:-5]), s) + tuple(vals[1:2] if base == 'full_like' else ()), ()), 'array')
        if base == 'arange' and vals:
            v3 = (ZERO, vals[0], ONE) if len(vals) == 1 else (vals[0], vals[1], ONE) if len(vals) == 2 else tuple(vals[:3])
            nn = rangelen(mk('range', *v3))
            if is_num(nn) and isint(nn) and cval(nn) <= 512:
                return self.newobj(mk('list', *[add(v3[0], mul(v3[2], const(i))) for i in range(cval(nn))]), 'array')
            return self.newobj(mk('call', 'alloc', (const('arange'), nn) + v3, ()), 'array')
        if base in ('dot', 'matmul') and len(vals) == 2:
            return self.np_dot(vals, kv, st)
        if base == 'sum' and vals and not kv and len(vals) == 1:
            r = self.reduce_sum(vals[0], st)
            if r is not None:
                return r
            return mk('call', 'numpy.sum', tuple(vals), ())
        if base == 'prod' and len(vals) == 1 and vals[0].op in ('list', 'tuple'):
            return mul(*vals[0].args)
        if base == 'identity' or base == 'eye':
            if is_num(vals[0]) and cval(vals[0]) <= 8:
                k = cval(vals[0])
                return self.newobj(mk('list', *[mk('list', *[const(int(i == j)) for j in range(k)]) for i in range(k)]), 'array')
        if base == 'transpose' and len(vals) == 1:
            return self.transpose(vals[0], st)
        if base == 'where' and len(vals) == 3:
            return mk('call', 'where', (truth(vals[0]), vals[1], vals[2]), ())
        if base == 'cross' and len(vals) == 2 and not kv:
            a, b = vals
            if a.op == 'list' and b.op == 'list' and len(a.args) == len(b.args) == 3 and _nest(a) == 1 == _nest(b):
                (x, y, z), (u, v, w) = a.args, b.args
                return mk('list', sub(mul(y, w), mul(z, v)), sub(mul(z, u), mul(x, w)), sub(mul(x, v), mul(y, u)))
        if base in ('concatenate', 'hstack', 'vstack', 'append') and vals:
            parts = vals[0] if base != 'append' else mk('list', *vals[:2])
            if parts.op in ('list', 'tuple'):
                ps = [self.V(x, st) for x in parts.args]
                if all(p.op == 'list' for p in ps) and base in ('concatenate', 'append') and kv.get('axis', ZERO) is ZERO:
                    return self.newobj(mk('list', *[y for p in ps for y in p.args]), 'array')
                if base == 'vstack' and all(p.op == 'list' for p in ps):
                    rows = []
                    for p in ps:
                        rows.extend(p.args if p.args and p.args[0].op == 'list' else [p])
                    return self.newobj(mk('list', *rows), 'array')
                return self.newobj(mk('call', n, (mk('list', *ps),) + tuple(vals[1:] if base != 'append' else vals[2:]), tuple(sorted(kv.items()))), 'array')
        if base == 'reshape' and len(args) >= 2:
            return self.call_method(args[0], 'reshape', args[1:], kw, st, node, quiet=True)
        if base in ('squeeze', 'ravel') and len(args) == 1 and not kw:
            return self.call_method(args[0], base, [], kw, st, node, quiet=True)
        if base == 'copyto' and len(args) >= 2:
            self.store(args[0], FULL, args[1], st, node, 'copyto')
            return NONE
        if base in ('put', 'place', 'putmask', 'fill_diagonal') and args:
            self.store(args[0], mk('tuple', *vals[1:2]) if len(vals) > 1 else FULL, args[-1], st, node, base)
            return NONE
        if n.startswith('numpy.random.') and base == 'shuffle' and args:
            self.store(args[0], FULL, self.fresh('ret', n), st, node, base)
            return NONE
        if base == 'diag' and len(vals) == 1 and vals[0].op == 'list' and vals[0].args and all(r.op == 'list' and len(r.args) == len(vals[0].args) for r in vals[0].args):
            return mk('list', *[r.args[i] for i, r in enumerate(vals[0].args)])
        if base == 'dtype' and vals:
            return mk('call', 'numpy.dtype', tuple(self.deeplist(v, st) for v in vals), ())
        if base == 'clip' and len(vals) == 3 and not kv:
            lo, hi = vals[1], vals[2]
            r = vals[0]
            if lo is not NONE:
                r = self.vecop2(lambda x, y: fn('max', x, y), r, lo)
            if hi is not NONE:
                r = self.vecop2(lambda x, y: fn('min', x, y), r, hi)
            return r
        if base in ('linalg.norm', 'norm') and n.endswith('linalg.norm') and len(vals) == 1 and not kv and vals[0].op == 'list' and _nest(vals[0]) == 1:
            return fn('sqrt', add(*[mul(x, x) for x in vals[0].args]))
        if base == 'iinfo' or base == 'finfo':
            return mk('call', n, tuple(vals), ())
        if ('numpy.' + base) in ALLOC:
            return self.newobj(mk('call', n, tuple(vals), tuple(sorted(kv.items()))), 'array')
        return None

    def deeplist(self, v, st):
        if v.op in ('list', 'tuple'):
            return mk(v.op, *[_tolist(self.deeplist(self.V(x, st), st)) for x in v.args]) if v.op == 'list' else mk('list' if v.op == 'list' else 'tuple', *[self.deeplist(self.V(x, st), st) for x in v.args])
        return v

    def dtypename(self, t):
        if t is None:
            return None
        if t.op == 'ext':
            return t.args[0]
        if t.op == 'const' and t.args[0] == 'str':
            return 'numpy.' + t.args[1]
        return None

    def castto(self, v, dt):
        if v.op == 'tuple':
            v = mk('list', *v.args)
        if dt in INTCAST:
            return self.vecop1(lambda x: fn('int', x), v) if v.op == 'list' or rank(v) == 0 else (v if isint(v) else mk('fn', 'int', v))
        if dt in NARROW:
            if v.op == 'list':
                return v
            return mk('cast', dt.rsplit('.', 1)[-1], v)
        return v

    def np_dot(self, vals, kv, st):
        a, b = [self.small(v, st) if v.op in ('store', 'ite', 'sel', 'attr') else v for v in [self.deeplist(v, st) for v in vals]]
        def mat(x):
            return x.op == 'list' and x.args and all(r.op == 'list' for r in x.args)
        def vec(x):
            return x.op == 'list' and x.args and all(r.op not in ('list',) for r in x.args)
        if vec(a) and vec(b) and len(a.args) == len(b.args):
            return add(*[mul(x, y) for x, y in zip(a.args, b.args)])
        if mat(a) and vec(b) and all(len(r.args) == len(b.args) for r in a.args):
            return mk('list', *[add(*[mul(x, y) for x, y in zip(r.args, b.args)]) for r in a.args])
        if vec(a) and mat(b) and len(a.args) == len(b.args):
            return mk('list', *[add(*[mul(a.args[i], b.args[i].args[j]) for i in range(len(a.args))]) for j in range(len(b.args[0].args))])
        if mat(a) and mat(b) and len(a.args[0].args) == len(b.args):
            return mk('list', *[mk('list', *[add(*[mul(r.args[k], b.args[k].args[j]) for k in range(len(b.args))]) for j in range(len(b.args[0].args))]) for r in a.args])
        if rank(a) == 1 and vec(b):
            return add(*[mul(sel(a, const(i)), y) for i, y in enumerate(b.args)])
        if vec(a) and rank(b) == 1:
            return add(*[mul(y, sel(b, const(i))) for i, y in enumerate(a.args)])
        if mat(a) and rank(b) == 1:
            return mk('list', *[add(*[mul(x, sel(b, const(i))) for i, x in enumerate(r.args)]) for r in a.args])
        return mk('call', 'numpy.dot', (a, b), tuple(sorted(kv.items())))

    def call_method(self, recv, name, args, kw, st, node, quiet=False):
        rvv = self.V(recv, st)
        vals = [self.V(a, st) for a in args]
        kv = {k: self.V(v, st) for k, v in kw.items()}
        ev = None
        if not quiet:
            ev = self.event('call', st, node, name='.' + name, callee=None, recv=recv, rval=rvv, args=args, kw=kw, vals=vals, kvals=kv, result=None)
        r = self._method(recv, rvv, name, args, vals, kw, kv, st, node)
        if ev:
            ev.d['result'] = r
        return r

    def _method(self, recv, rvv, name, args, vals, kw, kv, st, node):
        if '*' in self.hooks:
            r = self.hooks['*'](self, mk('method', recv, name), args, vals, kv, st, node)
            if r is not None:
                return r
        if '.' + name in self.hooks:
            r = self.hooks['.' + name](self, recv, args, vals, kv, st, node)
            if r is not None:
                return r
        if name == 'reshape' and args and not kw and rvv.op in ('store', 'ite', 'call', 'after'):
            dims = vals[0].args if len(vals) == 1 and vals[0].op in ('tuple', 'list') else tuple(vals)
            s = self.shape(recv, st)
            if s is not None and s.op == 'tuple' and s.args == tuple(dims):
                return recv
        if name == 'squeeze' and not args and not kw and rvv.op in ('store', 'ite', 'call', 'after', 'list'):
            s = self.shape(recv, st)
            if s is not None and s.op == 'tuple' and all(is_num(d) and cval(d) != 1 for d in s.args):
                return recv
        if self.lit and rvv.op == 'list' and self.objkind.get(recv) != 'list':
            a2 = [self.deeplist(v, st) for v in vals]
            if name in ('sum', 'mean', 'max', 'min', 'prod', 'reshape', 'ravel', 'flatten', 'squeeze', 'transpose', 'swapaxes', 'repeat') and (name != 'transpose' or len(a2) == 1 or not a2):
                if name != 'reshape' or set(kv) <= {'order'} and (kv.get('order') is None or kv['order'] is const('C')):
                    r = L_.call(name, [self.deeplist(rvv, st)] + a2, {} if name == 'reshape' else kv)
                    if r is not None:
                        return self.newobj(r, 'array') if r.op == 'list' else r
        # ray actors
        if name == 'remote':
            if recv.op == 'class':
                o = self.newinst(self.prog.classes[recv.args[0]])
                self.actors.add(o)
                self.event('actor', st, node, cls=recv.args[0], args=args, kw=kw, result=o)
                return o
            if recv.op == 'actoropts':
                o = self.newinst(self.prog.classes[recv.args[0]])
                self.event('actor', st, node, cls=recv.args[0], args=args, kw=kw, result=o)
                return o
            if recv.op == 'bound':
                f = self.prog.funcs[recv.args[1]]
                b, err = self.bind(f, [recv.args[0]] + args, kw, st, node)
                if err:
                    self.event('badcall', st, node, name=f.qual, err=err)
                r = self.fresh('ret', 'remote:' + f.qual)
                self.event('remote', st, node, name=f.qual, bound=b, actor=recv.args[0], result=r)
                return r
            if recv.op == 'attr':
                r = self.fresh('ret', 'remote:.' + recv.args[1])
                self.event('remote', st, node, name='.' + recv.args[1], bound={}, args=args, kw=kw, actor=recv.args[0], result=r)
                return r
            if recv.op == 'func':
                f = self.prog.funcs[recv.args[0]]
                b, err = self.bind(f, args, kw, st, node)
                if err:
                    self.event('badcall', st, node, name=f.qual, err=err)
                r = self.fresh('ret', 'remote:' + f.qual)
                self.event('remote', st, node, name=f.qual, bound=b, actor=None, result=r)
                return r
        if name == 'options' and recv.op == 'class':
            return mk('actoropts', recv.args[0])
        # containers
        if name == 'append' and len(args) == 1 and (recv.op in ('obj', 'default') or True) and rvv.op in ('list', 'concat', 'comp', 'appended', 'after', 'store') or (name == 'append' and len(args) == 1):
            self.event('mutate', st, node, base=recv, root=self.rootref(recv), how='append', value=args[0])
            if rvv.op == 'list':
                st.heap[('c', recv)] = mk('list', *(rvv.args + (args[0],)))
            else:
                st.heap[('c', recv)] = mk('appended', rvv, args[0])
            return NONE
        if name in MUT_METHODS and not (name in ('update', 'add', 'put', 'write_direct') and recv.op not in ('obj', 'default', 'sym', 'attr') and recv not in self.arrays):
            self.event('mutate', st, node, base=recv, root=self.rootref(recv), how=name, value=args[0] if args else None)
            if name == 'extend' and rvv.op == 'list' and vals and vals[0].op in ('list', 'tuple'):
                st.heap[('c', recv)] = mk('list', *(rvv.args + vals[0].args))
                return NONE
            if name == 'pop' and rvv.op == 'list' and rvv.args and (not vals or is_num(vals[0])):
                i = cval(vals[0]) if vals else -1
                if isinstance(i, int) and -len(rvv.args) <= i < len(rvv.args):
                    l = list(rvv.args)
                    x = l.pop(i)
                    st.heap[('c', recv)] = mk('list', *l)
                    return x
            if name == 'pop' and rvv.op == 'dict' and vals and vals[0].op == 'const' and all(k.op == 'const' for k, v in rvv.args):
                hit = [v for k, v in rvv.args if k is vals[0]]
                st.heap[('c', recv)] = mk('dict', *[(k, v) for k, v in rvv.args if k is not vals[0]])
                return hit[0] if hit else (args[1] if len(args) > 1 else self.fresh('opaque', 'keyerror'))
            r = self.fresh('ret', '.' + name, rvv) if name in ('pop', 'setdefault', 'popitem') else NONE
            if name == 'fill' and args:
                self.write(recv, FULL, vals[0], st)
            elif name == 'sort' and rvv.op not in ('list', 'comp', 'appended', 'concat') and self.objkind.get(recv) != 'list' and 'key' not in kv:
                self.write(recv, FULL, mk('call', 'numpy.sort', (rvv,) + tuple(vals), tuple(sorted(kv.items()))), st)
            elif name == 'update' and rvv.op == 'dict' and vals and vals[0].op == 'dict':
                ks = [k for k, _ in vals[0].args]
                st.heap[('c', recv)] = mk('dict', *([i for i in rvv.args if i[0] not in ks] + list(vals[0].args)))
            elif name == 'update' and rvv.op == 'dict' and not vals and kw:
                ks = [const(k) for k in kw]
                st.heap[('c', recv)] = mk('dict', *([i for i in rvv.args if i[0] not in ks] + [(const(k), v) for k, v in kw.items()]))
            else:
                st.heap[('c', recv)] = self.fresh('mutated', rvv, name)
            return r
        if name == 'get' and rvv.op == 'dict' and vals and vals[0].op == 'const' and all(k.op == 'const' for k, v in rvv.args):
            for k, v in rvv.args:
                if k is vals[0]:
                    return v
            return args[1] if len(args) > 1 else NONE
        if rvv.op == 'dict' and name in ('keys', 'values', 'items') and all(k.op == 'const' for k, v in rvv.args):
            if name == 'keys':
                return mk('list', *[k for k, v in rvv.args])
            if name == 'values':
                return mk('list', *[v for k, v in rvv.args])
            return mk('list', *[mk('tuple', k, v) for k, v in rvv.args])
        if rvv.op == 'const' and rvv.args[0] == 'str' and name in ('upper', 'lower', 'strip', 'replace', 'startswith', 'endswith', 'split', 'title', 'capitalize', 'rstrip', 'lstrip') \
                and all(v.op == 'const' and v.args[0] == 'str' for v in vals) and not kw:
            r = getattr(rvv.args[1], name)(*[v.args[1] for v in vals])
            return mk('list', *[const(x) for x in r]) if isinstance(r, list) else const(r)
        if name == 'format' and rvv.op == 'const' and rvv.args[0] == 'str':
            return fmtparts(rvv.args[1], vals, kw) or mk('fstr', rvv, *vals)
        if name == 'join' and rvv.op == 'const' and vals:
            return mk('fstr', mk('call', 'join', (rvv, *vals), ()))
        if name == 'astype' and args:
            dt = self.dtypename(vals[0])
            v = self.castto(rvv, dt)
            if kv.get('copy') is FALSE:
                return recv
            if rank(v) == 0:
                return v
            return self.newobj(v, 'array')
        if name == 'copy' and not args:
            if recv.op == 'new' or recv in self.types:
                return self.copyinst(recv, st, False)
            if rank(rvv) == 0:
                return rvv
            return self.newobj(rvv, self.objkind.get(recv, 'array'))
        if name == 'flatten' and not args:
            return self.newobj(mk('mcall', rvv, 'ravel', (), ()) if rvv.op != 'list' or _nest(rvv) > 1 else rvv, 'array')
        if name in ALIAS_METHODS:
            a = tuple(vals)
            if len(a) == 1 and a[0].op in ('tuple', 'list'):
                a = a[0].args
            if name == 'ravel' and rvv.op == 'list' and _nest(rvv) == 1:
                return recv
            if name == 'transpose' and not a:
                r = self.transpose(rvv, st)
                if r is not None:
                    return r
            if name == 'reshape' and rvv.op == 'list':
                r = self.reshape_lit(rvv, a)
                if r is not None:
                    return self.newobj(r, 'array')
            base = recv if (self.isref(recv)) else rvv
            return mk('mcall', base, name, a, tuple(sorted(kv.items())))
        if name == 'item' and not args:
            return rvv
        if name in ('min', 'max') and not args and not kw:
            if rvv.op in ('list', 'tuple') and rvv.args and _nest(rvv) == 1:
                return fn(name, *rvv.args)
            return mk('fn', name, rvv)
        if name in ('min', 'max'):
            return mk('call', 'numpy.' + name, (rvv,) + tuple(vals), tuple(sorted(kv.items())))
        if name == 'sum' and not args and not kw:
            r = self.reduce_sum(rvv, st)
            return r if r is not None else mk('call', 'numpy.sum', (rvv,), ())
        if name == 'dot' and len(vals) == 1:
            return self.np_dot([rvv, vals[0]], kv, st)
        if name in ('sum', 'mean', 'std', 'any', 'all', 'argmin', 'argmax', 'argsort', 'prod', 'cumsum', 'nonzero', 'round', 'clip', 'conj'):
            if name == 'round' and not vals:
                return self.vecop1(lambda x: fn('round', x), rvv)
            if name == 'clip':
                lo = vals[0] if vals else kv.get('min', NONE)
                hi = vals[1] if len(vals) > 1 else kv.get('max', NONE)
                r = rvv
                if lo is not NONE:
                    r = self.vecop2(lambda x, y: fn('max', x, y), r, lo)
                if hi is not NONE:
                    r = self.vecop2(lambda x, y: fn('min', x, y), r, hi)
                return r
            r = mk('call', 'numpy.' + name, (rvv,) + tuple(vals), tuple(sorted(kv.items())))
            return r
        if name in PURE_METHODS:
            return mk('mcall', rvv, name, tuple(vals), tuple(sorted(kv.items())))
        if '.' + name in self.returns:
            return self.returns['.' + name]
        return self.fresh('ret', '.' + name, rvv, tuple(vals))

    def reshape_lit(self, v, shape):
        flat = []

        def go(x):
            if x.op == 'list':
                for y in x.args:
                    go(y)
            else:
                flat.append(x)
        go(v)
        dims = []
        for s in shape:
            if not is_num(s):
                return None
            dims.append(int(cval(s)))
        if dims.count(-1) == 1:
            p = 1
            for d in dims:
                if d != -1:
                    p *= d
            if p == 0 or len(flat) % p:
                return None
            dims[dims.index(-1)] = len(flat) // p
        p = 1
        for d in dims:
            p *= d
        if p != len(flat):
            return None

        def build(xs, ds):
            if len(ds) == 1:
                return mk('list', *xs)
            k = len(xs) // ds[0]
            return mk('list', *[build(xs[i * k:(i + 1) * k], ds[1:]) for i in range(ds[0])])
        return build(flat, dims)

    # ------------------------------------------------------------ statements
    def block(self, body, st):
        for s in body:
            self.tick()
            m = getattr(self, 'st_' + s.__class__.__name__, None)
            if m is None:
                continue
            if self.hard_raise:
                try:
                    st = m(s, st)
                except PyRaise as e:
                    self.raising(e, s, st)
                    return None
            else:
                st = m(s, st)
            if st is None:
                return None
        return st

    def raising(self, e, s, st):
        v = mk('exc', e.name)
        self.event('raise', st, s, value=v, name=e.name)
        if self.trys and self.trys[-1] is not e.seen:
            self.trys[-1].raised.append(st)
            self.trys[-1].names.append(e.name)
            e.seen = self.trys[-1]
        self.frames[-1].exits.append(('raise', st, v, s))

    def st_Expr(self, s, st):
        v = self.ev(s.value, st)
        if v.op == 'never':
            return None
        return st

    def st_Assign(self, s, st):
        v = self.ev(s.value, st)
        if v.op == 'never':
            return None
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def st_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return st

    def st_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st, s)
            rhs = self.ev(s.value, st)
            nv = self.binop(s.op, cur, rhs, st, s)
            if self.isref(cur) and cur.op != 'new':
                cv = self.V(cur, st)
                if cv.op != 'tuple':
                    nvv = self.V(nv, st)
                    if self.objkind.get(cur) == 'list':
                        self.event('mutate', st, s, base=cur, root=cur, how='+=', value=rhs)
                        st.heap[('c', cur)] = nvv
                        return st
                    self.event('store', st, s, base=cur, root=self.rootref(cur), key=FULL, value=nvv, raw=nv, op=s.op.__class__.__name__, full=self.fullkey(cur, FULL))
                    self.inplace(cur, nvv, st)
                    return st
            self.event('augname', st, s, base=cur, name=t.id)
            self.assign(t, nv, st, s)
            return st
        if isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            cur = self.getattr(b, t.attr, st, s)
            rhs = self.ev(s.value, st)
            nv = self.binop(s.op, cur, rhs, st, s)
            if self.isref(cur) and cur.op != 'new' and self.V(cur, st).op != 'tuple':
                nvv = self.V(nv, st)
                self.event('store', st, s, base=cur, root=self.rootref(cur), key=FULL, value=nvv, raw=nv, op=s.op.__class__.__name__, full=FULL)
                self.inplace(cur, nvv, st)
                return st
            self.setattr(b, t.attr, nv, st, s)
            return st
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.key(t.slice, st)
            cur = self.subscript(b, k, st, s)
            rhs = self.ev(s.value, st)
            nv = self.binop(s.op, cur, rhs, st, s)
            b = self.promote(t.value, b, st)
            self.store(b, k, nv, st, s, op=s.op.__class__.__name__)
            return st
        return st

    def inplace(self, ref, nv, st):
        if ref.op == 'view':
            self.write(ref.args[0], ref.args[1], nv, st)
        elif ref.op == 'mcall':
            r = self.rootref(ref)
            st.heap[('c', r)] = mkstore(self.V(r, st), mk('via', const(ref.args[1]), FULL), nv)
        else:
            st.heap[('c', ref)] = nv if root(nv) is root(self.V(ref, st)) else mk('store', self.V(ref, st), FULL, nv) if ref.op not in ('obj', 'default') else nv

    def st_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                k = self.key(t.slice, st)
                bv = self.V(b, st)
                self.event('mutate', st, s, base=b, root=self.rootref(b), how='del', value=k)
                if 'delitem' in self.hooks and self.hooks['delitem'](self, b, [k], [k], {}, st, s):
                    continue
                if bv.op == 'list' and is_num(k) and -len(bv.args) <= cval(k) < len(bv.args):
                    l = list(bv.args)
                    del l[cval(k)]
                    st.heap[('c', b)] = mk('list', *l)
                else:
                    st.heap[('c', b)] = self.fresh('mutated', bv, 'del')
        return st

    def st_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        fr = self.frames[-1]
        self.event('return', st, s, value=v, depth=len(self.frames))
        fr.exits.append(('return', st, v, s))
        return None

    def st_Raise(self, s, st):
        v = self.ev(s.exc, st) if s.exc is not None else NONE
        self.event('raise', st, s, value=v, name=excname(s.exc))
        fr = self.frames[-1]
        if self.trys:
            self.trys[-1].raised.append(st)
            self.trys[-1].names.append(excname(s.exc))
        fr.exits.append(('raise', st, v, s))
        return None

    def excof(self, v):
        """name of the exception an exit carries, if it shows"""
        if v.op == 'exc':
            return v.args[0]
        for x in (v, v.args[0] if v.op in ('call', 'ret', 'obj') and v.args else None):
            n = x if isinstance(x, str) else (x.args[0] if isinstance(x, T) and x.op == 'ext' else (x.args[1] if isinstance(x, T) and x.op in ('call', 'ret') and len(x.args) > 1 and isinstance(x.args[1], str) else None))
            if isinstance(n, str):
                return n.rsplit('.', 1)[-1]
        return None

    def st_Pass(self, s, st):
        return st

    def st_Assert(self, s, st):
        c = self.cond(s.test, st)
        if c is FALSE:
            return None
        return st

    def st_Global(self, s, st):
        return st

    def st_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            st.env[nm] = mk('module', full) if full in self.prog.modules else mk('ext', full)
        return st

    def st_ImportFrom(self, s, st):
        fr = self.frames[-1]
        src = self.prog._fromsrc(fr.func.module, s)
        for a in s.names:
            if a.name == '*':
                continue
            if src in self.prog.modules:
                if src + '.' + a.name in self.prog.modules:
                    st.env[a.asname or a.name] = mk('module', src + '.' + a.name)
                else:
                    st.env[a.asname or a.name] = self.modattr(src, a.name)
            else:
                st.env[a.asname or a.name] = self.ext(src + '.' + a.name)
        return st

    def st_FunctionDef(self, s, st):
        fr = self.frames[-1]
        f = fr.func.nested.get(s.name)
        if f is None or f.node is not s:
            q = fr.func.qual + '.<locals>.' + s.name
            f = self.prog.funcs.get(q)
            if f is None or f.node is not s:
                f = Func(q, s, fr.func.module, None, fr.func)
                self.prog.funcs.setdefault(q, f)
        st.env[s.name] = self.mkclosure(f, st)
        return st

    def st_ClassDef(self, s, st):
        return st

    def decide(self, c, st, node):
        """refine a condition with the facts known on this path"""
        if c in (TRUE, FALSE):
            return c
        if self.branch is not None:
            r = self.branch(c, node, self) if getattr(self.branch, 'wants_it', False) else self.branch(c, node)
            if r is not None:
                return const(r)
        lits = {}
        for p in st.pc:
            tm._lits(p, True, lits)
        k = tm._evalc(c, lits)
        if k is not None:
            return const(k)
        return c

    def st_If(self, s, st):
        c = self.cond(s.test, st)
        c = self.decide(c, st, s)
        self.event('if', st, s, cond=c)
        if c is TRUE:
            return self.block(s.body, st)
        if c is FALSE:
            return self.block(s.orelse, st)
        for n in stored_names(s):
            v = st.env.get(n)
            if v is not None and v.op in ('poly', 'fn', 'concat', 'cast', 'store', 'inv', 'call', 'mcall'):
                self.promote(None, v, st)
        s1, s2 = st.copy(), st
        basepc = st.pc
        s1.pc = addpc(basepc, c)
        s2.pc = addpc(basepc, notb(c))
        a = self.block(s.body, s1)
        b = self.block(s.orelse, s2)
        if a is None:
            return b
        if b is None:
            return a
        return self.merge(a, b, c, basepc)

    def merge(self, a, b, c=None, basepc=None):
        if a is None:
            return b
        if b is None:
            return a
        # common prefix of pcs
        i = 0
        while i < len(a.pc) and i < len(b.pc) and a.pc[i] is b.pc[i]:
            i += 1
        common = a.pc[:i]
        da, db = andb(*a.pc[i:]), andb(*b.pc[i:])
        if c is None:
            c = da if da is not TRUE else notb(db)
        pc = common
        if da is not TRUE and db is not TRUE and notb(da) is not db:
            o = orabsorb(da, db)
            if o is not TRUE:
                pc = addpc(common, o)
        env = dict(a.env)
        for k, y in b.env.items():
            x = a.env.get(k)
            if x is y:
                continue
            if x is None:
                env[k] = ite(c, mk('undef', k), y)
            else:
                env[k] = self.joinval(c, x, y)
        if len(a.env) != len(env) or len(b.env) != len(env):
            for k, x in a.env.items():
                if k not in b.env:
                    env[k] = ite(c, x, mk('undef', k))
        heap = dict(a.heap)
        bh = b.heap
        for k, x in a.heap.items():
            y = bh.get(k)
            if x is y:
                continue
            if y is None:
                if k[0] == 'c' and k[1].op == 'obj' and False:
                    continue
                y = self.heapdefault(k)
            heap[k] = self.joinval(c, x, y) if k[0] == 'a' else ite(c, x, y)
        for k, y in bh.items():
            if k not in heap:
                x = self.heapdefault(k)
                heap[k] = self.joinval(c, x, y) if k[0] == 'a' else ite(c, x, y)
        return State(env, heap, pc)

    def joinval(self, c, x, y):
        if x.op == 'tuple' and y.op == 'tuple' and len(x.args) == len(y.args):
            return mk('tuple', *[self.joinval(c, p, q) if p is not q else p for p, q in zip(x.args, y.args)])
        return ite(c, x, y)

    def heapdefault(self, k):
        if k[0] == 'a':
            return mk('attr', k[1], k[2])
        t = k[1]
        if t in self.objinit:
            return self.objinit[t]
        return t

    # ------------------------------------------------------------ loops
    def st_For(self, s, st):
        itv = self.iterterm(s.iter, st)
        n = trips(itv)
        par = isinstance(s.iter, ast.Call) and self.calleename(s.iter, st) == 'numba.prange'
        if is_num(n) and isint(n) and cval(n) <= self.unroll and (not par or self.unroll_par) and _unrollable(itv):
            brk = []
            for i in range(max(0, cval(n))):
                lf = _LF()
                self.frames[-1].loopstack.append(lf)
                self.assign(s.target, self.elem(itv, const(i), st), st, s)
                e = self.block(s.body, st)
                self.frames[-1].loopstack.pop()
                for c in lf.continues:
                    e = self.merge(c, e) if e is not None else c
                brk.extend(lf.breaks)
                if e is None:
                    st = None
                    break
                st = e
            if s.orelse and st is not None:
                st = self.block(s.orelse, st)
            for b in brk:
                st = self.merge(b, st) if st is not None else b
            return st
        L = self.newloop(s, 'for')
        L.iter = itv
        L.parallel = par
        L.func = self.frames[-1].func

        def head(state):
            self.assign(s.target, self.elem(itv, mk('it', L.id), state), state, s)
            return state
        return self.loop(s, L, st, head, n)

    def calleename(self, call, st):
        self.muted += 1
        try:
            f = self.ev(call.func, st)
        finally:
            self.muted -= 1
        return f.args[0] if f.op == 'ext' else None

    def unrollwhile(self, s, st):
        """a while loop whose condition stays constant is followed iteration by iteration"""
        if isinstance(s.test, ast.Constant):
            return False, None
        self.muted += 1
        try:
            c0 = self.cond(s.test, st.copy())
        finally:
            self.muted -= 1
        if c0 not in (TRUE, FALSE):
            return False, None
        cur = st.copy()
        fr = self.frames[-1]
        mark = (len(self.events), len(fr.exits), len(fr.loopstack))
        brk = []

        def undo():
            del self.events[mark[0]:]
            del fr.exits[mark[1]:]
            del fr.loopstack[mark[2]:]
            return False, None
        for i in range(self.unroll + 1):
            c = self.cond(s.test, cur)
            if c is FALSE:
                if s.orelse:
                    cur = self.block(s.orelse, cur)
                for b in brk:
                    cur = self.merge(b, cur) if cur is not None else b
                return True, cur
            if c is not TRUE or i == self.unroll:
                return undo()
            lf = _LF()
            fr.loopstack.append(lf)
            e = self.block(s.body, cur)
            fr.loopstack.pop()
            for k in lf.continues:
                e = self.merge(k, e) if e is not None else k
            brk.extend(lf.breaks)
            cur = e
            if cur is None:
                for b in brk:
                    cur = self.merge(b, cur) if cur is not None else b
                return True, cur
        return undo()

    def st_While(self, s, st):
        ok, out = self.unrollwhile(s, st)
        if ok:
            return out
        if self.while_unroll and not s.orelse and not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)):
            cur = []
            for i in range(self.while_unroll):
                n = ast.If(test=s.test, body=s.body + cur, orelse=[])
                ast.copy_location(n, s)
                cur = [n]
            return self.st_If(cur[0], st)
        L = self.newloop(s, 'while')
        L.func = self.frames[-1].func

        def head(state):
            c = self.cond(s.test, state)
            L.cond = c
            if c is not TRUE:
                state.pc = addpc(state.pc, c)
            return state
        return self.loop(s, L, st, head, None)

    def loop(self, s, L, st, head, n):
        names = assigned(s)
        L.trip = n
        init = {k: st.env.get(k) for k in names}
        L.state0 = st.copy()
        L.init = {k: v for k, v in init.items() if v is not None}
        heap0 = dict(st.heap)
        basepc = st.pc
        # pass 1: find what changes (events suppressed)
        subst_env = {}
        for k in names:
            subst_env[k] = mk('mu', L.id, k)
            if init[k] is not None and isint(init[k]):
                declare_int(subst_env[k])
        changed = {}
        nsave = self.n
        for rnd in range(5):
            real = rnd > 0
            s1 = st.copy()
            for k in names:
                s1.env[k] = subst_env[k]
            for k, v in changed.items():
                s1.heap[k] = v
            lf = _LF()
            nev = len(self.events)
            nnotes = len(self.loopsmade)
            ex0 = len(self.frames[-1].exits)
            ntr = len(self.trys[-1].raised) if self.trys else 0
            if not real:
                self.muted += 1
            L.headheap = s1.heap.copy()
            L.changed = dict(changed)
            self.loops.append(L)
            self.frames[-1].loopstack.append(lf)
            try:
                if real:
                    self.event('loop', st, s, loop=L, iter=L.iter)
                h = head(s1)
                if L.kind == 'while' and real:
                    self.event('loophead', h, s, loop=L, cond=L.cond)
                e = self.block(s.body, h)
            finally:
                self.frames[-1].loopstack.pop()
                self.loops.pop()
                if not real:
                    self.muted -= 1
            ends = ([e] if e is not None else []) + lf.continues
            alls = ends + lf.breaks
            new = {}
            for x in alls:
                for k, v in x.heap.items():
                    o = heap0[k] if k in heap0 else (self.heapdefault(k) if k[0] == 'c' and self.grown else None)
                    if k[0] == 'c' and v is not o and not self.samelen(v, o, L):
                        self.resized.add((L.id, o))
                    if k in changed or k in new:
                        continue
                    if v is not heap0.get(k):
                        if k[0] == 'c' and k[1].op in ('obj',) and k not in heap0 and k[1].args[0] > nsave:
                            continue      # objects born inside the loop
                        if k[0] == 'a' and k[1].op == 'new' and isinstance(k[1].args[1], int) and k[1].args[1] > nsave:
                            continue
                        old = heap0.get(k)
                        if old is None:
                            old = self.heapdefault(k)
                            if v is old:
                                continue
                        if k[0] == 'c':
                            used = set(changed.values()) | set(new.values())
                            j = 0
                            new[k] = mk('after', old, L.id)
                            while new[k] in used:      # two arrays that start with equal contents
                                j += 1
                                new[k] = mk('after', mk('store', old, mk('dupkey', const(j)), NONE), L.id)
                        else:
                            new[k] = mk('mu', L.id, mk('attr', k[1], k[2]))
                        if k[0] == 'a' and isint(old):
                            declare_int(new[k])
            if rnd == 0:
                # induction variables
                for k in names:
                    mu = subst_env[k]
                    if init[k] is None or not ends:
                        continue
                    fv = [x.env.get(k) for x in ends]
                    if all(v is not None for v in fv) and all(v is fv[0] for v in fv):
                        v = fv[0]
                        if v is mu:
                            subst_env[k] = init[k]
                            continue
                        stepv = sub(v, mu) if v.op in ('poly',) else None
                        if stepv is not None and not contains(stepv, lambda t: t.op in ('mu', 'it') and t.args[0] == L.id) \
                                and (rank(init[k]) == 0 or isint(init[k])):
                            L.ind[k] = (init[k], stepv)
                            subst_env[k] = add(init[k], mul(stepv, mk('it', L.id)))
            if real and not new:
                break
            if rnd == 4:
                break
            # not yet stable: forget this round
            del self.events[nev:]
            del self.frames[-1].exits[ex0:]
            if self.trys:
                del self.trys[-1].raised[ntr:]
            if real:
                del self.loopsmade[nnotes:]
            changed.update(new)
        ends = ([e] if e is not None else []) + lf.continues
        L.ends = ends
        L.heads = dict(changed)
        L.attr0 = {k: heap0.get(k) for k in changed if k[0] != 'c'}
        L.mus = dict(subst_env)
        L.breakstates = lf.breaks
        for k in names:
            if ends:
                L.final[k] = [x.env.get(k) for x in ends]
        self.event('loopend', st, s, loop=L)
        if not self.zero_trip and not ends and not lf.breaks:
            return None
        # state after the loop
        out = State(dict(st.env), dict(st.heap), basepc)
        endheaps = [x.heap for x in ends] + [x.heap for x in lf.breaks]
        for k in names:
            if subst_env[k] is init[k] and all(x.env.get(k) is init[k] for x in ends + lf.breaks):
                continue
            if k in L.ind and n is not None and not lf.breaks:
                out.env[k] = add(L.ind[k][0], mul(L.ind[k][1], n))
            else:
                t = mk('muend', L.id, k)
                if init[k] is not None and isint(init[k]):
                    declare_int(t)
                out.env[k] = t
        for k, v in changed.items():
            if k[0] == 'c':
                ap = self.appended(k, v, ends, L, n, st)
                out.heap[k] = ap if ap is not None else mk('after', v.args[0], mk('end', L.id))
            else:
                old = heap0.get(k)
                vals = set(h2.get(k) for h2 in endheaps)
                out.heap[k] = mk('muend', L.id, mk('attr', k[1], k[2]))
                if len(vals) == 1:
                    (x,) = vals
                    if x is not None and not contains(x, lambda t: t.op in ('mu', 'it', 'after') and t.args and t.args[-1] == L.id or (t.op in ('mu', 'it') and t.args[0] == L.id)):
                        out.heap[k] = x if old is None else (x if x is old else ite(mk('truthy', mk('ran', L.id)), x, old))
                if isint(v):
                    declare_int(out.heap[k])
        # objects / instances born in the loop may escape: keep their heap
        for hh in endheaps:
            for k, v in hh.items():
                if k not in out.heap:
                    out.heap[k] = v
        # return exits from inside the loop happen under an unknown iteration
        for i in range(ex0, len(self.frames[-1].exits)):
            pass
        if L.kind == 'while' and L.cond is not None and not lf.breaks:
            pass
        if s.orelse:
            out = self.block(s.orelse, out)
        if L.kind == 'while' and L.cond is TRUE and not lf.breaks:
            return None
        return out

    def appended(self, k, headv, ends, L, n, st):
        """list built by one unconditional append per iteration -> comprehension"""
        if len(ends) != 1 or n is None or L.iter is None:
            return None
        v = ends[0].heap.get(k)
        if v is None or v.op != 'appended' or v.args[0] is not headv:
            return None
        body = v.args[1]
        body = self.V(body, ends[0]) if body.op == 'obj' else body
        if contains(body, lambda t: t.op == 'mu' and t.args[0] == L.id):
            return None
        old = st.heap.get(k)
        if old is None:
            old = self.heapdefault(k)
        c = mk('comp', L.iter, body, L.id)
        if old.op == 'list' and not old.args:
            return c
        return mk('concat', old, c)

    def st_Break(self, s, st):
        self.event('break', st, s)
        ls = self.frames[-1].loopstack
        if ls:
            ls[-1].breaks.append(st)
        return None

    def st_Continue(self, s, st):
        ls = self.frames[-1].loopstack
        if ls:
            ls[-1].continues.append(st)
        return None

    # ------------------------------------------------------------ try / with
    def st_Try(self, s, st):
        self.exccount += 1
        tc = _Try(s, self.exccount)
        s0 = st.copy()
        self.trys.append(tc)
        ex0 = len(self.frames[-1].exits)
        self.event('try', st, s, t=tc)
        try:
            body = self.block(s.body, st)
        finally:
            self.trys.pop()
        if body is not None and s.orelse:
            body = self.block(s.orelse, body)
        newexits = self.frames[-1].exits[ex0:]
        exc = mk('truthy', mk('sym', 'exc%d' % tc.id))
        outs = []
        if s.handlers and self.exact_try:
            hs = None
            for x in tc.raised:
                x = x.copy()
                if set(s0.env) - set(x.env):
                    x.env = dict(s0.env)      # raised inside a called function
                if hs is None:
                    hs = x
                else:
                    hs = self.merge(x, hs, mk('truthy', mk('sym', 'excpt%d' % tc.id)))
            h = _taker(s, tc.names) if self.hard_raise else s.handlers[0]
            if _catchall(s) or self.hard_raise and h is not None:
                self.frames[-1].exits[ex0:] = [x for x in newexits if x[0] != 'raise']
            if hs is not None and h is not None:
                if h.name:
                    hs.env[h.name] = mk('sym', 'excval%d' % tc.id)
                self.event('handler', hs, h, t=tc)
                r = self.block(h.body, hs)
                if r is not None:
                    outs.append(r)
        elif s.handlers and not (self.optimistic_try):
            # havoc: handler may start after any prefix of the body
            ref = body
            cands = [x for x in ([body] if body is not None else []) + tc.raised + [x[1] for x in newexits]]
            hs = s0.copy()
            for x in cands:
                for k, v in x.env.items():
                    if hs.env.get(k) is not v:
                        o = hs.env.get(k)
                        hs.env[k] = ite(mk('truthy', mk('sym', 'excpt%d' % tc.id)), v, o if o is not None else mk('undef', k))
                for k, v in x.heap.items():
                    if hs.heap.get(k) is not v:
                        o = hs.heap.get(k)
                        hs.heap[k] = ite(mk('truthy', mk('sym', 'excpt%d' % tc.id)), v, o if o is not None else self.heapdefault(k))
            # remove raise exits that are caught here
            if _catchall(s):
                self.frames[-1].exits[ex0:] = [x for x in newexits if x[0] != 'raise']
            for i, h in enumerate(s.handlers):
                hst = hs.copy()
                hst.pc = addpc(s0.pc, andb(exc, mk('truthy', mk('sym', 'exc%d.%d' % (tc.id, i)))) if len(s.handlers) > 1 else exc)
                if h.name:
                    hst.env[h.name] = mk('sym', 'excval%d' % tc.id)
                self.event('handler', hst, h, t=tc)
                self.trys.append(_Try(h, tc.id, handler=True)) if False else None
                r = self.block(h.body, hst)
                if r is not None:
                    outs.append(r)
        res = body
        if outs:
            for o in outs:
                if res is None:
                    res = o
                else:
                    b2 = State(res.env, res.heap, res.pc)
                    m = self.merge(o, b2, exc)
                    m.pc = tuple(p for p in s0.pc)
                    res = m
        if s.finalbody:
            # run on the exits that leave through the finally as well
            for i in range(ex0, len(self.frames[-1].exits)):
                k, est, v, nd = self.frames[-1].exits[i]
                e2 = est.copy()
                r = self.block(s.finalbody, e2)
                self.frames[-1].exits[i] = (k, r if r is not None else e2, v, nd)
            if res is not None:
                res = self.block(s.finalbody, res)
        return res

    def st_With(self, s, st):
        ctxs = []
        for it in s.items:
            v = self.ev(it.context_expr, st)
            self.event('with', st, it.context_expr, value=v)
            ctxs.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        ex0 = len(self.frames[-1].exits)
        r = self.block(s.body, st)
        for i in range(ex0, len(self.frames[-1].exits)):
            for v in ctxs:
                self.event('withexit', self.frames[-1].exits[i][1], s, value=v)
                if '__exit__' in self.hooks:
                    self.hooks['__exit__'](self, v, self.frames[-1].exits[i][1], s)
        if r is not None:
            for v in ctxs:
                self.event('withexit', r, s, value=v)
                if '__exit__' in self.hooks:
                    self.hooks['__exit__'](self, v, r, s)
        return r


class _LF:
    def __init__(self):
        self.breaks, self.continues = [], []


class _Try:
    def __init__(self, node, id, handler=False):
        self.node, self.id = node, id
        self.raised, self.names = [], []

    @property
    def catchall(self):
        return _catchall(self.node)


def _catchall(s):
    for h in s.handlers:
        if h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException')):
            return True
    return False


def _isa(name, h):
    import builtins, shutil
    up = {'SameFileError': 'Error', 'Error': 'OSError', 'IOError': 'OSError', 'EnvironmentError': 'OSError'}
    n = name
    if name == 'LogicError' and h in ('Error', 'LogicError'):      # pyopencl's own hierarchy
        return True
    while n is not None:
        if n == h or up.get(h) == n and h in ('IOError', 'EnvironmentError'):
            return True
        c = getattr(builtins, n, None)
        if n in up:
            n = up[n]
        else:
            n = None if n == 'BaseException' else c.__base__.__name__ if isinstance(c, type) and issubclass(c, BaseException) else 'Exception'
    return False


def _taker(s, names):
    """the handler that takes exceptions of these names (an unknown name is taken by the first handler)"""
    for h in s.handlers:
        ts = [None] if h.type is None else (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])
        for t in ts:
            hn = None if t is None else excname(t)
            if hn is None or not names or any(n is None or _isa(n, hn) for n in names):
                return h
    return None


def excname(e):
    if e is None:
        return None
    if isinstance(e, ast.Call):
        e = e.func
    return e.id if isinstance(e, ast.Name) else getattr(e, 'attr', None)


def addpc(pc, c):
    if c is TRUE:
        return pc
    if c.op == 'and':
        for a in c.args:
            pc = addpc(pc, a)
        return pc
    return pc if c in pc else pc + (c,)


def orabsorb(a, b):
    """a or b with the usual absorption of mutually exclusive prefixes"""
    def lits(t):
        return list(t.args) if t.op == 'and' else [t]
    la, lb = lits(a), lits(b)
    for x in la:
        if notb(x) in lb and len(la) == 1:
            return orb(a, andb(*[y for y in lb if y is not notb(x)]))
    for y in lb:
        if notb(y) in la and len(lb) == 1:
            return orb(b, andb(*[x for x in la if x is not notb(y)]))
    return orb(a, b)


def mkstore(base, k, v):
    if base.op == 'store' and base.args[1] is k and k.op != 'list':
        return mk('store', base.args[0], k, v)
    return mk('store', base, k, v)


_stored = {}


def stored_names(s):
    """names whose elements are assigned somewhere inside the statement"""
    r = _stored.get(s)
    if r is None:
        r = set()
        for x in ast.walk(s):
            for t in x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else ():
                for y in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                    if isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name):
                        r.add(y.value.id)
        _stored[s] = r = sorted(r)
    return r


def fmtfield(v, spec):
    if spec == '':
        return v
    return mk('call', 'fmt', (v, const(spec) if spec is not None else mk('opaque', 'spec')), ())


def fmtparts(text, vals, kw):
    import string
    parts, auto = [], 0
    try:
        for lit_, name, spec, conv in string.Formatter().parse(text):
            if lit_:
                parts.append(const(lit_))
            if name is None:
                continue
            if conv or spec and '{' in spec:
                return None
            if name == '':
                name, auto = str(auto), auto + 1
            if not name.isdigit() or int(name) >= len(vals):
                return None
            parts.append(fmtfield(vals[int(name)], spec))
    except ValueError:
        return None
    return mk('fstr', *parts)


def fcat(a, b):
    pa = a.args if a.op == 'fstr' else (a,)
    pb = b.args if b.op == 'fstr' else (b,)
    return mk('fstr', *(pa + pb))


def assigned(s):
    out = []
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
            out.append(n.id)
    # names assigned only inside nested function definitions / comprehensions are not loop state
    return out


def _unrollable(itv):
    if itv.op in ('list', 'tuple', 'range'):
        return True
    if itv.op == 'enumerate':
        return itv.args[0].op in ('list', 'tuple', 'range')
    if itv.op == 'zip':
        return all(a.op in ('list', 'tuple', 'range') for a in itv.args)
    if itv.op == 'reversed':
        return _unrollable(itv.args[0])
    return False


def maskstore(c, k, v, ix=()):
    """literal array c with v written where the elementwise condition k holds"""
    if c.op == 'list':
        out = [maskstore(x, k, v, ix + (i,)) for i, x in enumerate(c.args)]
        return None if any(o is None for o in out) else mk('list', *out)

    def cond(t):
        if t.op in ('lt', 'gt', 'eq'):
            xs = [elt(x) for x in t.args]
            if any(x is None for x in xs):
                return None
            return {'lt': lt, 'gt': lambda a, b: lt(b, a), 'eq': eq}[t.op](*xs)
        if t.op == 'not':
            x = cond(t.args[0])
            return None if x is None else notb(x)
        if t.op in ('and', 'or'):
            xs = [cond(x) for x in t.args]
            if any(x is None for x in xs):
                return None
            r = xs[0]
            for x in xs[1:]:
                r = andb(r, x) if t.op == 'and' else orb(r, x)
            return r
        return None

    def elt(x):
        if x.op == 'list':
            y = x
            for i in ix:
                if y.op != 'list' or i >= len(y.args):
                    return None
                y = y.args[i]
            return None if y.op == 'list' else y
        return x if rank(x) == 0 else None
    q = cond(k)
    return None if q is None else ite(q, v, c)


def _nest(t):
    n = 0
    while t.op == 'list':
        n += 1
        if not t.args:
            break
        t = t.args[0]
    return n


def _smallalloc(t):
    """np.zeros/ones of a small constant length as a literal"""
    if t.args[0] == 'alloc' and t.args[1][0].args[1] in ('zeros', 'ones'):
        n = t.args[1][1]
        if n.op in ('tuple', 'list') and len(n.args) == 1:
            n = n.args[0]
        if is_num(n) and isint(n) and 0 < cval(n) <= 12:
            return mk('list', *[ZERO if t.args[1][0].args[1] == 'zeros' else ONE] * cval(n))
    return t


def _tolist(t):
    return mk('list', *t.args) if t.op == 'tuple' else t


def _scalarlike(t):
    return is_num(t) or t.op in ('poly', 'len', 'fn', 'sym', 'it', 'mu', 'muend') or (t.op == 'sel')


def Fraction_(a, b):
    from fractions import Fraction
    return Fraction(a, b)


# ---------------------------------------------------------------- entry points
def analyse(prog, qual, args=None, selfcls=None, selfattrs=None, ints=(), scalars=(), vecs=(), arrays=(), types=None, heap=None, pc=(), **opt):
    """analyse one function with symbolic parameters; returns the Interp with .result, .frame, .state"""
    f = prog.func(qual) if isinstance(qual, str) else qual
    it = Interp(prog, **opt)
    st = State({}, dict(heap or {}), tuple(pc))
    bound = {}
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    args = dict(args or {})
    for i, nm in enumerate(names):
        if i == 0 and f.cls is not None and not f.static:
            c = prog.cls(selfcls) if selfcls else f.cls
            if nm in args:
                bound[nm] = args[nm]
            else:
                bound[nm] = it.newinst(c, 'self')
            it.self = bound[nm]
            for k, v in (selfattrs or {}).items():
                st.heap[('a', bound[nm], k)] = v
        elif nm in args:
            v = args[nm]
            bound[nm] = v if isinstance(v, T) else const(v)
        else:
            s = sym(nm)
            bound[nm] = s
            if nm in ints:
                declare_int(s)
            if nm in scalars:
                declare_scalar(s)
            if nm in vecs:
                declare_vec(s)
                it.arrays.add(s)
            if nm in arrays:
                it.arrays.add(s)
    for k, v in (types or {}).items():
        t = k if isinstance(k, T) else sym(k)
        it.types[t] = prog.cls(v)
    if a.vararg:
        bound[a.vararg.arg] = args.get(a.vararg.arg, mk('tuple'))
    if a.kwarg:
        bound[a.kwarg.arg] = args.get(a.kwarg.arg, mk('dict'))
    it.bound = bound
    it.state = st
    it.result = it.run(f, bound, st, None, None)
    it.frame = it.lastframe
    return it
