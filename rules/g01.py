"""Host code and device kernels agree.  Every launch in the OpenCL modules is matched with the kernel it names in the kernel file that module
builds: number of arguments, buffers for pointers, scalars of the declared width and kind.  The host methods are then followed for small
constant sizes, every buffer with its length in bytes, and every launch is followed through its kernel for the extreme work items: no access
may leave its buffer, and an image kernel may not step over the edge of a row.  The largest settings the host lets through are followed the
same way into the private arrays of the kernels."""
import ast, itertools
from sa.ctx import *
from sa import clast
from sa.interp import PyRaise
from rules import _nlpar as N
P = 'pyebsdindex.'
OCL = 'pyebsdindex/opencl/'
BDC, RDC = P + 'opencl.band_detect_cl.BandDetect.', P + 'opencl.radon_fast_cl.Radon.'
ASSUMES = ['a scalar is passed to a kernel as a numpy scalar of its type, as PyOpenCL requires for kernels whose scalar types were not set', 'the index plan holds pixel numbers and, for missing entries, numbers past the last pixel']
SIZE = {'char': 1, 'uchar': 1, 'bool': 1, 'short': 2, 'ushort': 2, 'int': 4, 'uint': 4, 'float': 4, 'long': 8, 'ulong': 8, 'double': 8}
NP = {'int8': 1, 'uint8': 1, 'byte': 1, 'ubyte': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'int64': 8, 'uint64': 8, 'int_': 8, 'intp': 8, 'float32': 4, 'single': 4, 'float64': 8, 'double': 8,
      'longlong': 8, 'ulonglong': 8, 'intc': 4, 'uintc': 4, 'bool_': 1, 'ushort': 2, 'short': 2}
FLT = ('float32', 'single', 'float64', 'double')


def np_dtype(x, mod):
    """the dtype an expression of a module names, or None"""
    if isinstance(x, ast.Attribute) and x.attr in NP and isinstance(x.value, ast.Name):
        return x.attr
    if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value in NP:
        return x.value
    if isinstance(x, ast.Name) and x.id in ('int', 'float'):
        return 'int64' if x.id == 'int' else 'float64'
    return None


class Types:
    """the numpy type of a scalar expression of one function: a set of dtypes, 'py' for a Python number, 'buf' for a device buffer, None for unknown"""

    def __init__(self, fn):
        self.defs, self.params = {}, {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        for x in ast.walk(fn):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    self.bind(t, x.value)
            elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and x.value is not None:
                self.bind(x.target, x.value)
            elif isinstance(x, ast.AugAssign):
                self.bind(x.target, ast.BinOp(left=x.target, op=x.op, right=x.value), aug=True)
            elif isinstance(x, ast.For):
                self.bind(x.target, None)
            elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                self.bind(x.optional_vars, None)
        self.busy = set()
        self.place = {}                       # node: the blocks it lies in, outermost first

        def walk(n, path):
            self.place[id(n)] = path
            for fld, v in ast.iter_fields(n):
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    for i, y in enumerate(v):
                        walk(y, path + ((id(n), fld, i, isinstance(n, (ast.For, ast.While))),))
                else:
                    for y in v if isinstance(v, list) else [v]:
                        if isinstance(y, ast.AST):
                            walk(y, path)
        walk(fn, ())

    def reach(self, x):
        """the definitions that may reach a use of a name: those from the last one on that lies before it on every path; None: no such one"""
        ds = self.defs.get(x.id, [])
        u = self.place.get(id(x))
        if u is None or any(d is None or id(d) not in self.place for d in ds):
            return None
        key = lambda p: tuple(q[2] for q in p)
        dom = []
        for d in ds:
            p = self.place[id(d)]
            if len(p) <= len(u) and [q[:2] for q in p] == [q[:2] for q in u[:len(p)]] and p[-1][2] < u[len(p) - 1][2]:
                dom.append((key(p), p, d))
        if not dom:
            return None
        k, p, d = max(dom, key=lambda q: (q[0], getattr(q[2], 'lineno', 0)))
        loops = [q[0] for q in u if q[3] and q[0] not in [z[0] for z in p]]             # loops around the use, not around that definition
        out = [d]
        for e in ds:
            q = self.place[id(e)]
            if e is not d and (getattr(d, 'lineno', 0) < getattr(e, 'lineno', 0) <= getattr(x, 'lineno', 0) and q[:len(u)] != u or any(z[0] in loops for z in q)):
                out.append(e)
        return out

    def bind(self, t, v, aug=False):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [None] * len(t.elts)
            for a, b in zip(t.elts, vs):
                self.bind(a, b)

    def of(self, x):
        """set of possible types; a member None is 'not known'"""
        if isinstance(x, ast.Constant):
            return {'py'} if isinstance(x.value, (int, float)) and x.value is not None else {None}
        if isinstance(x, ast.Name):
            if x.id in self.params or x.id not in self.defs or x.id in self.busy:
                return {None}
            self.busy.add(x.id)
            try:
                r = set()
                for v in self.defs[x.id]:
                    if isinstance(v, ast.Constant) and v.value is None:
                        continue
                    r |= self.of(v) if v is not None else {None}
                return r or {None}
            finally:
                self.busy.discard(x.id)
        if isinstance(x, ast.Call):
            f = x.func
            n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if isinstance(f, ast.Attribute) and n in NP and isinstance(f.value, ast.Name):
                return {n}
            if n in ('int', 'len', 'float', 'round') and isinstance(f, ast.Name):
                return {'py'}
            if n == 'Buffer':
                return {'buf'}
            if n in ('asarray', 'array', 'require', 'zeros', 'ones', 'full', 'empty'):
                for k in x.keywords:
                    if k.arg == 'dtype':
                        d = np_dtype(k.value, None)
                        return {d and 'a:' + d}
                return {None}
            if n == 'astype' and x.args:
                d = np_dtype(x.args[0], None)
                return {d and 'a:' + d}
            if n in ('abs', 'max', 'min') and isinstance(f, ast.Name):
                r = set()
                for a in x.args:
                    r |= self.of(a)
                return r
            return {None}
        if isinstance(x, ast.Subscript):
            return {t[2:] if isinstance(t, str) and t.startswith('a:') else None for t in self.of(x.value)}
        if isinstance(x, ast.IfExp):
            return self.of(x.body) | self.of(x.orelse)
        if isinstance(x, ast.UnaryOp):
            return self.of(x.operand)
        if isinstance(x, ast.BinOp):
            r = set()
            for a, b in itertools.product(self.of(x.left), self.of(x.right)):
                r.add(self.join(a, b, x.op))
            return r
        return {None}

    SAME = ('reshape', 'copy', 'ravel', 'flatten', 'squeeze', 'transpose', 'clip')

    def elem(self, x):
        """the possible element types of an array expression; None is 'not known', 'num' a Python number"""
        if isinstance(x, ast.Constant):
            return {'num' if isinstance(x.value, (int, float)) else None}
        if isinstance(x, ast.Name):
            ds = self.reach(x)
            if ds is None and x.id not in self.params:
                ds = self.defs.get(x.id)
            if not ds or (id(x), 'e') in self.busy:
                return {None}
            self.busy.add((id(x), 'e'))
            try:
                r = set()
                for v in ds:
                    r |= self.elem(v) if v is not None else {None}
                return r
            finally:
                self.busy.discard((id(x), 'e'))
        if isinstance(x, ast.UnaryOp):
            return self.elem(x.operand)
        if isinstance(x, ast.BinOp):
            r = set()
            for a, b in itertools.product(self.elem(x.left), self.elem(x.right)):
                r.add(a if a == b else a if b == 'num' and a in FLT else b if a == 'num' and b in FLT else None)
            return r
        if isinstance(x, ast.Subscript):
            ks = x.slice.elts if isinstance(x.slice, ast.Tuple) else [x.slice]
            return self.elem(x.value) if any(isinstance(k, ast.Slice) or isinstance(k, ast.Constant) and k.value is Ellipsis for k in ks) else {None}
        if isinstance(x, ast.Attribute):
            return self.elem(x.value) if x.attr == 'T' else {None}
        if isinstance(x, ast.IfExp):
            return self.elem(x.body) | self.elem(x.orelse)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            n = x.func.attr
            if n == 'astype' and x.args:
                return {np_dtype(x.args[0], None)}
            np_ = isinstance(x.func.value, ast.Name) and x.func.value.id in ('np', 'numpy')
            if np_ and n in ('zeros', 'ones', 'empty', 'full', 'array', 'asarray', 'ascontiguousarray', 'require'):
                i = {'full': 2}.get(n, 1)
                d = [k.value for k in x.keywords if k.arg == 'dtype'] or x.args[i:i + 1]
                if d:
                    return {np_dtype(d[0], None)}
                return {'float64'} if n in ('zeros', 'ones', 'empty') else self.elem(x.args[0]) - {'num'} or {None} if x.args and n in ('asarray', 'ascontiguousarray', 'require') else {None}
            if n in self.SAME and not np_:
                return self.elem(x.func.value)
        return {None}

    def host(self, x):
        """the element types of the host arrays a buffer expression is made from"""
        if isinstance(x, ast.Name):
            ds = self.reach(x)
            if ds is None and x.id not in self.params:
                ds = self.defs.get(x.id)
            if not ds or (id(x), 'h') in self.busy:
                return {None}
            self.busy.add((id(x), 'h'))
            try:
                r = set()
                for v in ds:
                    if not (isinstance(v, ast.Constant) and v.value is None):
                        r |= self.host(v) if v is not None else {None}
                return r
            finally:
                self.busy.discard((id(x), 'h'))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'Buffer':
            h = [k.value for k in x.keywords if k.arg == 'hostbuf'] or x.args[3:4]
            return self.elem(h[0]) if h else {None}
        return {None}

    def join(self, a, b, op):
        if a is None or b is None or 'buf' in (a, b) or (a + b).count('a:'):
            return None
        if isinstance(op, ast.Div):
            return 'py' if a == b == 'py' else 'float32' if 'float32' in (a, b) and (a == b or 'py' in (a, b)) else 'float64'
        if 'py' in (a, b):
            o = b if a == 'py' else a
            return o
        return a if a == b else None


def launches(ctx):
    """every launch in the package: (module, function node, call, kernel name, queue given)"""
    for mn, m in sorted(ctx.prog.modules.items()):
        fs = [n for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]
        for f in fs:
            for c in ast.walk(f):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and len(c.args) >= 3:
                    b = c.func.value
                    n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
                    if n == 'prg' or (n and n.endswith('prg')):
                        yield m, f, c, c.func.attr


def kfiles(ctx, m, f):
    """the kernel files the function builds, or else its module does: the constants given to get_context, or the default"""
    def own(t):
        return [x for x in ast.walk(t) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'get_context']
    ks, dyn = set(), False
    for c in own(f) or own(m.tree):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'get_context':
            for k in c.keywords:
                if k.arg == 'kfile':
                    if isinstance(k.value, ast.Constant):
                        ks.add(k.value.value)
                    else:
                        dyn = True
            if len(c.args) > 1:
                dyn = True
    if dyn:
        return None
    if not ks:
        f = ctx.prog.func(P + 'opencl.openclparam.OpenClParam.get_context')
        a = f.node.args
        d = dict(zip([x.arg for x in a.args][::-1], a.defaults[::-1])).get('kfile')
        if not isinstance(d, ast.Constant):
            return None
        ks = {d.value}
    return ks


def r_interface(ctx):
    R = ctx.rule('launch', 'every launch names a kernel of the file its module builds and gives it the declared arguments', 20)
    E = ctx.rule('elements', 'the host array behind a buffer has the element size and kind the kernel declares', 6)
    bufs = {}
    for m, f, c, name in launches(ctx):
        where = '%s:%d' % (m.rel if hasattr(m, 'rel') else m.path, c.lineno)
        ks = kfiles(ctx, m, f)
        con = '%s: %s launched' % (f.name, name)
        if ks is None:
            ctx.und(R, con, 'which kernel file is built')
            continue
        have = [clast.load(ctx.prog, OCL + k) for k in sorted(ks)]
        errs = [e for h in have for e in h.errors]
        k = [h.kernels[name] for h in have if name in h.kernels]
        if not k:
            if errs:
                ctx.und(R, con, str(errs[0])[:100])
            else:
                ctx.bad(R, con, where, 'no kernel %s in %s' % (name, ', '.join(sorted(ks))))
            continue
        k = k[0]
        if any(isinstance(a, ast.Starred) for a in c.args):
            ctx.und(R, con, 'starred arguments')
            continue
        args = c.args[3:]
        if len(args) != len(k.params):
            ctx.bad(R, con, where, '%d arguments for the %d parameters of %s' % (len(args), len(k.params), name))
            continue
        ty = Types(f)
        settypes = any(isinstance(x, ast.Attribute) and x.attr in ('set_scalar_arg_dtypes', 'set_arg_types') for x in ast.walk(m.tree))
        for a, (pn, t) in zip(args, k.params):
            if t[2] and t[0] in SIZE:
                fits = lambda d, t=t: NP[d] == SIZE[t[0]] and (d in FLT) == (t[0] in ('float', 'double'))
                hs = ty.host(a)
                if hs and None not in hs and hs <= set(NP) and (all(map(fits, hs)) or not any(map(fits, hs))):
                    ctx.verdict(all(map(fits, hs)), E, '%s: %s.%s, host array' % (f.name, name, pn), where, 'the host array is %s, the kernel reads %s' % (', '.join(sorted(hs)), t[0]))
                if isinstance(a, ast.Name):
                    bufs.setdefault((m.name, f.name, a.id), [f, m, set()])[2].add(t[0])
            ts = ty.of(a)
            c2 = '%s: %s.%s' % (f.name, name, pn)
            if None in ts or not ts:
                if t[2] and not (ts - {None, 'buf'}) or not t[2] and 'buf' not in ts and not ts - {None}:
                    ctx.und(R, c2, 'type of ' + ast.unparse(a)[:60])
                    continue
                ts = ts - {None}
            wrong = None
            for x in sorted(ts):
                if t[2]:
                    if x != 'buf':
                        wrong = 'the pointer %s is given a %s' % (pn, 'number' if x == 'py' else x)
                elif x == 'buf':
                    wrong = 'the scalar %s is given a buffer' % pn
                elif x.startswith('a:'):
                    wrong = 'the scalar %s is given an array' % pn
                elif settypes:
                    continue
                elif x == 'py':
                    wrong = 'the scalar %s %s is given a Python number, which has no width' % (t[0], pn)
                elif NP[x] != SIZE.get(t[0]):
                    wrong = 'the scalar %s %s is given %d bytes (%s)' % (t[0], pn, NP[x], x)
                elif (x in FLT) != (t[0] in ('float', 'double', 'half')):
                    wrong = 'the scalar %s %s is given a %s' % (t[0], pn, x)
            ctx.verdict(wrong is None, R, c2, where, wrong)
    for (mn, fn, b), (f, m, ks) in sorted(bufs.items(), key=lambda x: x[0]):        # what is copied back from a buffer
        ty = Types(f)
        for c in ast.walk(f):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'enqueue_copy' and len(c.args) >= 3 and isinstance(c.args[2], ast.Name) and c.args[2].id == b and len(ks) == 1:
                hs, t = ty.elem(c.args[1]), list(ks)[0]
                fits = lambda d: NP[d] == SIZE[t] and (d in FLT) == (t in ('float', 'double'))
                if hs and None not in hs and hs <= set(NP) and (all(map(fits, hs)) or not any(map(fits, hs))):
                    ctx.verdict(all(map(fits, hs)), E, '%s: copy of %s' % (fn, b), '%s:%d' % (m.rel if hasattr(m, 'rel') else m.path, c.lineno), 'a buffer of %s is copied to an array of %s' % (t, ', '.join(sorted(hs))))


# ---------------------------------------------------------------------------------------------------------------- sizes, followed
class Gpu:
    """arrays with their sizes, buffers with their lengths in bytes, and the launches made"""

    def __init__(self, ctx, ker):
        self.ctx, self.ker = ctx, ker
        self.arr, self.buf, self.launch, self.n, self.bad = {}, {}, [], 0, []
        self.copies = []

    def array(self, dims, dt):
        self.n += 1
        a = sym('array%d' % self.n)
        self.arr[a] = (tuple(dims), dt)
        return a

    def buffer(self, n, what):
        self.n += 1
        b = sym('buffer%d' % self.n)
        self.buf[b] = (n, what)
        return b

    def root(self, t):
        while isinstance(t, T) and t not in self.arr and t.op in ('after', 'store', 'view') and isinstance(t.args[0], T):
            if t.op == 'view' and t.args[1] is not FULL and t.args[1] is not ELL:
                return None
            t = t.args[0]
        return t if isinstance(t, T) and t in self.arr else None

    def nbytes(self, a):
        d, dt = self.arr[a]
        if dt is None or dt not in NP:
            raise N.Unfollowed('element size')
        n = NP[dt]
        for x in d:
            n *= x
        return n

    def dtype(self, v, default=None):
        if v is None or v is NONE:
            return default
        if v.op == 'ext':
            return {'int': 'int64', 'float': 'float64'}.get(v.args[0], v.args[0].rsplit('.', 1)[-1])
        if v.op == 'const' and v.args[0] == 'str':
            return v.args[1]
        return None

    def dims(self, v, it, st):
        v = it.deep(it.V(v, st), st.heap)
        if v.op in ('tuple', 'list'):
            return [N.cint(x) for x in v.args]
        return [N.cint(v)]

    def live(self, it, b, st, nd, what):
        if st.heap.get(('a', b, 'released')) is TRUE:
            self.bad.append((what, nd, 'the buffer was released before', self.file(it)))

    def file(self, it):
        m = it.frames[-1].func.module
        return getattr(m, 'rel', None) or m.path

    # hooks
    def any(self, it, f, args, vals, kv, st, nd):
        if f.op == 'ext':
            n = f.args[0]
            b = n.rsplit('.', 1)[-1]
            if n == 'isinstance' and len(args) == 2 and args[1].op == 'ext' and args[1].args[0] == 'pyopencl.Buffer':
                return TRUE if vals[0] in self.buf else FALSE
            if n == 'pyopencl.Buffer':
                h = kv.get('hostbuf', vals[3] if len(vals) > 3 else None)
                s = kv.get('size', vals[2] if len(vals) > 2 else None)
                if h is not None and h is not NONE:
                    a = self.root(args[3] if len(args) > 3 else h) or self.root(h)
                    if a is None:
                        raise N.Unfollowed('a buffer of ' + show(h, 3))
                    return self.buffer(self.nbytes(a), self.arr[a])
                return self.buffer(N.cint(s), None)
            if n == 'pyopencl.enqueue_copy':
                d, s = vals[1], vals[2]
                a = self.root(args[1]) or self.root(d)
                if s in self.buf and a is not None:
                    self.live(it, s, st, nd, 'copy')
                    self.copies.append((s, a, nd, self.file(it)))
                    if self.buf[s][0] < self.nbytes(a):
                        self.bad.append(('copy', nd, '%d bytes are copied from a buffer of %d' % (self.nbytes(a), self.buf[s][0]), self.file(it)))
                return sym('event')
            if n == 'pyopencl.enqueue_fill_buffer':
                x = vals[1]
                if x in self.buf and N.cint(vals[3]) + N.cint(vals[4]) > self.buf[x][0]:
                    self.bad.append(('fill', nd, 'bytes %d to %d of a buffer of %d are filled' % (N.cint(vals[3]), N.cint(vals[3]) + N.cint(vals[4]), self.buf[x][0]), self.file(it)))
                return sym('event')
            if n.startswith('pyopencl.'):
                return sym('cl')
            if n.startswith('numpy.'):
                if b in ('zeros', 'ones', 'empty', 'full'):
                    d = self.dims(vals[0], it, st)
                    k = 2 if b == 'full' else 1
                    return self.array(d, self.dtype(kv.get('dtype', vals[k] if len(vals) > k else None), 'float64'))
                a = self.root(args[0]) if args else None
                if a is None and vals:
                    a = self.root(vals[0])
                if a is not None:
                    d, dt = self.arr[a]
                    if b in ('shape',):
                        return mk('tuple', *[const(x) for x in d])
                    if b in ('asarray', 'array', 'require', 'ascontiguousarray', 'copy', 'abs'):
                        return self.array(d, self.dtype(kv.get('dtype'), dt))
                    if b == 'expand_dims':
                        return self.array((1,) + d, dt)
                    if b == 'transpose' and len(vals) > 1:
                        return self.array([d[i] for i in self.dims(vals[1], it, st)], dt)
            return None
        if f.op == 'method':
            recv, n = f.args
            rv = it.V(recv, st)
            if n == 'get_info':
                return const(256)
            if rv in self.buf:
                if n == 'release':
                    if st.heap.get(('a', rv, 'released')) is TRUE:
                        self.bad.append(('release', nd, 'a buffer is released twice', self.file(it)))
                    st.heap[('a', rv, 'released')] = TRUE
                    return NONE
                return sym('cl')
            a = self.root(recv) or self.root(rv)
            if a is not None:
                d, dt = self.arr[a]
                if n == 'astype':
                    return self.array(d, self.dtype(vals[0]))
                if n == 'copy':
                    return self.array(d, dt)
                if n == 'reshape':
                    g = self.dims(vals[0], it, st) if len(vals) == 1 else [N.cint(x) for x in vals]
                    t = 1
                    for x in d:
                        t *= x
                    k = 1
                    for x in g:
                        k *= x if x != -1 else 1
                    return self.array([t // k if x == -1 else x for x in g], dt)
                if n in ('sum', 'max', 'min', 'mean', 'transpose', 'clip') and (n in ('sum', 'max', 'min', 'mean') and not vals and not kv):
                    return sym('%s of array' % n)
                if n == 'clip':
                    return self.array(d, dt)
                if n == 'transpose':
                    return self.array([d[i] for i in self.dims(vals[0], it, st)] if vals else d[::-1], dt)
                return None
            if rv is PRG or (rv.op == 'attr' and rv.args[1] == 'prg'):
                return self.go(it, n, args, vals, kv, st, nd)
        return None

    def attr(self, it, base, name, st, nd):
        b = base
        if b.op == 'sym' and b in self.buf and name == 'size':
            return const(self.buf[b][0])
        a = self.root(b)
        if a is not None:
            d, dt = self.arr[a]
            if name == 'shape':
                return mk('tuple', *[const(x) for x in d])
            if name == 'ndim':
                return const(len(d))
            if name == 'nbytes':
                return const(self.nbytes(a))
            if name == 'size':
                t = 1
                for x in d:
                    t *= x
                return const(t)
            if name == 'dtype':
                return mk('ext', 'numpy.' + str(dt))
            if name == 'T':
                return self.array(d[::-1], dt)
        if b.op == 'ext' and name == 'kind' and b.args[0].startswith('numpy.') and b.args[0][6:] in NP:
            n = b.args[0][6:]
            return const('f' if n in FLT else 'u' if n[0] == 'u' else 'b' if n == 'bool_' else 'i')
        if b.op == 'ext' and name == 'type' and b.args[0].startswith('numpy.'):
            return b
        return None

    def binop(self, it, op, a, b, st, nd):
        x, y = self.root(a), self.root(b)
        if x is None and y is None:
            return None
        if x is None or y is None:
            return x or y
        dx, dy = self.arr[x][0], self.arr[y][0]
        return x if len(dx) >= len(dy) else y

    def getitem(self, it, base, a, v, kv, st, nd):
        r = self.root(base)
        if r is None:
            return None
        d, dt = self.arr[r]
        d = list(d)
        out, i = [], 0
        ks = list(keytuple(v[0]))
        for n, k in enumerate(ks):
            if k is ELL:
                m = len(d) - i - (len(ks) - n - 1)
                out += d[i:i + m]
                i += m
            elif k.op == 'slice':
                lo, hi = [None if x in (NONE, None) else N.cint(x) for x in k.args[:2]]
                out.append(len(range(d[i])[slice(lo, hi)]))
                i += 1
            elif k is NONE:
                out.append(1)
            else:
                i += 1
        out += d[i:]
        if not out:
            return sym('entry')
        return self.array(out, dt)

    def setitem(self, it, base, a, v, kv, st, nd):
        return self.root(base) is not None

    def hooks(self):
        return {'*': self.any, 'attr': self.attr, 'binop': self.binop, 'getitem': self.getitem, 'setitem': self.setitem}

    def go(self, it, name, args, vals, kv, st, nd):
        k = self.ker.get(name)
        if k is None or len(vals) - 3 != len(k.params):
            raise N.Unfollowed('launch of ' + name)
        g = self.dims(vals[1], it, st)
        sc, bf = {}, {}
        for (pn, t), x in zip(k.params, vals[3:]):
            if t[2]:
                if x not in self.buf:
                    raise N.Unfollowed('buffer %s of %s' % (pn, name))
                bf[pn] = x
                self.live(it, x, st, nd, 'launch of ' + name)
            else:
                sc[pn] = N.cint(it.deep(x, st.heap))
        self.launch.append((name, g, sc, bf, nd, self.file(it)))
        return sym('event')


PRG = sym('prg')


def follow(ctx, qual, ker, args, attrs, heap=None, boundary=()):
    g = Gpu(ctx, ker)
    cl = sym('clparams')
    h = {('a', cl, 'queue'): sym('queue'), ('a', cl, 'prg'): PRG, ('a', cl, 'ctx'): sym('context'), ('a', cl, 'memflags'): sym('mf'), ('a', cl, 'gpu'): sym('gpus'), ('a', cl, 'gpu_id'): ZERO}
    mkv = lambda x: g.array(*x) if isinstance(x, tuple) else g.buffer(x, None) if isinstance(x, int) else x
    it = ctx.analyse(qual, args=dict({k: mkv(v) for k, v in args.items()}, clparams=cl), selfattrs={k: mkv(v) for k, v in attrs.items()}, heap={**h, **{k: mkv(v) for k, v in (heap or {}).items()}},
                     hooks=g.hooks(), branch=branch, lit=True, unroll=200, exact_try=True, **(dict(boundary=set(boundary)) if boundary else {}))
    return g, it


ALIAS = {'ubyte': 'uint8', 'byte': 'int8', 'single': 'float32'}


def branch(t, node):
    if t.op == 'not':
        r = branch(t.args[0], node)
        return None if r is None else not r
    if t.op == 'is' and t.args[1] is NONE and t.args[0].op == 'sym':
        return False
    if t.op == 'is' and t.args[0].op == t.args[1].op == 'ext':
        a, b = [ALIAS.get(x.args[0].rsplit('.', 1)[-1], x.args[0].rsplit('.', 1)[-1]) for x in t.args]
        return a == b
    return None


def items(g):
    """the extreme work items, and one in the middle"""
    ax = [sorted({0, x // 2, x - 1}) for x in (list(g) + [1, 1, 1])[:3]]
    return itertools.product(*ax)


def accesses(ctx, k, gid, g, scal, lens, limit):
    """every access of one work item to the buffers it was given: {parameter: set of constant indices}, and how many indices were not constant"""
    acc, free = {}, [0]
    names = {sym('dev.' + pn): pn for pn, t in k.params if t[2]}
    priv = {}

    def at(base, key, nd):
        off = 0
        while base.op == 'view' or (base.op == 'sel' and base.args[1].op == 'slice'):
            s = base.args[1]
            if s.op == 'slice' and s.args[0] is not NONE:
                if not is_num(s.args[0]):
                    free[0] += 1
                    return None
                off += int(cval(s.args[0]))
            base = base.args[0]
        while base.op in ('after', 'store') and isinstance(base.args[0], T):
            base = base.args[0]
        if base not in names:
            return None
        if key.op == 'slice':
            return None
        if is_num(key) and int(cval(key)) == cval(key):
            i = int(cval(key)) + off
            acc.setdefault(names[base], set()).update((i, i + clast.width(nd) - 1))
        elif key.op != 'slice':
            free[0] += 1
        return base

    def get(it, base, a, v, kv, st, nd):
        b = at(base, v[0], nd)
        if b is None:
            return None
        return mk('sel', sym('content.' + names[b]), v[0])

    def put(it, base, a, v, kv, st, nd):
        return at(base, v[0], nd) is not None

    def wi(it, f, a, v, kv, st, nd):
        n = f.args[0] if f.op == 'undef' else None
        if n == 'get_global_id':
            return const(gid[N.cint(v[0])])
        if n == 'get_global_size':
            d = N.cint(v[0])
            return const(g[d] if d < len(g) else 1)
        return None
    args = {pn: const(x) for pn, x in scal.items()}
    args.update({pn: x for x, pn in names.items()})
    it = ctx.analyse(k.func.qual, args=args, hooks={'dynamic': wi, 'getitem': get, 'setitem': put}, lit=True, unroll=limit, unroll_par=True, maxdepth=4, arrays=list(names))
    return acc, free[0]


CONFIGS = (           # kernel (rho, theta), peak window, padding, radon (rho, theta), pattern (rows, columns), patterns, bands
    dict(ks=(3, 9), win=(7, 19), pad=(7, 19), rdn=(6, 10), pat=(5, 7), n=20, nb=4),
    dict(ks=(9, 3), win=(19, 7), pad=(19, 7), rdn=(11, 5), pat=(9, 4), n=33, nb=3),
)
tup = lambda xs: mk('list', *[const(x) for x in xs])


def cases(c, thorough):
    """the methods to follow with the arguments of one configuration: (method, arguments, text)"""
    nR, nT = c['rdn']
    full = (nR + 2 * c['pad'][0]) * (nT + 2 * c['pad'][1])
    n16 = -(-c['n'] // 16) * 16
    B = full * n16 * 4
    for dt in ('uint8', 'uint16', 'float32'):
        for back in ((c['pat'], 'float64'), NONE):
            if dt == 'uint8' or back is NONE:
                yield BDC + 'radon_fasterCL', dict(image=((c['n'],) + c['pat'], dt), padding=tup(c['pad']), fixArtifacts=TRUE, background=back, returnBuff=TRUE), '%s patterns%s' % (dt, '' if back is NONE else ', background')
    yield BDC + 'radon_fasterCL', dict(image=(c['pat'], 'uint8'), padding=tup(c['pad']), fixArtifacts=FALSE, background=NONE, returnBuff=FALSE), 'one pattern'
    for m in ('SUBTRACT', 'DIVIDE'):
        yield RDC + 'radon_fasterCL', dict(image=((c['n'],) + c['pat'], 'float32'), padding=tup(c['pad']), fixArtifacts=TRUE, background=(c['pat'], 'float64'), background_method=const(m), returnBuff=FALSE if m == 'DIVIDE' else TRUE), m.lower()
    for sep in (TRUE, FALSE):
        yield BDC + 'rdn_convCL2', dict(radonIn=B, separableKernel=sep, returnBuff=TRUE), 'separable' if sep is TRUE else 'one kernel'
    yield BDC + 'rdn_convCL2', dict(radonIn=(((nR + 2 * c['pad'][0]), (nT + 2 * c['pad'][1]), c['n']), 'float32'), separableKernel=TRUE, returnBuff=FALSE), 'host array'
    yield BDC + 'rdn_local_maxCL', dict(radonIn=B, returnBuff=TRUE), 'buffer'
    yield BDC + 'rdn_local_maxCL', dict(radonIn=(((nR + 2 * c['pad'][0]), (nT + 2 * c['pad'][1]), c['n']), 'float32'), returnBuff=FALSE), 'host array'
    yield BDC + 'band_labelCL', dict(rdnConvIn=B, lMaxRdnIn=B // 4), 'buffers'


def r_memory(ctx):
    R = ctx.rule('memory', 'no work item of a launch leaves the buffers it is given, and no image kernel steps over the edge of a row', 40)
    E = ctx.rule('elements', 'the host array behind a buffer has the element size and kind the kernel declares', 6)
    ck = N.Clock(ctx)
    cl = clast.load(ctx.prog, OCL + 'clkernels.cl')
    seen = {}
    for c in CONFIGS:
        nR, nT = c['rdn']
        plan = ((nR, nT, 8), 'uint64')
        attrs = dict(nRho=const(nR), nTheta=const(nT), padding=tup(c['pad']), nBands=const(c['nb']), radonPlan=sym('plan'), kernel=((1,) + c['ks'], 'float64'), peakPad=tup(c['win']), rdnmask=((nR, nT), 'uint8'),
                     rhoMaskFrac=const(0.15), indexPlan=plan, missingval=const(-1))
        heap = {('a', sym('plan'), 'indexPlan'): plan, ('a', sym('plan'), 'missingval'): const(-1), ('a', sym('plan'), 'nRho'): const(nR), ('a', sym('plan'), 'nTheta'): const(nT)}
        for q, args, text in cases(c, ctx.tier != 'quick'):
            m = q.split('.')[-2] + '.' + q.split('.')[-1]
            con0 = '%s (%s)' % (m, text)
            f = ctx.prog.funcs.get(q)
            if f is None:
                ctx.und(R, con0, 'not found')
                continue
            args = {k: v for k, v in args.items() if k in f.params()}
            try:
                ck.check()
                g, it = N.limited(40, follow, ctx, q, cl.kernels, args, attrs, heap)
            except N.Unfollowed as e:
                ctx.und(R, con0, str(e)[:150])
                continue
            except N.Broken as e:
                ctx.bad(R, con0, f.loc if hasattr(f, 'loc') else q, str(e))
                continue
            judge(ctx, ck, R, E, g, cl, con0, m, seen, c)


def judge(ctx, ck, R, E, g, cl, con0, m, seen, c):
    """the launches, copies and releases of one followed run"""
    for what, nd, msg, file in g.bad:
        ctx.bad(R, '%s: %s' % (con0, what), '%s:%d' % (file, getattr(nd, 'lineno', 0)), msg)
    for s, a, nd, file in g.copies:
        ctx.ok(R, '%s: copy of %d bytes' % (con0, g.nbytes(a)))
    elem = {}
    for name, gs, sc, bf, nd, file in g.launch:
        k = cl.kernels[name]
        loc = '%s:%d' % (file, nd.lineno)
        con = '%s: %s' % (con0, name)
        lens = {}
        for pn, t in k.params:
            if t[2]:
                n, h = g.buf[bf[pn]]
                lens[pn] = n // (SIZE[t[0]] * t[1])
                elem.setdefault(bf[pn], t)
                if h is not None and h[1] in NP:
                    ctx.verdict(NP[h[1]] == SIZE[t[0]] and (h[1] in FLT) == (t[0] in ('float', 'double')), E, '%s: %s.%s' % (m, name, pn), loc, 'the host array is %s, the kernel reads %s' % (h[1], t[0]))
                if elem[bf[pn]][0] != t[0]:
                    ctx.verdict(False, E, '%s: %s.%s, earlier kernels' % (m, name, pn), loc, 'a buffer of %s is read as %s' % (elem[bf[pn]][0], t[0]))
        key = (name, tuple(gs), tuple(sorted(sc.items())), tuple(sorted(lens.items())))
        if key not in seen:
            seen[key] = check_items(ctx, ck, k, gs, sc, lens)
        v, why = seen[key]
        ctx.verdict(v, R, con, loc, why)
        why = swapped(k, gs, sc, c)
        if why is not None:
            ctx.verdict(not why, R, con + ', axes', loc, why)
        v, why = rows(k, gs, sc, lens)
        if v is not None:
            ctx.verdict(v, R, con + ', rows', loc, why)
    for s, a, nd, file in g.copies:
        if s in elem and g.arr[a][1] in NP:
            t, dt = elem[s], g.arr[a][1]
            ctx.verdict(NP[dt] == SIZE[t[0]] and (dt in FLT) == (t[0] in ('float', 'double')), E, '%s: results, %s' % (m, dt), '%s:%d' % (file, nd.lineno), 'a buffer of %s is copied to an array of %s' % (t[0], dt))


def check_items(ctx, ck, k, gs, sc, lens):
    n = 0
    for gid in items(gs):
        try:
            ck.check()
            acc, free = N.limited(30, accesses, ctx, k, gid, gs, sc, lens, 2000)
        except N.Unfollowed as e:
            return None, str(e)[:120]
        except N.Broken as e:
            return False, 'work item %s: %s' % (list(gid), e)
        for pn, xs in sorted(acc.items()):
            n += len(xs)
            if min(xs) < 0 or max(xs) >= lens[pn]:
                x = min(xs) if min(xs) < 0 else max(xs)
                return False, 'work item %s uses element %d of %s, which has %d' % (list(gid), x, pn, lens[pn])
    return (True, '') if n else (None, 'no access with a constant index')


def swapped(k, gs, sc, c):
    """a value that belongs to the other axis: (parameter, text), '' when all known ones are in place, None when none is known"""
    (nR, nT), (pR, pT) = c['rdn'], c['pad']
    used = {n.id for n in ast.walk(k.func.node) if isinstance(n, ast.Name)}
    W, H = {nT + 2 * pT}, {nR + 2 * pR}
    full = 'nThetaP' not in sc
    X = {0, pT, c['ks'][1], c['ks'][1] // 2}
    Y = {0, pR, c['ks'][0], c['ks'][0] // 2, (nR + 2 * pR) // 2 - 1}
    kx, ky = {1, c['ks'][1], c['win'][1]}, {1, c['ks'][0], c['win'][0]}
    role = dict(imszx=(W, H), nThetaP=(W, H), imszy=(H, W), nRhoP=(H, W), padx=(X, Y), thetaPad=(X, Y), pady=(Y, X), rhoPad=(Y, X), kszx=(kx, ky), kszy=(ky, kx),
                nTheta=(W if full else {nT}, H if full else {nR}), nRho=(H if full else {nR}, W if full else {nT}))
    n = 0
    for pn, x in sc.items():
        if pn in role and pn in used:
            mine, other = role[pn]
            if x not in mine and x in other:
                return '%s is %d, a size of the other axis' % (pn, x)
            n += x in mine
    if len(gs) > 1 and sc.get('padx') == pT and sc.get('pady') == pR and tuple(gs[:2]) == (nR, nT):
        return 'there are work items for %d columns and %d rows of an image of %d columns and %d rows' % (nR, nT, nT, nR)
    return '' if n else None


def rows(k, gs, sc, lens):
    """work items at (x + padx, y + pady) of an image of imszx by imszy"""
    if not {'imszx', 'padx'} <= set(sc) or len(gs) < 2 or gs[1] <= 1:
        return None, None
    if gs[0] + sc['padx'] > sc['imszx']:
        return False, 'column %d of rows of %d' % (gs[0] + sc['padx'] - 1, sc['imszx'])
    if {'imszy', 'pady'} <= set(sc) and gs[1] + sc['pady'] > sc['imszy']:
        return False, 'row %d of %d rows' % (gs[1] + sc['pady'] - 1, sc['imszy'])
    return True, ''


def r_chain(ctx):
    R = ctx.rule('chain', 'through a whole detection no buffer is used after its release and every stage gets buffers of the size it reads', 20)
    E = ctx.rule('elements', 'the host array behind a buffer has the element size and kind the kernel declares', 6)
    seen = {}
    ck = N.Clock(ctx)
    cl = clast.load(ctx.prog, OCL + 'clkernels.cl')
    f = ctx.func(BDC + 'find_bands')
    for c in CONFIGS:
        nR, nT = c['rdn']
        plan = ((nR, nT, 8), 'uint64')
        attrs = dict(nRho=const(nR), nTheta=const(nT), padding=tup(c['pad']), nBands=const(c['nb']), radonPlan=sym('plan'), kernel=((1,) + c['ks'], 'float64'), peakPad=tup(c['win']), rdnmask=((nR, nT), 'uint8'),
                     rhoMaskFrac=const(0.15), backgroundsub=(c['pat'], 'float32'), dataType=sym('dataType'))
        heap = {('a', sym('plan'), 'indexPlan'): plan, ('a', sym('plan'), 'missingval'): const(-1)}
        shown = {q for q in ctx.prog.funcs if q.rsplit('.', 1)[-1] == '_display_radon_pattern'}
        for chunk, verb in ((-1, 0), (16, 0), (16, 2)):
            con = 'find_bands, %d patterns, chunk size %d%s' % (c['n'], chunk, ', verbose' if verb else '')
            try:
                ck.check()
                g, it = N.limited(60, follow, ctx, BDC + 'find_bands', cl.kernels, dict(patternsIn=((c['n'],) + c['pat'], 'uint8'), verbose=const(verb), chunksize=const(chunk), gpu_id=NONE), attrs, heap, shown)
            except N.Unfollowed as e:
                ctx.und(R, con, str(e)[:150])
                continue
            except N.Broken as e:
                ctx.bad(R, con, f.qual, str(e))
                continue
            if not g.launch:
                ctx.und(R, con, 'no launch is reached')
                continue
            judge(ctx, ck, R, E, g, cl, con, 'find_bands', seen, c)


def recorder(ker, got, size=None):
    """a scan whose launches are written down; size: height and width of its patterns"""
    class Rec(N.Scan):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            if size:
                self.h, self.w = size
                self.hv = self.h
            self.made = got.setdefault('scans', [])
            self.made.append(self)

        def launch(self, name):
            def h(it, r, a, v, kv, st, nd):
                k = ker.get(name)
                if k is None or len(v) - 3 != len(k.params):
                    raise N.Unfollowed('arguments of ' + name)
                sc, ln, ct = {}, {}, {}
                for (pn, t), x in zip(k.params, v[3:]):
                    if t[2]:
                        c = self.content(x)
                        ln[pn] = len(c) // t[1]
                        if pn == 'crlimits':
                            ct[pn] = list(c)
                    else:
                        sc[pn] = x
                got.setdefault((name, tuple(N.cint(x) for x in v[1].args), nd.lineno), []).append((sc, ln, ct, nd))
                for (pn, t), x in zip(k.params, v[3:]):
                    if t[2] and 'const' not in t[-1].split():
                        c = self.content(x)
                        c[:] = [mk('sym', 'of ' + name)] * len(c)
                return self.ev()
            return h
        opaque = launch
    return Rec


def record(ctx, ck, ker, got, run, size=None, sec=60):
    """the launches of one run: a reason it could not be followed to its end, or None"""
    old, N.Scan = N.Scan, recorder(ker, got, size)
    got.clear()
    try:
        ck.check()
        N.limited(sec, run)
    except (N.Unfollowed, N.Broken) as e:
        return str(e)[:150]
    finally:
        N.Scan = old
    return None


def r_scan(ctx):
    R = ctx.rule('scan', 'for scans read in one or several tiles and patterns of any number of pixels no NLPAR kernel leaves its buffers', 20)
    ck = N.Clock(ctx)
    ker = N.kernels(ctx)
    got, seen = {}, {}
    runs = []
    for nr, nc, size, tb, sr in ((3, 3, (2, 3), 10 ** 9, 1), (4, 4, (4, 5), 10 ** 9, 1), (2, 2, (4, 4), 10 ** 9, 2), (3, 12, (1, 5), 240, 1), (12, 3, (5, 1), 240, 1)):
        t = '%d rows, %d columns of %d x %d pixels%s' % (nr, nc, size[0], size[1], '' if tb > 10 ** 6 else ', tiles of %d bytes' % tb)
        for m, run, kw in (('calcnlpar_cl', N.runcl, {}), ('calcsigma_cl', N.runcl, dict(normalize_d=TRUE)), ('calcnlpar_clray', N.runray, {}), ('calcsigma_clray', N.runray, {})):
            runs.append(('%s, %s' % (m, t), size, lambda run=run, m=m, kw=kw, nr=nr, nc=nc, sr=sr, tb=tb: run(ctx, nr, nc, sr, tb, meth=m, **kw)))
    for text, size, run in runs:
        why = record(ctx, ck, ker, got, run, size)
        bad = [b for s in got.pop('scans', []) for b in s.bad if 'launched with' not in b]
        if bad:
            ctx.bad(R, text + ': transfers', OCL, bad[0])
        elif why:
            ctx.und(R, text, why)
        else:
            ctx.ok(R, text + ': transfers')
        for (name, g, line), ls in sorted(got.items()):
            for sc, ln, ct, nd in ls:
                key = (name, g, tuple((p, x) for p, x in sorted(sc.items()) if is_num(x)), tuple(sorted(ln.items())), tuple((p, tuple(x)) for p, x in ct.items()))
                con = '%s: %s, %s' % (text, name, 'x'.join(map(str, g)))
                if key not in seen:
                    v, why = None, 'no work items'
                    for gid in {(0, 0, 0), (g[0] - 1, g[-1] - 1 if len(g) > 1 else 0, 0), (g[0] // 2, 0, 0)}:
                        try:
                            ck.check()
                            v, why = N.limited(60, private, ctx, ker[name], g, sc, ln, ct, gid)
                        except N.Unfollowed as e:
                            v, why = None, str(e)[:150]
                        if not v:
                            break
                    seen[key] = v, why
                v, why = seen[key]
                ctx.verdict(v, R, con, '%s:%d' % (N.CLF, ker[name].line), why)


def r_limits(ctx):
    R = ctx.rule('limits', 'the private arrays of a kernel hold what the largest setting the host lets through needs', 4)
    ck = N.Clock(ctx)
    ker = N.kernels(ctx)
    got = {}
    runs = []
    for big in (12, 50):                          # just past what the arrays hold, and far past it
        runs += [('calcnlpar_cl, stored search radius %d' % big, 'calcnlpar', lambda big=big: N.runcl(ctx, 2, 3, big, 10 ** 9)), ('calcnlpar_cl, given search radius %d' % big, 'calcnlpar', lambda big=big: N.runcl(ctx, 2, 3, 1, 10 ** 9, searchradius=const(big))),
                 ('calcnlpar_clray, stored search radius %d' % big, 'calcnlpar', lambda big=big: N.runray(ctx, 2, 3, big, 10 ** 9)), ('calcnlpar_clray, given search radius %d' % big, 'calcnlpar', lambda big=big: N.runray(ctx, 2, 3, 1, 10 ** 9, searchradius=const(big))),
                 ('calcsigma_cl, %d' % big, 'calcsigma', lambda big=big: N.runcl(ctx, 2, 3, big, 10 ** 9, meth='calcsigma_cl')), ('calcsigma_clray, %d' % big, 'calcsigma', lambda big=big: N.runray(ctx, 2, 3, big, 10 ** 9, meth='calcsigma_clray'))]
    for text, kn, run in runs:
        why = record(ctx, ck, ker, got, run)
        got.pop('scans', None)
        if why and not got:
            ctx.und(R, text, why)
        for (name, g, line), ls in sorted(got.items()):
            sc, ln, ct, nd = ls[0]
            con = '%s: %s' % (text, name)
            try:
                ck.check()
                v, why = N.limited(60, private, ctx, ker[name], g, sc, ln, ct)
            except N.Unfollowed as e:
                v, why = None, str(e)[:150]
            ctx.verdict(v, R, con, '%s:%d' % (N.CLF, ker[name].line), why)


def private(ctx, k, g, sc, ln, ct, gid=(0, 0, 0)):
    """one work item with the scalars the host gave: the entries of the private arrays, and of the buffers, it uses"""
    seen, lens = {}, {}
    names = {sym('dev.' + pn): pn for pn, t in k.params if t[2]}

    def wi(it, f, a, v, kv, st, nd):
        n = f.args[0] if f.op == 'undef' else None
        if n in ('get_global_id', 'get_global_size'):
            d = N.cint(v[0])
            return const(gid[d] if n.endswith('id') else g[d] if d < len(g) else 1)
        return None

    def use(it, base, key, st, nd):
        b = base
        while b.op in ('after', 'store') and isinstance(b.args[0], T):
            b = b.args[0]
        if b.op == 'obj' and b not in lens:
            sh = it.shape(b, st)
            lens[b] = int(cval(sh.args[0])) if sh is not None and sh.op == 'tuple' and len(sh.args) == 1 and is_num(sh.args[0]) else None
        if b.op == 'obj' or b in names:
            seen.setdefault(b, set()).update((int(cval(key)), int(cval(key)) + clast.width(nd) - 1) if is_num(key) else (None,))
        return b if b.op == 'obj' or b in names else None

    def get(it, base, a, v, kv, st, nd):
        b = use(it, base, v[0], st, nd)
        if b is None:
            return None
        c = ct.get(names.get(b))
        if c and is_num(v[0]) and 0 <= cval(v[0]) < len(c) and is_num(c[int(cval(v[0]))]):
            return c[int(cval(v[0]))]
        return sym('entry of %s' % names.get(b, 'private'))

    def put(it, base, a, v, kv, st, nd):
        return use(it, base, v[0], st, nd) is not None
    args = {pn: x for pn, x in sc.items()}
    args.update({pn: x for x, pn in names.items()})
    ctx.analyse(k.func.qual, args=args, hooks={'dynamic': wi, 'getitem': get, 'setitem': put}, lit=True, unroll=2000, unroll_par=True, maxdepth=4)
    why, n = '', 0
    for b, xs in seen.items():
        m = ln[names[b]] if b in names else lens[b]
        ys = {x for x in xs if x is not None}
        if m is None or not ys:
            continue
        n += b not in names
        if min(ys) < 0 or max(ys) >= m:
            return False, 'with %s entry %d of %s of %d entries is used' % (', '.join('%s = %s' % (p, show(x, 2)) for p, x in sc.items() if is_num(x)), min(ys) if min(ys) < 0 else max(ys), 'the buffer ' + names[b] if b in names else 'a private array', m)
    if n < len(k.privates):
        return None, '%d of %d private arrays followed' % (n, len(k.privates))
    return True, ''
