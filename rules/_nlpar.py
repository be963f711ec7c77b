"""Shared: the three NLPAR implementations followed for small constant scans, with every pattern, noise estimate and setting symbolic.  What is
written for each scan position comes out as one expression over those symbols; device launches are followed through the OpenCL kernel."""
import random, math, re, signal, time
from fractions import Fraction
from sa.ctx import *
from sa.interp import PyRaise
from sa.term import subterms, rebuild
from sa import clast
from sa import lit as L_
from sa import evalt as E_
P = 'pyebsdindex.'
CPU, CL, RAY = P + 'nlpar_cpu.NLPAR.', P + 'opencl.nlpar_cl.NLPAR.', P + 'opencl.nlpar_clray.NLPAR.'
WRK = P + 'opencl.nlpar_clray.NLPARGPUWorker.'
CLF = 'pyebsdindex/opencl/clnlpar.cl'
PX = 4                                   # patterns of PX x PX pixels, all pixels of a pattern alike: one vector of 16 lanes
LAM, DTH, OFF, MX = sym('lam'), sym('dth'), sym('off'), sym('mx')
lst = lambda rows: mk('list', *rows)


class Unfollowed(Exception):
    pass


class Broken(Exception):
    """something that fails or goes wrong whatever the values"""


class Slow(Exception):
    pass


def limited(sec, f, *a, **k):
    """f(...), or Unfollowed when it takes too long or meets something it does not know"""
    def ring(*z):
        raise Slow()
    old = signal.signal(signal.SIGALRM, ring)
    t0 = time.time()
    left, _ = signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        return f(*a, **k)
    except (Unfollowed, Broken):
        raise
    except Slow:
        raise Unfollowed('the analysis of this case takes too long')
    except RecursionError:
        raise Unfollowed('recursion')
    except Exception as e:
        raise Unfollowed('%s: %s' % (type(e).__name__, e))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.setitimer(signal.ITIMER_REAL, max(left - (time.time() - t0), .01))


class Clock:
    """a rule stops following further cases when its time is used up"""

    def __init__(self, ctx):
        self.end = time.time() + (130 if ctx.tier == 'quick' else 200)

    def check(self):
        if time.time() > self.end:
            raise Unfollowed('the time of this rule is used up')


def pat(r, c, v=0):
    return sym('%s%d_%d' % ('pq'[v], r, c))


def sig(r, c):
    return sym('s%d_%d' % (r, c))


def flat(t):
    if t.op != 'list':
        return [t]
    return [y for x in t.args for y in flat(x)]


def rect(it, v, st):
    v = it.deep(it.V(v, st), st.heap)
    try:
        (a, b), (n, m) = [[cint(x) for x in y.args] for y in v.args]
    except (ValueError, TypeError, AttributeError):
        raise Unfollowed('patStartCount ' + show(v, 4))
    return a, b, n, m


def cint(x):
    while isinstance(x, T) and x.op == 'cast':
        x = x.args[1]
    if isinstance(x, T) and not is_num(x):
        y = stray(x)
        if y:
            raise Broken(y)
    if not (isinstance(x, T) and is_num(x)):
        raise Unfollowed('not a constant: ' + show(x, 9))
    v = cval(x)
    if int(v) != v:
        raise Unfollowed('not an integer: ' + show(x, 3))
    return int(v)


class Scan:
    """one scan, its file objects and what has been written"""

    def __init__(self, ctx, nr, nc, sr, dev, nv, sigma=True):
        self.ctx, self.nr, self.nc, self.sr, self.dev, self.nv = ctx, nr, nc, sr, dev, nv
        self.w, self.hv = (PX, PX) if dev else (1, 1)        # pixels: width, and height of what one vector holds
        self.h = self.hv * nv
        self.fin, self.fout = sym('fin'), sym('fout')
        self.out, self.bad, self.why = {}, [], None
        self.bufs, self.n = {}, 0
        self.sigma = lst([lst([sig(i, j) for j in range(nc)]) for i in range(nr)]) if sigma else NONE
        self.tiles, self.back, self.zero, self.mask = [], 0, (), None

    # file objects
    def read(self, it, r, a, v, kv, st, nd):
        if r is not self.fin:
            return None
        p = kv.get('patStartCount', v[0] if v else None)
        c0, r0, n, m = rect(it, p, st)
        if c0 < 0 or r0 < 0 or c0 + n > self.nc or r0 + m > self.nr or n <= 0 or m <= 0:
            self.bad.append('reads columns %d to %d, rows %d to %d of a scan of %d columns and %d rows' % (c0, c0 + n, r0, r0 + m, self.nc, self.nr))
            raise Broken(self.bad[-1])
        self.tiles.append((c0, r0, n, m))
        x = lst([lst([lst([pat(r0 + i, c0 + j, k // self.hv)] * self.w) for k in range(self.h)]) for i in range(m) for j in range(n)])
        return mk('tuple', it.newobj(x), NONE)

    def write(self, it, r, a, v, kv, st, nd):
        if r is not self.fout:
            self.bad.append('patterns are written to %s, not to the output file' % show(r, 3))
            return NONE
        p = kv.get('patStartCount', v[1] if len(v) > 1 else None)
        c0, r0, n, m = rect(it, p, st)
        d = kv.get('newpatterns', v[0] if v else None)
        d = it.deep(it.V(d, st), st.heap)
        sh = L_.lshape(d)
        if sh is None or len(sh) != 3:
            raise Unfollowed('patterns written: ' + show(d, 3))
        if sh[0] != n * m:
            self.bad.append('%d patterns are written to an area of %d columns and %d rows' % (sh[0], n, m))
            return NONE
        for k in range(sh[0]):
            i, j = r0 + k // n, c0 + k % n
            if not (0 <= i < self.nr and 0 <= j < self.nc):
                self.bad.append('writes to column %d, row %d of a scan of %d columns and %d rows' % (j, i, self.nc, self.nr))
                continue
            xs = flat(d.args[k])
            if len(xs) != self.w * self.h:
                raise Unfollowed('%d pixels written to a pattern of %d' % (len(xs), self.w * self.h))
            q = self.w * self.hv
            ys = [set(xs[v * q:v * q + q]) for v in range(self.nv)]
            if any(len(y) != 1 for y in ys):
                raise Unfollowed('the pixels of one pattern differ')
            self.out[i, j] = tuple(y.pop() for y in ys)
        return NONE

    # device
    def buffer(self, it, r, a, v, kv, st, nd):
        self.n += 1
        b = sym('buf%d' % self.n)
        h = kv.get('hostbuf', v[3] if len(v) > 3 else None)
        s = kv.get('size', v[2] if len(v) > 2 else None)
        if h is not None and h is not NONE:
            h = it.deep(it.V(h, st), st.heap)
            if L_.lshape(h) is None:
                raise Unfollowed('buffer from ' + show(h, 3))
            self.bufs[b] = flat(h)
        elif s is not None and s.op == 'attr' and s.args[1] == 'nbytes' and L_.lshape(it.deep(it.V(s.args[0], st), st.heap)):
            self.bufs[b] = [mk('sym', 'unset')] * L_.size(L_.lshape(it.deep(it.V(s.args[0], st), st.heap)))      # single precision
        elif s is not None:
            self.bufs[b] = [mk('sym', 'unset')] * (cint(s) // 4)
        else:
            raise Unfollowed('buffer of unknown size')
        return b

    def fill(self, it, r, a, v, kv, st, nd):
        b, x = v[1], v[2]
        off = cint(v[3]) if len(v) > 3 else 0
        n = cint(v[4]) if len(v) > 4 else 4 * len(self.content(b))
        c = self.content(b)
        if off < 0 or off + n > 4 * len(c):
            self.bad.append('a fill of %d bytes at %d of a buffer of %d bytes' % (n, off, 4 * len(c)))
        for i in range(off // 4, min((off + n) // 4, len(c))):
            c[i] = x
        return self.ev()

    def ev(self):
        self.n += 1
        return sym('evnt%d' % self.n)

    def content(self, b):
        if b not in self.bufs:
            raise Unfollowed('not a known buffer: ' + show(b, 3))
        return self.bufs[b]

    def load(self, it, r, a, v, kv, st, nd):
        g = [cint(x) for x in v[1].args]
        n = g[0]
        if any(x != 1 for x in g[1:]):
            raise Unfollowed('load geometry')
        s, d = self.content(v[3]), self.content(v[4])
        if n > len(s) or n > len(d):
            self.bad.append('a load of %d pixels from a buffer of %d into one of %d' % (n, len(s), len(d)))
        for i in range(min(n, len(s), len(d))):
            d[i] = s[i]
        return self.ev()

    def copy(self, it, r, a, v, kv, st, nd):
        dst, src = a[1], v[2]
        if src in self.bufs:
            cur = it.deep(it.V(dst, st), st.heap)
            sh = L_.lshape(cur)
            if sh is None or dst.op not in ('obj', 'view'):
                raise Unfollowed('copy to ' + show(cur, 3))
            n = L_.size(sh)
            c = self.content(src)
            if n > len(c):
                self.bad.append('%d values copied from a buffer of %d' % (n, len(c)))
                c = c + [mk('sym', 'beyond')] * (n - len(c))
            if dst.op != 'obj':
                raise Unfollowed('copy to a view')
            st.heap[('c', dst)] = it.reshape_lit(lst(c[:n]), [const(x) for x in sh])
            return self.ev()
        raise Unfollowed('copy from ' + show(src, 3))

    def launch(self, name):
        def h(it, r, a, v, kv, st, nd):
            k = kernels(self.ctx)[name]
            g = [cint(x) for x in v[1].args]
            args = v[3:]
            if len(args) != len(k.params):
                self.bad.append('%s is launched with %d arguments, it declares %d' % (name, len(args), len(k.params)))
                raise Unfollowed('arguments')
            const_, bufs = {}, {}
            for (pn, ty), x in zip(k.params, args):
                if ty[2]:
                    bufs[pn] = x
                else:
                    const_[pn] = x
            if sum(1 for x in bufs.values() if x in self.bufs) != len(bufs):
                raise Unfollowed('buffers of ' + name)
            before = {pn: list(self.content(b)) for pn, b in bufs.items()}
            for gy in range(g[1] if len(g) > 1 else 1):
                for gx in range(g[0]):
                    self.item(name, k, const_, bufs, before, (gx, gy, 0), g)
            return self.ev()
        return h

    def opaque(self, name):
        """a kernel whose results nothing here depends on: what it may write becomes unknown"""
        def h(it, r, a, v, kv, st, nd):
            k = kernels(self.ctx)[name]
            if len(v) - 3 != len(k.params):
                self.bad.append('%s is launched with %d arguments, it declares %d' % (name, len(v) - 3, len(k.params)))
                raise Unfollowed('arguments')
            for (pn, ty), x in zip(k.params, v[3:]):
                if ty[2] and 'const' not in ty[-1].split():
                    c = self.content(x)
                    c[:] = [mk('sym', 'of ' + name)] * len(c)
            return self.ev()
        return h

    def item(self, name, k, scal, bufs, before, gid, g):
        lanes = {pn: ty[1] for pn, ty in k.params}

        def wi(it, f, a, v, kv, st, nd):
            n = f.args[0] if f.op == 'undef' else None
            if n == 'get_global_id':
                return const(gid[cint(v[0])])
            if n == 'get_global_size':
                return const(g[cint(v[0])] if cint(v[0]) < len(g) else 1)
            return None
        args, heap, arr = dict(scal), {}, []
        for pn in bufs:
            c = before[pn]
            x = sym('dev.' + pn)
            args[pn] = x
            arr.append(x)
            n = lanes[pn]
            if n > 1 and any(len(set(c[i:i + n])) > 1 for i in range(0, len(c), n)):
                raise Unfollowed('the lanes of %s differ' % pn)
            heap[('c', x)] = lst(c[::n]) if n > 1 else lst(c)
        it = self.ctx.analyse(k.func.qual, args=args, heap=dict(heap), hooks={'dynamic': wi}, lit=True, unroll=4000, unroll_par=True, maxdepth=4, branch=branch)
        for x in arr:
            it.arrays.add(x)
        ends = [st for kd, st, v, nd in it.frame.exits if kd in ('return', 'end')]
        if len(ends) != 1:
            raise Unfollowed('%s: %d ways out' % (name, len(ends)))
        for pn, b in bufs.items():
            x = args[pn]
            v = it.deep(it.V(x, ends[0]), ends[0].heap)
            old = heap[('c', x)]
            if v is old:
                continue
            if v.op != 'list' and stray(v):
                raise Broken('%s, work item %s: %s' % (name, list(gid[:2]), stray(v)))
            if v.op != 'list' or len(v.args) != len(old.args):
                raise Unfollowed('%s writes %s in a way that is not followed: %s' % (name, pn, show(v, 3)))
            cur = self.bufs[b]
            w = self.width(name, pn, args)
            for i, (x, y) in enumerate(zip(old.args, v.args)):
                if x is not y:
                    for q in range(i, min(i + w, len(cur))):
                        cur[q] = y

    def width(self, name, pn, args):
        return 16 if pn in ('dataout',) else 1


def kernels(ctx):
    return clast.load(ctx.prog, CLF).kernels


def regime(t):
    """the value of a condition on the brightness of the patterns: they lie strictly between nothing and saturation"""
    env = {}
    for x in subterms(t):
        if x.op == 'sym':
            n = str(x.args[0])
            if n in REG:
                env[x] = REG[n]
            elif n[0] in 'pqs' and n[1:2].isdigit():
                env[x] = 199.9 if n in SAT else 50.0
    try:
        return bool(E_.Valuation(env=env)(t))
    except E_.Unknown:
        return None


REG = {'mx': 200.0, 'mn': 3.0, 'mxs': 100.0, 'mxz': 0.0}


SAT = set()                              # pixels taken as saturated, by symbol name


def branch(t, node):
    """nothing is saturated or empty, patterns are bytes, devices have memory of their own"""
    for x in subterms(t):
        if x.op == 'sym' and str(x.args[0]) in REG:
            return regime(t)
        if x.op == 'attr' and x.args[1] == 'host_unified_memory':
            return False
    if t.op == 'is' and t.args[1] is NONE and t.args[0] in (LAM, DTH, OFF):
        return False
    if t.op == 'is' and t.args[0].op == 'call' and t.args[0].args[0] == 'type':
        return False
    if t.op == 'is' and t.args[0].op == 'attr' and t.args[0].args[1] == 'type':
        return t.args[1].op == 'ext' and t.args[1].args[0] in ('numpy.ubyte', 'numpy.uint8')
    return None


def sqrt(it, r, a, v, kv, st, nd):
    return const(Fraction(math.sqrt(cval(v[0])))) if is_num(v[0]) else None


def chunks(ctx, pd, ncol, nrow, tb, ov):
    """the tiles _calcchunks makes: (columns, rows) or a reason"""
    it = ctx.analyse(CPU + '_calcchunks', args=dict(patdim=mk('tuple', const(pd[0]), const(pd[1])), ncol=const(ncol), nrow=const(nrow), target_bytes=const(tb), col_overlap=const(ov), row_overlap=const(ov),
                                                    col_offset=ZERO, row_offset=ZERO), lit=True, unroll=4000, exact_try=True, hooks={'numpy.sqrt': sqrt})
    r = [(st, v) for k, st, v, nd in it.frame.exits if k == 'return']
    if len(r) != 1:
        raise Unfollowed('_calcchunks: %d ways out' % len(r))
    v = it.deep(it.V(r[0][1], r[0][0]), r[0][0].heap)
    return v


class CAP:
    def __enter__(self):
        self.old = L_.CAP
        L_.CAP = 20000

    def __exit__(self, *a):
        L_.CAP = self.old


def common(s):
    ctx = s.ctx

    def dims(it, b):
        pass
    S = lambda f: (lambda it, b, *z: f)
    R = {}
    for c in (CPU,):
        R[c + 'getinfileobj'] = lambda it, b, *z: s.fin
        R[c + 'getoutfileobj'] = lambda it, b, *z: s.fout
        R[c + 'setoutfile'] = lambda it, b, *z: NONE
        R[c + 'automask'] = lambda it, b, *z: lst([lst([const(int((s.mask or (1, 0))[k // s.hv]))] * s.w) for k in range(s.h)])

    def symbolic(v):
        return v.op == 'list' and any(x.op == 'sym' or not is_num(x) for x in flat(v))

    def mx(it, r, a, v, kv, st, nd):
        x = it.V(r, st) if r is not None else v[0]
        ax = kv.get('axis', v[0] if r is not None and v else v[1] if r is None and len(v) > 1 else None)
        if symbolic(it.deep(x, st.heap)):
            if ax in (None, NONE):
                return MX
            s.back += 1
            return sym('mxz' if s.back - 1 in s.zero else 'mxs')
        y = it.deep(x, st.heap)
        if y.op == 'list' and ax in (None, NONE) and y.args and all(is_num(z) for z in flat(y)):
            return const(max(cval(z) for z in flat(y)))
        return None

    def nz(it, r, a, v, kv, st, nd):
        x = it.deep(it.V(r, st), st.heap) if r is not None else v[0]
        if x.op == 'list' and all(is_num(y) for y in flat(x)):
            if L_.lshape(x) and len(L_.lshape(x)) == 1:
                return mk('tuple', it.newobj(lst([const(i) for i, y in enumerate(x.args) if cval(y) != 0])))
        return None
    def mn(it, r, a, v, kv, st, nd):
        x = it.V(r, st) if r is not None else v[0]
        return sym('mn') if symbolic(it.deep(x, st.heap)) else None
    H = {'.min': mn, 'numpy.min': mn, '.read_data': s.read, '.write_data': s.write, '.max': mx, 'numpy.max': mx, '.nonzero': nz, 'numpy.typed': None,
         'numba.typed.Dict.empty': lambda it, r, a, v, kv, st, nd: it.newobj(mk('dict'), 'dict')}
    H.pop('numpy.typed')
    heap = {('a', s.fin, 'patternW'): const(s.w), ('a', s.fin, 'patternH'): const(s.h)}
    attrs = dict(nrows=const(s.nr), ncols=const(s.nc), sigma=s.sigma, searchradius=const(s.sr), mask=NONE, lam=LAM, dthresh=DTH, diff_offset=OFF, saturation_protect=TRUE, rescale=FALSE, sigmann=ONE)
    return R, H, heap, attrs


def runcpu(ctx, nr, nc, sr, chunk, meth='calcnlpar', nv=1, sigma=True, mask=None, **kw):
    s = Scan(ctx, nr, nc, sr, False, nv, sigma=sigma)
    s.mask = mask
    R, H, heap, attrs = common(s)
    B = {CPU + x for x in ('getinfileobj', 'getoutfileobj', 'setoutfile', 'automask', 'backsub')}
    args = dict(chunksize=const(chunk), automask=TRUE, saturation_protect=TRUE)
    if meth == 'calcnlpar':
        args.update({x: NONE for x in ('searchradius', 'lam', 'dthresh', 'filename', 'fileout', 'diff_offset')})
        args.update(reset_sigma=FALSE, backsub=FALSE, rescale=FALSE, verbose=ZERO)
    else:
        args.update(nn=const(sr))
    args.update(kw)
    with CAP():
        s.it = ctx.analyse(CPU + meth, args=args, heap=heap, hooks=H, returns=R, boundary=B, selfattrs=attrs, lit=True, exact_try=True, unroll=4000, unroll_par=True, branch=branch)
    return s


def device(s, tb):
    ctx = s.ctx
    OP = P + 'opencl.openclparam.OpenClParam.'
    B = {x for x in ctx.prog.funcs if x.startswith(OP)} | {CPU + x for x in ('getinfileobj', 'getoutfileobj', 'setoutfile', 'automask', 'backsub', '_calcchunks')}
    R, H, heap, attrs = common(s)

    def cc(it, b, *z):
        st = it.callstate
        g = {k: it.deep(it.V(v, st), st.heap) for k, v in b.items() if isinstance(v, T)}
        for k in ('ncol', 'nrow', 'col_overlap', 'row_overlap'):
            cint(g[k])
        a = dict(patdim=g['patdim'], ncol=g['ncol'], nrow=g['nrow'], target_bytes=const(tb), col_overlap=g['col_overlap'], row_overlap=g['row_overlap'], col_offset=g.get('col_offset', ZERO), row_offset=g.get('row_offset', ZERO))
        i2 = ctx.analyse(CPU + '_calcchunks', args=a, lit=True, unroll=4000, exact_try=True, hooks={'numpy.sqrt': sqrt})
        r = [(st2, v) for k, st2, v, nd in i2.frame.exits if k == 'return']
        if len(r) != 1:
            raise Unfollowed('_calcchunks')
        v = i2.deep(i2.V(r[0][1], r[0][0]), r[0][0].heap)
        s.grid = v
        return mk('tuple', *[it.newobj(x) if x.op == 'list' else x for x in v.args])
    R[CPU + '_calcchunks'] = cc
    H.update({'pyopencl.Buffer': s.buffer, 'pyopencl.enqueue_fill_buffer': s.fill, 'pyopencl.enqueue_copy': s.copy,
              '.nlloadpat8bit': s.load, '.calcnlpar': s.launch('calcnlpar'), '.calcsigma': s.launch('calcsigma'), '.normd': s.opaque('normd'),
              'pyopencl.enqueue_barrier': lambda *a: NONE})
    return R, H, heap, attrs, B


def runcl(ctx, nr, nc, sr, tb, meth='calcnlpar_cl', nv=1, sigma=True, mask=None, zero=(), **kw):
    s = Scan(ctx, nr, nc, sr, True, nv, sigma=sigma)
    s.zero = zero
    s.mask = mask
    R, H, heap, attrs, B = device(s, tb)
    args = dict(automask=TRUE, saturation_protect=TRUE, gpu_id=ZERO, verbose=ZERO)
    if 'nlpar' in meth:
        args.update({x: NONE for x in ('searchradius', 'lam', 'dthresh', 'filename', 'fileout', 'diff_offset')})
        args.update(reset_sigma=FALSE, backsub=FALSE, rescale=FALSE)
    else:
        args.update(nn=const(sr), normalize_d=FALSE)
    args.update(kw)
    with CAP():
        s.it = ctx.analyse(CL + meth, args=args, heap=heap, hooks=H, returns=R, boundary=B, selfattrs=attrs, lit=True, exact_try=True, unroll=4000, unroll_par=True, while_unroll=60, branch=branch)
    return s


def runray(ctx, nr, nc, sr, tb, meth='calcnlpar_clray', nv=1, sigma=True, mask=None, fail=(), order='last', **kw):
    """fail: the numbers of the submissions whose worker answers 'Error' ((number, operation): because that operation of its raises);
    order: which of the submitted tasks is ready first"""
    stages = dict(x for x in fail if isinstance(x, tuple))
    fail = tuple(x for x in fail if not isinstance(x, tuple))
    s = Scan(ctx, nr, nc, sr, True, nv, sigma=sigma)
    s.mask = mask
    R, H, heap, attrs, B = device(s, tb)
    s.tasks, s.jobs, s.running = {}, [], []

    def remote(it, r, a, v, kv, st, nd):
        if r.op != 'bound':
            c = [x for x in subterms(r) if x.op == 'class']
            if r.op != 'attr' and len(c) == 1 and c[0].args[0] in it.prog.classes:
                return it.instantiate(it.prog.classes[c[0].args[0]], a, dict(kv), st, nd)
            return None
        k = len(s.tasks)
        t = sym('task%d' % k)
        s.running.append(t)
        if k in fail:
            s.tasks[t] = mk('tuple', const('Error'), a[0], sym('reason'))
        else:
            s.breaking = stages.get(k)
            s.tasks[t] = it.call_func(it.prog.funcs[r.args[1]], [r.args[0]] + a, dict(kv), st, nd)
            if s.breaking:
                raise Unfollowed('%s of submission %d' % (s.breaking, k))
        return t

    def breaks(name, h):
        def g(it, r, a, v, kv, st, nd):
            if s.breaking == name and (r is s.fin or r is s.fout or name not in ('.read_data', '.write_data')):
                s.breaking = None
                raise PyRaise('RuntimeError')
            return h(it, r, a, v, kv, st, nd)
        return g
    s.breaking = None
    for x in {x for x in stages.values()}:
        H[x] = breaks(x, H[x])
    if stages:
        kwa = dict(hard_raise=True)
    else:
        kwa = {}

    def wait(it, r, a, v, kv, st, nd):
        x = it.deep(v[0], st.heap)
        if x.op != 'list' or any(y not in s.tasks for y in x.args):
            raise Unfollowed('ray.wait of ' + show(x, 3))
        n = kv.get('num_returns', v[1] if len(v) > 1 else ONE)
        if cint(n) > len(x.args):
            s.bad.append('ray.wait is asked for %d of %d tasks' % (cint(n), len(x.args)))
        done = list(x.args[-1:] if order == 'last' else x.args[:1] if order == 'first' else x.args)
        rest = [y for y in x.args if y not in done]
        return mk('tuple', it.newobj(lst(done), 'list'), it.newobj(lst(rest), 'list'))

    def get(it, r, a, v, kv, st, nd):
        if v[0] not in s.tasks:
            raise Unfollowed('ray.get of ' + show(v[0], 3))
        t = s.tasks[v[0]]
        return it.V(t, st) if t.op != 'tuple' else t

    def index(it, r, a, v, kv, st, nd):
        x = it.deep(it.V(r, st), st.heap)
        if x.op == 'list' and v[0] in x.args and v[0] in s.tasks:
            return const(x.args.index(v[0]))
        return None

    def remove(it, r, a, v, kv, st, nd):
        x = it.V(r, st)
        if x.op == 'list' and v[0] in x.args and v[0] in s.tasks:
            l = list(x.args)
            l.remove(v[0])
            st.heap[('c', r)] = lst(l)
            return NONE
        return None
    H.update({'.remote': remote, 'ray.wait': wait, 'ray.get': get, '.index': index, '.remove': remove, 'ray.put': lambda it, r, a, v, kv, st, nd: a[0],
              'ray.init': lambda *a: NONE, 'ray.shutdown': lambda *a: NONE})
    args = dict(automask=TRUE, saturation_protect=TRUE, gpu_id=ZERO, verbose=ZERO)
    if 'nlpar' in meth:
        args.update({x: NONE for x in ('searchradius', 'lam', 'dthresh', 'filename', 'fileout', 'diff_offset')})
        args.update(reset_sigma=FALSE, backsub=FALSE, rescale=FALSE)
    else:
        args.update(nn=const(sr), normalize_d=FALSE)
    args.update(kw)
    with CAP():
        s.it = ctx.analyse(RAY + meth, args=args, heap=heap, hooks=H, returns=R, boundary=B, selfattrs=attrs, lit=True, exact_try=True, unroll=4000, unroll_par=True, while_unroll=60, branch=branch, **kwa)
    return s


LANE = re.compile(r's[0-9a-fA-F]$')


def plain(t):
    """a vector's lanes hold equal values here: one lane of it is the value"""
    def f(x):
        if x.op == 'attr' and isinstance(x.args[1], str) and LANE.match(x.args[1]):
            y = x.args[0]
            while y.op == 'sel' and y.args[1] in (ZERO,):
                y = y.args[0]
            return plain(y)
        return None
    return rebuild(t, f)


def valuation(seed, s, dev=True, sharp=False, near=False, alike=None):
    """random patterns, noise estimates and settings; the CPU sees one pixel where a device vector sees sixteen: its distances are a quarter"""
    r = random.Random(seed)
    env = {}
    for i in range(s.nr):
        for j in range(s.nc):
            for v in range(2):
                env[pat(i, j, v)] = 199.9 if pat(i, j, v).args[0] in SAT else r.uniform(20, 120)
            env[sig(i, j)] = r.uniform(3, 20)
    if near:                                    # distances of the size of the noise: weights between nothing and one
        for v in range(2):                      # no two alike
            ks = list(range(s.nr * s.nc))
            r.shuffle(ks)
            for i in range(s.nr):
                for j in range(s.nc):
                    x = pat(i, j, v)
                    if x.args[0] not in SAT:
                        env[x] = alike if alike else 45 + 30. / len(ks) * (ks.pop() + r.uniform(0, .5))
    lam, dth, off = r.uniform(.6, 1.6), r.uniform(0, 1.5), r.uniform(.2, 3)
    if sharp:
        lam, dth = .05, 0.
        for i in range(s.nr):
            for j in range(s.nc):
                env[pat(i, j, 0)] = 20 + 3.7 * (i * s.nc + j)
                env[sig(i, j)] = .1
    env[LAM], env[DTH], env[OFF] = (lam, dth, off) if dev else (lam / 2, dth / 4, off)
    for k, v in REG.items():
        env[sym(k)] = v
    env[sym('mxs')] = 100.
    return E_.Valuation(env=env)


def value(t, v):
    """the number, or None"""
    try:
        x = v(plain(t))
    except E_.Unknown:
        return None
    return x if isinstance(x, (int, float)) else None


def syms(t):
    return {str(x.args[0]) for x in subterms(t) if x.op == 'sym'}


def stray(t):
    """what a value should not contain: memory nobody wrote, reads past the end of a list"""
    for x in subterms(t):
        if x.op == 'sym' and str(x.args[0]) in ('unset', 'beyond'):
            return 'memory that was never written'
        if x.op == 'opaque' and x.args[0] == 'oob':
            return 'an access past the end of an array'
        if x.op == 'store' and x.args[0].op == 'list' and is_num(x.args[1]) and not (-len(x.args[0].args) <= cval(x.args[1]) < len(x.args[0].args)):
            return 'entry %s of %d is written' % (show(x.args[1], 2), len(x.args[0].args))
        if x.op == 'sel' and x.args[0].op == 'list' and is_num(x.args[1]) and not (-len(x.args[0].args) <= cval(x.args[1]) < len(x.args[0].args)):
            return 'entry %s of %d' % (show(x.args[1], 2), len(x.args[0].args))
    return None


def result(s):
    """what the followed function returns (the first of a tuple), as a literal"""
    r = [(st, v) for k, st, v, nd in s.it.frame.exits if k in ('return', 'end')]
    if len(r) != 1:
        raise Unfollowed('%d ways out' % len(r))
    v = s.it.deep(s.it.V(r[0][1], r[0][0]), r[0][0].heap)
    if v.op == 'tuple':
        v = s.it.deep(s.it.V(v.args[0], r[0][0]), r[0][0].heap)
    return v


def same(a, b, s, n=3):
    """do two values agree: True (the same expression, or the same numbers), a pair of numbers, or None"""
    if a is b:
        return True
    for k in range(n):
        v = valuation('same%d' % k, s)
        x, y = value(a, v), value(b, v)
        if x is None or y is None:
            return None
        if not abs(x - y) <= 1e-6 * max(1, abs(x), abs(y)):
            return x, y
    return True
