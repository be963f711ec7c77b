"""Without a usable device every result is the CPU result.  The GPU find_bands is followed once per OpenCL operation it can reach (the helpers
and the set-up of the device included) with every device operation failing from that one on: the call must return what the CPU find_bands
returns for the caller's own patterns and unchanged settings.  The module-level statements of the package are executed by cases, for every
combination of installed optional packages and every answer of the device queries: each module must import and bind every name it exports,
and no function that can be reached may name what is then missing.  A worker that starts on a failing device must answer with the CPU result."""
import ast, builtins
from sa.ctx import *
from sa.interp import PyRaise
from sa.term import subterms
P = 'pyebsdindex.'
CPU, CL = P + 'band_detect.BandDetect', P + 'opencl.band_detect_cl.BandDetect'
PAR = P + 'opencl.openclparam.OpenClParam'
WORKER = P + '_ebsd_index_parallel.GPUWorker'
DEV = 'dev:'
FAILED = ('a', sym('the device'), 'failed')
OPTIONAL = ('pyopencl', 'ray')
ASSUMES = ['a failed device stays failed for the rest of the call', 'pyopencl reports failures with its own exceptions (subclasses of Exception, not of the built-in ones), a missing device appears as an empty list',
           'every package except pyopencl and ray is installed']


def isdev(t):
    return t.op == 'sym' and isinstance(t.args[0], str) and t.args[0].startswith(DEV)


def stackof(it):
    return tuple((f.func.qual, getattr(getattr(f, 'callnode', None), 'lineno', 0), getattr(getattr(f, 'callnode', None), 'col_offset', 0)) for f in it.frames)


class Device:
    """an OpenCL installation whose operations fail from the k-th operation site on (k None: never)"""

    def __init__(self, failat=None, kind='LogicError'):
        self.failat, self.failed, self.kind = failat, False, kind
        self.sites, self.n = [], 0

    def op(self, it, what, node, st):
        s = (stackof(it), getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), what)
        if s not in self.sites:
            self.sites.append(s)
        if self.failat is not None and s == self.failat:
            self.failed = True
            st.heap[FAILED] = TRUE
        if FAILED in st.heap:
            raise PyRaise('LogicError' if s != self.failat else self.kind)

    def new(self, what):
        self.n += 1
        return sym('%s%s:%d' % (DEV, what, self.n))

    def any(self, it, f, args, vals, kv, st, nd):
        if f.op == 'ext':
            n = f.args[0]
            if n == 'isinstance' and len(args) == 2 and args[1].op == 'ext' and args[1].args[0].startswith('pyopencl.'):
                k = args[1].args[0].split('.', 1)[1]
                if isdev(vals[0]):
                    return TRUE if vals[0].args[0].split(':')[1] == k else FALSE
                return None
            if n == 'type' and len(vals) == 1 and vals[0].op == 'list':
                return mk('ext', 'list')
            if not n.startswith('pyopencl.'):
                return None
            self.op(it, n, nd, st)
            k = n.split('.')[-1]
            if k == 'get_platforms':
                return it.newobj(mk('list', self.new('platform')), 'list')
            return self.new(k)
        recv, name = f.args
        r = it.V(recv, st)
        if not any(isdev(x) for x in choices(r)):
            return None
        self.op(it, '.' + name, nd, st)
        if name == 'get_devices':
            return it.newobj(mk('list', self.new('gpu')), 'list')
        return self.new(name)

    def dyn(self, it, f, args, vals, kv, st, nd):
        if any(isdev(x) for x in subterms(f)):
            self.op(it, 'call', nd, st)
            return self.new('ret')
        return None

    def hooks(self):
        return {'*': self.any, 'dynamic': self.dyn}


def inside(nodes, line):
    return any(n.lineno <= line <= getattr(n, 'end_lineno', n.lineno) for n in nodes)


def steer(site, dev):
    """take the way to the site that fails"""
    def branch(t, node, it):
        if not hasattr(node, 'body'):
            return None
        stack, want = stackof(it), site[0]
        k = len(stack)
        if stack != want[:k]:
            return None
        line = want[k][1] if k < len(want) else site[1]
        sides = [x if isinstance(x, list) else [] if x is None else [x] for x in (node.body, getattr(node, 'orelse', None))]
        return True if inside(sides[0], line) else False if inside(sides[1], line) else None
    branch.wants_it = True
    return branch


def run(ctx, dev, cls, meth, args, selfattrs=None, heap=None, types=None, **kw):
    q = ctx.prog.method(ctx.prog.cls(cls), meth).qual
    cpu = ctx.prog.method(ctx.prog.cls(CPU), 'find_bands').qual
    calls = []

    def res(it, bound):
        st = it.callstate
        calls.append(dict(bound={k: it.promoted.get(v, v) for k, v in bound.items()}, vals={k: it.deep(it.V(v, st), st.heap) for k, v in bound.items()}, heap=dict(st.heap), failed=FAILED in st.heap, node=it.callnode))
        return sym('cpu-result-%d' % len(calls))
    if dev.failat is not None:
        kw['branch'] = steer(dev.failat, dev)
    it = ctx.analyse(q, selfcls=cls, args=args, selfattrs=selfattrs or {}, heap=heap or {}, arrays=['patternsIn'], types=types, hooks=dict(dev.hooks(), **kw.pop('hooks', {})), boundary={cpu} | kw.pop('boundary', set()),
                     returns=dict({cpu: res}, **kw.pop('returns', {})), hard_raise=True, zero_trip=False, recur=2, **kw)
    return it, calls


PATS = sym('patternsIn')


def settings(ctx):
    """the attributes the CPU detection reads"""
    out, seen, todo = set(), set(), ['find_bands']
    c = ctx.prog.cls(CPU)
    while todo:
        m = ctx.prog.method(c, todo.pop())
        if m is None or m.qual in seen:
            continue
        seen.add(m.qual)
        for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == m.params()[0]:
                if ctx.prog.method(c, n.attr) is not None:
                    todo.append(n.attr)
                else:
                    out.add(n.attr)
    return out, seen


def cpucall(it, c, attrs, cls=CL):
    """what is wrong with a call of the CPU detection, or None"""
    me = it.self
    b, v = c['bound'], c['vals']
    if b.get('self', me) is not me:
        return 'the CPU detection runs on another object'
    p = b.get('patternsIn')
    p = it.promoted.get(p, p)
    if ('c', PATS) in c['heap'] and c['heap'][('c', PATS)] is not PATS:
        return "the caller's patterns are changed before the CPU detection gets them"
    if p is not PATS and v.get('patternsIn') is not PATS:
        return 'the CPU detection gets %s instead of the patterns of the call' % show(v.get('patternsIn'), 3)
    if v.get('verbose') not in (None, sym('verbose'), ZERO, ONE, const(2)) and not is_num(v.get('verbose')):
        return None
    for k, x in c['heap'].items():
        if k[0] == 'a' and k[1] is me and k[2] in attrs:
            y = it.deep(it.V(x, it.state), c['heap'])
            if y is not mk('attr', me, k[2]) and y is not sym('set.' + k[2]):
                return 'the setting %s is changed before the CPU detection runs' % k[2]
        if k[0] == 'c' and k[1].op == 'attr' and k[1].args[0] is me and k[1].args[1] in attrs and c['heap'][k] is not k[1]:
            return 'the setting %s is changed in place before the CPU detection runs' % k[1].args[1]
    return None


def where(ctx, q, line):
    f = ctx.prog.funcs.get(q)
    return '%s:%d' % (f.module.path, line) if f else '?'


def scenarios(ctx):
    o = mk('new', PAR, 'given')
    base = {('a', o, k): sym(DEV + k + ':given') for k in ('ctx', 'prg', 'queue')}
    base.update({('a', o, 'platform'): sym(DEV + 'platform:given'), ('a', o, 'gpu'): mk('list', sym(DEV + 'gpu:given')), ('a', o, 'ngpu'): ONE, ('a', o, 'gpu_id'): ZERO, ('a', o, 'memflags'): mk('ext', 'pyopencl.mem_flags')})
    noq = dict(base)
    noq[('a', o, 'queue')] = NONE
    yield 'own device', dict(clparams=NONE, useCPU=FALSE), {}, None, kind(3)
    yield 'prepared queue', dict(clparams=o, useCPU=FALSE, chunksize=const(-1)), base, {}, kind(2)
    yield 'prepared context', dict(clparams=o, useCPU=FALSE, chunksize=const(-1)), noq, {}, {}


def kind(ndim):
    """hooks: the patterns are real valued and have ndim dimensions"""
    def attr(it, base, name, st, node):
        if name == 'ndim' and base is PATS:
            return const(ndim)
        if name == 'kind' and base.op == 'attr' and base.args[1] == 'dtype':
            return const('f')
        return None

    def view(it, base, args, vals, kv, st, node):
        return PATS if vals and vals[0] is PATS else None
    return {'attr': attr, 'numpy.expand_dims': view, 'numpy.atleast_3d': view, 'numpy.asarray': view}


def label(s):
    return '%s:%s' % ('>'.join(x[0].rsplit('.', 1)[-1] for x in s[0]), s[3].replace('pyopencl.', 'cl.').lstrip('.'))


def returned(it, dev):
    out = []
    for k, st, v, nd in it.frame.exits:
        if k == 'return':
            out.append((st, it.V(v, st) if v.op == 'obj' else v, nd, v))
    return out


def r_device(ctx):
    R = ctx.rule('device', 'when a device operation fails, the call returns the CPU result for the same patterns and settings', 80)
    attrs, _ = settings(ctx)
    q = ctx.prog.method(ctx.prog.cls(CL), 'find_bands').qual
    for lab, args, heap, types, hk in scenarios(ctx):
        d0 = Device()
        it0, calls0 = run(ctx, d0, CL, 'find_bands', args, heap=heap, types=types, hooks=hk)
        if len(d0.sites) < 20:
            ctx.und(R, lab, 'only %d device operations were reached' % len(d0.sites))
            continue
        count = {}
        for s in d0.sites:
            kinds = ['LogicError'] + (['ValueError', 'IndexError'] if s[3] == 'pyopencl.get_platforms' else []) + (['IndexError'] if s[3] in ('pyopencl.Context', '.get_devices') else [])
            for kind in kinds:
                n = count[(label(s), kind)] = count.get((label(s), kind), 0) + 1
                con = '%s:%s#%d%s' % (lab, label(s), n, '' if kind == 'LogicError' else ':' + kind)
                d = Device(s, kind)
                it, calls = run(ctx, d, CL, 'find_bands', args, heap=heap, types=types, hooks=hk)
                loc = where(ctx, s[0][-1][0], s[1])
                if not d.failed:
                    ctx.und(R, con, 'the operation was not reached again')
                    continue
                ends = it.frame.exits
                rets = [x for x in ends if x[0] == 'return']
                after = [c for c in calls if c['failed']]
                if not rets:
                    ctx.bad(R, con, loc, 'a failure of %s here is not handled: band detection raises instead of using the CPU' % s[3].lstrip('.'))
                    continue
                bad = None
                for k, st, v, nd in rets:
                    for x in choices(v):
                        if x.op == 'sym' and x.args[0].startswith('cpu-result-'):
                            c = calls[int(x.args[0].rsplit('-', 1)[1]) - 1]
                            bad = bad or cpucall(it, c, attrs) or touched(it, x, st)
                        elif s[3] == '.release' and decidedly(x):
                            pass          # the memory of a failed device need not be given back
                        elif decidedly(x):
                            bad = bad or 'after the failure the call returns %s, not the CPU result' % show(x, 2)
                        else:
                            bad = bad or ('und', show(x, 3))
                raised = [x for x in ends if x[0] == 'raise']
                if isinstance(bad, tuple):
                    ctx.und(R, con, 'returns ' + bad[1])
                elif bad:
                    ctx.bad(R, con, loc, 'failure of %s: %s' % (s[3].lstrip('.'), bad))
                elif not after and raised:
                    ctx.bad(R, con, loc, 'a failure of %s here is not handled' % s[3].lstrip('.'))
                else:
                    ctx.ok(R, con, 'CPU result')


def touched(it, x, st):
    """is the CPU result changed before it is returned"""
    for k, y in st.heap.items():
        o = k[1]
        while o.op == 'sub' and o is not x:
            o = o.args[0]
        if k[0] == 'c' and o is x and y is not k[1]:
            return 'the CPU result is changed before it is returned (%s)' % show(y, 3)


def choices(v):
    if v.op == 'ite':
        return choices(v.args[1]) + choices(v.args[2])
    return [v]


def decidedly(x):
    return x.op in ('obj', 'alloc', 'const', 'tuple', 'list', 'new') or is_num(x)


NEEDS = {'opencl.nlpar_clray': {'pyopencl', 'ray'}, '_ebsd_index_parallel': {'ray'}}


def needs(name):
    s = name.split('.', 1)[1] if '.' in name else ''
    if s in NEEDS:
        return NEEDS[s]
    return {'pyopencl'} if s.startswith('opencl.') else set()


def topfuncs(m):
    out = []
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out.append(n)
    inner = {id(x) for f in out for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x is not f}
    return [f for f in out if id(f) not in inner]


def r_import(ctx):
    from sa import imports
    I = ctx.rule('import', 'every module imports whichever optional packages are installed and however the device queries end', 60)
    A = ctx.rule('exports', 'every name a module lists for export is defined whichever optional packages are installed', 8)
    N = ctx.rule('names', 'no function names something that is only defined with an optional package that is not installed', 40)
    combos = [set(), {'ray'}, {'pyopencl'}, {'pyopencl', 'ray'}]
    everbound = {}
    runs = []
    for inst in combos:
        for name in sorted(ctx.prog.modules):
            if not needs(name) <= inst:
                continue
            con = '%s with %s' % (name, ' and '.join(sorted(inst)) or 'neither')
            errs, ws = [], []
            for w, err in imports.worlds(ctx.prog, OPTIONAL, inst, name):
                if err is not None:
                    errs.append(err)
                else:
                    ws.append(w)
                    for m, ns in w.mods.items():
                        everbound.setdefault(m, set()).update(ns)
            if errs:
                e = errs[0]
                ctx.bad(I, con, e.loc, 'importing %s with %s installed fails: %s (%s)%s' % (name, ' and '.join(sorted(inst)) or 'neither pyopencl nor ray', e.msg, e.kind, ', reached through ' + ' <- '.join(e.chain) if len(e.chain) > 1 else ''))
            else:
                ctx.ok(I, con, '%d cases' % len(ws))
            runs.append((inst, name, ws))
    seen, good = {}, {}
    for inst, name, ws in runs:
        lab = ' and '.join(sorted(inst)) or 'neither'
        for w in ws:
            ns = w.mods[name]
            m = ctx.prog.modules[name]
            al = ns.get('__all__')
            if al is not None and al[0] == 'names':
                lost = [x for x in al[1] if x not in ns and name + '.' + x not in ctx.prog.modules]
                con = '%s with %s' % (name, lab)
                if lost:
                    ctx.bad(A, con, '%s:1' % m.path, "'from %s import *' fails with %s installed: __all__ names %s, which is not defined" % (name, lab if inst else 'neither pyopencl nor ray', lost[0]))
                elif con not in good:
                    good[con] = A
            for f in topfuncs(m):
                for nd, x in imports.missing(f, ns, set(OPTIONAL) - inst):
                    if x in everbound.get(name, ()) or x in OPTIONAL:
                        seen.setdefault((name, f.name, x), (nd, lab, m))
            good.setdefault('%s with %s' % (name, lab) + ':functions', N)
    for (name, f, x), (nd, lab, m) in seen.items():
        ctx.bad(N, '%s.%s:%s' % (name, f, x), '%s:%d' % (m.path, nd.lineno), '%s uses %s, which does not exist when %s is installed' % (f, x, lab))
    for con, R in good.items():
        ctx.ok(R, con)


def r_cpu(ctx):
    U = ctx.rule('useCPU', 'with useCPU set nothing is asked of a device and the CPU result is returned', 3)
    M = ctx.rule('methods', 'the CPU detection of a GPU detector object uses the CPU implementation of every stage', 5)
    attrs, seen = settings(ctx)
    f = ctx.prog.method(ctx.prog.cls(CL), 'find_bands')
    for con, args, sa in (('argument', dict(useCPU=TRUE), {}), ('setting', dict(useCPU=NONE), {'useCPU': TRUE}), ('both', dict(useCPU=TRUE, clparams=sym('clp')), {'useCPU': FALSE})):
        d = Device()
        it, calls = run(ctx, d, CL, 'find_bands', dict(args), selfattrs=sa)
        if d.sites:
            ctx.bad(U, con, where(ctx, d.sites[0][0][-1][0], d.sites[0][1]), 'a device operation (%s) is reached although the CPU is asked for' % d.sites[0][3].lstrip('.'))
            continue
        bad = None
        for k, st, v, nd in it.frame.exits:
            for x in choices(v):
                if k == 'return' and x.op == 'sym' and x.args[0].startswith('cpu-result-'):
                    bad = bad or cpucall(it, calls[int(x.args[0].rsplit('-', 1)[1]) - 1], attrs)
                else:
                    bad = bad or 'the CPU result is not returned'
        ctx.verdict(not bad and bool(it.frame.exits), U, con, f.loc(), bad or 'nothing is returned')
    c, g = ctx.prog.cls(CPU), ctx.prog.cls(CL)
    for q in sorted(seen):
        n = q.rsplit('.', 1)[-1]
        if n == 'find_bands':
            continue
        m = ctx.prog.method(g, n)
        if m is ctx.prog.method(c, n):
            ctx.ok(M, n)
            continue
        devs = [x for x in ast.walk(m.node) if isinstance(x, ast.Name) and x.id in ('cl', 'openclparam')]
        if devs:
            ctx.bad(M, n, m.loc(devs[0]), 'the GPU class replaces %s, which the CPU detection uses, by a version that needs a device' % n)
        else:
            ctx.und(M, n, 'the GPU class has its own version')


def nothing(it, base, name, st, node):
    if base is NONE:
        raise PyRaise('AttributeError')
    return None


def r_worker(ctx):
    I = ctx.rule('worker', 'a worker that starts on a failing device answers with the CPU result', 4)
    ini = ctx.prog.method(ctx.prog.cls(WORKER), '__init__')
    fb = ctx.prog.method(ctx.prog.cls(WORKER), 'findbands')
    ixr, plan, pats = mk('new', P + '_ebsd_index_single.EBSDIndexer', 'given'), mk('new', CL, 'plan'), PATS
    quiet = {x for x in ctx.prog.funcs if x.rsplit('.', 1)[-1] in ('_getpats', 'radon2pole', '_starttime', '_endtime')}
    getp = [x for x in quiet if x.endswith('._getpats')]
    clpar = ctx.prog.funcs.get(P + 'opencl.band_detect_cl.getopenclparam')
    d0 = Device()
    args = dict(actorid=ONE, clparammodule=mk('func', clpar.qual), gpu_id=mk('list', ZERO), cudavis=const('0'))
    run(ctx, d0, WORKER, '__init__', args)
    cases = [('no device function', None, None)]
    for s in d0.sites:
        cases.append((label(s), s, None))
    states = []
    for con, s, _ in cases:
        d = Device(s)
        it, _c = run(ctx, d, WORKER, '__init__', dict(args, clparammodule=NONE) if s is None else args)
        if s is not None and not d.failed:
            ctx.und(I, con, 'not reached')
            continue
        ends = [x for x in it.frame.exits if x[0] == 'return']
        if not ends:
            ctx.bad(I, con, where(ctx, s[0][-1][0], s[1]), 'a failure of %s ends the worker when it starts' % s[3].lstrip('.'))
            continue
        st = it.state
        p = st.heap.get(('a', it.self, 'openCLParams'))
        attrs, obj = {}, None
        if p is None:
            continue
        for x in choices(p):
            if x is NONE:
                states.append((con, s, NONE, {}))
            elif x.op == 'new' and x.args[0] == PAR:
                o = mk('new', PAR, 'worker')
                hp = {('a', o, k[2]): it.deep(it.V(v, st), st.heap) for k, v in st.heap.items() if k[0] == 'a' and k[1] is x}
                states.append((con, s, o, hp))
            else:
                ctx.und(I, con, 'device parameters %s' % show(x, 3))
    other = {k[2]: v for k, v in it.state.heap.items() if k[0] == 'a' and k[1] is it.self and k[2] in ('useGPU',)}
    done = {}
    for con, s, p, hp in states:
        key = (p, tuple(sorted((k[2], v.args and show(v, 3)) for k, v in hp.items())))
        if key not in done:
            dead = Device(('none',))
            heap = dict(hp)
            heap[FAILED] = TRUE
            heap[('a', ixr, 'bandDetectPlan')] = plan
            heap[('a', plan, 'useCPU')] = FALSE
            job = mk('new', P + '_ebsd_index_parallel.CPUGPUJob', 'given')
            it, calls = run(ctx, dead, WORKER, 'findbands', dict(gpujob=job, pats=pats, PC=sym('PC'), indexer=ixr), selfattrs=dict(openCLParams=p, useGPU=FALSE if p is NONE else TRUE, actorID=ONE), heap=heap,
                            boundary=quiet, hooks={'attr': nothing}, returns={g: lambda it, b: mk('tuple', PATS, sym('xyloc')) for g in getp})
            res = None
            for k, st, v, nd in it.frame.exits:
                v = it.deep(it.V(v, st), st.heap) if v.op == 'obj' else v
                for x in choices(v):
                    m = x.args[0] if x.op in ('tuple', 'list') and x.args else None
                    if k == 'raise':
                        res = res or 'raises'
                    elif m is None or m.op != 'const':
                        res = res or ('und', show(x, 2))
                    elif m.args[1] != 'Done':
                        res = res or "answers '%s', and so does every worker that replaces it" % m.args[1]
                    elif not any(y.op == 'sym' and str(y.args[0]).startswith('cpu-result-') for y in subterms(x)):
                        res = res or (('und', show(x, 3)) if any(y.op in ('ret', 'mcall', 'opaque') for y in subterms(x)) else 'answers with something that is not the CPU result')
            done[key] = res if it.frame.exits else 'does not answer'
        res = done[key]
        if isinstance(res, tuple):
            ctx.und(I, con, 'answer ' + res[1])
        elif res:
            ctx.bad(I, con, fb.loc(), 'a worker whose device fails at %s %s' % (con, res))
        else:
            ctx.ok(I, con)
