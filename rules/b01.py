"""Blocks, rows and the pattern axis.  find_bands (CPU and GPU) is followed for constant pattern counts and block sizes with the detection
stages opaque: every row is filled once, from the stage results of the block it belongs to.  The stages themselves are read by an abstract
interpretation that tracks which pattern each value belongs to (sa/axis.py); device kernels are read from clang's syntax tree and each of
their accesses must stay with the pattern of the work item.  Bands that are not found stay unmarked and weigh nothing."""
import numpy as np
from sa.ctx import *
from sa.term import subterms, contains, keytuple, rebuild, trips, poly, sub, mul
from sa.axis import Axis, U
from sa import clast
P = 'pyebsdindex.'
CPU, GPU = P + 'band_detect.BandDetect.', P + 'opencl.band_detect_cl.BandDetect.'
CLF = 'pyebsdindex/opencl/clkernels.cl'
STAGES = ['radon_faster', 'rdn_conv', 'rdn_local_max', 'band_label', 'radon_fasterCL', 'rdn_convCL2', 'rdn_local_maxCL', 'band_labelCL', '_display_radon_pattern', '__init__', 'get_queue']
FIELDS = ('max', 'normmax', 'avemax', 'maxloc', 'aveloc', 'valid', 'width')
ASSUMES = ['NumPy and SciPy filters act along the axes their size and sigma arguments name', 'a device failure is outside this property (see G02)',
           'vector types are read one lane at a time: lane k of a 16-wide value is pattern 16*chunk+k on every array']


def data(v, arr):
    """the slices of arr a value is computed from (device handles carried from block to block are not data)"""
    out, whole, seen, st = set(), False, set(), [v]
    while st:
        x = st.pop()
        if not isinstance(x, T):
            st.extend(y for y in x if isinstance(y, (T, tuple))) if isinstance(x, tuple) else None
            continue
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'sel' and x.args[0] in arr:
            out.add(x.args[1])
            continue
        if x in arr:
            whole = True
        if x.op == 'ret' and isinstance(x.args[1], tuple):
            for y in x.args[1]:
                if isinstance(y, tuple) and len(y) == 2 and y[0] in ('clparams', 'self'):
                    continue
                st.append(y[1] if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str) else y)
            continue
        if x.op in ('call', 'attr') and (x.op == 'attr' and x.args[1] in ('shape', 'ndim', 'dtype')):
            continue
        if x.op == 'fn' and x.args[0] in ('min', 'max') and len(x.args) == 2 and x.args[1] in arr:
            continue
        if x.op == 'call' and x.args[0] in ('numpy.min', 'numpy.max', 'len') and x.args[1] and x.args[1][0] in arr:
            continue             # the common scale of the call
        st.extend(a for a in x.args if isinstance(a, (T, tuple)))
    return out, whole


def span(k, n):
    """row range of a constant key"""
    if k.op == 'slice':
        lo, hi, s = (list(k.args) + [NONE] * 3)[:3]
        if s not in (NONE, ONE):
            return None
        lo = 0 if lo is NONE else cval(lo) if is_const(lo) else None
        hi = n if hi is NONE else cval(hi) if is_const(hi) else None
        if lo is None or hi is None:
            return None
        return range(n)[slice(int(lo), int(hi))]
    if is_const(k) and isinstance(cval(k), int) and -n <= cval(k) < n:
        return range(cval(k) % n, cval(k) % n + 1)
    return None


def scenario(ctx, q, n, chunk, kind, two=False):
    pats, copy, conv = sym('pats'), sym('patscopy'), sym('patsconv')     # the argument, a copy of it, a converted copy
    mine = (pats, copy, conv)
    full = mk('tuple', *map(const, (n, 5, 7)))
    heap = {('a', pats, 'ndim'): const(2 if two else 3), ('a', pats, 'shape'): mk('tuple', const(5), const(7)) if two else full}
    for x in (copy, conv):
        heap[('a', x, 'ndim')] = const(3)
        heap[('a', x, 'shape')] = full

    def same(to):
        def h(it, r, a, v, kv, st, nd):
            x = r if r is not None else a[0]
            x = it.promoted.get(x, x)
            if to is conv and x.op == 'poly':      # rescaled element by element
                at = {a for m, _ in x.args[0] for a, _ in m if not (a.op in ('fn', 'inv'))}
                x = copy if len(at) == 1 and at <= set(mine) else x
            return to if x in mine and (x is not pats or not two or to is copy and 'expand' in (getattr(nd.func, 'attr', '') or '')) else None
        return h

    def branch(t, node):
        if any(x.op == 'attr' and x.args[1] == 'kind' for x in subterms(t)):
            return kind
    B = {x for x in ctx.prog.funcs if x.rsplit('.', 1)[-1] in STAGES or (x.endswith('.find_bands') and x != q)}
    names = [p for p in ctx.func(q).params()]
    args = dict(patternsIn=pats, chunksize=const(chunk), verbose=ZERO)
    if 'useCPU' in names:
        args.update(useCPU=FALSE, clparams=sym('cl'))
    hooks = {'.copy': same(copy), 'numpy.copy': same(copy), 'numpy.asarray': same(copy), 'numpy.array': same(copy), 'numpy.ascontiguousarray': same(copy), '.astype': same(conv), 'numpy.expand_dims': same(copy)}
    it = ctx.analyse(q, args=args, heap=heap, boundary=B, arrays=['pats', 'patscopy', 'patsconv'], lit=True, optimistic_try=True, unroll=40, unroll_par=False, branch=branch, hooks=hooks)
    return it, mine


def rows(it, n, arr):
    """field -> row -> (rows of the store, data slices); the last store wins"""
    res = it.result
    if res.op != 'obj':
        return None, 'the returned band data is not one array'
    out = {}
    for e in it.events:
        if e.kind != 'store':
            continue
        b, ks = e.d['base'], list(keytuple(e.full))
        fld = None
        while b.op == 'view':
            b = b.args[0]
        if b is not res:
            continue
        if e.pc and any(not is_const(c) for c in e.pc) and e.loops:
            return None, 'a store under a condition'
        names = [k.args[1] for k in ks if k.op == 'const' and k.args[0] == 'str']
        names += [k.args[0].args[1] for k in ks if k.op == 'nested' and isinstance(k.args[0], T) and k.args[0].op == 'const' and k.args[0].args[0] == 'str']
        ks = [k for k in ks if not (k.op == 'const' and k.args[0] == 'str') and k.op != 'nested']
        fld = names[0] if names else None
        r = span(ks[0], n) if ks else range(n)
        if r is None:
            return None, 'rows %s' % show(ks[0], 4)
        v = it.deep(it.V(e.value, it.state), e.heap or it.state.heap)
        ds, whole = data(v, arr)
        flds = (fld,) if fld else FIELDS
        for f in flds:
            for i in r:
                if not ds and not whole:
                    continue          # initial values, or a change of what is there
                out.setdefault(f, {}).setdefault(i, []).append((r, ds, whole, e, v))
    return out, None


def r_blocks(ctx):
    A = ctx.rule('coverage', 'every row of the result is filled, once per field', 14)
    B = ctx.rule('source', 'a row is filled from the stage results of the block of patterns it belongs to', 14)
    cases = [(1, -1), (7, -1), (10, 3), (9, 3), (3, 10), (5, 5), (7, 1), (6, 4), (1, 1)]
    if ctx.tier != 'quick':
        cases += [(n, c) for n in range(1, 14) for c in range(1, 9)]
    for q, kinds in ((CPU + 'find_bands', (None,)), (GPU + 'find_bands', (False, True))):
        f = ctx.func(q)
        for kind in kinds:
            for n, c in cases:
                con = '%s with %d patterns in blocks of %d%s' % ('CPU' if q.startswith(CPU) else 'GPU', n, c, '' if kind is None else ' (float patterns)' if kind else ' (integer patterns)')
                it, arr = scenario(ctx, q, n, c, kind)
                got, why = rows(it, n, arr)
                if got is None:
                    ctx.und(A, con, why)
                    continue
                miss = [(fl, i) for fl in FIELDS for i in range(n) if i not in got.get(fl, {})]
                ctx.verdict(not miss, A, con, f.loc(), 'pattern %d has no %s' % (miss[0][1], miss[0][0]) if miss else '')
                bad = None
                for fl, rr in sorted(got.items()):
                    if fl not in FIELDS:
                        continue
                    for i, ws in rr.items():
                        blocks = {tuple(w[0]) for w in ws}
                        if len(blocks) > 1 and all(w[1] for w in ws):
                            # only the last block store counts, the ones before it were wasted or are adjustments of the same rows
                            pass
                        r, ds, whole, e, v = ws[-1]
                        full = [w for w in ws if w[1]]
                        if whole and not full:
                            ctx.und(B, con, 'the source of %s of pattern %d' % (fl, i))
                            continue
                        for (r, ds, whole, e, v) in full[-1:]:
                            ks = {keytuple(k)[0] for k in ds}
                            sp = [span(k, n) for k in ks]
                            if e.d['base'] is it.result and len(sp) > 1 and set(r) == set(range(n)):
                                continue   # an adjustment of the whole column after the loop
                            if None in sp:
                                bad = bad or ('und', e, 'rows read for %s' % fl)
                                continue
                            rd = set().union(*map(set, sp))
                            if rd != set(r) or len(sp) != 1:
                                bad = ('bad', e, '%s of patterns %s is computed from patterns %s' % (fl, list(r), sorted(rd)))
                            else:
                                t = trimmed(it, v, n, len(r))
                                if t:
                                    bad = ('bad', e, '%s of patterns %s: %s' % (fl, list(r), t))
                if bad and bad[0] == 'und':
                    ctx.und(B, con, bad[2])
                else:
                    ctx.verdict(bad is None, B, con, bad[1].where if bad else f.loc(), bad[2] if bad else '')
        it, arr = scenario(ctx, q, 1, -1, False, two=True)
        got, why = rows(it, 1, arr)
        con = '%s with a single two-dimensional pattern' % ('CPU' if q.startswith(CPU) else 'GPU')
        if got is None:
            ctx.und(A, con, why)
        else:
            ctx.verdict(all(0 in got.get(fl, {}) for fl in FIELDS), A, con, f.loc(), 'a field of the only pattern is not filled')


def trimmed(it, v, n, m):
    """a stage result that is cut to the block's length starts at its first row; a stage told how many patterns it gets is told right"""
    for x in subterms(v):
        if x.op == 'sel' and x.args[0].op == 'ret' or x.op == 'sel' and x.args[0].op == 'sel' and x.args[0].args[0].op == 'ret':
            ks = [k for k in keytuple(x.args[1]) if not (is_const(k) and isinstance(cval(k), int))]
            k = ks[0] if ks else NONE
            if k.op == 'slice' and all(is_num(b) or b is NONE for b in k.args[:2]):
                lo = 0 if k.args[0] is NONE else cval(k.args[0])
                if lo != 0 or k.args[1] is not NONE and cval(k.args[1]) != m:
                    return 'rows %s:%s of the stage result are used for %d patterns' % (lo, show(k.args[1], 2), m)
        if x.op == 'ret' and x.args[0].endswith('.band_label'):
            for y in x.args[1]:
                if y[0] == 'nPats' and is_const(y[1]) and cval(y[1]) != m:
                    return 'band_label is told there are %s patterns' % cval(y[1])
    return None


nP = sym('nP')
SHAPE = (sym('nR'), sym('nT'), nP)


def axis(ctx, q, env, shape, args, stride=None, **k):
    heap = {}
    for a in env:
        heap[('a', a, 'shape')] = mk('tuple', *shape)
        heap[('a', a, 'ndim')] = const(len(shape))
    shp = lambda it, r, a, v, kv, st, n: it.getattr(v[0], 'shape', st)
    it = ctx.analyse(q, args=args, arrays=[a.args[0] for a in env], heap=heap, unroll_par=False, freshops='alloc', lit=True, hooks={'numpy.shape': shp}, **k)
    A = Axis(it, env, nP)
    A.stride = stride
    return it, A, it.deep(it.V(it.result, it.state), it.state.heap)


def judge(ctx, R, f, con, c, want):
    if c[0] == 'M':
        ctx.bad(R, con, f.loc(), c[1])
    elif c[0] == '?':
        ctx.und(R, con, c[1])
    elif c[0] == 'P' and c[1] != want:
        ctx.bad(R, con, f.loc(), 'the patterns run along axis %d, not %d' % (c[1], want))
    elif c[0] == 'P':
        ctx.ok(R, con, f.loc())
    else:
        ctx.und(R, con, 'class %s' % c[0])


def r_stages(ctx):
    R = ctx.rule('independence', 'what a detection stage returns for a pattern depends on that pattern alone', 4)
    p, par = ('P', 2, 3), lambda q: [x for x in ctx.func(q).params() if x != 'self']
    q = P + 'radon_fast.Radon.radon_faster'
    a = sym('pats')
    for bg in (NONE, sym('bg')):
        it, A, r = axis(ctx, q, {a: ('P', 0, 3)}, (nP, sym('sy'), sym('sx')), {par(q)[0]: a, 'background': bg}, mul(sym('sy'), sym('sx')))
        judge(ctx, R, ctx.func(q), 'Radon transform%s' % ('' if bg is NONE else ' with background'), A.cls(r), 2)
    q = CPU + 'rdn_conv'
    it, A, r = axis(ctx, q, {a: p}, SHAPE, {par(q)[0]: a})
    cs = A.cls(r)
    if cs[0] == 'L' and len(cs[1]) == 2:
        judge(ctx, R, ctx.func(q), 'convolved Radon transform', cs[1][0], 2)
        judge(ctx, R, ctx.func(q), 'mean of the convolved Radon transform', cs[1][1], 0)
    else:
        ctx.und(R, 'convolution', 'it does not return the transform and its mean')
    q = CPU + 'rdn_local_max'
    it, A, r = axis(ctx, q, {a: p}, SHAPE, {par(q)[0]: a})
    judge(ctx, R, ctx.func(q), 'local maxima', A.cls(r), 2)
    q = CPU + 'band_label'
    ps = par(q)
    it, A, r = axis(ctx, q, {sym('conv'): p, sym('norm'): p, sym('lmax'): p}, SHAPE, {ps[0]: nP, ps[1]: sym('conv'), ps[2]: sym('norm'), ps[3]: sym('lmax')})
    judge(ctx, R, ctx.func(q), 'band labels', A.cls(r), 0)
    F = ctx.rule('unused', 'a band that is not found is not marked as valid, and a found band has all of its values stored', 6)
    found(ctx, F, it, A, r, ctx.func(q))


def found(ctx, F, it, A, r, f):
    vals = {}
    x = r
    while x.op == 'store':
        k = x.args[1]
        if k.op == 'const' and k.args[0] == 'str':
            vals.setdefault(k.args[1], x.args[2])
        x = x.args[0]
    objs = {}
    for e in it.events:
        if e.kind == 'store' and len(e.loops) >= 2:
            objs.setdefault(e.d['base'], []).append(e)
    where = {}
    for fl, v in vals.items():
        hs = [o for o in objs if o.op == 'obj' and contains(v, it.deep(it.V(o, it.state), it.state.heap))]
        if len(hs) == 1:
            where[fl] = hs[0]
    if 'valid' not in where:
        return ctx.und(F, 'valid flag', 'the flag array is not recognised')
    o = where['valid']
    init = it.deep(it.V(o, it.state), it.state.heap)
    while init.op in ('after', 'store'):
        init = init.args[0]
    zero = init.op == 'call' and init.args[0] == 'alloc' and init.args[1][0] is const('zeros')
    es = objs[o]
    if zero:
        ctx.ok(F, 'flag of a band that is not found', es[0].where)
    elif init.op == 'call' and init.args[0] == 'alloc':
        ctx.bad(F, 'flag of a band that is not found', f.loc(), 'the flags start as %s' % show(init, 4))
    else:
        ctx.und(F, 'flag of a band that is not found', show(init, 4))
    for e in es:
        ctx.verdict(e.value is ONE or e.value is TRUE if is_const(e.value) else None, F, 'flag of a found band', e.where, 'the flag is set to %s' % show(e.value, 4))
    e = es[0]
    L = e.loops[-1]
    # the number of found bands is the smaller of the bands asked for and the peaks there are
    n = trips(L.iter) if L.iter is not None else None
    nb = [x for x in subterms(n) if x.op == 'attr' and x.args[1] == 'nBands'] if n is not None else []
    ln = [x for x in subterms(n) if x.op in ('len',)] if n is not None else []
    if n is None or len(set(nb)) > 1 or len(set(ln)) > 1:
        ctx.und(F, 'number of found bands', show(n, 5) if n is not None else 'loop')
    else:
        bad = None
        for a, b in ((3, 9), (9, 3), (4, 4), (5, 0)):
            v = rebuild(n, lambda x: const(a) if x in nb else const(b) if x in ln else None)
            if not is_const(v):
                v2 = rebuild(v, lambda x: x.args[1] if x.op == 'cast' and is_const(x.args[1]) else None)
                v = v2
            if not is_const(v):
                bad = 'und'
                break
            if cval(v) != min(a, b):
                bad = '%d bands are marked when %d are asked for and %d peaks exist' % (cval(v), a, b)
        if bad == 'und':
            ctx.und(F, 'number of found bands', show(n, 5))
        else:
            ctx.verdict(bad is None, F, 'number of found bands', e.where, bad or '')
    key = keytuple(e.full)
    for fl in FIELDS:
        if fl in ('valid', 'normmax'):
            continue
        o2 = where.get(fl)
        if o2 is None:
            ctx.und(F, '%s of a found band' % fl, 'the array is not recognised')
            continue
        ok = any(keytuple(x.full)[:2] == key[:2] and set(x.pc) <= set(e.pc) for x in objs[o2])
        ctx.verdict(ok, F, '%s of a found band' % fl, objs[o2][0].where, 'it is not stored whenever the band is marked')
    ctx.verdict('normmax' in vals and vals['normmax'] is vals.get('max') or None, F, 'normmax of a found band', f.loc(), '')


def r_joined(ctx):
    """what find_bands itself does with the stage results of a block"""
    R = ctx.rule('combination', 'find_bands combines the stage results of a block pattern by pattern, and hands a stage no value taken from other patterns', 20)
    n = 11
    p3, p2, p1 = ('P', 2, 3), ('P', 0, 2), ('P', 0, 1)
    CLS = {'radon_faster': p3, 'rdn_conv': ('L', (p3, p1)), 'rdn_local_max': p3, 'band_label': p2, 'radon_fasterCL': ('L', (p3, U)), 'rdn_convCL2': ('L', (p3, p1, U)),
           'rdn_local_maxCL': ('L', (p3, U)), 'band_labelCL': ('L', (p2,) * 6)}      # a field's trailing axes are not counted
    for q, kind in ((CPU + 'find_bands', None), (GPU + 'find_bands', False)):
        f = ctx.func(q)
        who = 'CPU' if q.startswith(CPU) else 'GPU'
        it, arr = scenario(ctx, q, n, -1, kind)
        A = Axis(it, {a: ('P', 0, 3) for a in arr}, const(n))
        val = lambda e, v: it.deep(it.V(v, it.state), e.heap or it.state.heap)
        evs = [e for e in it.events if e.kind in ('store', 'call')]
        for e in evs:
            for v in [e.value] if e.kind == 'store' else [e.d.get('result')] + list(e.vals):
                for x in subterms(val(e, v)) if isinstance(v, T) else ():
                    if x.op == 'ret' and str(x.args[0]).rsplit('.', 1)[-1] in CLS:
                        A.env[x] = CLS[str(x.args[0]).rsplit('.', 1)[-1]]
        for e in evs:
            if e.kind == 'call':
                st = str(e.name or '').rsplit('.', 1)[-1]
                if st not in CLS:
                    continue
                av = dict(e.bound or enumerate(e.vals))
                av.update(e.d.get('kw') or {})
                for k, v in av.items():
                    if k in ('self', 'clparams') or not isinstance(v, T):
                        continue
                    c = A.flat(A.cls(val(e, v)))
                    con = '%s %s %s' % (who, st, k)
                    if c[0] in ('M', 'S'):
                        ctx.bad(R, con, e.where, c[1] if c[0] == 'M' else 'a value of pattern %s is used for every pattern' % show(c[1], 3))
                    elif c[0] == '?':
                        ctx.und(R, con, c[1])
                    else:
                        ctx.ok(R, con, e.where)
                continue
            b = e.d['base']
            while b.op == 'view':
                b = b.args[0]
            fld = [y.args[1] for k in keytuple(e.full) for y in ([k] if k.op != 'nested' else [z for z in k.args if isinstance(z, T)]) if y.op == 'const' and y.args[0] == 'str']
            if b is not it.result and not (b.op == 'ret' and b in A.env):
                continue
            v = val(e, e.value)
            if not any(x in A.env for x in subterms(v)):
                continue
            if contains(e.value, it.result):       # a change of what is there
                v = e.value
                A.env[it.result] = p2
            c = A.flat(A.cls(v))
            A.env.pop(it.result, None)
            con = '%s %s' % (who, fld[0] if fld else 'rows')
            if c[0] == 'P' and c[1] != 0 or c[0] in ('M', 'S'):
                ctx.bad(R, con, e.where, c[1] if c[0] == 'M' else 'the patterns run along axis %s' % c[1] if c[0] == 'P' else 'the value of pattern %s is stored for every pattern' % show(c[1], 3))
            elif c[0] == '?':
                ctx.und(R, con, c[1])
            else:
                ctx.ok(R, con, e.where)


def r_weight(ctx):
    """unused bands weigh nothing in quality and indexing: the extracted values do not change with what the unused entries hold"""
    R = ctx.rule('weight', 'the strength stored for a band that is not valid does not change pattern quality or indexing weights', 3)
    from rules.s01 import Q, DET
    from sa.npeval import NV, SArr, same
    from sa.evalt import Unknown
    f = ctx.func(Q)
    ps = f.params()
    bd, bn = sym('banddata'), sym('bandnorm')
    got = []

    def bi(it, recv, args, vals, kv, st, node):
        if recv is not sym('lib0'):
            return None
        got.append((it.deep(it.V(kv.get('band_intensity', vals[1] if len(vals) > 1 else NONE), st), st.heap), node))
        return mk('tuple', *[mk('call', 'res', (const(i),), ()) for i in range(7)])
    it = ctx.analyse(Q, args={ps[1]: bd, ps[2]: bn, 'verbose': ZERO}, selfattrs=dict(phaseLib=mk('list', sym('lib0')), phaselist=mk('list', sym('ph0')), nband_earlyexit=sym('earlyexit'), vendor=const('EDAX'), sampleTilt=const(70), camElev=const(5)),
                     hooks={'.bandindex': bi}, boundary={DET, P + 'rotlib.quat_multiply', P + 'rotlib.quatnorm'})
    terms = {}
    for e in it.events:
        if e.kind == 'store':
            ks = [k.args[0].args[1] if k.op == 'nested' else k.args[1] for k in keytuple(e.full) if k.op == 'const' and k.args[0] == 'str' or k.op == 'nested' and isinstance(k.args[0], T) and k.args[0].op == 'const']
            for nm in ('pq', 'iq'):
                if nm in ks:
                    terms[nm] = (it.deep(it.V(e.value, it.state), it.state.heap), e.where)
    for v, node in got[:1]:
        while v.op == 'sel' and not (v.args[0].op in ('sym',)) and not (v.args[1].op == 'const' and v.args[1].args[0] == 'str'):
            v = v.args[0]
        terms['indexing weight'] = (v, '%s:%d' % (f.module.path, node.lineno))
    rng = np.random.RandomState(3)
    n, nb = 5, 6
    for nm in ('pq', 'iq', 'indexing weight'):
        if nm not in terms:
            ctx.und(R, nm, 'not found')
            continue
        t, loc = terms[nm]
        res = []
        try:
            base = dict(max=rng.rand(n, nb) + 1, normmax=rng.rand(n, nb) + 1, avemax=rng.rand(n, nb), rho=rng.rand(n, nb) * 40, theta=rng.rand(n, nb) * 3, width=rng.rand(n, nb), valid=(rng.rand(n, nb) > .4).astype(np.int8))
            base['valid'][0, 2] = 0
            base['valid'][1] = 1
            for junk in (0., 7., -2.e6):
                d = {k: v.copy() for k, v in base.items()}
                for k in ('max', 'normmax', 'avemax'):
                    d[k][base['valid'] == 0] = junk
                a = SArr((n, nb), d)
                env = {bd: a, mk('attr', sym('self'), 'x'): 0}
                for x in subterms(t):
                    if x.op == 'attr' and x.args[1] in ('rhoMax', 'rhoMaskFrac'):
                        env[x] = 90. if x.args[1] == 'rhoMax' else .1
                res.append(np.asarray(NV(env=env)(t), float))
        except (Unknown, KeyError, TypeError, ValueError, IndexError, AttributeError) as e:
            ctx.und(R, nm, 'value not extracted: %s' % str(e)[:80])
            continue
        if not all(r.shape == res[0].shape for r in res) or not np.isfinite(res[0]).all() or np.ptp(res[0]) == 0:
            ctx.und(R, nm, 'value not extracted')
            continue
        ctx.verdict(all(np.allclose(r, res[0], rtol=1e-9) for r in res), R, nm, loc, 'it changes with the strength stored for bands that are not valid')


def r_kernels(ctx):
    R = ctx.rule('work item', 'every access of a device kernel to pattern data stays with the pattern of its work item', 20)
    cl = clast.load(ctx.prog, CLF)
    for why in cl.errors:
        ctx.und(R, 'clkernels.cl', str(why)[:150])
    used = launched(ctx)
    for name in sorted(used):
        if name not in cl.kernels:
            continue
        dim, arrs = PATDIM.get(name, (None, ()))
        if dim is None:
            continue
        k = cl.kernels[name]
        it = ctx.analyse('cl.clkernels.' + name, unroll_par=False, hooks={'dynamic': clast.workitem})
        gsz = lambda d: sym('gsz%d' % d)
        z = sym('gid%d' % dim)
        acc = {}
        for e in it.events:
            if e.kind == 'store' and e.d['base'].op == 'sym':
                acc.setdefault((e.d['base'].args[0], e.full), e)
            for v in list(e.pc or ()) + ([e.value] if e.kind == 'store' else list(e.vals or []) if e.kind == 'call' else []):
                for x in subterms(v):
                    if x.op == 'sel':
                        b = x.args[0]
                        while b.op in ('after', 'store') and isinstance(b.args[0], T):
                            b = b.args[0]
                        if b.op == 'sym':
                            acc.setdefault((b.args[0], x.args[1]), e)
        for (a, key), e in sorted(acc.items(), key=lambda y: (y[0][0], show(y[0][1], 9))):
            if a not in dict(k.params):
                continue
            kind = arrs.get(a)
            if kind is None:
                continue
            con = '%s: %s[%s]' % (name, a, show(key, 5))
            if len(con) > 110:
                con = con[:107] + '...'
            rest = sub(key, z)
            N = [s for s in ([gsz(dim)] + [sym(p) for p, t in k.params if p in ('nImCL', 'nImChunk', 'imszz')])]
            if kind == 'minor':        # pattern index runs fastest
                left = [(m, c) for m, c in poly(rest).items() if not any(x in N for x, _ in m)]
                other = [m for m, c in left if m]
                if not left:
                    ctx.ok(R, con, CLF)
                elif not other or any(any(x is z for x, _ in m) for m in other):
                    ctx.bad(R, con, '%s:%d' % (CLF, k.line), 'the access is not to pattern %s' % z.args[0])
                else:
                    ctx.und(R, con, 'index form')
            else:                       # pattern-major
                d = poly(key)
                zs = [m for m, c in d.items() if any(x is z for x, _ in m)]
                if len(zs) >= 1 and all(len(m) > 1 or kind == 'single' for m in zs) and all(c == 1 for m, c in d.items() if m in zs):
                    ctx.ok(R, con, CLF)
                elif not zs:
                    ctx.bad(R, con, '%s:%d' % (CLF, k.line), 'the access does not depend on the pattern of the work item')
                else:
                    ctx.und(R, con, 'index form')


# dimension of the work item that counts patterns (or chunks of 16), and how each array is laid out
PATDIM = {
    'loadubyte8': (2, dict(im1='major', im1flt='minor')), 'loaduint16': (2, dict(im1='major', im1flt='minor')), 'loadfloat32': (2, dict(im1='major', im1flt='minor')),
    'radonSum': (0, dict(images='minor', radon='minor')), 'radonFixArt': (0, dict(radon='minor')), 'radonPadTheta': (0, dict(radon='minor')),
    'radonPadRho2': (0, dict(radon='minor')), 'convolution3d2d': (2, {'in': 'minor', 'in_': 'minor', 'out': 'minor'}), 'morphDilateKernelBF': (2, {'in': 'minor', 'in_': 'minor', 'out': 'minor'}),
    'imageMinAve': (0, dict(im1='minor', imMin='minor', imAve='minor')), 'imageSubMinNormWClip': (2, dict(im1='minor', imMin='minor', imAve='minor')),
    'im1EQim2': (2, dict(im1='minor', im2='minor', out='minor')), 'maxlabel': (0, dict(maxlocin='minor', maxvalin='minor', maxloc='major', maxval='major', aveloc='major', aveval='major', width='major')),
}


def launched(ctx):
    import ast
    m = ctx.prog.modules[P + 'opencl.band_detect_cl']
    return {n.func.attr for n in ast.walk(m.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)}
