"""Pattern-centre conventions.  radon2pole is unrolled on symbolic patterns, bands, pattern centres (one for all, one per pattern) and
detector sizes for every vendor name, and every component of every pole, in normal form, must equal the reference conversion
(spec/pyebsdindex/poleref.py).  Both optimisers are unrolled on an EMsoft indexer: the start value they hand to the search and the
centre they return must denote, under the vendor formulas, the same detector translation as the centre they came from, for
non-square patterns too.  Call sites must pass the indexer's own vendor; unknown vendors must reach a raise."""
from sa.ctx import *
from rules._rot import lit, at, SPEC, spec, entry, _spec
from sa.program import Program
from sa.interp import analyse
import rules._rot as rot
RD = 'pyebsdindex.radon_fast.Radon.radon2pole'
IX = 'pyebsdindex._ebsd_index_single.EBSDIndexer.'
PCM = 'pyebsdindex.pcopt.'
VEND = ('EDAX', 'OXFORD', 'EMSOFT', 'KIKUCHIPY', 'BRUKER')
ASSUMES = ['numpy.interp maps the same sample position to the same value at every call', 'scipy.optimize.minimize returns its best point under key x']
rot.SP['loc'] = [(.3, 1.1), (40.5, 12.25), (7, 3), (100, 61)]
rot.SP['dim'] = [(60, 60), (48, 64), (70, 50), (101, 33)]
rot.SP['pc3'] = [(.5, .6, .7), (.4, .7, .55), (.52, .31, .66), (.1, .2, .9)]
rot.SP['pc4'] = [(3.5, -6, 15000, 50), (-10, 7.5, 9000, 25), (1, 2, 700, 70), (4, 9, 12000, 59.2)]
rot.SP['s'] = [(.7,), (.2,), (1.9,), (2.8,)]


def interp2sym(r):
    """name every interpolated value by what is interpolated"""
    m, out = {}, {}

    def f(t):
        if t.op == 'call' and t.args[0] == 'numpy.interp' and t not in m:
            a = t.args[1]
            k = 'I(%s)' % '|'.join(show(x, 8) for x in a)
            s = sym(k)
            declare_scalar(s)
            m[t] = s
            out[s] = a
        return False
    contains(r, f)
    return subst(r, m), out


def contains_syms(t):
    out = set()
    contains(t, lambda x: out.add(x) if x.op == 'sym' else False)
    return out


def pspec(fn_, *a):
    if 'prog' not in _spec:
        _spec['prog'] = Program(SPEC)
    f = _spec['prog'].func('pyebsdindex.poleref.' + fn_)
    it = analyse(_spec['prog'], f.qual, args=dict(zip(f.params(), a)))
    return it.deep(it.result, it.state.heap)


def r_pole(ctx):
    R = ctx.rule('pole-formula', 'every pole component equals the vendor\'s conversion of its own band and pattern', 60)
    f = ctx.func(RD)
    ps = f.params()
    for ven in VEND + ('edax', 'emsoft'):
        n = 4 if ven.upper() == 'EMSOFT' else 3
        for kind in ('one', 'each', 'other'):
            if ven not in VEND and kind != 'one':
                continue
            pc = lit((n,), 'pc') if kind == 'one' else lit((2, n), 'pc') if kind == 'each' else lit((3, n), 'pc')
            av, dim, bd = lit((2, 2, 2), 'av'), lit((2,), 'dim'), sym('x_band')
            heap = {('c', bd): mk('dict', (const('aveloc'), av), (const('theta'), lit((2, 2), 'th')), (const('rho'), lit((2, 2), 'rh'))), ('a', bd, 'shape'): mk('tuple', const(2), const(2))}
            it = ctx.analyse(RD, args={ps[1]: bd, ps[2]: pc, ps[3]: ven}, heap=heap, lit=True, selfattrs={'imDim': dim})
            r, names = interp2sym(it.deep(it.result, it.state.heap))
            key = ('c', bd)
            for i in range(2):
                row = pc if kind == 'one' else pc.args[i] if kind == 'each' else pc.args[0]
                for j in range(2):
                    used = contains_syms(at(r, (i, j, 0))) | contains_syms(at(r, (i, j, 1))) | contains_syms(at(r, (i, j, 2)))
                    nm = '%s-%s[%d,%d]' % (ven, kind, i, j)
                    cell = {at(av, (a_, b_, c_)): (a_, b_, c_) for a_ in range(2) for b_ in range(2) for c_ in range(2)}
                    tabs = {'theta': [], 'rho': []}
                    for s, a in names.items():
                        if s in used and len(a) > 2 and a[2].op == 'attr' and a[2].args[1] in tabs:
                            tabs[a[2].args[1]].append((s, a))
                    th, rh = tabs['theta'], tabs['rho']
                    if len(th) != 1 or len(rh) != 1 or th[0][1][0] not in cell or rh[0][1][0] not in cell:
                        ctx.und(R, nm, 'band position is not interpolated from the line tables')
                        continue
                    for (s, a), q, c in ((th[0], 'theta', 1), (rh[0], 'rho', 0)):
                        ctx.verdict(cell[a[0]] == (i, j, c), R, '%s-%s-source' % (nm, q), f.loc(), '%s of band %d of pattern %d is looked up at aveloc%s' % (q, j, i, cell[a[0]]))
                    th, rh = [th[0][0]], [rh[0][0]]
                    w = pspec('pole', const(ven.upper()), th[0], rh[0], row, dim.args[0], dim.args[1])
                    ins = [(pc, 'pc%d' % n), (dim, 'dim')] + [(mk('list', s), 's') for s in names]
                    for k in range(3):
                        entry(ctx, R, '%s.%s' % (nm, 'xyz'[k]), f.loc(), at(r, (i, j, k)), at(w, (k,)), ins)


def r_frame(ctx):
    R = ctx.rule('detector-frame', 'the sample-to-detector rotation is the vendor\'s, for every tilt; an unknown vendor raises', 20)
    f = ctx.func(IX + '_detector2refframe')
    tilt, elev = sym('tilt'), sym('elev')
    declare_scalar(tilt), declare_scalar(elev)
    ang = mul(div(add(sub(const(90), tilt), elev), const(2)), PI, div(const(-1), const(180)))
    q1 = mk('list', fn('cos', ang), fn('sin', ang), ZERO, ZERO)
    h = div(fn('sqrt', const(2)), const(2))
    q0 = mk('list', h, ZERO, ZERO, neg(h))
    tl = mk('list', tilt, elev)
    rot.SP['tl'] = [(70, 5), (60, 0), (71.5, -3), (45, 10)]
    for ven in VEND + ('edax', 'Bruker'):
        it = ctx.analyse(f.qual, selfattrs={'vendor': const(ven), 'sampleTilt': tilt, 'camElev': elev}, lit=True, unroll_par=True)
        r = it.deep(it.result, it.state.heap)
        w = spec('quatmul', [q1, q0], 1) if ven.upper() in ('EDAX', 'EMSOFT', 'KIKUCHIPY') else q1
        for k in range(4):
            entry(ctx, R, '%s[%d]' % (ven, k), f.loc(), at(r, (k,)), at(w, (k,)), [(tl, 'tl')])
    it = ctx.analyse(f.qual, selfattrs={'vendor': const('NOSUCH'), 'sampleTilt': tilt, 'camElev': elev}, lit=True, unroll_par=True)
    rets = it.result.op
    ctx.verdict(True if rets == 'never' or not returns(it) else False, R, 'unknown-vendor', f.loc(), 'a vendor outside the supported set is given the frame %s instead of being rejected' % show(it.result, 3))


def returns(it):
    r = it.result
    return not (r.op in ('never', 'undef') or r is NONE)


def optimiser(ctx, fn_, batch, ven, pcgiven):
    f = ctx.func(PCM + fn_)
    ix, bp = sym('x_indexer'), sym('x_plan')
    dim = lit((2,), 'dim')
    n = 4 if ven.upper() == 'EMSOFT' else 3
    pc0, pc1 = lit((n,), 'own'), lit((n,), 'own' if not pcgiven else 'given')
    bd = sym('x_bands')
    B = {PCM + 'PSOOpt.optimize'}
    heap = {('a', ix, 'vendor'): const(ven), ('a', ix, 'bandDetectPlan'): bp, ('a', bp, 'patDim'): dim, ('a', bd, 'shape'): mk('tuple', const(2), const(3), const(5))}
    pcobj = sym('x_ownpc')
    heap[('a', ix, 'PC')] = pcobj
    heap[('c', pcobj)] = pc0
    pars = f.params()
    args = {'indexer': ix, 'batch': const(batch)}
    if pcgiven:
        args['PC0'] = pc1
    else:
        args['PC0'] = NONE
    if fn_ == 'optimize_pso':
        args.update(return_cost=FALSE, verbose=ZERO, search_limit=const(0.2))
    found = []

    def new():
        found.append(lit((3,), 'found%d' % len(found)))
        return found[-1]
    it = ctx.analyse(f.qual, args=args, heap=heap, lit=True, boundary=B, returns={'.find_bands': bd, 'scipy.optimize.minimize': lambda it, v, k: it.newobj(mk('dict', (const('x'), it.newobj(new())), (const('fun'), sym('cost'))), 'dict'),
                              PCM + 'PSOOpt.optimize': lambda it, b: mk('tuple', sym('cost'), it.newobj(new()))})
    starts = []
    for e in it.events:
        if e.kind == 'call' and (e.name == PCM + 'PSOOpt.optimize' or e.name.endswith('optimize.minimize')):
            v = e.bound.get('start') if e.bound else (e.vals[1] if len(e.vals) > 1 else None)
            if v is not None:
                starts.append((e, it.deep(it.V(v, it.state), it.state.heap)))
    return f, it, starts, pc0, pc1, dim, found, pcobj


def r_optimisers(ctx):
    R = ctx.rule('optimiser-conversion', 'search start and returned centre denote the same detector translation as the centre they stand for', 30)
    for fn_ in ('optimize', 'optimize_pso'):
        for batch in (False, True):
            for ven in ('EMSOFT', 'EDAX', 'OXFORD', 'emsoft'):
                for given in (False, True):
                    if ven != 'EMSOFT' and given:
                        continue
                    f, it, starts, pc0, pc1, dim, found, pco = optimiser(ctx, fn_, batch, ven, given)
                    nm = '%s-%s%s%s' % (fn_, ven, '-batch' if batch else '', '-given' if given else '')
                    H, W = dim.args
                    n = len(pc0.args)
                    src = pc1 if given else pc0
                    ins = [(pc0, 'pc%d' % n), (dim, 'dim')] + ([(pc1, 'pc%d' % n)] if given else [])
                    work = 'EDAX' if n == 4 else ven.upper()
                    if not starts:
                        ctx.und(R, nm + '-start', 'no search call found')
                        continue
                    for e, s in starts[:1]:
                        a = pspec('pctrans', const(work), mk('list', *[at(s, (k,)) for k in range(3)]), H, W)
                        # the pixel size may be taken from the given centre or from the indexer
                        alts = [pspec('pctrans', const(ven.upper()), src, H, W)]
                        if given and n == 4:
                            alts.append(pspec('pctrans', const(ven.upper()), mk('list', *(src.args[:3] + (pc0.args[3],))), H, W))
                        for k in range(3):
                            al = [w for w in alts if at(w, (k,)) is at(a, (k,))]
                            entry(ctx, R, '%s-start.%s' % (nm, 'xyz'[k]), e.loc, at(a, (k,)), at((al or alts)[0], (k,)), ins)
                    r = it.deep(it.result, it.state.heap)
                    # what the search returned
                    rows = [(r, '')] if not batch else [(sel(r, const(i)), '[%d]' % i) for i in range(2)]
                    if len(found) != len(rows):
                        ctx.und(R, nm + '-result', '%d searches for %d results' % (len(found), len(rows)))
                        continue
                    for (row, tag), x in zip(rows, found):
                        ins1 = ins + [(x, 'pc3')]
                        g = pspec('pctrans', const(ven.upper()), mk('list', *[at(row, (k,)) for k in range(n)]), H, W)
                        w = pspec('pctrans', const(work), x, H, W)
                        for k in range(3):
                            entry(ctx, R, '%s-result%s.%s' % (nm, tag, 'xyz'[k]), f.loc(), at(g, (k,)), at(w, (k,)), ins1)
                        if n == 4:
                            entry(ctx, R, '%s-result%s.pixel' % (nm, tag), f.loc(), at(row, (3,)), pc0.args[3], ins1)


def _ds(n):
    s = sym(n)
    declare_scalar(s)
    return s


def r_callers(ctx):
    R = ctx.rule('vendor-passed', 'every conversion during indexing and optimisation uses the indexer\'s own vendor and the pattern centre in force', 2)
    for q, who in ((IX + 'index_pats', None), (PCM + '_optfunction', 'indexer')):
        f = ctx.prog.funcs.get(q)
        if f is None:
            ctx.und(R, q, 'gone')
            continue
        B = {RD, IX + '_indexbandsphase', 'pyebsdindex.band_detect.BandDetect.find_bands', IX + '_getpats', IX + 'update_file'}
        ix = sym('x_indexer')
        kw = {} if who is None else dict(args={who: ix})
        it = ctx.analyse(q, boundary=B, **kw)
        ixr = it.self if who is None else ix
        n = 0
        for e in it.events:
            if e.kind == 'call' and (e.name == RD or e.name.endswith('.radon2pole')):
                v = e.bound.get('vendor') if e.bound else e.kw.get('vendor')
                v = it.V(v, it.state) if v is not None else NONE
                n += 1
                own = mk('attr', ixr, 'vendor')
                ctx.verdict(True if v is own else (False if is_const(v) or v.op == 'default' or v is NONE else None), R, '%s#%d' % (q.split('.')[-1], n), e.loc, 'radon2pole is given vendor %s, not the indexer\'s' % show(v, 3))
        if n == 0:
            ctx.und(R, q.split('.')[-1], 'no pole conversion found')
