"""Unindexed points by value flow: _indexbandsphase is followed with the band indexing of every phase opaque, and the extracted layers are
given recognisable results per phase and point (some with too few bands): every layer must hold either that phase's own solution of that
point or the sentinel, and the best-solution layer one of the solved layers.  The writers and map images are followed from the other side:
a point that carries the sentinel must be written and drawn as not indexed."""
from rules._out import Scan, Ang, oh5, item, decide, COLS
from rules._img import *
Q = 'pyebsdindex._ebsd_index_single.EBSDIndexer._indexbandsphase'
DET = 'pyebsdindex._ebsd_index_single.EBSDIndexer._detector2refframe'
RES = ('avequat', 'fit', 'cm', 'bandmatch', 'nMatch', 'matchAttempts', 'totvotes')
ASSUMES = ['bandindex returns one row per row of the bands it is given (checked by its own property)', 'NumPy indexing as documented']
NB = 9
FITS = {'ok': (.4, 2.9), 'poor': (3.05, 5.)}


def layers(ctx, nph):
    libs = [sym('lib%d' % i) for i in range(nph)]
    phl = [sym('ph%d' % i) for i in range(nph)]
    f = ctx.func(Q)
    ps = f.params()
    bd, bn = sym('banddata'), sym('bandnorm')

    def bi(it, recv, args, vals, kv, st, node):
        if recv not in libs:
            return None
        k = libs.index(recv)
        a = it.deep(vals[0] if vals else kv.get('band_norms', NONE), st.heap)
        return mk('tuple', *[mk('call', 'res_%s_%d' % (r, k), (a,), ()) for r in RES])
    it = ctx.analyse(Q, args={ps[1]: bd, ps[2]: bn, 'verbose': ZERO}, selfattrs=dict(phaseLib=mk('list', *libs), phaselist=mk('list', *phl), nband_earlyexit=sym('earlyexit'), vendor=const('EDAX'), sampleTilt=const(70), camElev=const(5)),
                     hooks={'.bandindex': bi}, boundary={'pyebsdindex.rotlib.quat_multiply', 'pyebsdindex.rotlib.quatnorm', DET},
                     returns={DET: lambda s, b: mk('list', ONE, ZERO, ZERO, ZERO), 'pyebsdindex.rotlib.quat_multiply': lambda s, b: mk('call', 'qmul', tuple(s.deep(s.V(b[p], s.callstate), s.callstate.heap) for p in ctx.func('pyebsdindex.rotlib.quat_multiply').params()[:2]), ()),
                              'pyebsdindex.rotlib.quatnorm': lambda s, b: s.deep(s.V(b[ctx.func('pyebsdindex.rotlib.quatnorm').params()[0]], s.callstate), s.callstate.heap)})
    r = it.V(it.result, it.state)
    need(r.op == 'tuple' and len(r.args) == 2, 'the result is not (index data, band data)')
    return f, it, [it.deep(it.V(x, it.state), it.state.heap) for x in r.args]


def numbers(rng, nph, n, kind):
    nm = rng.randint(0, NB + 1, (nph, n))
    nm[:, 0] = rng.randint(0, 3, nph)          # a point no phase solves
    for k in range(nph):                        # points exactly one phase solves
        nm[:, 1 + k] = rng.randint(0, 3, nph)
        nm[k, 1 + k] = rng.randint(3, NB + 1)
    lo = np.array([FITS['poor'] if kind == 'poor' or (kind == 'mixed' and rng.rand() < .5) else FITS['ok'] for _ in range(nph * n)]).reshape(nph, n, 2)
    fit = lo[..., 0] + (lo[..., 1] - lo[..., 0]) * rng.rand(nph, n)
    fit[nm < 3] = np.where(rng.rand(int((nm < 3).sum())) < .5, 1000., .9)      # an unsolved pattern may come back with any fit
    return dict(nMatch=nm, fit=fit, cm=rng.rand(nph, n), matchAttempts=rng.randint(1, 40, (nph, n)), totvotes=rng.randint(1, 400, (nph, n)),
                avequat=rng.rand(nph, n, 4) + .1, bandmatch=rng.randint(0, 30, (nph, n, NB)))


COLMAP = dict(fit='fit', cm='cm', nmatch='nMatch', totvotes='totvotes', matchattempts='matchAttempts')


def r_layers(ctx):
    S = ctx.rule('sentinel', 'a phase that does not solve a pattern leaves phase -1, fit 180 and no matched bands in its layer', 12)
    W = ctx.rule('solution', "a phase's layer holds that phase's solution of the same pattern", 12)
    B = ctx.rule('best', 'the best-solution layer is a solution of that pattern when there is one, and unindexed otherwise', 12)
    M = ctx.rule('bands', 'the matched-band rows of a pattern are those of its own solution, and unused (-100) without one', 6)
    seeds = range(3) if ctx.tier == 'quick' else range(12)
    for nph in (1, 2, 3):
        f, it, (idx, bands) = layers(ctx, nph)
        for kind in ('ok', 'poor', 'mixed'):
            for ee in (100, 6):
                for seed in seeds:
                    rng = np.random.RandomState(100 * nph + seed)
                    n = 14
                    t = numbers(rng, nph, n, kind)
                    lab = '%d phases, fits %s, early exit %d' % (nph, kind, ee)
                    bd = SArr((n, NB), dict(max=rng.rand(n, NB), normmax=rng.rand(n, NB), rho=rng.rand(n, NB), theta=rng.rand(n, NB), valid=np.ones((n, NB), int), width=rng.rand(n, NB),
                                            band_match_index=np.full((n, NB, max(nph, 2)), -7)))
                    bn = np.zeros((n, NB, 3)) + np.arange(n)[:, None, None]
                    funcs = {'qmul': lambda a, b: a}
                    for k in range(nph):
                        for r in RES:
                            funcs['res_%s_%d' % (r, k)] = (lambda a, r=r, k=k: t[r][k][np.asarray(a)[..., 0, 0].astype(int)])
                    nv = NV(env={**{sym('lib%d' % k): 'a phase' for k in range(nph)}, sym('banddata'): bd, sym('bandnorm'): bn, sym('earlyexit'): ee, mk('attr', mk('attr', it.self, 'bandDetectPlan'), 'rhoMax'): 10., mk('attr', mk('attr', it.self, 'bandDetectPlan'), 'rhoMaskFrac'): .1}, funcs=funcs, it=it)
                    try:
                        L = nv(idx)
                        need(isinstance(L, SArr) and L.shape == (nph + 1, n), 'layers of another shape')
                        ph, fit, nm = L.field('phase'), L.field('fit'), L.field('nmatch')
                    except (Unknown, AnalysisError) as e:
                        ctx.und(S, lab, str(e))
                        continue
                    solved = t['nMatch'] >= 3
                    for k in range(nph):
                        sent = (ph[k] == -1) & (np.abs(fit[k] - 180) < 1e-6) & (nm[k] == 0)
                        own = ph[k] == k
                        for a, b in COLMAP.items():
                            own = own & (np.abs(L.field(a)[k] - t[b][k]) < 1e-9)
                        for i in range(n):
                            # the pattern may have been left alone because an earlier phase matched enough bands
                            skip = k > 0 and max(t['nMatch'][:k, i]) >= ee
                            if not solved[k, i]:
                                ctx.verdict(bool(sent[i]), S, 'unsolved pattern, ' + lab, f.loc(), 'phase %d matched %d bands in a pattern, its layer then has phase %g, fit %g, nmatch %g (%s)' % (k, t['nMatch'][k, i], ph[k, i], fit[k, i], nm[k, i], lab))
                            elif skip and sent[i]:
                                ctx.ok(S, 'skipped pattern')
                            else:
                                ctx.verdict(bool(own[i]), W, 'solved pattern, ' + lab, f.loc(), 'the layer of phase %d does not hold its solution of the pattern: phase %g, fit %g, nmatch %g instead of %d, %g, %d (%s)' % (k, ph[k, i], fit[k, i], nm[k, i], k, t['fit'][k, i], t['nMatch'][k, i], lab))
                    for i in range(n):
                        has = [k for k in range(nph) if ph[k, i] >= 0]
                        rec = lambda k: [np.asarray(L.field(a)[k, i]).tolist() for a in list(COLMAP) + ['phase', 'quat']]
                        best = rec(nph)
                        if not has:
                            ok = ph[nph, i] == -1 and abs(fit[nph, i] - 180) < 1e-6 and nm[nph, i] == 0
                            ctx.verdict(bool(ok), B, 'no solution, ' + lab, f.loc(), 'no phase solves the pattern, the best-solution layer has phase %g, fit %g, nmatch %g (%s)' % (ph[nph, i], fit[nph, i], nm[nph, i], lab))
                        else:
                            ok = any(best == rec(k) for k in has)
                            if ok:
                                # a solution that is better in both fit and number of bands than the chosen one
                                c = [k for k in has if best == rec(k)][0]
                                ok = not any(fit[k, i] < fit[c, i] and nm[k, i] > nm[c, i] and fit[k, i] < 3 for k in has)
                            ctx.verdict(ok, B, 'solved by phases, ' + lab, f.loc(), 'phases %s solve the pattern with fits %s and %s bands; the best-solution layer has phase %g, fit %g, nmatch %g (%s)' % (has, [round(float(fit[k, i]), 2) for k in has], [int(nm[k, i]) for k in has], ph[nph, i], fit[nph, i], nm[nph, i], lab))
                    try:
                        b = nv(bands).field('band_match_index')
                        for i in range(n):
                            for k in range(nph):
                                want = t['bandmatch'][k, i] if ph[k, i] >= 0 else np.full(NB, -100)
                                ctx.verdict(same(b[i, :, k], want), M, 'matched bands, ' + lab, f.loc(), 'the matched bands recorded for phase %d of a pattern are not those of its solution (%s)' % (k, lab))
                    except (Unknown, AttributeError) as e:
                        ctx.und(M, lab, str(e))


def r_nophase(ctx):
    R = ctx.rule('no-phase', 'without a phase to index every point is marked unindexed', 1)
    f = ctx.func(Q)
    ps = f.params()
    it = ctx.analyse(Q, args={ps[1]: sym('banddata'), ps[2]: sym('bandnorm')}, selfattrs=dict(phaseLib=mk('list', NONE), phaselist=mk('list', NONE), nband_earlyexit=sym('earlyexit')))
    r = it.V(it.result, it.state)
    try:
        need(r.op == 'tuple' and len(r.args) == 2, 'the result is not (index data, band data)')
        n = 4
        bd = SArr((n, NB), {k: np.ones((n, NB)) for k in ('max', 'normmax', 'rho', 'theta', 'valid', 'width')})
        nv = NV(env={sym('banddata'): bd, sym('bandnorm'): np.zeros((n, NB, 3)), sym('earlyexit'): 5, mk('attr', mk('attr', it.self, 'bandDetectPlan'), 'rhoMax'): 10., mk('attr', mk('attr', it.self, 'bandDetectPlan'), 'rhoMaskFrac'): .1})
        L = nv(it.deep(it.V(r.args[0], it.state), it.state.heap))
        ok = (L.field('phase') == -1).all() and (L.field('fit') == 180).all() and (L.field('nmatch') == 0).all()
        ctx.verdict(bool(ok), R, 'no phase', f.loc(), 'without a phase the points are not all marked phase -1, fit 180, no matched bands')
    except (Unknown, AnalysisError) as e:
        ctx.und(R, 'no phase', str(e))


def r_ang(ctx):
    R = ctx.rule('ang-unindexed', 'an unindexed point is written to a .ang file with phase 0 and confidence -1, an indexed point with its own values', 10)
    for nph in (1, 2, 3):
        n = 5
        try:
            sc = Scan(ctx, 'writeang', nph, n, ncols=n, nrows=1)
            a = Ang(sc)
            need(len(a.rows) == n, 'the data rows are not recognised')
            for phases in ([-1] * n, [0] * n, [-1, 0, nph - 1, -1, 0], [0, -1, -1, nph - 1, -1]):
                env = sc.env(phases, 3)
                for i in range(n):
                    r = dict(zip(COLS, a.rows[i]))
                    if phases[i] < 0:
                        ctx.verdict(decide(r.get('phase'), 0, env), R, '%d phases: phase of unindexed' % nph, sc.f.loc(), 'an unindexed point is written with a phase number other than 0')
                        ctx.verdict(decide(r.get('ci'), -1, env), R, '%d phases: ci of unindexed' % nph, sc.f.loc(), 'an unindexed point is written with a confidence other than -1')
                    else:
                        v = decide(r.get('ci'), sc.best['cm'][i], env)
                        ctx.verdict(v, R, '%d phases: ci of indexed' % nph, sc.f.loc(), "an indexed point is not written with its own confidence")
        except AnalysisError as e:
            ctx.und(R, '%d phases' % nph, str(e))


def r_oh5(ctx):
    R = ctx.rule('oh5-unindexed', 'an unindexed point is written to a .oh5 file with phase 0 and confidence -1, in every file version', 20)
    for ver in ('OIM 8.5', 'OIM 8.6', '8.6', '8', '7'):
        for nph in (1, 2):
            n = 5
            try:
                sc = Scan(ctx, 'writeoh5', nph, n, ncols=n, nrows=1, version=ver)
                d = oh5(sc)
                P = [k for k in d if k.split('/')[-1] == 'Phase' and 'Data' in k]
                C = [k for k in d if k.split('/')[-1] == 'CI' and 'Data' in k]
                need(P and C, 'phase / confidence datasets not recognised')
                for phases in ([-1] * n, [-1, 0, nph - 1, -1, 0], [0] * n):
                    env = sc.env(phases, 5)
                    for i in range(n):
                        if phases[i] < 0:
                            ctx.verdict(decide(item(d[P[0]], i), 0, env), R, '%s %d phases: phase of unindexed' % (ver, nph), sc.f.loc(), 'an unindexed point is written with a phase number other than 0')
                            ctx.verdict(decide(item(d[C[0]], i), -1, env), R, '%s %d phases: ci of unindexed' % (ver, nph), sc.f.loc(), 'an unindexed point is written with a confidence other than -1')
                        else:
                            ctx.verdict(decide(item(d[C[0]], i), sc.best['cm'][i], env), R, '%s %d phases: ci of indexed' % (ver, nph), sc.f.loc(), "an indexed point is not written with its own confidence")
            except (AnalysisError, Unknown) as e:
                ctx.und(R, '%s %d phases' % (ver, nph), str(e))


def r_maps(ctx):
    R = ctx.rule('map-unindexed', 'unindexed points are black in an orientation map, indexed points are not', 6)
    for laues in ([43], [62], [43, 62], [62, 43, 22]):
        lab = 'makeipf Laue %s' % laues
        try:
            p = Ipf(ctx, laues)
        except AnalysisError as e:
            ctx.und(R, lab, str(e))
            continue
        L = len(laues)
        for phases in ([0, L - 1, -1, 0, -1, 0], [-1] * 6, [0] * 6, [-1, 0, -1, L - 1, -1, -1]):
            try:
                v = p.value(phases)
                flat = v.reshape(-1, 3)
                ok = all((flat[i] == 0).all() if phases[i] < 0 else (flat[i] > 0).all() for i in range(6))
                ctx.verdict(ok, R, lab, p.f.loc(), 'with the phases %s the pixels have the colours %s: unindexed points must be black, and only those' % (phases, np.round(flat[:6], 2).tolist()))
            except Unknown as e:
                ctx.und(R, lab, str(e))


def r_scale(ctx):
    R = ctx.rule('map-scale', 'the scale of a fit map does not depend on unindexed points, a phase map tells unindexed points from phase 0', 5)
    for field in ('fit', 'fitinv', 'phase'):
        try:
            s = Scalar(ctx, field)
        except AnalysisError as e:
            ctx.und(R, field, str(e))
            continue
        ns = [e for e in s.norms if not e.pc or all(p is TRUE for p in e.pc)]
        if len(ns) != 1:
            ctx.und(R, field, 'the normalisation is not recognised')
            continue
        kw = dict(zip(('vmin', 'vmax'), ns[0].vals or ()))
        kw.update(ns[0].kw)
        for b in ('vmin', 'vmax'):
            t = kw.get(b)
            try:
                if field == 'phase':
                    if b == 'vmin':
                        v = None if t is None or t is NONE else s.num(t, [0, 1, -1, 0], [1.] * 4)
                        ctx.verdict(v is None or bool(v < 0), R, 'phase vmin', ns[0].loc, 'a phase map starts at %s: unindexed points (-1) look like phase 0' % v)
                    continue
                if t is None or t is NONE:
                    ctx.bad(R, field + ' ' + b, ns[0].loc, 'the %s of a %s map is taken from the data, including the sentinel fit of unindexed points' % (b, field))
                    continue
                x = s.num(t, [0, 0, 0, 0, 0], [.5, .9, .7, 1.2, 1.])
                ok = True
                for phs in ([0, 0, -1, 0, 0, 0], [-1, 0, 0, -1, 0, 0, -1, 0]):
                    fs, k = [], iter([.5, .9, .7, 1.2, 1.])
                    for p in phs:
                        fs.append(next(k) if p >= 0 else 0)
                    y = s.num(t, phs, fs)
                    ok = ok and abs(x - y) < 1e-5
                ctx.verdict(bool(ok), R, field + ' ' + b, ns[0].loc, 'the %s of a %s map changes when unindexed points are added' % (b, field))
            except Unknown as e:
                ctx.und(R, field + ' ' + b, str(e))


RULES = [r_layers, r_nophase, r_ang, r_oh5, r_maps, r_scale]
