"""Result files by value flow: both writers are followed over small scans whose field values are opaque, for one to three phases, every way
of giving the scan shape, and every file version.  What is written for each point and phase must be the value of that point (scan order)
and of that phase; the phase number of a point must be the number of the header entry made from the phase it was indexed as."""
from rules._out import *
ASSUMES = ['a .ang file of a single phase numbers it 0 in the data rows (EDAX convention)', 'dataset values are converted to the width of their type without loss']
SHAPES = [dict(ncols=3), dict(ncols=2, nrows=3), dict(), dict(fid=dict(nCols=2, nRows=3)), dict(fid=dict(nCols=2, nRows=3, xstep=.5, ystep=.25)), dict(fid=dict(nCols=4, nRows=2, step=0)), dict(ncols=3, fid=dict(nCols=2, nRows=3, xstep=.5, ystep=.75)), dict(ncols=1, nrows=5)]


def sayshape(s):
    return '%s%s' % ('ncols=%s ' % s['ncols'] if 'ncols' in s else '', 'file ' + ','.join('%s=%s' % k for k in sorted(s['fid'].items())) if s.get('fid') else '')


def check(ctx, R, what, loc, got, want, env, msg):
    r = decide(got, want, env)
    ctx.verdict(r, R, what, loc, msg + ' (written: %s)' % (show(got, 4) if got is not None else 'nothing'))


def points(ctx, R, H, sc, rec, header, shape, phasebase):
    """rec(i) -> dict column -> term; header: name -> term"""
    ctx.verdict(sc.eulok, R, sc.label + ' orientations', sc.f.loc(), 'the orientations written are not those of the best-solution layer in scan order')
    n, nph = sc.n, sc.nph
    for seed in range(2):
        phases = [(i * 7 + seed) % nph for i in range(n)]
        env = sc.env(phases, seed)
        nc = sc.ncols
        for i in range(n):
            r = rec(i)
            if r is None:
                ctx.und(R, sc.label, 'row %d is not recognised' % i)
                continue
            want = dict(x=mul(const(i % nc), sc.step[0]), y=mul(const(i // nc), sc.step[1]), pq=sc.best['pq'][i], iq=sc.best['iq'][i], ci=sc.best['cm'][i], fit=sc.best['fit'][i],
                        phi1=sc.eul[i][0], Phi=sc.eul[i][1], phi2=sc.eul[i][2])
            for c, w in want.items():
                if c in r:
                    check(ctx, R, '%s %s %s' % (sc.label, sayshape(shape), c), sc.f.loc(), r[c], w, env, 'point %d of a scan with %d columns has a wrong %s' % (i, nc, c))
            p = decide(r.get('phase'), phasebase(phases[i]), env)
            if p is False and nph == 1 and sc.f.qual.endswith('writeang'):
                p = decide(r.get('phase'), 1, env)
            ctx.verdict(p, R, '%s %s phase' % (sc.label, sayshape(shape)), sc.f.loc(), 'a point indexed as phase %d of %d gets a phase number that is not that of its header entry %s' % (phases[i], nph, phasebase(phases[i])))
    env = sc.env([0] * n)
    for k, w in dict(XSTEP=sc.step[0], YSTEP=sc.step[1], NCOLS=const(sc.ncols)).items():
        for v in header.get(k, []):
            check(ctx, H, '%s %s %s' % (sc.label, sayshape(shape), k), sc.f.loc(), v, w, env, 'the header\'s %s is not the one the positions are made with' % k)
    for k, w in dict(x=mk('sel', mk('attr', sc.ix, 'PC'), const(0)), y=mk('sel', mk('attr', sc.ix, 'PC'), const(1)), z=mk('sel', mk('attr', sc.ix, 'PC'), const(2)), tilt=mk('attr', sc.ix, 'sampleTilt'), elev=mk('attr', sc.ix, 'camElev')).items():
        v = header.get(k)
        if v is not None:
            ctx.verdict(True if v == w else False if v.op in ('const', 'sel', 'attr') else None, H, sc.label + ' ' + k, sc.f.loc(), 'the header has %s where %s belongs' % (show(v, 4), show(w, 4)))
    nr = header.get('NROWS', [None])[0]
    try:
        v = Valuation(env=env)(nr) if nr is not None else None
        v = v[0] if isinstance(v, list) else v
        ctx.verdict(None if v is None else v * sc.ncols >= n, H, '%s %s NROWS' % (sc.label, sayshape(shape)), sc.f.loc(), 'the header gives %s rows of %d columns for %d points' % (v, sc.ncols, n))
    except Unknown:
        ctx.und(H, sc.label, 'number of rows not recognised')


def phases(ctx, R, sc, entries, lab):
    """entries: phase index -> dict(name, laue, lat (6), poles [[3]])"""
    env = sc.env([0] * sc.n)
    for k in range(sc.nph):
        e = entries.get(k)
        if e is None:
            ctx.bad(R, '%s entry of phase %d' % (lab, k), sc.f.loc(), 'no header entry numbered for phase %d' % k)
            continue
        for a, want in (('name', mk('attr', sc.ph[k], 'phasename')), ('laue', None), ('sg', mk('attr', sc.ph[k], 'spacegroup'))):
            v = e.get(a)
            if v is None:
                continue
            base = {x for x in subterms(v) if x in sc.ph}
            if want is None:
                ctx.verdict(decide(v, const(43 if len(sc.poles[0][0]) == 3 and sc.laue == 43 else 62), env), R, '%s %s' % (lab, a), sc.f.loc(), 'the Laue class written is not that of phase %d' % k)
            else:
                ctx.verdict(True if contains(v, lambda x: x == want) and base == {sc.ph[k]} else False if base else None, R, '%s %s' % (lab, a), sc.f.loc(), 'the header entry of phase %d has the %s of %s' % (k, a, show(v, 4)))
        for i, v in enumerate(e.get('lat') or []):
            w = mul(const(10), sc.lat[k][i]) if i < 3 else sc.lat[k][i]
            check(ctx, R, '%s lattice %d' % (lab, i), sc.f.loc(), v, w, env, 'lattice parameter %d of phase %d is wrong in the header' % (i, k))
        for f, row in enumerate(e.get('poles') or []):
            for j in range(3):
                check(ctx, R, '%s reflector index %d' % (lab, j), sc.f.loc(), row[j] if j < len(row) else None, sc.poles[k][f][j], env, 'index %d of reflector %d of phase %d is wrong in the header' % (j, f, k))


def r_ang(ctx):
    R = ctx.rule('ang-points', 'every row of a .ang file holds the values of its own point', 60)
    H = ctx.rule('ang-header', 'the .ang header gives the grid the rows use', 20)
    P = ctx.rule('ang-phases', 'every phase has the header entry its number refers to', 10)
    for nph in (1, 2, 3):
        for s in SHAPES:
            for laue in ((43, 62) if s is SHAPES[0] else (43,)):
                sc = Scan(ctx, 'writeang', nph=nph, laue=laue, **s)
                sc.laue = laue
                a = Ang(sc)
                ctx.verdict(len(a.rows) == sc.n, R, sc.label + ' rows', sc.f.loc(), '%d rows for %d points' % (len(a.rows), sc.n))
                pts(ctx, R, H, sc, a, s)
                nums = {}
                env = sc.env([0] * sc.n)
                for e in a.phases:
                    try:
                        nums[Valuation(env=env)(e['number']) - 1] = dict(name=(e.get('MaterialName') or [None])[0], laue=(e.get('Symmetry') or [None])[0], lat=e.get('LatticeConstants'), poles=[r[:3] for r in e['hklFamilies']])
                    except (Unknown, AttributeError, TypeError):
                        ctx.und(P, sc.label, 'phase number not recognised')
                if len(nums) == len(a.phases):
                    phases(ctx, P, sc, nums, sc.label)


def pts(ctx, R, H, sc, a, s):
    def rec(i):
        if i >= len(a.rows) or len(a.rows[i]) != len(COLS):
            return None
        return dict(zip(COLS, a.rows[i]))
    points(ctx, R, H, sc, rec, dict(XSTEP=a.keys.get('XSTEP', [])[:1], YSTEP=a.keys.get('YSTEP', [])[:1], NCOLS=a.keys.get('NCOLS_ODD', [])[:1] + a.keys.get('NCOLS_EVEN', [])[:1], NROWS=a.keys.get('NROWS', [None])[:1],
           **{k: (a.keys.get(nm) or [None])[0] for k, nm in dict(x='x-star', y='y-star', z='z-star', tilt='SampleTiltAngle', elev='CameraElevationAngle').items()}), s,
           lambda p: p + 1 if sc.nph > 1 else 0)


DS = dict(phi1='Phi1', Phi='Phi', phi2='Phi2', iq='IQ', pq='Pattern Quality', fit='Fit', phase='Phase', ci='CI', x='X Position', y='Y Position')


def r_oh5(ctx):
    R = ctx.rule('oh5-points', 'every element of a .oh5 dataset is the value of its own point', 60)
    H = ctx.rule('oh5-header', 'the .oh5 header gives the grid the positions use', 20)
    P = ctx.rule('oh5-phases', 'every phase has the header entry its number refers to', 10)
    for version in ('8.6', '9.1'):
        for nph in (1, 2, 3):
            for s in SHAPES:
                for laue in ((43, 62) if s is SHAPES[0] else (43,)):
                    sc = Scan(ctx, 'writeoh5', nph=nph, version=version, laue=laue, **s)
                    sc.laue = laue
                    d = oh5(sc)
                    need('EBSD/Data/Phase' in d, 'no phase dataset recognised')

                    def rec(i):
                        return {c: item(d.get('EBSD/Data/' + nm), i) for c, nm in DS.items() if 'EBSD/Data/' + nm in d}
                    hd = {k: [item(d[nm], 0)] if nm in d else [None] for k, nm in dict(XSTEP='EBSD/Header/Step X', YSTEP='EBSD/Header/Step Y', NCOLS='EBSD/Header/nColumns', NROWS='EBSD/Header/nRows').items()}
                    c = 'EBSD/Header/'
                    hd.update({k: item(d.get(c + nm), 0) for k, nm in dict(x='Pattern Center Calibration/x-star', y='Pattern Center Calibration/y-star', z='Pattern Center Calibration/z-star', tilt='Sample Tilt', elev='Camera Elevation Angle').items()})
                    nums = {}
                    for k in d:
                        if k.startswith('EBSD/Header/Phase/'):
                            no, nm = k.split('/')[3:5]
                            nums.setdefault(int(no), {})[nm] = d[k]
                    need(nums, 'no phase entries recognised')
                    base = min(nums)
                    points(ctx, R, H, sc, rec, hd, s, lambda p: p + base)
                    ent = {}
                    for no, e in nums.items():
                        o = ent[no - base] = {}
                        if 'MaterialName' in e:
                            o['name'] = e['MaterialName']
                        for a, nm in (('laue', 'LGsymID'), ('sg', 'SpaceGroupNumber')):
                            if nm in e:
                                o[a] = item(e[nm], 0)
                        o['lat'] = [item(e.get('Lattice Constant ' + x), 0) for x in ('a', 'b', 'c', 'alpha', 'beta', 'gamma')]
                        fam = e.get('hkl Families')
                        rows = [[None] * 3 for f in range(2)]
                        if fam is not None:
                            for j, c in enumerate('HKL'):
                                for f in range(2):
                                    rows[f][j] = colstore(fam, c, f)
                            o['poles'] = rows
                    phases(ctx, P, sc, ent, sc.label)


def colstore(t, col, i):
    """what was stored under a field of a structured array, element i"""
    while t.op == 'store':
        k = t.args[1]
        ks = k.args if k.op == 'tuple' else (k,)
        if ks[0] == const(col):
            v = t.args[2]
            if v.op == 'mcall' and v.args[1] in ('squeeze', 'copy', 'astype'):
                v = v.args[0]
            return item(v, i)
        t = t.args[0]
    return None


RULES = [r_ang, r_oh5]
