"""Tiles and positions.  The tiles _calcchunks makes are computed by constant propagation for many scans.  calcnlpar and calcsigma of all
three implementations are followed for small constant scans with every pattern, noise estimate and setting symbolic (rules/_nlpar.py: device
launches through the OpenCL kernel, Ray tasks through the worker's method): what is stored at each position must be the expression a single
tile gives, made of the pattern of that position and of every neighbour the search radius names."""
from sa.ctx import *
from rules import _nlpar as N
from rules._nlpar import Unfollowed, Broken
ASSUMES = ['ray.wait returns submitted tasks, ray.get what the worker\'s method returned; every submitted task becomes ready',
           'patterns are bytes, none saturated or empty; all pixels of a vector of sixteen are alike, so lanes are not told apart',
           'OpenCL commands of one queue run in order']
NAMES = {'cpu': ('calcnlpar', 'calcsigma', N.CPU), 'opencl': ('calcnlpar_cl', 'calcsigma_cl', N.CL), 'ray': ('calcnlpar_clray', 'calcsigma_clray', N.RAY)}


def r_chunks(ctx):
    R = ctx.rule('tiles', 'the tiles lie in the scan and every position lies, with all neighbours the overlap allows, in one of them', 40)
    f = ctx.func(N.CPU + '_calcchunks')
    todo = []
    for nc, nr in ((1, 1), (1, 7), (9, 1), (2, 3), (5, 5), (7, 4), (13, 17), (40, 23), (23, 40), (101, 60), (64, 64), (3, 200), (250, 3)):
        for ov in (0, 1, 3, 10):
            for parts in (1, 3, 8, 30) if ctx.tier == 'quick' else (1, 2, 3, 4, 5, 7, 8, 11, 16, 30, 60, 200):
                todo.append((nc, nr, ov, parts))
    for nc, nr, ov, parts in todo:
        con = '%d columns, %d rows, overlap %d, %d parts' % (nc, nr, ov, parts)
        tb = max(60 * 60 * 8 * nc * nr // parts, 1)
        try:
            v = N.chunks(ctx, (60, 60), nc, nr, tb, ov)
            n0, n1 = N.cint(v.args[0]), N.cint(v.args[1])
            ax = [[tuple(N.cint(x) for x in c.args) for c in w.args] for w in v.args[2:4]]
        except (Unfollowed, AttributeError, IndexError) as e:
            ctx.und(R, con, str(e) or 'the result is not two lists of tiles')
            continue
        why = None
        if (n0, n1) != (len(ax[0]), len(ax[1])):
            why = '%d x %d tiles are announced, %d x %d are given' % (n0, n1, len(ax[0]), len(ax[1]))
        for what, n, c in (('columns', nc, ax[0]), ('rows', nr, ax[1])):
            for a, b in c:
                if not 0 <= a < b <= n:
                    why = why or 'a tile holds %s %d to %d of %d' % (what, a, b, n)
            for x in range(n):
                if not any(a <= max(0, x - ov) and min(n, x + ov + 1) <= b for a, b in c):
                    why = why or 'no tile holds %d with its neighbours (%s, tiles %s)' % (x, what, c[:5])
                    break
        ctx.verdict(why is None, R, con, f.loc(), why or '')


def configs(ctx, impl, sig=False):
    """(rows, columns, search radius, what makes tiles, keywords)"""
    big = 10 ** 9
    last = 'pyopencl.enqueue_copy' if sig else '.write_data'   # the last operation of a worker
    if impl == 'cpu':
        q = [(5, 3, 1, 2, {}), (6, 2, 2, 1, {}), (7, 3, 1, 3, {}), (3, 4, 3, 1, {})]
        t = [(11, 2, 3, 4, {}), (9, 3, 1, 4, {}), (9, 2, 2, 3, {}), (8, 3, 1, 5, {}), (4, 4, 1, 3, {}), (2, 6, 1, 1, {})]
    else:
        q = [(6, 7, 1, 700, {}), (4, 7, 1, 1000, {})] if impl == 'opencl' else [(6, 5, 1, 700, {}), (3, 7, 1, 400, {'fail': (0, 2)}), (4, 5, 1, 400, {'fail': ((1, last),)})]
        if impl == 'opencl' and not sig:
            q += [(3, 5, 1, 500, {'zero': (0,)}), (3, 5, 1, 500, {'zero': (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)})]
        if not sig:
            q += [(2, 2, 2, big, {})]
        t = [(6, 7, 1, 300, {}), (6, 7, 1, 1500, {}), (4, 9, 1, 300, {}), (9, 4, 1, 600, {}), (8, 3, 2, 600, {}), (3, 8, 2, 600, {}), (4, 4, 2, big, {}), (3, 5, 2, 400, {})]
        if impl == 'ray':
            t = [(6, 5, 1, 700, {'order': 'first'}), (6, 5, 1, 700, {'order': 'all', 'fail': (1, 2, 5)}), (4, 6, 1, 400, {'fail': (0, 1, 2, 3, 4)}), (3, 7, 1, 400, {'fail': ((0, '.read_data'), (2, 'pyopencl.Buffer'), (3, last))})] + t
    return q + (t if ctx.tier != 'quick' else [])


def run(ctx, impl, meth, nr, nc, sr, k, **kw):
    f = {'cpu': N.runcpu, 'opencl': N.runcl, 'ray': N.runray}[impl]
    return N.limited(60, f, ctx, nr, nc, sr, k, meth=meth, **kw)


def window(s, r, c, reach):
    return {(i, j) for i in range(max(0, r - reach), min(s.nr, r + reach + 1)) for j in range(max(0, c - reach), min(s.nc, c + reach + 1))}


def single(impl, nr):
    return nr if impl == 'cpu' else 10 ** 9


def r_filter(ctx):
    R = ctx.rule('filter', 'every position of the scan is stored, with the value a single tile gives', 9)
    S = ctx.rule('own', 'the value at a position is made of the pattern of that position and of all its neighbours within the search radius', 9)
    clock = N.Clock(ctx)
    for impl, (meth, _, cls) in NAMES.items():
        f = ctx.func(cls + meth)
        refs = {}
        for nr, nc, sr, k, kw in configs(ctx, impl):
            con = '%s, %d rows, %d columns, radius %d, tiles for %d%s' % (meth, nr, nc, sr, k, ''.join(', %s %s' % (a, list(b) if isinstance(b, tuple) else b) for a, b in kw.items()))
            try:
                clock.check()
                if (nr, nc, sr) not in refs:
                    refs[nr, nc, sr] = run(ctx, impl, meth, nr, nc, sr, single(impl, nr))
                    own(ctx, S, meth, f, refs[nr, nc, sr])
                s = run(ctx, impl, meth, nr, nc, sr, k, **kw)
            except Unfollowed as e:
                ctx.und(R, con, str(e))
                continue
            except Broken as e:
                ctx.bad(R, con, f.loc(), str(e))
                continue
            compare(ctx, R, con, f, s, refs[nr, nc, sr].out)


def compare(ctx, R, con, f, s, ref):
    why, unk = (s.bad[0] if s.bad else None), None
    allpos = [(i, j) for i in range(s.nr) for j in range(s.nc)]
    miss = [x for x in allpos if x not in s.out]
    if miss and not why:
        rets = [x for x in s.it.frame.exits if x[0] in ('return', 'end')]
        if s.tiles and len(rets) == 1:
            why = 'nothing is stored for row %d, column %d' % miss[0]
        else:
            unk = 'the loop is not followed to its end'
    for x in allpos:
        if why or x not in s.out or x not in ref:
            continue
        for a, b in zip(s.out[x], ref[x]):
            y = N.stray(a)
            if y:
                why = 'row %d, column %d: %s' % (x[0], x[1], y)
                break
            d = N.same(a, b, s)
            if d is None:
                unk = unk or 'the value at row %d, column %d' % x
            elif d is not True:
                why = 'row %d, column %d: with tiles %.5g, in one piece %.5g' % (x[0], x[1], d[0], d[1])
                break
    if why:
        ctx.bad(R, con, f.loc(), why)
    elif unk:
        ctx.und(R, con, unk)
    else:
        ctx.ok(R, con)


def own(ctx, S, meth, f, s):
    con = '%s, %d rows, %d columns, radius %d' % (meth, s.nr, s.nc, s.sr)
    why, unk = (s.bad[0] if s.bad else None), None
    for (r, c), ts in sorted(s.out.items()):
        t = ts[0]
        y = N.stray(t)
        if y:
            why = why or 'row %d, column %d: %s' % (r, c, y)
            continue
        got = {tuple(int(z) for z in x[1:].split('_')) for x in N.syms(t) if x[0] == 'p' and x[1:2].isdigit()}
        lack = window(s, r, c, s.sr) - got
        over = got - window(s, r, c, 2 * s.sr)
        if lack:
            why = why or 'row %d, column %d does not use its neighbour at row %d, column %d' % ((r, c) + min(lack))
        if over:
            why = why or 'row %d, column %d uses the pattern at row %d, column %d' % ((r, c) + min(over))
        v = N.value(t, N.valuation('own', s, sharp=True))
        if v is None:
            unk = 'the value at row %d, column %d' % (r, c)
        elif abs(v - (20 + 3.7 * (r * s.nc + c))) > .5:
            why = why or 'row %d, column %d: with a lambda that keeps every pattern as it is, the value is that of another pattern (%.4g)' % (r, c, v)
    if not s.out:
        unk = unk or 'nothing stored'
    if why:
        ctx.bad(S, con, f.loc(), why)
    elif unk:
        ctx.und(S, con, unk)
    else:
        ctx.ok(S, con)


def r_noise(ctx):
    R = ctx.rule('noise', 'the noise estimate of a position does not depend on the tiles and is made of the patterns around that position', 5)
    clock = N.Clock(ctx)
    for impl, (_, meth, cls) in NAMES.items():
        f = ctx.func(cls + meth)
        for nr, nc, sr, k, kw in configs(ctx, impl, True):
            con = '%s, %d rows, %d columns, radius %d, tiles for %d%s' % (meth, nr, nc, sr, k, ''.join(', %s %s' % (a, list(b)) for a, b in kw.items()))
            try:
                clock.check()
                ref = N.result(run(ctx, impl, meth, nr, nc, sr, single(impl, nr)))
                s = run(ctx, impl, meth, nr, nc, sr, k, **kw)
                got = N.result(s)
                if any(N.L_.lshape(x) != (nr, nc) for x in (ref, got)):
                    raise Unfollowed('the estimates are not followed: ' + show(got, 3))
            except Unfollowed as e:
                ctx.und(R, con, str(e))
                continue
            except Broken as e:
                ctx.bad(R, con, f.loc(), str(e))
                continue
            why, unk = (s.bad[0] if s.bad else None), None
            for i in range(nr):
                for j in range(nc):
                    a, b = got.args[i].args[j], ref.args[i].args[j]
                    y = N.stray(a)
                    near = {tuple(int(z) for z in x[1:].split('_')) for x in N.syms(b) if x[0] == 'p' and x[1:2].isdigit()}
                    if y:
                        why = why or 'row %d, column %d: %s' % (i, j, y)
                    if (nr, nc) != (1, 1) and window(s, i, j, sr) - near:
                        why = why or 'the estimate of row %d, column %d does not use row %d, column %d' % ((i, j) + min(window(s, i, j, sr) - near))
                    d = N.same(a, b, s)
                    if d is None:
                        unk = unk or 'the estimate of row %d, column %d' % (i, j)
                    elif d is not True:
                        why = why or 'row %d, column %d: with tiles %.5g, in one piece %.5g' % (i, j, d[0], d[1])
            if why:
                ctx.bad(R, con, f.loc(), why)
            elif unk:
                ctx.und(R, con, unk)
            else:
                ctx.ok(R, con)
