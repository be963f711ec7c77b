"""Weights.  calcnlpar and calcsigma of the CPU, OpenCL and Ray implementations are followed for one window around a point inside the scan,
with every pattern, noise estimate and setting symbolic; device launches go through the OpenCL kernel (rules/_nlpar.py).  The value written
for that point is one expression over those symbols in each implementation; the expressions must be the same function.  They are compared by
interpreting both over the same valuations of the symbols; a difference is a witness."""
from sa.ctx import *
from rules import _nlpar as N
from rules._nlpar import Unfollowed, Broken
ASSUMES = ['all pixels of a vector of sixteen are alike and the CPU sees one pixel where the device sees sixteen (distances a quarter, lambda and threshold scaled accordingly)',
           'patterns closer than 0.001 (equal patterns recorded twice) with a vanishing noise estimate are treated differently by design and are not compared',
           'the device counts one millionth of a pixel more than there are: differences below 0.00002 are rounding', 'the windows of points at the border of a scan are placed differently and are not compared']
IMPL = (('calcnlpar_cl', 'calcsigma_cl', N.CL, N.runcl), ('calcnlpar_clray', 'calcsigma_clray', N.RAY, N.runray))
BIG = 10 ** 9


def cases(ctx):
    """(radius, mask, saturated pixels, keywords)"""
    q = [(1, (1, 0), (), {}), (1, (1, 1), ('p0_1', 'q1_2'), {}), (1, (1, 1), ('p1_1',), {}), (1, (1, 1), ('p0_0', 'q0_0'), {'saturation_protect': FALSE})]
    t = [(2, (1, 1), (), {}), (2, (0, 1), ('p2_1', 'q1_2'), {}), (1, (0, 1), (), {}), (1, (1, 1), ('p0_0', 'q0_0'), {}), (1, (1, 1), ('q1_1',), {})]
    return q + (t if ctx.tier != 'quick' else [])


def point(ctx, f, meth, sr, k, mask, sat, kw, sig):
    n = 2 * sr + 1
    N.SAT.clear()
    N.SAT.update(sat)
    s = N.limited(90, f, ctx, n, n, sr, k, meth=meth, nv=2, mask=mask, **kw)
    if s.bad:
        raise Unfollowed(s.bad[0])
    if sig:
        v = N.result(s)
        if N.L_.lshape(v) != (n, n):
            raise Unfollowed('the estimates: ' + show(v, 3))
        return s, (v.args[sr].args[sr],)
    if (sr, sr) not in s.out:
        raise Unfollowed('nothing is stored')
    return s, s.out[sr, sr]


def describe(sr, mask, sat, kw):
    return 'radius %d, mask %s%s%s' % (sr, list(mask), ', saturated ' + ' '.join(sat) if sat else '', ''.join(', %s off' % k for k in kw))


def agree(ctx, R, con, f, a, b, s0, s1, what):
    why = unk = None
    for i, (x, y) in enumerate(zip(a, b)):
        for seed in range(8):
            near = seed % 4 != 3
            u, v = (N.value(t, N.valuation('w%d' % seed, s, dev=d, near=near)) for t, s, d in ((x, s0, False), (y, s1, True)))
            if u is None or v is None:
                unk = N.stray(y) or N.stray(x) or 'the expression of the %s' % what
                continue
            if not abs(u - v) <= 2e-5 * max(1, abs(u), abs(v)):
                why = why or 'for the same patterns and settings the CPU gives %.6g and the device %.6g' % (u, v)
    if why:
        ctx.bad(R, con, f.loc(), why)
    elif unk:
        ctx.und(R, con, unk)
    else:
        ctx.ok(R, con)


def both(ctx, R, sig):
    clock = N.Clock(ctx)
    for sr, mask, sat, kw in cases(ctx):
        try:
            clock.check()
            s0, a = point(ctx, N.runcpu, ('calcnlpar', 'calcsigma')[sig], sr, 2 * sr + 1, mask, sat, kw, sig)
        except (Unfollowed, Broken) as e:
            s0, why0 = None, str(e)
        for m in IMPL:
            meth, f = m[sig], ctx.func(m[2] + m[sig])
            con = '%s: %s' % (meth, describe(sr, mask, sat, kw))
            if s0 is None:
                ctx.und(R, con, 'CPU: ' + why0)
                continue
            try:
                clock.check()
                s1, b = point(ctx, m[3], meth, sr, BIG, mask, sat, kw, sig)
            except (Unfollowed, Broken) as e:
                ctx.und(R, con, str(e))
                continue
            agree(ctx, R, con, f, a, b, s0, s1, 'estimate' if sig else 'pattern')
            if not sig and not sat:
                yield sr, mask, meth, f, s0, a, s1, b


def r_weights(ctx):
    R = ctx.rule('weights', 'the CPU and the device average a neighbourhood into the same pattern', 8)
    S = ctx.rule('sum', 'the weights applied add up to one', 3)
    D = ctx.rule('inputs', 'the result depends on lambda, the threshold, the centre offset and the patterns and noise estimates of the whole window', 3)
    done = set()
    for sr, mask, meth, f, s0, a, s1, b in both(ctx, R, 0):
        for name, fn, s, ts, dev in (('calcnlpar', ctx.func(N.CPU + 'calcnlpar'), s0, a, False), (meth, f, s1, b, True)):
            con = '%s: %s' % (name, describe(sr, mask, (), {}))
            if con in done:
                continue
            done.add(con)
            vs = [N.value(ts[0], N.valuation('sum%d' % k, s, dev=dev, near=True, alike=61.5)) for k in range(4)]
            if any(v is None for v in vs):
                ctx.und(S, con, 'the value')
            else:
                ctx.verdict(all(abs(v - 61.5) < 1e-3 for v in vs), S, con, fn.loc(), 'patterns of brightness 61.5 are averaged to %s' % ['%.5g' % v for v in vs])
            need = {'lam', 'dth', 'off'} | {x % (i, j) for x in ('p%d_%d', 's%d_%d') for i in range(s.nr) for j in range(s.nc)}
            lack = need - N.syms(ts[0])
            ctx.verdict(not lack, D, con, fn.loc(), 'it does not depend on %s' % ', '.join(sorted(lack)))


def r_noise(ctx):
    R = ctx.rule('noise', 'the CPU and the device estimate the noise of a pattern alike', 8)
    for x in both(ctx, R, 1):
        pass
