"""Inverse pole figure colours.  ipf_color_cubic / ipf_color_hex are extracted as terms (their reduction loops summarised as loop terms) and
evaluated on random directions: a direction and its equivalents under the Laue class must get one colour, different reduced directions
different ones.  qu2ipf_* must colour the vector rotated into the crystal frame of each own orientation; makeipf must place every point's
own phase colour in scan order."""
from rules._img import *
P = I + 'IPFcolor.'
R_ = 'pyebsdindex.rotlib.'
ASSUMES = ['matplotlib hsv_to_rgb is a function of hue, saturation and value only', 'quat_vector is checked by its own property (R01) and is used here as v + 2w(r x v) + 2r x (r x v)',
           'only the Laue classes m-3m (43) and 6/mmm (62) have a colour function; other phases are drawn white']


def qv(q, v, p=1):
    q, v = np.atleast_2d(np.asarray(q, float)), np.atleast_2d(np.asarray(v, float))
    p = 1. if p > 0 else -1.
    if not len(q) or not len(v):
        return np.zeros((0, 3))
    n = max(len(q), len(v))
    if len(q) != len(v) and 1 not in (len(q), len(v)):
        raise Unknown('quat_vector of %d quaternions and %d vectors' % (len(q), len(v)))
    q, v = np.broadcast_to(q, (n, 4)), np.broadcast_to(v, (n, 3))
    r = p * q[:, 1:]
    t = np.cross(r, v) + q[:, :1] * v
    return np.squeeze(2 * np.cross(r, t) + v)


def qnorm(q):
    q = np.asarray(q, float)
    q = q / np.linalg.norm(q, axis=-1, keepdims=True)
    return q * np.where(q[..., :1] < 0, -1, 1)


FUNCS = dict(quat_vector=qv, quatnorm=qnorm, hsv_to_rgb=lambda x: np.asarray(x))


def opaque(ctx, n):
    ps = ctx.func(R_ + n).params()
    return lambda s, b: mk('call', n, tuple(s.deep(s.V(b[p], s.callstate), s.callstate.heap) for p in ps if p in b), ())


def rots(kind):
    """the rotation matrices and inversion of the Laue class, from their definition"""
    out = []
    import itertools
    if kind == 'cubic':
        for p in itertools.permutations(range(3)):
            for s in itertools.product((1, -1), repeat=3):
                m = np.zeros((3, 3))
                for i in range(3):
                    m[i, p[i]] = s[i]
                out.append(m)
    else:
        for k in range(6):
            c, s = np.cos(k * np.pi / 3), np.sin(k * np.pi / 3)
            for f in (1, -1):
                for z in (1, -1):
                    out.append(np.array([[c, -s * f, 0], [s, c * f, 0], [0, 0, z]]))
    return np.array(out)


def colour(ctx, kind):
    f = ctx.func(P + 'ipf_color_' + kind)
    x, n = sym('dirs'), sym('n')
    it = ctx.analyse(f.qual, args={f.params()[0]: x}, heap={('a', x, 'shape'): mk('tuple', n, const(3))}, boundary={R_ + 'quat_vector', R_ + 'quatnorm'}, returns={R_ + k: opaque(ctx, k) for k in ('quat_vector', 'quatnorm')})
    r = it.deep(it.V(it.result, it.state), it.state.heap)

    def num(d):
        return np.asarray(NV(env={x: np.array(d, float), n: len(d)}, funcs=FUNCS, it=it)(r), float)
    return f, num


def hue(c):
    """an angle-safe form of hue-saturation-value rows"""
    return np.stack([c[:, 1] * np.cos(2 * np.pi * c[:, 0]), c[:, 1] * np.sin(2 * np.pi * c[:, 0]), c[:, 1], c[:, 2]], -1)


def r_sym(ctx):
    S = ctx.rule('symmetry', 'a direction has the colour of every direction equivalent to it under the Laue class', 60)
    D = ctx.rule('distinct', 'directions that are not equivalent have different colours', 2)
    N = ctx.rule('length', 'the colour does not depend on the length of the direction', 2)
    U = ctx.rule('own-row', 'the colour of a direction does not depend on the other directions of the call', 2)
    C = ctx.rule('corners', 'the corners of the standard triangle are red, green and blue hues', 6)
    nd = 12 if ctx.tier == 'quick' else 120
    for kind in ('cubic', 'hex'):
        try:
            f, num = colour(ctx, kind)
            rng = np.random.RandomState(5)
            G = rots(kind)
            d = rng.normal(size=(nd, 3))
            d /= np.linalg.norm(d, axis=1)[:, None]
            base = hue(num(d))
            for g in G:
                c = hue(num(d @ g.T))
                bad = np.nonzero(np.abs(c - base).max(1) > 1e-6)[0]
                ctx.verdict(not len(bad), S, kind, f.loc(), 'direction %s and its equivalent %s have different colours' % (np.round(d[bad[0]], 3).tolist(), np.round(g @ d[bad[0]], 3).tolist()) if len(bad) else '')
            dd = np.abs(base[:, None] - base[None]).max(-1) + np.eye(nd)
            # inequivalent directions: compare with the smallest angle over the group
            ang = np.max([(d @ g.T) @ d.T for g in G], axis=0)
            far = ang < np.cos(np.pi / 60)
            ctx.verdict(bool((dd[far] > 1e-4).all()), D, kind, f.loc(), 'two directions that are not equivalent have the same colour')
            for s in (3.7, .2):
                ctx.verdict(bool(np.abs(hue(num(d * s)) - base).max() < 1e-6), N, kind, f.loc(), 'a direction and %g times that direction have different colours' % s)
            one = np.concatenate([hue(num(d[i:i + 1])) for i in range(nd)])
            ctx.verdict(bool(np.abs(one - base).max() < 1e-6), U, kind, f.loc(), 'a direction coloured alone has another colour than among others')
            corners = [(0, 0, 1), (0, 1, 1), (1, 1, 1)] if kind == 'cubic' else [(0, 0, 1), (1, 0, 0), (np.cos(np.pi / 6), .5, 0)]
            eps = np.array([[1e-5, 2e-5, 0]])      # just inside
            e = np.array(corners, float)
            e = e / np.linalg.norm(e, axis=1)[:, None]
            m = e.mean(0)
            e = e * .9999 + m * .0001
            h = num(e)[:, 0] % 1
            for name, got, want in zip(('001', '011 / 2-1-10', '111 / 10-10'), h, (0., 1 / 3, 2 / 3)):
                dist = min(abs(got - want), 1 - abs(got - want))
                ctx.verdict(dist < 1 / 7, C, '%s %s' % (kind, name), f.loc(), 'the corner %s of the standard triangle has hue %.2f instead of about %.2f' % (name, got, want))
        except (Unknown, AnalysisError) as e:
            ctx.und(S, kind, str(e))


def r_rotate(ctx):
    R = ctx.rule('crystal-frame', 'the direction coloured is the sample direction rotated into the crystal frame of each own orientation', 4)
    for kind in ('cubic', 'hex'):
        f = ctx.func(P + 'qu2ipf_' + kind)
        ps = f.params()
        own, other = P + 'ipf_color_' + kind, P + 'ipf_color_' + ('hex' if kind == 'cubic' else 'cubic')
        it = ctx.analyse(f.qual, args={ps[0]: sym('q'), ps[1]: sym('v')}, boundary={own, other, R_ + 'quat_vector'},
                         returns={own: lambda s, b: mk('call', 'own_colour', tuple(s.deep(s.V(b[p], s.callstate), s.callstate.heap) for p in ctx.func(own).params() if p in b), ()),
                                  other: lambda s, b: mk('call', 'other_colour', (), ()), R_ + 'quat_vector': opaque(ctx, 'quat_vector')})
        r = it.deep(it.V(it.result, it.state), it.state.heap)
        used = {t.args[0] for t in subterms(r) if t.op == 'call'}
        if 'other_colour' in used or 'own_colour' not in used:
            ctx.verdict(False if 'other_colour' in used else None, R, kind, f.loc(), 'the orientations of a %s phase are coloured with the reduction of another Laue class' % kind)
            continue
        rng = np.random.RandomState(3)
        for n in (1, 5):
            q = rng.normal(size=(n, 4))
            q /= np.linalg.norm(q, axis=1)[:, None]
            v = np.array([.48, .64, .6])
            seen = []

            def col(d):
                seen.append(np.atleast_2d(np.asarray(d, float)))
                return np.abs(np.atleast_2d(d)) * .5
            try:
                got = np.asarray(NV(env={sym('q'): q, sym('v'): v}, funcs=dict(FUNCS, own_colour=col), it=it)(r), float)
                want = np.atleast_2d(qv(q, v, 1))
                ok = len(seen) > 0 and seen[-1].shape == want.shape and np.allclose(seen[-1], want)
                ctx.verdict(bool(ok), R, '%s, %d orientations' % (kind, n), f.loc(), 'the direction that is coloured is %s, the sample direction in the crystal frame is %s' % (np.round(seen[-1][0], 3).tolist() if seen else None, np.round(want[0], 3).tolist()))
                ctx.verdict(bool(np.allclose(np.atleast_2d(got), np.abs(want) * .5)), R, '%s, %d orientations, colours' % (kind, n), f.loc(), 'the colours returned are not those of the directions')
            except Unknown as e:
                ctx.und(R, kind, str(e))


def r_image(ctx):
    R = ctx.rule('placement', "every pixel shows its own point's colour, of that point's phase and Laue class, in scan order", 10)
    cases = [([43], [0] * 6, None, None, 3), ([62], [0] * 5, None, None, 2), ([43, 62], [0, 1, 1, 0, 1, 0, 0, 1], None, None, 4), ([62, 43], [0, 1, 1, 0, 1, 0], 2, None, 3), ([43, 62, 43], [2, 1, 0, 0, 1, 2, 1], 3, None, 4),
             ([43], [0] * 7, 3, 2, 4), ([43], [0] * 5, 4, 3, 2), ([43, 62], [1, 0, 1, 0, 0, 1], None, 2, 3), ([43, 62], [0], None, None, 1), ([62, 43], [1, 0, 1, 1], 5, None, 2)]
    for laues, ph, xs, ys, nc in cases:
        lab = 'Laue %s, %d points, %s x %s' % (laues, len(ph), xs or nc, ys)
        try:
            m = Ipf(ctx, laues, xs, ys, nc)
            v = m.value(np.array(ph))
            ex = xs or nc
            ey = ys or -(-len(ph) // ex)
            w = m.expect(ph, ex, ey)
            if v.shape != w.shape:
                ctx.bad(R, lab, m.f.loc(), 'the image has shape %s instead of %s' % (v.shape, w.shape))
                continue
            d = np.abs(v - w).max(-1)
            b = np.argwhere(~(d < 1e-6))
            ctx.verdict(not len(b), R, lab, m.f.loc(), 'the pixel of row %d, column %d does not show the colour of its own point, phase and direction (%s)' % (b[0][0], b[0][1], lab) if len(b) else '')
        except (Unknown, AnalysisError) as e:
            ctx.und(R, lab, str(e))
    C = ctx.rule('own-class', 'a phase of another Laue class is not coloured with the reduction of m-3m or 6/mmm', 9)
    for code in (1, 2, 22, 4, 42, 3, 32, 6, 23):
        for laues in ([code], [43, code], [code, 62]):
            k = laues.index(code)
            try:
                m = Ipf(ctx, laues, None, None, 3)
                ph = [k] * 6 if len(laues) == 1 else [k, 1 - k, k, k, 1 - k, k]
                v = m.value(np.array(ph)).reshape(-1, 3)
                bad = [w for i in range(6) if ph[i] == k for w in ('cubic', 'hex') if np.allclose(v[i], m.colour(w, k, i), atol=1e-6)]
                ctx.verdict(not bad, C, 'Laue %s' % laues if not bad else 'Laue %d' % code, m.f.loc(), 'points of a phase of Laue class %d are coloured with the %s reduction' % (code, bad[0] if bad else ''))
            except (Unknown, AnalysisError) as e:
                ctx.und(C, 'Laue %s' % laues, str(e))


RULES = [r_sym, r_rotate, r_image]
