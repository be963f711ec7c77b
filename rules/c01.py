"""Crystal matrices: the constructor is analysed on symbolic lattice parameters; every entry of the six matrices and the volume, in
normal form modulo sin^2+cos^2=1 and with the documented rounding of negligible entries removed, must equal the reference entry
(spec/pyebsdindex/cellref.py: metric = S^T S, reciprocal = inverse).  The pole products, plane/direction symmetry images and
three/four index conversions are analysed on literal symbolic rows the same way, and every consumer in the triplet-library
construction must be handed the reciprocal matrices of the phase."""
import math, random
from sa.ctx import *
from sa.evalt import Valuation, Unknown, samecases
from rules._rot import lit, at, SPEC, spec, entry
from sa.program import Program
from sa.interp import analyse
CR = 'pyebsdindex.crystallometry.Crystal'
TVM = 'pyebsdindex.tripletvote.BandIndexer.'
MATS = ('metricTensor', 'reciprocalMetricTensor', 'directStructureMatrix', 'invDirectStructureMatrix', 'reciprocalStructureMatrix', 'invReciprocalStructureMatrix')
ASSUMES = ['entries whose absolute value is below the constant threshold (at most 1e-5) may be set to zero', 'angles are in degrees']
PAR = ('a', 'b', 'c', 'alpha', 'beta', 'gamma')


def ref():
    if 'cell' not in _m:
        it = analyse(Program(SPEC), 'pyebsdindex.cellref.cell', scalars=PAR)
        _m['cell'] = it.deep(it.result, it.state.heap)
    return _m['cell']


_m = {}


def unround(t):
    """drop `0 if |x| < small else x`"""
    if t.op == 'ite':
        c, x, y = t.args
        neg = c.op == 'not'
        if neg:
            c, x, y = c.args[0], y, x
        if x is ZERO and c.op in ('lt', 'gt') and contains(c, lambda z: z.op == 'fn' and z.args[0] == 'abs'):
            k = [z for z in c.args if is_num(z)]
            if k and 0 <= cval(k[0]) <= 1e-5:
                return unround(y)
    return t


CELLS = [(3, 4, 5, 80, 95, 110), (.4, .5, .6, 90, 101, 90), (.4, .4, .9, 90, 90, 120), (5.1, 7.2, 2.3, 65, 77, 88), (1, 1, 1, 60, 60, 60), (.36, .36, .36, 90, 90, 90)]


def differs(got, want):
    good = 0
    for p in CELLS:
        v = Valuation(None, env={sym(n): x for n, x in zip(PAR, p)})
        try:
            x, y = v(got), v(want)
        except (Unknown, RecursionError):
            continue
        if isinstance(x, (list, complex)) or x != x:
            continue
        good += 1
        if abs(x - y) > 1e-7 * max(1, abs(y)) + 1.0e-6:
            return p, x, y
    return None if good else 'noeval'


def cmp(ctx, R, name, loc, got, want):
    if got is want or unround(got) is want or samecases(unround(got), want):
        return ctx.ok(R, name)
    w = differs(got, want)
    if w is None or w == 'noeval':
        ctx.und(R, name, 'not in the same normal form: ' + show(unround(got), 4))
    else:
        ctx.bad(R, name, loc, 'is %.6g where the defining relation gives %.6g for the cell %s' % (w[1], w[2], w[0]))


def r_matrices(ctx):
    R = ctx.rule('matrices', 'every entry of the metric and structure matrices is the standard one for all lattice parameters', 50)
    f = ctx.func(CR + '.__init__')
    it = ctx.analyse(f.qual, scalars=PAR)
    r = ref()
    for n, m in enumerate(MATS):
        v = it.getattr(it.self, m, it.state)
        v = it.deep(it.V(v, it.state), it.state.heap)
        for i in range(3):
            for j in range(3):
                cmp(ctx, R, '%s[%d,%d]' % (m, i, j), f.loc(), at(v, (i, j)), at(r, (n, i, j)))
    for n, m in ((6, 'mtDet'), (7, 'volume')):
        v = it.V(it.getattr(it.self, m, it.state), it.state)
        cmp(ctx, R, m, f.loc(), v, at(r, (n,)))
    for p in PAR:
        v = it.V(it.getattr(it.self, p, it.state), it.state)
        ctx.verdict(True if v is sym(p) else (False if v.op == 'sym' else None), R, 'stored-' + p, f.loc(), '%s is stored as %s' % (p, show(v, 3)))


def mats():
    x = sym('x_mats')
    return x, {('a', x, m): lit((3, 3), m) for m in MATS}


def matvec(M, v):
    return [add(add(mul(at(M, (i, 0)), v[0]), mul(at(M, (i, 1)), v[1])), mul(at(M, (i, 2)), v[2])) for i in range(3)]


def r_images(ctx):
    R = ctx.rule('symmetry-images', 'planes are rotated in the Cartesian frame of the reciprocal matrices, directions in that of the direct ones', 12)
    for name, a, b in (('_symrotpoles', 'reciprocalStructureMatrix', 'invReciprocalStructureMatrix'), ('_symrotdir', 'directStructureMatrix', 'invDirectStructureMatrix')):
        f = ctx.prog.funcs.get(TVM + name)
        if f is None:
            ctx.und(R, name, 'gone')
            continue
        x, heap = mats()
        q, p = lit((2, 4), 'q'), lit((3,), 'h')
        ps = f.params()
        it = ctx.analyse(f.qual, args={ps[1]: p, ps[2]: x}, selfattrs={'qsymops': q}, heap=heap, unroll_par=True, unroll=40)
        r = it.deep(it.result, it.state.heap)
        for i in range(2):
            w = spec('quatvec', [q.args[i], mk('list', *matvec(heap[('a', x, a)], p.args))], 1)
            w = matvec(heap[('a', x, b)], [at(w, (k,)) for k in range(3)])
            for k in range(3):
                entry(ctx, R, '%s[%d,%d]' % (name, i, k), f.loc(), at(r, (i, k)), w[k], [(q, 'qu'), (p, 'v')] + [(m, 'om') for m in heap.values()])


def r_products(ctx):
    R = ctx.rule('pole-products', 'normalised products use the metric on both sides and in both norms; Cartesian poles are the structure matrix times the indices', 10)
    f = ctx.prog.funcs.get(TVM + '_calc_pole_dot_int')
    if f is not None:
        p1, p2, M = lit((2, 3), 'u'), lit((3, 3), 'w'), lit((3, 3), 'm')
        ps = f.params()
        # the metric is symmetric: say so by sharing symbols
        g = M.args
        M = mk('list', *[mk('list', *[g[min(i, j)].args[max(i, j)] for j in range(3)]) for i in range(3)])
        it = ctx.analyse(f.qual, args={ps[1]: p1, ps[2]: p2, ps[3]: M}, unroll_par=True)
        r = it.deep(it.result, it.state.heap)
        w = spec_dots(p1, p2, M)
        for i in range(2):
            for j in range(3):
                got = at(r, (i, j))
                got = unclip(got)
                entry(ctx, R, 'dot[%d,%d]' % (i, j), f.loc(), got, at(w, (i, j)), [(p1, 'v'), (p2, 'v'), (M, 'om')])
    f = ctx.prog.funcs.get(TVM + '_xstalplane2cart')
    if f is not None:
        p, M = lit((2, 3), 'h'), lit((3, 3), 'm')
        ps = f.params()
        it = ctx.analyse(f.qual, args={ps[1]: p, ps[2]: M})
        r = it.deep(it.result, it.state.heap)
        for i in range(2):
            w = matvec(M, p.args[i].args)
            for k in range(3):
                entry(ctx, R, 'cart[%d,%d]' % (i, k), f.loc(), at(r, (i, k)), w[k], [(p, 'v'), (M, 'om')])


def unclip(t):
    while t.op == 'fn' and t.args[0] in ('min', 'max', 'clip') or t.op == 'call' and t.args[0].endswith('clip'):
        xs = [x for x in (t.args[1:] if t.op == 'fn' else t.args[1]) if not is_num(x)]
        if len(xs) != 1:
            return t
        t = xs[0]
    return t


def spec_dots(p1, p2, M):
    it = analyse(Program(SPEC), 'pyebsdindex.cellref.dots', args={'p1': p1, 'p2': p2, 'm': M})
    return it.deep(it.result, it.state.heap)


def r_indices(ctx):
    R = ctx.rule('index-notation', '(hkil) and (hkl) describe the same plane; [uvtw] and [uvw] the same direction', 12)
    p4, p3 = lit((2, 4), 'p'), lit((2, 3), 'h')
    f = ctx.func('pyebsdindex.crystal_sym.hex4poles2hex3poles')
    it = ctx.analyse(f.qual, args={f.params()[0]: p4})
    r = it.deep(it.result, it.state.heap)
    for i in range(2):
        for k, s in enumerate((0, 1, 3)):
            entry(ctx, R, 'hkil2hkl[%d,%d]' % (i, k), f.loc(), at(r, (i, k)), p4.args[i].args[s], [(p4, 'qu')])
    f = ctx.func('pyebsdindex.crystal_sym.hex3poles2hex4poles')
    it = ctx.analyse(f.qual, args={f.params()[0]: p3})
    r = it.deep(it.result, it.state.heap)
    for i in range(2):
        h = p3.args[i].args
        for k, w in enumerate((h[0], h[1], neg(add(h[0], h[1])), h[2])):
            entry(ctx, R, 'hkl2hkil[%d,%d]' % (i, k), f.loc(), at(r, (i, k)), w, [(p3, 'v')])
    f = ctx.prog.funcs.get('pyebsdindex.crystallometry.uvtw2uvw')
    if f is not None:
        u = lit((4,), 'u')
        it = ctx.analyse(f.qual, args={f.params()[0]: u})
        r = it.deep(it.result, it.state.heap)
        gs = []
        contains(r, lambda t: t.op == 'call' and t.args[0] == 'gcd' and gs.append(t) and False)
        g = [subst(at(r, (k,)), {x: ONE for x in gs}) for k in range(3)]
        w = [sub(u.args[0], u.args[2]), sub(u.args[1], u.args[2]), u.args[3]]
        # Common scale: cross products of result and expected indices vanish.  For u+v+t=0, [u-t, v-t, w] = [2u+v, u+2v, w].
        for k, (i, j) in enumerate(((0, 1), (1, 2), (0, 2))):
            x = sub(mul(g[i], w[j]), mul(g[j], w[i]))
            entry(ctx, R, 'uvtw2uvw-%d%d' % (i, j), f.loc(), x, ZERO, [(u, 'qu')])


def chain(t):
    """root object and attribute path of an attribute access"""
    p = []
    while t.op == 'attr':
        p.insert(0, t.args[1])
        t = t.args[0]
    return t, p


def r_consumers(ctx):
    R = ctx.rule('consumers', 'the triplet library is built with the reciprocal matrices of the phase, and four-index reflectors are converted for every lattice that allows them', 5)
    f = ctx.func(TVM + 'build_trip_lib')
    B = {TVM + n for n in ('_symrotpoles', '_hkl_unique', '_calc_pole_dot_int', '_xstalplane2cart', '_sortlib_id', '_symrotdir')}
    x, heap = mats()
    it = ctx.analyse(f.qual, boundary=B, selfattrs={'crystalmats': x}, heap=heap, unroll=0)
    want = {'rMetricTensor': 'reciprocalMetricTensor', 'rMT': 'reciprocalMetricTensor', 'rStructMatrix': 'reciprocalStructureMatrix'}
    n = {}
    for e in it.events:
        if e.kind != 'call' or e.name not in B:
            continue
        nm = e.name.split('.')[-1]
        for p, m in want.items():
            if p in e.bound and nm != '_hkl_unique':
                v = it.deep(it.V(e.bound[p], it.state), it.state.heap)
                n[nm] = n.get(nm, 0) + 1
                good = True if v is heap[('a', x, m)] else (False if any(v is h for h in heap.values()) or v.op in ('list', 'call', 'default') or is_const(v) else None)
                ctx.verdict(good, R, '%s-%s#%d' % (nm, p, n[nm]), e.loc, '%s of %s is %s, want the phase\'s %s' % (p, nm, show(v, 3), m))
        if nm == '_hkl_unique':
            v = it.deep(it.V(e.bound.get('rMT', NONE), it.state), it.state.heap)
            red = it.V(e.bound.get('reduceInversion', NONE), it.state)
            if red is not FALSE:
                n[nm] = n.get(nm, 0) + 1
                ctx.verdict(True if v is heap[('a', x, 'reciprocalMetricTensor')] else (False if v.op in ('list', 'call', 'default') or is_const(v) or v in heap.values() else None), R,
                            '_hkl_unique#%d' % n[nm], e.loc, 'inversion is reduced with the metric ' + show(v, 3))
    # three-index form of the reflectors, per Laue class
    for code in (2, 62, 6, 32, 3, 42, 4, 22, 43, 23, 1):
        pf = lit((3, 4), 'p') if code in (62, 6, 32, 3) else lit((4, 3), 'p')
        it = ctx.analyse(f.qual, boundary=B, selfattrs={'crystalmats': x, 'lauecode': const(code), 'polefamilies': pf, 'latticeparameter': lit((6,), 'l')}, heap=heap, unroll=8)
        rows = []
        for e in it.events:
            if e.kind == 'call' and e.name == TVM + '_symrotpoles':
                v = it.deep(it.V(e.bound[e.callee.params()[1]], it.state), it.state.heap)
                rows.append((v, e))
        if not rows:
            ctx.und(R, 'reflectors-laue%d' % code, 'no symmetry image is taken')
            continue
        sel4 = (0, 1, 3) if pf.args[0].args.__len__() == 4 else (0, 1, 2)
        want_ = [mk('list', *[r.args[k] for k in sel4]) for r in pf.args]
        ok = None
        if len(rows) == len(want_) and all(v.op == 'list' for v, e in rows):
            ok = all(v is w for (v, e), w in zip(rows, want_))
        elif all(v.op == 'list' and all(a.op == 'sym' for a in v.args) for v, e in rows):
            ok = False
        ctx.verdict(ok, R, 'reflectors-laue%d' % code, rows[0][1].loc, 'reflector rows become %s, want %s' % ([show(v, 3) for v, e in rows], [show(w, 3) for w in want_]))
