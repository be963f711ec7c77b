"""Symmetry operator tables: the Laue id is propagated as a constant through the dispatcher, the returned table is folded to
numbers and checked completely against the group it must be (unit norm, order, distinctness, closure, axes).  The optional
quaternion argument must yield operator * argument for every operator."""
import math
from sa.ctx import *
from sa.evalt import fold, flat, nan, compare
CS = 'pyebsdindex.crystal_sym'
ASSUMES = ['Laue ids as documented: 43 m-3m, 23 m-3, 62 6/mmm, 6 6/m, 32 -3m, 3 -3, 42 4/mmm, 4 4/m, 22 mmm, 2 2/m (b unique), 1 -1',
           'hexagonal axes: a along x, c along z']
ORDER = {43: 24, 23: 12, 62: 12, 6: 6, 32: 6, 3: 3, 42: 8, 4: 4, 22: 4, 2: 2, 1: 1}


def qmul(a, b):
    return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]


def rot(axis, deg):
    n = math.sqrt(sum(x * x for x in axis))
    h = math.radians(deg) / 2
    return [math.cos(h)] + [math.sin(h) * x / n for x in axis]


def same(a, b):
    return min(max(abs(x - y) for x, y in zip(a, b)), max(abs(x + y) for x, y in zip(a, b))) < 2e-6


def generate(gens):
    g = [[1.0, 0, 0, 0]]
    ch = True
    while ch:
        ch = False
        for a in list(g):
            for b in gens:
                c = qmul(a, b)
                if not any(same(c, x) for x in g):
                    g.append(c)
                    ch = True
    return g


GENS = {43: [rot((0, 0, 1), 90), rot((1, 1, 1), 120)], 23: [rot((0, 0, 1), 180), rot((1, 1, 1), 120)],
        62: [rot((0, 0, 1), 60), rot((1, 0, 0), 180)], 6: [rot((0, 0, 1), 60)], 32: [rot((0, 0, 1), 120), rot((1, 0, 0), 180)],
        3: [rot((0, 0, 1), 120)], 42: [rot((0, 0, 1), 90), rot((1, 0, 0), 180)], 4: [rot((0, 0, 1), 90)],
        22: [rot((0, 0, 1), 180), rot((1, 0, 0), 180)], 2: [rot((0, 1, 0), 180)], 1: []}


def name(q):
    return '(%s)' % ', '.join('%.4g' % x for x in q)


def table(ctx, l):
    q = CS + '.laueid2symops'
    p = ctx.func(q).params()[0]
    it = ctx.analyse(q, args={p: l}, unroll=400)
    r = it.deep(it.result, it.state.heap)
    return fold(r), r


def r_groups(ctx):
    R = ctx.rule('laue-group', 'the operator table of each Laue id is exactly the proper rotation group of that class', 11)
    f = ctx.func(CS + '.laueid2symops')
    for l, n in ORDER.items():
        G = generate(GENS[l])
        assert len(G) == n
        t, term = table(ctx, l)
        if t is None and is_const(term) and term is NONE:
            ctx.bad(R, 'laue%d' % l, f.loc(), 'no operators are returned for Laue id %d' % l)
            continue
        if t is None or not isinstance(t, list) or any(not isinstance(r, list) or len(r) != 4 for r in t) or any(not isinstance(x, (int, float)) for x in flat(t)):
            ctx.und(R, 'laue%d' % l, 'table does not fold to an (n,4) constant: ' + show(term, 4))
            continue
        err = []
        if any(nan(x) for x in flat(t)):
            err.append('uninitialised entries')
        for i, q in enumerate(t):
            if abs(sum(x * x for x in q) - 1) > 1e-5:
                err.append('row %d %s is not a unit quaternion' % (i, name(q)))
            elif not any(same(q, g) for g in G):
                err.append('row %d %s is not an operation of this class' % (i, name(q)))
            for j in range(i):
                if same(q, t[j]):
                    err.append('rows %d and %d are the same rotation' % (j, i))
        for g in G:
            if not any(same(q, g) for q in t):
                err.append('operation %s is missing' % name(g))
        if len(t) != n:
            err.append('%d operators, group order is %d' % (len(t), n))
        if err:
            ctx.bad(R, 'laue%d' % l, f.loc(), '; '.join(err[:6]))
        else:
            ctx.ok(R, 'laue%d' % l, '%d operators' % n)


def r_argument(ctx):
    R = ctx.rule('sym-equivalents', 'the operator functions given a quaternion return operator*quaternion for every operator of the table', 7)
    for fn_, l in (('cubicsym_q', 43), ('hexsym_q', 62), ('trigonal_q', 32), ('tetragonal_q', 42), ('orthorhombic_q', 22), ('monoclinic_q', 2), ('triclinic_q', 1)):
        q = CS + '.' + fn_
        f = ctx.func(q)
        ps = f.params()
        it = ctx.analyse(q, args={ps[0]: sym('qin'), ps[1]: FALSE}, boundary={'pyebsdindex.rotlib.quat_multiply'}, unroll=400)
        r = it.result
        if r.op == 'ite':
            r = inst(r, {isnone(sym('qin')): False})
        if r.op != 'ret' or not r.args[0].endswith('rotlib.quat_multiply'):
            ctx.und(R, fn_, 'result is not a quaternion product: ' + show(r, 3))
            continue
        mp = ctx.func('pyebsdindex.rotlib.quat_multiply').params()
        d = dict(r.args[1])
        a = [it.deep(d[x], it.state.heap) for x in mp[:2]]
        t0 = fold(a[0])
        ref, _ = table(ctx, l)
        if a[1] is sym('qin') and t0 is not None and ref is not None:
            ctx.verdict(t0 == ref, R, fn_, f.loc(), 'operators multiplied with the argument differ from the returned table')
        elif a[0] is sym('qin'):
            ctx.bad(R, fn_, f.loc(), 'the argument is multiplied from the wrong side')
        else:
            ctx.und(R, fn_, 'operands: %s, %s' % (show(a[0], 3), show(a[1], 3)))
