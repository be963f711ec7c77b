"""Quaternion product, vector rotation, conjugate, normalisation and average: every variant (one-to-one, one-to-many, many-to-one,
elementwise, and the single-rotation kernels) is analysed on free symbols for both conventions; each output entry, in polynomial
normal form, must equal the quaternion algebra's defining polynomial of its own input rows (spec/pyebsdindex/rotref.py)."""
from sa.ctx import *
from rules._rot import *
ASSUMES = ['P=+1: (a,v)(b,w) = (ab - v.w, aw + bv + v x w) and rotation is the active sandwich product; P=-1 negates the cross product',
           'numpy.squeeze only removes axes of length one; numpy.require keeps values']


def run(ctx, name, args, n):
    f = ctx.func(RL + '.' + name)
    it = ctx.analyse(f.qual, args=args, unroll_par=True, unroll=40)
    return f, it.deep(it.result, it.state.heap)


def variants(ctx, R, name, kinds, ref, comps, single1):
    f = ctx.func(RL + '.' + name)
    ps = f.params()
    for n1, n2 in ((1, 1), (1, 3), (3, 1), (3, 3), (2, 3) if False else (2, 2)):
        for p in (1, -1):
            A, B = lit((n1, 4), 'a'), lit((n2, comps), 'b')
            a = A if n1 > 1 else A.args[0]
            b = B if n2 > 1 else B.args[0]
            f, r = run(ctx, name, {ps[0]: a, ps[1]: b, 'p': const(p)}, max(n1, n2))
            for i in range(max(n1, n2)):
                w = spec(ref, [A.args[min(i, n1 - 1)], B.args[min(i, n2 - 1)]], p)
                for k in range(comps):
                    got = single(r, (k,)) if n1 == n2 == 1 else at(r, (i, k))
                    entry(ctx, R, '%s(%dx%d)[p=%d][%d,%d]' % (name, n1, n2, p, i, k), f.loc(), got, at(w, (k,)), [(A, 'qu'), (B, kinds)])
    g = ctx.prog.funcs.get(RL + '.' + single1)
    if g is not None:
        for p in (1, -1):
            A, B = lit((4,), 'a'), lit((comps,), 'b')
            ps = g.params()
            g, r = run(ctx, single1, {ps[0]: A, ps[1]: B, 'p': const(p)}, 1)
            w = spec(ref, [A, B], p)
            for k in range(comps):
                entry(ctx, R, '%s[p=%d][%d]' % (single1, p, k), g.loc(), at(r, (k,)), at(w, (k,)), [(A, 'qu'), (B, kinds)])


def r_product(ctx):
    R = ctx.rule('quaternion-product', 'every variant of the quaternion product computes the defining polynomial of its own rows', 60)
    variants(ctx, R, 'quat_multiply', 'qu', 'quatmul', 4, 'quat_multiply1')


def r_vector(ctx):
    R = ctx.rule('vector-rotation', 'every variant of the vector rotation computes v + 2w(r x v) + 2 r x (r x v) of its own rows', 45)
    variants(ctx, R, 'quat_vector', 'v', 'quatvec', 3, 'quat_vector1')


def r_unary(ctx):
    R = ctx.rule('conjugate-and-norm', 'conjugation negates the vector part; normalisation divides by the length and makes the scalar part non-negative', 16)
    for name, ref in (('quatconj', 'quatconj'), ('quatnorm', 'quatnorm')):
        f = ctx.func(RL + '.' + name)
        A = lit((2, 4), 'a')
        f, r = run(ctx, name, {f.params()[0]: A}, 2)
        for i in (0, 1):
            w = spec(ref, [A.args[i]])
            for k in range(4):
                entry(ctx, R, '%s[%d,%d]' % (name, i, k), f.loc(), at(r, (i, k)), at(w, (k,)), [(A, 'qu')])


def r_average(ctx):
    R = ctx.rule('average', 'the average adds every quaternion once, with the sign that puts it in the hemisphere of the first, and normalises', 4)
    f = ctx.func(RL + '.quatave')
    A = lit((3, 4), 'a')
    f, r = run(ctx, 'quatave', {f.params()[0]: A}, 3)
    w = spec('quatave3', list(A.args))
    for k in range(4):
        entry(ctx, R, 'quatave[%d]' % k, f.loc(), single(r, (k,)), at(w, (k,)), [(A, 'qu')])
