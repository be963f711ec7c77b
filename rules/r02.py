"""Every public conversion of rotlib is analysed on two rows of free symbols (and one row), for both conventions; each entry of
each output row is extracted in normal form and compared with the reference formula of the published convention
(spec/pyebsdindex/rotref.py) for the same input row.  Composite conversions must be a type-correct chain of conversions that
hands p on.  For any number of rows, stores into the result must address the row of the loop."""
from sa.ctx import *
from rules._rot import *
ASSUMES = ['the convention is that of Rowenhorst et al. 2015, P=+1 by default', 'real arithmetic; thresholds 1e-12 as published']
ELEM = ['eu2om', 'eu2ax', 'eu2qu', 'om2eu', 'ax2om', 'qu2eu', 'ax2ho', 'ho2ax', 'ro2ax', 'ax2ro', 'ax2qu', 'ro2ho', 'qu2om', 'om2qu', 'qu2ax', 'qu2ro', 'qu2ho']
COMP = ['eu2ro', 'ro2om', 'ro2eu', 'eu2ho', 'om2ax', 'om2ro', 'om2ho', 'ax2eu', 'ro2qu', 'ho2eu', 'ho2om', 'ho2ro', 'ho2qu', 'eu2cu', 'om2cu', 'ax2cu', 'ro2cu',
        'qu2cu', 'cu2eu', 'cu2om', 'cu2ax', 'cu2ro', 'cu2qu']


def roundfix(t):
    """conditions |x| > 1 on a direction cosine are rounding guards: never true over the reals"""
    g = {c.args[0]: False for c in subterms(t) if c.op == 'ite' and isguard(c.args[0])}
    return inst(t, g) if g else t


def isguard(c):
    return c.op in ('lt', 'gt') and any(a is ONE for a in c.args) and any(a.op == 'fn' and a.args[0] == 'abs' for a in c.args)


def r_formula(ctx):
    R = ctx.rule('conversion-formula', 'entry (i,j) of the result is the reference formula applied to row i of the input', 180)
    for n in ELEM:
        f = ctx.func(RL + '.' + n)
        a, b = n.split('2')
        for p in (1, -1):
            X = lit((2,) + SHAPE[a], 'x')
            it = ctx.analyse(f.qual, args={f.params()[0]: X, 'p': const(p)}, unroll_par=True, unroll=40)
            r = it.deep(it.result, it.state.heap)
            for i in (0, 1):
                w = spec(n, [X.args[i]], p)
                for k in idx(SHAPE[b]):
                    got = at(r, (i,) + k)
                    entry(ctx, R, '%s[p=%d][%d,%s]' % (n, p, i, ','.join(map(str, k))), f.loc(), roundfix(got), at(w, k), [(X, a)], angle=b == 'eu' and k != (1,))


def r_norm(ctx):
    R = ctx.rule('axis-normalisation', 'axis-angle normalisation gives a unit axis and an angle in [0, pi], row by row', 8)
    f = ctx.func(RL + '.axnorm')
    X = lit((2, 4), 'x')
    it = ctx.analyse(f.qual, args={f.params()[0]: X}, unroll_par=True)
    r = it.deep(it.result, it.state.heap)
    for i in (0, 1):
        w = spec('axnorm', [X.args[i]])
        for k in range(4):
            entry(ctx, R, 'axnorm[%d,%d]' % (i, k), f.loc(), at(r, (i, k)), at(w, (k,)), [(X, 'ax')])


def r_compose(ctx):
    R = ctx.rule('composite-chain', 'a composite conversion is a chain of conversions from its source to its target form, each given the caller\'s p', 23)
    convs = {RL + '.' + x for x in ELEM + COMP + ['ho2cu', 'cu2ho']}
    for n in COMP:
        f = ctx.func(RL + '.' + n)
        a, b = n.split('2')
        x, p = sym('x_in'), sym('p_in')
        it = ctx.analyse(f.qual, args={f.params()[0]: x, 'p': p}, boundary=convs)
        t = it.deep(it.result, it.state.heap)
        chain, cur, want = [], t, b
        res = None
        while res is None:
            if cur is x:
                res = (True, '') if want == a else (False, 'the chain %s ends with form %s but the argument is %s' % ('<-'.join(chain), want, a))
            elif cur.op == 'ret' and cur.args[0] in convs:
                m = cur.args[0].split('.')[-1]
                d = dict(cur.args[1])
                g = ctx.func(cur.args[0])
                s, e = m.split('2')
                chain.append(m)
                if e != want:
                    res = (False, '%s yields form %s where %s is needed (%s)' % (m, e, want, '<-'.join(chain)))
                    break
                pv = d.get('p')
                if pv is not p:
                    if pv is not None and not contains(pv, p):
                        res = (False, '%s is called with p=%s instead of the caller\'s p' % (m, show(pv, 2)))
                    else:
                        res = (None, 'p is ' + show(pv, 3))
                    break
                cur, want = d[g.params()[0]], s
            else:
                res = (None, 'not a chain of conversions: ' + show(cur, 4))
        ctx.verdict(res[0], R, n, f.loc(), res[1])


def r_rows(ctx):
    R = ctx.rule('row-own', 'for any number of rows, a conversion kernel writes only the row of the input row it is processing', 25)
    for q, f in sorted(ctx.prog.funcs.items()):
        if f.module.name != RL or f.cls or f.parent or not any('jit' in ast_name(d) for d in f.node.decorator_list):
            continue
        try:
            it = ctx.analyse(q, boundary={x for x in ctx.prog.funcs if x != q and not x.endswith('prepIn')})
        except Exception as e:
            ctx.und(R, f.qual.split('.')[-1], 'analysis: %r' % (e,))
            continue
        bad = und = n = 0
        for e in it.events:
            if e.kind != 'store' or not e.loops:
                continue
            shp = it.shape(e.root, it.state)
            if shp is None or shp.op != 'tuple' or is_num(shp.args[0]):
                continue        # scratch of fixed size
            n += 1
            k0 = keytuple(e.full if e.full is not None else e.key)[0]
            if k0.op == 'nested':
                k0 = keytuple(k0.args[0])[0]
            row = mk('it', e.loops[0].id)
            off = sub(k0, row)
            if k0 is row:
                continue
            if not contains(k0, lambda t: t.op == 'it') or is_num(off):
                bad += 1
                ctx.bad(R, '%s-%s' % (f.qual.split('.')[-1], show(k0, 3)), e.loc, 'in the loop over rows, row %s of the result is written instead of the row being processed' % show(k0, 3))
            else:
                und += 1
                ctx.und(R, f.qual.split('.')[-1], 'row index %s' % show(k0, 3))
        if n and not bad and not und:
            ctx.ok(R, f.qual.split('.')[-1], '%d stores' % n)


def ast_name(d):
    import ast
    return ast.unparse(d)


def r_lambert(ctx):
    R = ctx.rule('ball-cube-map', 'row i of the homochoric/cubochoric maps is the single-vector Lambert map of row i', 12)
    for n, m in (('ho2cu', 'lambert3DBallToCube'), ('cu2ho', 'lambert3DCubeToBall')):
        f, g = ctx.func(RL + '.' + n), ctx.func(RL + '.' + m)
        a = n.split('2')[0]
        X = lit((2, 3), 'x')
        it = ctx.analyse(f.qual, args={f.params()[0]: X, 'p': const(1)}, unroll_par=True, unroll=40)
        r = it.deep(it.result, it.state.heap)
        for i in (0, 1):
            it2 = ctx.analyse(g.qual, args={g.params()[0]: X.args[i]}, unroll=40)
            w = it2.deep(it2.result, it2.state.heap)
            for k in range(3):
                entry(ctx, R, '%s[%d,%d]' % (n, i, k), f.loc(), at(r, (i, k)), at(w, (k,)), [(X, a)])
