"""The swarm is followed symbolically for small swarms (unknown random numbers, unknown costs) through up to four iterations; every position
handed to the cost function and the pair that is returned become terms over the random draws and the costs.  These terms are then evaluated
for many draws and cost patterns (ties, infinities, improving and worsening costs, positions far outside): every position must
lie within the bounds, the returned cost must be the least of the costs answered and the returned place must be the place that had it, for
every number of iterations.  Both optimisers are followed with an abstract indexer for each vendor and mode: at every normal exit each
attribute of the indexer and the contents of its pattern centre are what they were, the search gets the start, limits and bands it should,
and result row i is what the search for pattern i found."""
import ast
import numpy as np
import itertools
from sa.ctx import *
from sa.evalt import Unknown
from sa.npeval import NV
from rules.v01 import optimiser, PCM
from rules._rot import lit
from sa.term import subterms
PSO = PCM + 'PSOOpt'
ASSUMES = ['numpy.random.uniform draws within the limits it is given', 'swarms behave alike for every number of particles, dimensions and iterations: 1 to 4 particles, 1 to 3 dimensions and 1 to 4 iterations are followed',
           'costs are numbers (never not-a-number)',
           'the search function of SciPy does not touch the indexer beyond calling the cost function']


def follow(ctx, N, D, K, hyper='static', exit_=NONE, start=True, bounds=True, args=None):
    """the swarm search with symbolic draws and costs -> interpreter, [(cost, place, condition, keywords)]"""
    q = ctx.prog.method(ctx.prog.cls(PSO), 'optimize').qual
    seen = []
    fun = sym('function')

    def call(it, f, args, vals, kv, st, node):
        if f is not fun:
            return None
        seen.append((sym('cost%d' % len(seen)), it.deep(it.V(args[0], st), st.heap) if args else None, andb(*st.pc) if st.pc else TRUE,
                     {k: it.V(v, st) for k, v in kv.items()}, node))
        return seen[-1][0]
    # the object as its constructor leaves it
    ini = ctx.prog.method(ctx.prog.cls(PSO), '__init__')
    a = ini.node.args
    dflt = {x.arg: const(d.value) for x, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults) if isinstance(d, ast.Constant) and not isinstance(d.value, float)}
    i0 = ctx.analyse(ini.qual, args=dict(dflt, n_particles=const(N), dimensions=const(D), c1=sym('c1'), c2=sym('c2'), w=sym('w'), hyperparammethod=const(hyper), early_exit=exit_))
    sa = {k[2]: i0.deep(i0.V(v, i0.state), i0.state.heap) for k, v in i0.state.heap.items() if k[0] == 'a' and k[1] is i0.self}
    a = dict(function=fun, niter=const(K), verbose=ZERO)
    if start:
        a['start'] = sym('start')
    if bounds:
        a['bounds'] = mk('tuple', sym('lb'), sym('ub'))
    if not start:
        a['start'] = NONE
    if not bounds:
        a['bounds'] = NONE
    kw = mk('dict', (const('indexer'), sym('the_indexer')), (const('banddat'), sym('the_bands')))
    va = ctx.prog.funcs[q].node.args.kwarg
    if va is not None:
        a[va.arg] = kw
    it = ctx.analyse(q, selfattrs=sa, args=a, types=None, hooks={'dynamic': call}, unroll=20, arrays=['start'])
    for s in ('start', 'lb', 'ub'):
        it.arrays.add(sym(s))
    return it, seen


class Draws:
    """values for the random calls of one run"""

    def __init__(self, it, rng, scale):
        self.rng, self.scale, self.got = rng, scale, {}

    def funcs(self, nv):
        def uniform(low=0.0, high=1.0, size=None):
            return self.rng.uniform(low, high, size)

        def normal(loc=0.0, scale=1.0, size=None):
            return self.rng.normal(loc, scale, size) * self.scale

        def unit(*size, **kw):
            s = kw.get('size', size if len(size) != 1 else size[0])
            return self.rng.random_sample(s)
        return {'uniform': uniform, 'normal': normal, 'random': unit, 'random_sample': unit, 'rand': unit, 'standard_normal': lambda *s, **k: normal(size=k.get('size', s if len(s) != 1 else s[0])),
                'randn': lambda *s: normal(size=s)}


class RNV(NV):
    """a random call has one value per place in the run"""

    def ev(self, t):
        if t.op == 'ret' and isinstance(t.args[0], str) and t.args[0].startswith('numpy.random.'):
            n = t.args[0].rsplit('.', 1)[1]
            if n not in self.rnd:
                raise Unknown(t.args[0])
            xs = [self(x) for x in t.args[1]]
            kw = {k: self(v) for k, v in t.args[2] if k != 'dtype'}
            st = self.seeds.setdefault(t, (len(self.seeds) * 7919 + self.seed) % (2 ** 31))
            old = self.draws.rng
            self.draws.rng = np.random.RandomState(st)
            try:
                return self.rnd[n](*xs, **kw)
            finally:
                self.draws.rng = old
        return NV.ev(self, t)


PATTERNS = ('random', 'falling', 'rising', 'ties', 'equal', 'inf', 'one good', 'each later particle better', 'holder improves')


def costs(kind, n, N, rng):
    c = rng.rand(n) * 3
    i = np.arange(n)
    if kind == 'falling':
        c = 10. - i + rng.rand(n) * .1
    elif kind == 'rising':
        c = 1. + i + rng.rand(n) * .1
    elif kind == 'ties':
        c = np.floor(c)
    elif kind == 'equal':
        c = np.ones(n)
    elif kind == 'inf':
        c = np.where(rng.rand(n) < .4, np.inf, c)
    elif kind == 'one good':
        c = np.ones(n) * 5
        c[rng.randint(n)] = .5
    elif kind == 'each later particle better':
        c = 10. - (i % N) + (i // N) * rng.rand()
    elif kind == 'holder improves':
        c = np.where(i % N == 0, 4. - i // N, 5. - i // N * .1) - rng.rand(n) * .05
        j = rng.randint(N)
        c = c.reshape(-1, N)
        c[-1, j] = .01 if rng.rand() < .5 else c[-1, j]
        c = c.ravel()
    return c


SHAPES = ((3, 2, 1), (3, 2, 2), (3, 2, 3), (4, 1, 4), (1, 3, 2), (2, 3, 3))


def r_swarm(ctx):
    B = ctx.rule('bounds', 'every position the swarm hands to the cost function lies within the bounds', 12)
    G = ctx.rule('best', 'the cost returned is the least one seen, and the place returned is where it was seen', 12)
    W = ctx.rule('keywords', 'every evaluation gets the keywords of the search unchanged', 6)
    f = ctx.prog.method(ctx.prog.cls(PSO), 'optimize')
    up = ctx.prog.method(ctx.prog.cls(PSO), 'updateswarmbest') or f
    cases = [(s, 'static', NONE, True, True) for s in SHAPES] + [((3, 2, 3), 'auto', NONE, True, True), ((3, 2, 3), 'auto', const(1e-4), True, True), ((3, 2, 3), 'static', const(5), True, True),
                                                                 ((3, 2, 2), 'static', NONE, False, True), ((3, 2, 2), 'static', NONE, True, False), ((2, 2, 2), 'static', NONE, False, False)]
    for (N, D, K), hyper, ex, start, bounds in cases:
        con = '%d particles, %d dimensions, %d iterations, %s%s%s%s' % (N, D, K, hyper, '' if ex is NONE else ', early exit', '' if start else ', no start', '' if bounds else ', no bounds')
        it, seen = follow(ctx, N, D, K, hyper, ex, start, bounds)
        if not seen or any(p is None for _, p, _, _, _ in seen):
            ctx.und(B, con, 'no evaluation of the cost function found')
            ctx.und(G, con, 'no evaluation of the cost function found')
            continue
        loc = '%s:%d' % (up.module.path, seen[0][4].lineno)
        if len(seen) != N * K:
            ctx.und(B, con, '%d evaluations where %d are expected' % (len(seen), N * K))
        wrong = [k for _, _, _, kw, _ in seen for k, v in (('indexer', sym('the_indexer')), ('banddat', sym('the_bands'))) if kw.get(k) is not v and not ('**' in kw and sel(kw['**'], const(k)) is v)]
        odd = [x for _, _, _, kw, _ in seen for x in kw.values() if x.op not in ('sym', 'dict', 'const')]
        if wrong and not odd:
            ctx.bad(W, con, loc, 'the cost function does not get %s as the search was given it' % wrong[0])
        elif wrong:
            ctx.und(W, con, 'keywords not extracted')
        else:
            ctx.ok(W, con)
        res = it.deep(it.result, it.state.heap)
        out, opt, und, done = None, None, None, 0
        for trial, kind in itertools.product(range(3 if ctx.tier == "quick" else 12), PATTERNS):
            rng = np.random.RandomState(trial * 101 + PATTERNS.index(kind))
            lb = rng.uniform(-2, 1, D)
            ub = lb + rng.uniform(.05, 1.5, D) * np.where(rng.rand(D) < .3, .05, 1)
            if not bounds:
                lb, ub = -np.ones(D), np.ones(D)
            env = {sym('start'): lb + (ub - lb) * rng.rand(D), sym('lb'): lb, sym('ub'): ub, sym('c1'): rng.uniform(.5, 4), sym('c2'): rng.uniform(.5, 4), sym('w'): rng.uniform(.4, 1.2)}
            cs = costs(kind, len(seen), N, rng)
            for (s, _, _, _, _), c in zip(seen, cs):
                env[s] = float(c)
            nv = RNV(env=env)
            nv.draws = Draws(it, rng, 1.0)
            nv.rnd, nv.seeds, nv.seed = nv.draws.funcs(nv), {}, trial * 31 + 5
            try:
                vals = []
                for s, p, pc, _, _ in seen:
                    if not nv.truth(pc):
                        continue
                    x = np.asarray(nv(p), float).ravel()
                    vals.append((env[s], x))
                    if x.shape != (D,):
                        raise Unknown('a place of %d values' % x.size)
                    if not (np.all(x >= lb - 1e-12) and np.all(x <= ub + 1e-12)):
                        out = out or 'evaluation %d of the swarm is at %s, outside the bounds %s to %s' % (len(vals), np.round(x, 3), np.round(lb, 3), np.round(ub, 3))
                good = [(c, x) for c, x in vals if not np.isnan(c)]
                if isinstance(res, T) and res.op == 'tuple' and len(res.args) == 2:
                    g, x = float(np.asarray(nv(res.args[0]), float)), np.asarray(nv(res.args[1]), float).ravel()
                else:
                    raise Unknown('the result is %s' % show(res, 2))
                best = min([c for c, _ in good] + [np.inf])
                if g != best:
                    opt = opt or 'the cost returned is %g but the least one seen was %g (costs %s)' % (g, best, np.round([c for c, _ in vals], 2))
                elif np.isfinite(best) and not any(c == best and np.allclose(y, x, atol=1e-12, rtol=1e-12) for c, y in good):
                    opt = opt or 'the place returned is not the one whose cost was the least (costs %s)' % np.round([c for c, _ in vals], 2)
                done += 1
            except Unknown as e:
                und = str(e)[:160]
                break
        for R, bad, l in ((B, out, loc), (G, opt, f.loc())):
            if bad:
                ctx.bad(R, con, l, bad)
            elif und:
                ctx.und(R, con, und)
            else:
                ctx.ok(R, con, '%d draws' % done)


def r_restore(ctx):
    R = ctx.rule('restore', 'at every normal exit of an optimiser each attribute of the indexer is what it was', 24)
    ix, bp, own = sym('x_indexer'), sym('x_plan'), sym('x_ownpc')
    for fn_ in ('optimize', 'optimize_pso'):
        for batch in (False, True):
            for ven in ('EMSOFT', 'EDAX', 'OXFORD', 'emsoft', 'BRUKER'):
                for case in ('', 'given centre', 'with costs'):
                    if case == 'with costs' and fn_ == 'optimize':
                        continue
                    con = '%s %s%s%s' % (fn_, ven, ' batch' if batch else '', case and ' ' + case)
                    pc1 = None
                    if case == 'with costs':
                        f, it, found, bd, ix_, dim, pc0, own = searches(ctx, fn_, batch, ven, const(0.2))
                    else:
                        f, it, starts, pc0, pc1, dim, found, pco = optimiser(ctx, fn_, batch, ven, bool(case))
                    want = {('a', ix, 'vendor'): const(ven), ('a', ix, 'bandDetectPlan'): bp, ('a', bp, 'patDim'): dim, ('a', ix, 'PC'): own, ('c', own): pc0}
                    ends = [x for x in it.frame.exits if x[0] == 'return']
                    if not ends or not found:
                        ctx.und(R, con, 'no normal exit with a search was found')
                        continue
                    bad = und = None
                    for k, st, v, nd in ends:
                        b, u = changed(it, st, want, (ix, bp), own, pc0, pc1)
                        bad, und = bad or b and ('%s:%d' % (f.module.path, nd.lineno), b), und or u
                    if bad:
                        ctx.bad(R, con, *bad)
                    elif und:
                        ctx.und(R, con, und + ' not extracted')
                    else:
                        ctx.ok(R, con)


def changed(it, st, want, objs, own, pc0, pc1):
    """(what differs from before, what is not extracted)"""
    und = None
    for key, x in st.heap.items():
        if not (key[0] == 'a' and key[1] in objs or key == ('c', own)):
            continue
        y = it.V(x, st)
        w = want.get(key) if key in want else mk('attr', key[1], key[2])
        name = 'the pattern centre (in place)' if key[0] == 'c' else ('' if key[1] is objs[0] else 'bandDetectPlan.') + key[2]
        if x is w or y is w:
            continue
        if key[0] == 'c' or key[2] == 'PC':
            a = it.deep(y, st.heap)
            if same3(a, pc0):
                continue
            if pc1 is not None and same3(a, pc1) or not contains(a, lambda t: t.op in ('ret', 'opaque', 'ite')):
                return 'the pattern centre of the indexer is left at %s' % show(a, 3), None
            und = und or name
        elif y.op == 'ite' or contains(y, lambda t: t.op in ('opaque', 'ret')):
            und = und or name
        else:
            return '%s of the indexer is left at %s' % (name, show(y, 3)), None
    return None, und


def same3(a, b):
    try:
        return len(b.args) > 0 and all(sel(a, const(i)) is sel(b, const(i)) for i in range(len(b.args)))
    except Exception:
        return False


def searches(ctx, fn_, batch, ven, limit, given=False):
    """follow an optimiser with the search itself left abstract -> interpreter, one record per search"""
    f = ctx.func(PCM + fn_)
    ix, bp, bd, pcobj = sym('x_indexer'), sym('x_plan'), sym('x_bands'), sym('x_ownpc')
    n = 4 if ven.upper() == 'EMSOFT' else 3
    dim, pc0 = lit((2,), 'dim'), lit((n,), 'own')
    heap = {('a', ix, 'vendor'): const(ven), ('a', ix, 'bandDetectPlan'): bp, ('a', bp, 'patDim'): dim, ('a', bd, 'shape'): mk('tuple', const(2), const(3)), ('a', ix, 'PC'): pcobj, ('c', pcobj): pc0}
    args = {'indexer': ix, 'batch': const(batch), 'PC0': NONE}
    if given:  # a start centre other than the indexer's
        own, pc0 = pc0, lit((n,), 'asked')
        args['PC0'] = mk('list', *pc0.args)
    if fn_ == 'optimize_pso':
        args.update(return_cost=TRUE, verbose=ZERO, search_limit=limit, niter=const(37))
    got = []

    def rec(it, fun, x0, bounds, ixr, bands, niter, node, st):
        d = lambda x: it.deep(it.V(x, st), st.heap) if x is not None else None
        got.append(dict(fun=fun, start=d(x0), bounds=d(bounds), indexer=ixr, bands=d(bands), niter=niter, cost=sym('cost%d' % len(got)), place=lit((3,), 'found%d' % len(got)), node=node))
        return got[-1]

    def swarm(it, b):
        st = it.callstate
        kw = it.deep(it.V(b.get('kwargs', NONE), st), st.heap)
        kw = {k.args[1]: v for k, v in kw.args if k.op == 'const'} if kw.op == 'dict' else {}
        g = rec(it, b.get('function'), b.get('start'), b.get('bounds'), kw.get('indexer'), kw.get('banddat'), b.get('niter'), it.callnode, st)
        return mk('tuple', g['cost'], it.newobj(g['place']))

    def scipy(it, base, a_, vals, kv, st, node):
        ar = kv.get('args', vals[2] if len(vals) > 2 else NONE)
        ar = it.V(ar, st)
        ar = ar.args if ar.op in ('tuple', 'list') and len(ar.args) == 2 else (None, None)
        g = rec(it, kv.get('fun', a_[0] if a_ else None), kv.get('x0', vals[1] if len(vals) > 1 else None), None, ar[0], ar[1], None, node, st)
        return it.newobj(mk('dict', (const('x'), it.newobj(g['place'])), (const('fun'), g['cost'])), 'dict')
    it = ctx.analyse(f.qual, args=args, heap=heap, lit=True, boundary={PSO + '.optimize'}, returns={'.find_bands': bd, PSO + '.optimize': swarm}, hooks={'scipy.optimize.minimize': scipy})
    return f, it, got, bd, ix, dim, pc0, own if given else None


def r_search(ctx):
    R = ctx.rule('search', 'each search minimises the cost of its own patterns, from the start centre, within the limits around it', 18)
    C = ctx.rule('cost', 'the costs returned belong to the centres they are returned with', 6)
    for fn_ in ('optimize', 'optimize_pso'):
        for batch in (False, True):
            for ven in ('EMSOFT', 'EDAX', 'BRUKER'):
                for limit, given in ((const(0.2), False), (const(0.2), True), (mk('list', const(0.1), const(0.25), const(0.4)), False)) if fn_ == 'optimize_pso' else ((None, False), (None, True)):
                    con = '%s %s%s%s%s' % (fn_, ven, ' batch' if batch else '', ' limit each' if limit is not None and limit.op == 'list' else '', ' start given' if given else '')
                    f, it, got, bd, ix, dim, pc0, own = searches(ctx, fn_, batch, ven, limit, given)
                    if len(got) != (2 if batch else 1):
                        ctx.und(R, con, '%d searches found' % len(got))
                        continue
                    bad = und = None
                    rng = np.random.RandomState(5)
                    env = {x: float(v) for x, v in zip(pc0.args, (-3.5, 6., 15000., 59.) if len(pc0.args) == 4 else (.48, .62, .71))}
                    env.update({x: v for x, v in zip(dim.args, (48, 64))})
                    if given:
                        env.update({x: float(v) for x, v in zip(own.args, (-8.5, 9., 12000., 59.) if len(own.args) == 4 else (.31, .83, .55))})
                    bands = np.arange(6).reshape(2, 3) + 1.0
                    env[bd] = bands
                    near = np.random.RandomState(6)
                    env.update({x: .5 + .1 * near.rand() for g in got for x in (g['place'].args if g['place'] is not None else ())})
                    first = np.array([env[x] for x in pc0.args])  # the centre the search was asked to begin at
                    if ven == 'EMSOFT':
                        h, w = (env[x] for x in dim.args)
                        px = env[own.args[3]] if given else first[3]
                        first = np.array([.5 - first[0] / w, .5 + first[1] / h, first[2] / px / min(h, w)])
                    for i, g in enumerate(got):
                        loc = '%s:%d' % (f.module.path, g['node'].lineno)
                        if g['fun'] is None or g['fun'].op != 'func':
                            und = und or 'the function that is minimised: %s' % (g['fun'] and show(g['fun'], 2))
                        elif g['fun'].args[0] != PCM + '_optfunction':
                            bad = bad or (loc, 'the search minimises %s' % g['fun'].args[0])
                        if g['indexer'] is not ix:
                            und = und or 'the indexer of the search'
                        nv = NV(env=env)
                        try:
                            b = np.asarray(nv(g['bands']), float)
                            w = bands[i:i + 1] if batch else bands
                            if b.shape != w.shape or not np.array_equal(b, w):
                                bad = bad or (loc, 'the search for %s uses the bands of %s' % ('pattern %d' % i if batch else 'all patterns', 'rows %s' % sorted({int((v - 1) // 3) for v in b.ravel()})))
                            if limit is not None:
                                s = np.asarray(nv(g['start']), float)
                                lim = np.asarray(nv(limit), float) * np.ones(3)
                                bb = nv(g['bounds'])
                                lo, hi = np.asarray(bb[0], float), np.asarray(bb[1], float)
                                if not (np.allclose(lo, first - lim) and np.allclose(hi, first + lim)):
                                    bad = bad or (loc, 'with limits %s around %s the search%s is given the bounds %s to %s' % (lim, np.round(first, 3), ' for pattern %d' % i if batch else '', np.round(lo, 3), np.round(hi, 3)))
                                elif (s < lo - 1e-9).any() or (s > hi + 1e-9).any():
                                    bad = bad or (loc, 'the search begins at %s, outside of its bounds %s to %s' % (np.round(s, 3), np.round(lo, 3), np.round(hi, 3)))
                                if g['niter'] is not const(37):
                                    und = und or 'the number of iterations'
                        except (Unknown, TypeError, KeyError, IndexError, ValueError) as e:
                            und = und or str(e)[:120]
                    if bad:
                        ctx.bad(R, con, *bad)
                    elif und:
                        ctx.und(R, con, und + ': not extracted')
                    else:
                        ctx.ok(R, con, '%d searches' % len(got))
                    if fn_ != 'optimize_pso':
                        continue
                    r = it.deep(it.result, it.state.heap)
                    env.update({g['cost']: .25 + i for i, g in enumerate(got)})
                    env.update({x: float(rng.rand()) for g in got for x in g['place'].args})
                    try:
                        if r.op != 'tuple' or len(r.args) != 2:
                            raise Unknown('result %s' % show(r, 2))
                        c = np.asarray(NV(env=env)(r.args[1]), float).ravel()
                        w = np.array([env[g['cost']] for g in got])
                        ctx.verdict(c.shape == w.shape and np.allclose(c, w), C, con, f.loc(), 'the searches found the costs %s but %s is returned' % (w, c))
                    except (Unknown, TypeError, KeyError, IndexError, ValueError) as e:
                        ctx.und(C, con, str(e)[:120])


def r_function(ctx):
    F = ctx.rule('cost-function', 'the cost of a candidate is computed with that candidate and changes nothing in the indexer or the bands', 4)
    q = PCM + '_optfunction'
    f = ctx.func(q)
    ps = f.params()
    for n in (1, 3):
        con = '%d candidate%s' % (n, '' if n == 1 else 's')
        ix, bd, cand = sym('x_indexer'), sym('x_bands'), mk('list', *[lit((3,), 'cand%d' % i) for i in range(n)]) if n > 1 else lit((3,), 'cand0')
        used = []

        def conv(it, recv, args, vals, kv, st, node):
            p = kv.get('PC', vals[1] if len(vals) > 1 else None)
            used.append((it.deep(it.V(p, st), st.heap) if p is not None else None, it.deep(it.V(vals[0], st), st.heap) if vals else None, node))
            return sym('poles%d' % len(used))

        def ind(it, recv, args, vals, kv, st, node):
            return mk('tuple', sym('res%d' % len(used)), sym('bandsout%d' % len(used)))
        it = ctx.analyse(q, args={ps[0]: cand, ps[1]: ix, ps[2]: bd}, lit=True, arrays=[], hooks={'.radon2pole': conv, '._indexbandsphase': ind})
        rows = list(cand.args) if n > 1 else [cand]
        if len(used) != n:
            ctx.und(F, con, '%d conversions for %d candidates' % (len(used), n))
            continue
        bad = und = None
        for i, (p, b, nd) in enumerate(used):
            loc = '%s:%d' % (f.module.path, nd.lineno)
            try:
                v = [sel(p, const(k)) for k in range(3)] if p is not None else None
            except Exception:
                v = None
            if v is None:
                und = und or 'the centre used'
            elif [x is y for x, y in zip(v, rows[i].args)] != [True] * 3:
                alls = {x for r_ in rows for x in r_.args}
                if all(x in alls for x in v):
                    bad = bad or (loc, 'candidate %d is evaluated with the centre %s' % (i, show(mk('list', *v), 3)))
                else:
                    und = und or 'the centre used: %s' % show(p, 3)
        for e in it.events:
            if e.kind in ('store', 'setattr', 'mutate') and e.d.get('root', e.d.get('base')) in (ix, bd):
                bad = bad or (e.where, 'evaluating a candidate changes %s' % ('the indexer' if e.d.get('root', e.d.get('base')) is ix else 'the bands'))
        for k in it.state.heap:
            if k[0] == 'a' and k[1] is ix and k[2] not in ('bandDetectPlan',):
                bad = bad or (f.loc(), 'evaluating a candidate sets %s of the indexer' % k[2])
        if bad:
            ctx.bad(F, con, *bad)
        elif und:
            ctx.und(F, con, und)
        else:
            ctx.ok(F, con)
    # the calls made for a candidate leave indexer and bands alone
    for name in ('pyebsdindex.radon_fast.Radon.radon2pole', 'pyebsdindex._ebsd_index_single.EBSDIndexer._indexbandsphase'):
        g = ctx.prog.funcs.get(name)
        if g is None:
            ctx.und(F, name, 'gone')
            continue
        pr = g.params()
        it = ctx.analyse(name, arrays=pr[1:2])
        me, b = it.self, sym(pr[1])
        bad = None
        # fields whose value on entry goes into what is returned or stored
        used = [it.deep(it.result, it.state.heap)] + [it.deep(it.V(e.d['value'], it.state), it.state.heap) for e in it.events if e.kind == 'store' and e.d.get('root') is not None]
        reads = {k for t in used for x in subterms(t) if x.op == 'sel' and base_(x.args[0]) is b for k in strings(x.args[1])}
        for e in it.events:
            if e.kind in ('store', 'mutate') and e.d.get('root') is b:
                fs = [k for k in strings(e.d.get('full'))]
                if not fs or set(fs) & reads:
                    bad = bad or (e.where, '%s changes the %s it is given' % (name.rsplit('.', 1)[1], 'bands' if not fs else 'field %s of the bands, which it reads,' % fs[0]))
            if e.kind == 'setattr' and e.d.get('base') is me and e.d.get('name', e.d.get('attr')) in ('vendor', 'PC', 'sampleTilt', 'camElev', 'bandDetectPlan', 'phaselist', 'phaseLib', 'nband_earlyexit', 'rho', 'theta', 'imDim', 'nRho', 'nTheta'):
                bad = bad or (e.where, '%s sets %s' % (name.rsplit('.', 1)[1], e.d.get('name', e.d.get('attr'))))
        if bad:
            ctx.bad(F, name.rsplit('.', 1)[1], *bad)
        else:
            ctx.ok(F, name.rsplit('.', 1)[1])


def base_(t):
    while t.op in ('sel', 'view') and t.args:
        t = t.args[0]
    return t


def strings(k):
    if k is None:
        return []
    return [x.args[1] for x in subterms(k) if x.op == 'const' and x.args[0] == 'str']
