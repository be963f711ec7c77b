"""Shared by R01/R02: literal symbolic rows, reference module, entry extraction and comparison."""
import os, math, random
from sa.ctx import *
from sa.program import Program
from sa.interp import analyse
from sa.evalt import Valuation, close, Unknown, flat, samecases
RL = 'pyebsdindex.rotlib'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
SHAPE = {'eu': (3,), 'om': (3, 3), 'qu': (4,), 'ax': (4,), 'ro': (4,), 'ho': (3,), 'cu': (3,)}
_spec = {}


def lit(shape, name):
    if not shape:
        s = sym(name)
        declare_scalar(s)
        return s
    return mk('list', *[lit(shape[1:], '%s_%d' % (name, i)) for i in range(shape[0])])


def idx(shape):
    out = [()]
    for n in shape:
        out = [o + (i,) for o in out for i in range(n)]
    return out


def at(t, ks):
    """entry of a result; np.squeeze wrappers are looked through"""
    while t.op == 'mcall' and t.args[1] == 'squeeze' or t.op == 'call' and t.args[0].endswith('squeeze'):
        t = t.args[0] if t.op == 'mcall' else t.args[1][0]
    if not ks:
        return t
    return sel(t, mk('tuple', *[const(k) for k in ks]) if len(ks) > 1 else const(ks[0]))


def single(t, ks):
    """entry of a one-row result that may still have its leading axis of length one"""
    r2 = at(t, (0,) + tuple(ks))
    r = at(t, ks)
    return r2 if resolved(r2) or not resolved(r) else r


def resolved(t):
    return not contains(t, lambda x: x.op in ('obj', 'store', 'call', 'after', 'mcall') and not (x.op == 'call' and x.args[0].split('.')[-1] in ('fmod', 'norm')))


def spec(fn_, args, p=None):
    """entries (nested lists) of the reference function for one row"""
    if 'prog' not in _spec:
        _spec['prog'] = Program(SPEC)
    key = (fn_, tuple(args), p)
    if key not in _spec:
        f = _spec['prog'].func('pyebsdindex.rotref.' + fn_)
        ps = f.params()
        a = dict(zip(ps, args))
        if p is not None and 'p' in ps:
            a['p'] = const(p)
        it = analyse(_spec['prog'], f.qual, args=a)
        _spec[key] = it.deep(it.result, it.state.heap)
    return _spec[key]


SP = {
 'qu': [(1, 0, 0, 0), (-1, 0, 0, 0), (0, 1, 0, 0), (0, .6, .8, 0), (0, 0, 0, 1), (.6, 0, 0, .8), (.6, 0, 0, -.8), (.5, .5, .5, .5), (-.5, .5, -.5, .5), (.5, -.5, .1, .7),
        (.7, .1, -.2, .3), (-.7, .1, -.2, -.3), (0, .36, .48, .8), (.8, .36, .48, 0), (.6, .8, 0, 0), (.6, 0, .8, 0), (.02, .3, -.5, .2), (-.02, -.3, .5, .9), (2, 1, 1, .5), (.99, .01, .02, -.03)],
 'eu': [(0, 0, 0), (.4, 0, 0), (.4, 0, .7), (.4, math.pi, .3), (0, math.pi, 0), (4, 2, 5), (1, .5, 2), (6, 1, .3), (2.2, 3, 2.1), (3, 1, 3.2), (0.2, .3, 6.1), (5.9, 2.9, 1.2), (.1, 1.2, .4), (3.3, .2, 3.4), (4.4, 1.8, 4.1)],
 'ax': [(0, 0, 1, 0), (0, 0, -1, 0), (1, 0, 0, math.pi), (.6, .8, 0, math.pi), (0, .6, .8, 1.1), (.6, 0, -.8, 2.5), (.36, .48, .8, 4.5), (.36, -.48, .8, -1.2), (-.36, .48, -.8, .3), (2, 1, -1, .7), (.1, .2, .1, 2.1),
        (1, 2, 3, 6), (0, 0, 1, 1.5 * math.pi), (.5, .1, .9, -4), (1, 0, 0, 1e-3), (0, 1, 0, 7)],
 'ro': [(0, 0, 1, 0), (0, 0, -1, 0), (.6, .8, 0, .5), (.36, -.48, .8, 2.5), (.6, 0, .8, math.inf), (.36, .48, .8, 1e12), (-.8, .6, 0, .02), (0, 1, 0, 1), (2, 1, 1, .7)],
 'ho': [(0, 0, 0), (.1, .2, .3), (-.3, .4, .1), (.8, -.2, .5), (0, 0, 1.1), (.02, -.01, .03), (1.2, .1, -.2), (0, -.7, .7), (.7, .7, .7), (-1, -.3, .2), (.3, 1, -.1), (.1, -1, .3), (.2, .1, -.9), (-.1, .2, 1.0)],
}
SP['cu'] = SP['ho'] + [(.5, .5, .5), (-.9, .2, .4), (.1, .8, -.3), (0, 0, .4), (0, 0, -.4), (.4, 0, 0), (0, .6, 0)]


def rotm(q):
    w, x, y, z = q
    n = math.sqrt(w * w + x * x + y * y + z * z)
    w, x, y, z = w / n, x / n, y / n, z / n
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]


SP['om'] = [rotm(q) for q in SP['qu']]
SP['v'] = [(.1, .2, .3), (1, 0, 0), (-.5, .7, .2), (0, 0, -2), (.3, -.3, .9)]


def env(inputs, n):
    """inputs: list of (term of literal symbols, kind)"""
    e = {}

    def put(t, v):
        if t.op == 'list':
            for a, b in zip(t.args, v):
                put(a, b)
        else:
            e[t] = v
    j = 0
    for t, kind in inputs:
        rows = t.args if (t.args and t.args[0].op == 'list' and (kind != 'om' or t.args[0].args[0].op == 'list')) else [t]
        for r in rows:
            L = SP[kind]
            put(r, L[(n + 7 * j) % len(L)])
            j += 1
    return e


def differs(a, b, inputs, angle=False, npts=None):
    """a witness input on which the two entry terms have different values, or None"""
    good = 0
    for n in range(npts or max(len(SP[k]) for t, k in inputs)):
        e = env(inputs, n)
        v = Valuation(None, env=e)
        try:
            x, y = v(a), v(b)
        except (Unknown, RecursionError):
            continue
        if isinstance(x, list) or isinstance(y, list):
            continue
        if x != x or y != y or isinstance(x, complex) or isinstance(y, complex):
            continue
        good += 1
        if math.isinf(x) or math.isinf(y):
            d = not (x == y or (abs(x) > 1e7 and abs(y) > 1e7))
        elif angle:
            d = abs(math.sin(x) - math.sin(y)) + abs(math.cos(x) - math.cos(y)) > 2e-5
        else:
            d = abs(x - y) > 2e-5 * max(1, min(abs(x), abs(y)))
            if d and abs(x) > 1e6 and abs(y) > 1e6:
                d = False
        if d:
            return {show(k, 2): round(float(w), 6) for k, w in e.items() if contains(a, k) or contains(b, k)}, x, y
    return None if good else 'noeval'


def entry(ctx, R, name, loc, got, want, inputs, angle=False, simp=()):
    if got is want:
        ctx.ok(R, name)
        return True
    for f in simp:
        g2, w2 = f(got), f(want)
        if g2 is w2:
            ctx.ok(R, name)
            return True
    if samecases(got, want):
        ctx.ok(R, name, 'case by case')
        return True
    w = differs(got, want, inputs, angle)
    if w is None or w == 'noeval':
        ctx.und(R, name, 'not in the same normal form (%s)' % ('no witness of a difference' if w is None else 'not evaluable: ' + show(got, 3)))
        return None
    e, x, y = w
    ctx.bad(R, name, loc, 'entry is %s where the reference formula gives %s, e.g. for %s' % ('%.6g' % x, '%.6g' % y, e))
    return False
