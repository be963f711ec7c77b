"""numpy semantics on small literal arrays (nested 'list' terms), used to unroll array code on symbolic entries."""
from .term import *
from . import term as tm

CAP = 400


def lshape(t):
    if t.op != 'list':
        return ()
    if not t.args or any(a.op == 'starred' for a in t.args):
        return (0,) if not t.args else None
    s = lshape(t.args[0])
    if s is None or any(a.op != 'list' for a in t.args[1:]) if t.args[0].op == 'list' else any(a.op == 'list' for a in t.args):
        return None
    for a in t.args[1:]:
        if lshape(a) != s:
            return None
    return None if s is None else (len(t.args),) + s


def full(shape, v):
    if not shape:
        return v() if callable(v) else v
    return mk('list', *[full(shape[1:], v) for _ in range(shape[0])])


def dims(t):
    """constant dimensions from a shape argument"""
    if t.op in ('tuple', 'list'):
        xs = t.args
    else:
        xs = (t,)
    if not all(is_num(x) and isint(x) for x in xs):
        return None
    return tuple(int(cval(x)) for x in xs)


def size(s):
    n = 1
    for d in s:
        n *= d
    return n


def bshape(*ss):
    r = max(len(s) for s in ss)
    out = []
    for i in range(r):
        ds = set()
        for s in ss:
            j = i - (r - len(s))
            if j >= 0 and s[j] != 1:
                ds.add(s[j])
        if len(ds) > 1:
            return None
        out.append(ds.pop() if ds else 1)
    return tuple(out)


def bcast(t, shape):
    s = lshape(t)
    if s is None:
        return None
    if s == shape:
        return t
    if len(s) > len(shape):
        if size(s[:len(s) - len(shape)]) != 1:
            return None
        while len(s) > len(shape):
            t, s = t.args[0], s[1:]
        return bcast(t, shape)
    if len(s) < len(shape):
        x = bcast(t, shape[1:])
        return None if x is None else mk('list', *[x] * shape[0])
    if not s:
        return t
    if s[0] == shape[0]:
        xs = [bcast(a, shape[1:]) for a in t.args]
    elif s[0] == 1:
        xs = [bcast(t.args[0], shape[1:])] * shape[0]
    else:
        return None
    return None if any(x is None for x in xs) else mk('list', *xs)


def lmap(f, *ts):
    ss = [lshape(t) for t in ts]
    if any(s is None for s in ss):
        return None
    sh = bshape(*ss)
    if sh is None or size(sh) > CAP:
        return None
    bs = [bcast(t, sh) for t in ts]

    def go(xs, d):
        if d == 0:
            return f(*xs)
        return mk('list', *[go([x.args[i] for x in xs], d - 1) for i in range(len(xs[0].args))])
    return go(bs, len(sh))


def litkeys(k, nd):
    """key tuple as python indices, or None"""
    ks = keytuple(k)
    n = sum(1 for x in ks if x is not NONE and x is not ELL)
    if n > nd:
        return None
    out = []
    for x in ks:
        if x is ELL:
            out += [slice(None)] * (nd - n)
        elif x is NONE:
            out.append(None)
        elif is_num(x) and isinstance(cval(x), int):
            out.append(cval(x))
        elif x.op == 'slice' and all(y is NONE or is_num(y) for y in x.args):
            out.append(slice(*[None if y is NONE else int(cval(y)) for y in x.args]))
        elif x.op == 'list' and x.args and all(is_num(y) and isinstance(cval(y), int) for y in x.args):
            out.append([cval(y) for y in x.args])
        else:
            return None
    if sum(1 for x in out if isinstance(x, list)) > 1:
        return None
    return out


def lget(t, ks):
    if not ks:
        return t
    k = ks[0]
    if k is None:
        r = lget(t, ks[1:])
        return None if r is None else mk('list', r)
    if t.op != 'list':
        return None
    n = len(t.args)
    if isinstance(k, int):
        return lget(t.args[k], ks[1:]) if -n <= k < n else None
    ix = range(*k.indices(n)) if isinstance(k, slice) else k
    if any(not -n <= i < n for i in ix):
        return None
    rs = [lget(t.args[i], ks[1:]) for i in ix]
    return None if any(r is None for r in rs) else mk('list', *rs)


def lput(t, ks, v):
    """t with v written at ks (v broadcast to the selection)"""
    if None in ks:
        return None
    selv = lget(t, ks)
    if selv is None:
        return None
    sh = lshape(selv)
    if sh and v.op in ('ret', 'sel', 'call', 'attr') and rank(v) is None and v.op != 'call':
        return None         # may be an array: its elements are unknown, not the value itself
    v = None if sh is None else bcast(v, sh)
    if v is None:
        return None

    def go(t, ks, v):
        if not ks:
            return v
        k = ks[0]
        l = list(t.args)
        if isinstance(k, int):
            l[k] = go(l[k], ks[1:], v)
        else:
            ix = range(*k.indices(len(l))) if isinstance(k, slice) else k
            for i, x in zip(ix, v.args):
                l[i] = go(l[i], ks[1:], x)
        return mk('list', *l)
    return go(t, ks, v)


def ltrans(t, axes=None):
    s = lshape(t)
    if s is None:
        return None
    nd = len(s)
    axes = tuple(reversed(range(nd))) if axes is None else tuple(a % nd for a in axes)
    ns = [s[a] for a in axes]

    def build(ix):
        if len(ix) == nd:
            src = [0] * nd
            for j, a in enumerate(axes):
                src[a] = ix[j]
            x = t
            for i in src:
                x = x.args[i]
            return x
        return mk('list', *[build(ix + [i]) for i in range(ns[len(ix)])])
    return build([])


def lflat(t):
    return [t] if t.op != 'list' else [y for x in t.args for y in lflat(x)]


def lreshape(t, ds):
    f = lflat(t)
    ds = list(ds)
    if ds.count(-1) == 1:
        p = size([d for d in ds if d != -1])
        if p <= 0 or len(f) % p:
            return None
        ds[ds.index(-1)] = len(f) // p
    if size(ds) != len(f):
        return None

    def build(xs, ds):
        if not ds:
            return xs[0]
        k = len(xs) // ds[0] if ds[0] else 0
        return mk('list', *[build(xs[i * k:(i + 1) * k], ds[1:]) for i in range(ds[0])])
    return build(f, ds)


def lreduce(f, t, axis=None, keep=False):
    """f: list of terms -> term"""
    s = lshape(t)
    if not s:
        return None
    if axis is None:
        r = f(lflat(t))
        return full((1,) * len(s), r) if keep else r
    if axis < 0:
        axis += len(s)
    if not 0 <= axis < len(s):
        return None
    m = ltrans(t, [a for a in range(len(s)) if a != axis] + [axis])

    def go(x, d):
        if d == 0:
            r = f(list(x.args))
            return r
        return mk('list', *[go(y, d - 1) for y in x.args])
    r = go(m, len(s) - 1)
    if keep:
        ns = list(s)
        ns[axis] = 1
        r = lreshape(r, ns)
    return r


def ltile(t, reps):
    s = lshape(t)
    if s is None:
        return None
    n = max(len(s), len(reps))
    t = lreshape(t, (1,) * (n - len(s)) + s)
    reps = (1,) * (n - len(reps)) + tuple(reps)

    def go(x, rs):
        if not rs:
            return x
        xs = [go(y, rs[1:]) for y in x.args]
        return mk('list', *(xs * rs[0]))
    return go(t, reps)


def cross1(a, b):
    (x, y, z), (u, v, w) = a.args, b.args
    return mk('list', sub(mul(y, w), mul(z, v)), sub(mul(z, u), mul(x, w)), sub(mul(x, v), mul(y, u)))


def axisof(kv, vals, i):
    a = kv.get('axis', vals[i] if len(vals) > i else NONE)
    if a is NONE:
        return None
    if is_num(a) and isinstance(cval(a), int):
        return cval(a)
    return 'no'


def truthy(kv, k):
    return kv.get(k) is TRUE


REDUCE = {'sum': lambda xs: add(*xs), 'prod': lambda xs: mul(*xs), 'max': lambda xs: fn('max', *xs) if len(xs) > 1 else xs[0], 'amax': lambda xs: fn('max', *xs) if len(xs) > 1 else xs[0],
          'min': lambda xs: fn('min', *xs) if len(xs) > 1 else xs[0], 'amin': lambda xs: fn('min', *xs) if len(xs) > 1 else xs[0],
          'mean': lambda xs: div(add(*xs), const(len(xs))), 'linalg.norm': lambda xs: fn('sqrt', add(*[mul(x, x) for x in xs]))}


def call(base, vals, kv):
    """numpy function on literal arrays, or None"""
    if not vals:
        return None
    v = vals[0]
    s = lshape(v)
    if s is None or size(s) > CAP:
        return None
    if base in REDUCE and s:
        if set(kv) - {'axis', 'keepdims'} or len(vals) > 2:
            return None
        ax = axisof(kv, vals, 1)
        if ax == 'no':
            return None
        return lreduce(REDUCE[base], v, ax, truthy(kv, 'keepdims'))
    if base == 'interp' and s:
        return lmap(lambda x: mk('call', 'numpy.interp', (x,) + tuple(vals[1:]), tuple(sorted(kv.items()))), v)
    if base == 'tile' and len(vals) == 2:
        r = dims(vals[1])
        return None if r is None or size(s) * size(r) > CAP else ltile(v, r)
    if base == 'cross' and len(vals) == 2 and not kv:
        t = lshape(vals[1])
        if t is None or not s or s[-1] != 3 or not t or t[-1] != 3:
            return None
        sh = bshape(s[:-1], t[:-1])
        if sh is None:
            return None
        a, b = bcast(v, sh + (3,)), bcast(vals[1], sh + (3,))

        def go(x, y, d):
            return cross1(x, y) if d == 0 else mk('list', *[go(p, q, d - 1) for p, q in zip(x.args, y.args)])
        return go(a, b, len(sh))
    if base == 'transpose' and s:
        ax = vals[1] if len(vals) > 1 else kv.get('axes', NONE)
        d = None if ax is NONE else dims(ax)
        return ltrans(v, d)
    if base == 'swapaxes' and len(vals) == 3 and s:
        a, b = dims(vals[1]), dims(vals[2])
        p = list(range(len(s)))
        p[a[0]], p[b[0]] = p[b[0]], p[a[0]]
        return ltrans(v, p)
    if base == 'expand_dims' and s:
        ax = axisof(kv, vals, 1)
        if not isinstance(ax, int):
            return None
        ns = list(s)
        ns.insert(ax if ax >= 0 else len(s) + 1 + ax, 1)
        return lreshape(v, ns)
    if base == 'squeeze' and len(vals) == 1 and not kv and s:
        return lreshape(v, [d for d in s if d != 1])
    if base in ('ravel', 'flatten') and s:
        return mk('list', *lflat(v))
    if base == 'reshape' and s and len(vals) >= 2:
        d = dims(vals[1]) if len(vals) == 2 else dims(mk('tuple', *vals[1:]))
        return None if d is None else lreshape(v, d)
    if base == 'broadcast_to' and len(vals) == 2:
        d = dims(vals[1])
        return None if d is None or size(d) > CAP else bcast(v, d)
    if base in ('flip', 'flipud', 'fliplr') and s:
        ax = {'flipud': 0, 'fliplr': 1}.get(base, axisof(kv, vals, 1))
        ks = [slice(None)] * len(s)
        if ax is None:
            ks = [slice(None, None, -1)] * len(s)
        elif ax == 'no':
            return None
        else:
            ks[ax] = slice(None, None, -1)
        return lget(v, ks)
    if base == 'repeat' and s and len(vals) >= 2 and is_num(vals[1]):
        ax = axisof(kv, vals, 2)
        n = int(cval(vals[1]))
        if ax is None:
            return mk('list', *[x for x in lflat(v) for _ in range(n)])
        if ax == 0:
            return mk('list', *[x for x in v.args for _ in range(n)])
        return None
    if base in ('concatenate', 'stack', 'vstack', 'hstack') and v.op == 'list':
        ss = [lshape(x) for x in v.args]
        if any(x is None for x in ss):
            return None
        ax = axisof(kv, vals, 1)
        if ax == 'no':
            return None
        parts = list(v.args)
        if base == 'vstack':
            parts = [mk('list', p) if len(x) == 1 else p for p, x in zip(parts, ss)]
            ax = 0
        elif base == 'hstack':
            ax = 0 if len(ss[0]) == 1 else 1
        if base == 'stack':
            if len(set(ss)) != 1:
                return None
            m = mk('list', *parts)
            ax = ax or 0
            nd = len(ss[0]) + 1
            ax %= nd
            perm = list(range(1, nd))
            perm.insert(ax, 0)
            return ltrans(m, perm)
        ax = ax or 0

        def cat(xs, d):
            if any(x.op != 'list' for x in xs):
                return None
            if d == 0:
                return mk('list', *[y for x in xs for y in x.args])
            if len({len(x.args) for x in xs}) != 1:
                return None
            rs = [cat(list(z), d - 1) for z in zip(*[x.args for x in xs])]
            return None if any(r is None for r in rs) else mk('list', *rs)
        nd = len(lshape(parts[0]) or ())
        return cat(parts, ax % nd) if nd else None
    if base == 'atleast_3d':
        return None
    return None
