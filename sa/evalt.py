"""Constant folding of extracted terms, and witnesses that two extracted formulas differ.

`fold(t)` evaluates a closed term (tables, symmetry operators, constants).  `compare(a, b)` decides
whether two extracted value terms denote the same function of the same inputs: equal normal forms ->
True; otherwise both formulas are interpreted over the same valuation of their inputs and a valuation
on which they differ makes the answer False; anything the interpretation does not cover gives None
(undecided).  Only terms extracted from the source are interpreted here, never the program.
"""
import math
import random
from fractions import Fraction
from .term import *
from . import term as tm


class Unknown(Exception):
    pass


def isarr(x):
    return isinstance(x, list)


def bshape(x):
    s = []
    while isinstance(x, list):
        s.append(len(x))
        if not x:
            break
        x = x[0]
    return tuple(s)


def full(shape, v):
    if not shape:
        return v
    return [full(shape[1:], v) for _ in range(shape[0])]


def bmap(f, *xs):
    r = max(len(bshape(x)) for x in xs)
    if r == 0:
        return f(*xs)
    n = 1
    for x in xs:
        s = bshape(x)
        if len(s) == r:
            if s[0] != 1:
                if n != 1 and n != s[0]:
                    raise Unknown('broadcast')
                n = s[0]
    return [bmap(f, *[(x if len(bshape(x)) < r else (x[0] if len(x) == 1 else x[i])) for x in xs]) for i in range(n)]


def mapdeep(f, x):
    return [mapdeep(f, y) for y in x] if isinstance(x, list) else f(x)


F1 = {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'arcsin': math.asin, 'arccos': math.acos, 'arctan': math.atan,
      'abs': abs, 'floor': math.floor, 'ceil': math.ceil, 'exp': math.exp, 'log': math.log, 'round': round, 'radians': math.radians,
      'degrees': math.degrees, 'int': lambda v: int(v), 'sign': lambda v: (v > 0) - (v < 0), 'square': lambda v: v * v, 'log2': math.log2,
      'log10': math.log10, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'float': float, 'cbrt': lambda v: math.copysign(abs(v) ** (1 / 3), v)}
F2 = {'arctan2': math.atan2, 'hypot': math.hypot, 'mod': lambda a, b: a - b * math.floor(a / b), 'floordiv': lambda a, b: math.floor(a / b),
      'pow': lambda a, b: a ** b, 'fmod': math.fmod, 'minimum': min, 'maximum': max}


class Valuation:
    def __init__(self, seed=None, env=None, leaf=None, intleaf=None):
        self.rng = seed
        self.env = dict(env or {})
        self.leaf = leaf            # callable(term) -> bool: may be given a free value
        self.intleaf = intleaf
        self.memo = {}
        self.used = set()

    def free(self, key, t):
        if self.rng is None or self.leaf is None or not self.leaf(t):
            raise Unknown(show(t, 3))
        k = (key,)
        if k not in self.memo:
            r = random.Random('%s|%s' % (self.rng, key))
            if isint(t) or (self.intleaf and self.intleaf(t)):
                self.memo[k] = r.randint(3, 40)
            else:
                self.memo[k] = r.uniform(0.15, 1.4)
        self.used.add(root(t))
        return self.memo[k]

    def __call__(self, t):
        if t in self.memo:
            v = self.memo[t]
            if v is self:
                raise Unknown('cycle')
            return v
        if t in self.env:
            return self.env[t]
        self.memo[t] = self
        try:
            v = self.ev(t)
            if v == 0 and isinstance(v, float):
                v = 0.0
        except (ZeroDivisionError, ValueError, OverflowError, TypeError, IndexError, KeyError) as e:
            del self.memo[t]
            raise Unknown('%s in %s' % (e, show(t, 3)))
        except Unknown:
            del self.memo[t]
            raise
        self.memo[t] = v
        return v

    def ev(self, t):
        op, a = t.op, t.args
        if op == 'const':
            if a[0] == 'n':
                return int(a[1]) if a[1].denominator == 1 else float(a[1])
            return a[1]
        if t is tm.PI:
            return math.pi
        if op == 'sym' and a[0] == 'inf':
            return float('inf')
        if op == 'poly':
            s = 0
            for m, c in a[0]:
                v = int(c) if c.denominator == 1 else float(c)
                for x, e in m:
                    y = self(x)
                    for _ in range(abs(e)):
                        v = bmap((lambda p, q: p * q) if e > 0 else (lambda p, q: p / q), v, y)
                s = bmap(lambda p, q: p + q, s, v)
            return s
        if op == 'inv':
            return mapdeep(lambda v: 1.0 / v, self(a[0]))
        if op in ('list', 'tuple'):
            return [self(x) for x in a]
        if op == 'fn':
            xs = [self(x) for x in a[1:]]
            n = a[0]
            if n in ('min', 'max'):
                f = min if n == 'min' else max
                if len(xs) == 1:
                    return f(flat(xs[0]))
                return bmap(lambda *q: f(q), *xs)
            if len(xs) == 1 and n in F1:
                return mapdeep(F1[n], xs[0])
            if len(xs) == 2 and n in F2:
                return bmap(F2[n], *xs)
            if n == 'dot' and len(xs) == 2:
                return dot(xs[0], xs[1])
            if n == 'sum' and len(xs) == 1:
                return sum(flat(xs[0]))
            if n == 'sort' and len(xs) == 1:
                return sorted(xs[0])
            return self.free(t, t)
        if op == 'ite':
            return self(a[1]) if self(a[0]) else self(a[2])
        if op == 'lt':
            return self.cmp(lambda p, q: p < q, a)
        if op == 'gt':
            return self.cmp(lambda p, q: p > q, a)
        if op == 'eq':
            return self(a[0]) == self(a[1])
        if op == 'not':
            v = self(a[0])
            return mapdeep(lambda y: not y, v) if isarr(v) else not v
        if op in ('and', 'or'):
            if op == 'and':
                f, stop = (lambda p, q: bool(p) and bool(q)), False
            else:
                f, stop = (lambda p, q: bool(p) or bool(q)), True
            r = not stop
            for x in a:
                v = self(x)
                if not isarr(v) and not isarr(r):
                    r = f(r, v)
                    if r is stop:
                        return r
                else:
                    r = bmap(f, r, v)
            return r
        if op == 'truthy':
            v = self(a[0])
            if isinstance(v, list):
                raise Unknown('truth of array')
            return bool(v)
        if op == 'is' and a[1] is NONE:
            return self(a[0]) is None
        if op == 'range':
            return list(range(*[self(x) for x in a]))
        if op == 'slice':
            return slice(*[self(x) for x in a])
        if op == 'len':
            try:
                return len(self(a[0]))
            except Unknown:
                return self.free(t, t)
        if op == 'call' and a[0] == 'alloc':
            return self.alloc(a[1])
        if op == 'call':
            xs = [self(x) for x in a[1]]
            n = a[0].split('.')[-1]
            kw = {k: self(v) for k, v in a[2] if k in ('axis',)}
            if n in ('concatenate', 'vstack', 'append') and not kw.get('axis'):
                p = xs[0] if n != 'append' else xs
                return [y for x in p for y in x]
            if n in ('array', 'asarray', 'atleast_2d', 'list', 'tuple', 'ascontiguousarray', 'float32', 'int32', 'copy'):
                if n == 'atleast_2d' and not isarr(xs[0][0]):
                    return [xs[0]]
                return xs[0]
            if n in F2 and len(xs) == 2:
                return bmap(F2[n], *xs)
            if n == 'norm' and len(xs) == 1 and not kw:
                return math.sqrt(sum(v * v for v in flat(xs[0])))
            if n == 'negative':
                return mapdeep(lambda v: -v, xs[0])
            if n in ('nonzero', 'flatnonzero', 'argwhere') or n == 'where' and len(xs) == 1:
                if not isarr(xs[0]) or any(isarr(y) for y in xs[0]):
                    raise Unknown(n)
                ix = [i for i, y in enumerate(xs[0]) if y]
                return ix if n == 'flatnonzero' else [[i] for i in ix] if n == 'argwhere' else [ix]
            if n == 'where' and len(xs) == 3:
                return bmap(lambda c, p, q: p if c else q, *xs)
            if n == 'atleast_1d' and len(xs) == 1:
                return xs[0] if isarr(xs[0]) else [xs[0]]
            if n == 'squeeze' and not kw:
                return squeeze(xs[0])
            if n == 'clip' and len(xs) == 3:
                return bmap(lambda p, lo, hi: max(lo, p) if hi is None else min(hi, max(lo, p)), *xs)
            if n in ('full_like', 'zeros_like', 'ones_like'):
                return full(bshape(xs[0]), xs[1] if n == 'full_like' else 0 if n == 'zeros_like' else 1)
            return self.free(t, t)
        if op == 'mcall':
            n = a[1]
            if n == 'squeeze' and not a[2]:
                return squeeze(self(a[0]))
            if n == 'nonzero' and not a[2]:
                return [[i for i, y in enumerate(self(a[0])) if y]]
            if n in ('astype', 'copy', 'tolist', 'view') or (n == 'round' and False):
                return self(a[0])
            if n in ('flatten', 'ravel'):
                return flat(self(a[0]))
            if n == 'reshape':
                sh = [self(x) for x in a[2]]
                sh = sh[0] if len(sh) == 1 and isarr(sh[0]) else sh
                return reshape(flat(self(a[0])), sh)
            return self.free(t, t)
        if op == 'cast':
            return self(a[0]) if isinstance(a[0], T) else self(a[1])
        if op == 'attr' and a[1] == 'shape':
            try:
                return list(bshape(self(a[0])))
            except Unknown:
                return self.free(t, t)
        if op == 'attr' and a[1] == 'T':
            x = self(a[0])
            return [list(r) for r in zip(*x)]
        if op == 'store':
            import copy
            b = copy.deepcopy(self(a[0]))
            return put(b, [self(k) if k is not ELL else Ellipsis for k in keytuple(a[1])], self(a[2]))
        if op == 'sel':
            try:
                b = self(a[0])
            except Unknown:
                ks = tuple(str(self(k)) for k in keytuple(a[1]))
                return self.free((a[0].uid if a[0].op != 'sym' else a[0].args[0], ks), t)
            if isinstance(b, list):
                return get(b, [self(k) for k in keytuple(a[1])])
            if isinstance(b, str):
                return b[self(a[1])]
            if isinstance(b, dict):
                return b[self(a[1])]
            ks = tuple(str(self(k)) for k in keytuple(a[1]))
            return self.free((a[0].uid if a[0].op != 'sym' else a[0].args[0], ks), t)
        if op == 'dict':
            return {self(k): self(v) for k, v in a}
        if op == 'comp':
            n = trips(a[0])
            L = a[2]
            out = []
            itv = a[0]
            if itv.op == 'filter':
                raise Unknown('filter')
            for i in range(self(n)):
                out.append(self(subst(a[1], {mk('it', L): const(i)})))
            return out
        if op == 'concat':
            return [y for x in a for y in self(x)]
        return self.free(t, t)

    def cmp(self, f, a):
        x, y = self(a[0]), self(a[1])
        if isarr(x) or isarr(y):
            return bmap(f, x, y)
        return f(x, y)

    def alloc(self, a):
        kind = a[0].args[1]
        if kind == 'arange':
            n = self(a[1])
            if len(a) > 2:
                xs = [self(x) for x in a[2:]]
                return list(range(*xs)) if all(isinstance(x, int) for x in xs) else [Unknown]
            return list(range(n))
        sh = self(a[1])
        sh = sh if isarr(sh) else [sh]
        if kind == 'full':
            return full(sh, self(a[2]))
        if kind in ('zeros', 'ones'):
            return full(sh, 0 if kind == 'zeros' else 1)
        if kind == 'empty':
            return full(sh, float('nan'))
        if kind in ('eye', 'identity'):
            return [[int(i == j) for j in range(sh[0])] for i in range(sh[0])]
        raise Unknown('alloc ' + kind)


def flat(x):
    if not isinstance(x, list):
        return [x]
    return [z for y in x for z in flat(y)]


def squeeze(x):
    if not isinstance(x, list):
        return x
    return squeeze(x[0]) if len(x) == 1 else [squeeze(y) for y in x]


def reshape(v, sh):
    sh = list(sh)
    if -1 in sh:
        p = 1
        for s in sh:
            if s != -1:
                p *= s
        sh[sh.index(-1)] = len(v) // p

    def go(v, sh):
        if len(sh) == 1:
            return v
        n = len(v) // sh[0]
        return [go(v[i * n:(i + 1) * n], sh[1:]) for i in range(sh[0])]
    return go(v, sh)


def dot(x, y):
    if not isarr(x) or not isarr(y):
        return bmap(lambda p, q: p * q, x, y)
    if not isarr(x[0]):
        if not isarr(y[0]):
            return sum(p * q for p, q in zip(x, y))
        return [sum(x[k] * y[k][j] for k in range(len(x))) for j in range(len(y[0]))]
    return [dot(r, y) for r in x]


def get(b, ks):
    if not ks:
        return b
    k, r = ks[0], ks[1:]
    if k is Ellipsis:
        return get(b, r) if not r else get(b, [slice(None)] * (len(bshape(b)) - len(r)) + r)
    if k is None:
        return [get(b, r)]
    if isinstance(k, slice):
        return [get(x, r) for x in b[k]]
    if isinstance(k, list):
        if k and isinstance(k[0], bool):
            k = [i for i, v in enumerate(k) if v]
        return [get(b[i], r) for i in k]
    return get(b[k], r)


def put(b, ks, v):
    if not ks:
        if isarr(b) and not isarr(v):
            return mapdeep(lambda _: v, b)
        if isarr(b) and isarr(v):
            return bmap(lambda p, q: q, b, v)
        return v
    k, r = ks[0], ks[1:]
    if k is Ellipsis:
        return put(b, [slice(None)] * (len(bshape(b)) - len(r)) + r, v) if r else put(b, [], v)
    if isinstance(k, slice):
        idx = range(*k.indices(len(b)))
    elif isinstance(k, list):
        idx = [i for i, q in enumerate(k) if q] if k and isinstance(k[0], bool) else k
    else:
        b[k] = put(b[k], r, v)
        return b
    for n, i in enumerate(idx):
        sub_ = get(b, [i])
        nd = len(bshape(get(sub_, r)))
        vv = v
        if isarr(v) and len(bshape(v)) > nd:
            vv = v[n] if len(v) > 1 else v[0]
        b[i] = put(b[i], r, vv)
    return b


def fold(t):
    """python value (numbers / nested lists / strings) of a closed term or None"""
    try:
        v = Valuation()(t)
    except (Unknown, RecursionError):
        return None
    return v


def nan(x):
    return isinstance(x, float) and x != x


def close(x, y, tol=1e-9):
    if isinstance(x, list) or isinstance(y, list):
        x2, y2 = (x if isinstance(x, list) else None), (y if isinstance(y, list) else None)
        if x2 is None or y2 is None or len(x2) != len(y2):
            return False
        return all(close(p, q, tol) for p, q in zip(x2, y2))
    if isinstance(x, bool) or isinstance(y, bool) or x is None or y is None or isinstance(x, str) or isinstance(y, str):
        return x == y
    if nan(x) or nan(y):
        return True
    if x == y:
        return True
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


def samecases(a, b, depth=8, budget=None, lits=None):
    """equality of normal forms in every case of the conditions occurring in either term (a proof when True)"""
    if a is b:
        return True
    budget = budget if budget is not None else [400]
    budget[0] -= 1
    if depth == 0 or budget[0] < 0:
        return False
    c = pickcond(a) or pickcond(b)
    if c is None:
        return False
    for pol in (True, False):
        l = dict(lits or {})
        l.update(literals(c, pol))
        if not samecases(inst(a, l), inst(b, l), depth - 1, budget, l):
            return False
    return True


def pickcond(t):
    best = None
    for x in subterms(t):
        if x.op == 'ite':
            c = x.args[0]
            if not contains(c, lambda y: y.op == 'ite'):
                while c.op in ('and', 'or', 'not'):
                    c = c.args[0]
                return c
    return best


def compare(a, b, leaf=None, intleaf=None, env=None, trials=24, need=4, tol=1e-9, pre=None):
    """True equal / False (differs on a witness) / None undecided"""
    if a is b:
        return True
    leaf = leaf or (lambda t: root(t).op in ('sym',))
    good = 0
    for s in range(trials):
        v = Valuation(s, env=env(s) if callable(env) else env, leaf=leaf, intleaf=intleaf)
        try:
            if pre is not None and not v(pre):
                continue
            x, y = v(a), v(b)
        except (Unknown, RecursionError):
            continue
        if not close(x, y, tol):
            return False
        good += 1
    return None if good < need else 'agree'
