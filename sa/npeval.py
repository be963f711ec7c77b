"""Value of an extracted term when its leaves are given small arrays: the array operations of the analysed code (which the term records) are
given their NumPy meaning.  Structured arrays are kept as one array per field.  Anything without a known meaning raises Unknown."""
import math
import numpy as np
from fractions import Fraction
from . import term as tm
from .term import *
from .evalt import Unknown

FIELDSHAPE = {'quat': (4,)}
SAFE = set('abs absolute add all any amax amin max min sum mean std var prod arange argmax argmin argsort sort arccos arcsin arctan arctan2 array asarray atleast_1d atleast_2d '
           'atleast_3d broadcast_to ceil choose clip concatenate cos cosh cross cumsum deg2rad diff divide dot einsum exp expand_dims flatnonzero flip floor full full_like '
           'greater hypot isfinite isnan less linspace log log10 log2 logical_and logical_or logical_not maximum meshgrid minimum mod moveaxis multiply nan_to_num negative '
           'nonzero ones ones_like outer pad power ptp rad2deg radians degrees ravel repeat reshape roll round rollaxis sign sin sinh sqrt square squeeze stack hstack vstack '
           'dstack column_stack subtract swapaxes take tan tanh tile trace transpose trunc unique where zeros zeros_like empty empty_like identity eye indices isclose allclose '
           'searchsorted median percentile ascontiguousarray require copy int32 int64 float32 float64 uint8 uint16 int16 intp bool_ float int rint fix copyto count_nonzero '
           'logical_xor remainder fmod floor_divide true_divide matmul tensordot inner vdot size ndim shape bincount histogram digitize select compress extract append insert '
           'delete fliplr flipud rot90 triu tril diag diagonal putmask argwhere conj real imag cbrt interp average array_equal'.split())
METH = set('astype copy reshape ravel flatten squeeze transpose sum mean std var min max all any argmax argmin argsort clip nonzero round repeat take cumsum dot prod ptp '
           'swapaxes item tolist view conj conjugate trace'.split())
FN = {'acos': np.arccos, 'asin': np.arcsin, 'atan': np.arctan, 'arccos': np.arccos, 'arcsin': np.arcsin, 'mod': np.mod, 'floordiv': np.floor_divide, 'pow': np.power}


class SArr:
    def __init__(self, shape, fields=None, base=None):
        self.shape = tuple(shape)
        self.f = dict(fields or {})
        self.base = base

    def field(self, k):
        if k not in self.f:
            fs = FIELDSHAPE.get(k, ())
            b = self.base if self.base is not None else np.full(self.shape, np.nan)
            self.f[k] = np.array(np.broadcast_to(b.reshape(b.shape + (1,) * len(fs)), self.shape + tuple(fs)))
        return self.f[k]

    def names(self):
        return list(self.f)

    def get(self, k):
        if isinstance(k, str):
            return self.field(k)
        p = np.empty(self.shape, bool)[k]
        b = None if self.base is None else self.base[k]
        return SArr(np.shape(p), {n: v[k] for n, v in self.f.items()}, b)

    def put(self, k, v):
        if isinstance(k, str):
            a = self.field(k)
            r = np.array(v)
            if r.dtype.kind == 'f' and a.dtype.kind != 'f' or a.dtype.kind == 'O' or r.dtype.kind == 'O':
                a = a.astype(r.dtype)
            a[...] = v
            self.f[k] = a
            return
        if isinstance(v, SArr):
            for n in set(self.f) | set(v.f):
                self.field(n)[k] = v.field(n)
        else:
            for n in self.f:
                self.field(n)[k] = v

    def copy(self):
        return SArr(self.shape, {n: v.copy() for n, v in self.f.items()}, None if self.base is None else self.base.copy())


def ints(k):
    if isinstance(k, np.ndarray) and k.dtype.kind == 'f' and np.all(k == np.floor(k)):
        return k.astype(int)
    if isinstance(k, float) and k == math.floor(k):
        return int(k)
    if isinstance(k, list):
        return np.array(k) if not any(isinstance(x, (list, slice)) or x is Ellipsis for x in k) else k
    return k


def nofrac(x):
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, (list, tuple)):
        return type(x)(nofrac(y) for y in x)
    return x


def asarr(x):
    return np.array(nofrac(x)) if isinstance(x, (list, tuple)) else x


class NV:
    def __init__(self, env=None, funcs=None, methods=None, it=None, limit=200):
        self.env = dict(env or {})
        self.it = it
        self.loops = {L.id: L for L in it.loopsmade} if it is not None else {}
        self.limit = limit
        self.ran = {}
        self.memo = {}
        self.funcs = dict(funcs or {})
        self.methods = dict(methods or {})

    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            v = self.memo[t]
            if v is self:
                raise Unknown('cycle')
            return v
        self.memo[t] = self
        try:
            with np.errstate(all='ignore'):
                v = self.ev(t)
        except Unknown:
            del self.memo[t]
            raise
        except Exception as e:
            del self.memo[t]
            raise Unknown('%s: %s in %s' % (type(e).__name__, e, show(t, 3)))
        self.memo[t] = v
        return v

    def key(self, k):
        ks = tuple(Ellipsis if x is ELL else None if x is NONE else ints(self(x)) for x in keytuple(k))
        return ks[0] if len(ks) == 1 else ks

    def truth(self, c):
        v = self(c)
        if isinstance(v, np.ndarray) and v.size > 1:
            raise Unknown('truth of an array')
        return bool(v)

    def ev(self, t):
        op, a = t.op, t.args
        if op == 'const':
            if a[0] == 'n':
                return int(a[1]) if a[1].denominator == 1 else float(a[1])
            return a[1]
        if t is ELL:
            return Ellipsis
        if t is tm.PI:
            return math.pi
        if op == 'sym' and a[0] == 'inf':
            return float('inf')
        if op == 'poly':
            s = 0
            for m, c in a[0]:
                v = 1
                for x, e in m:
                    y = asarr(self(x))
                    if isinstance(y, np.ndarray) and y.dtype == bool:
                        y = y.astype(int)
                    for _ in range(abs(e)):
                        v = v * y if e > 0 else (Fraction(v, y) if isinstance(v, (int, Fraction)) and isinstance(y, int) and y else v / y)
                if isinstance(v, (int, Fraction)):
                    v = v * c
                else:
                    v = v * c.numerator / c.denominator if c.denominator != 1 else v * int(c)
                if isinstance(v, Fraction):
                    v = int(v) if v.denominator == 1 else v
                if isinstance(v, Fraction) and not isinstance(s, (int, Fraction)) or isinstance(s, Fraction) and not isinstance(v, (int, Fraction)):
                    v, s = (float(v), s) if isinstance(v, Fraction) else (v, float(s))
                s = s + v
            if isinstance(s, Fraction):
                s = int(s) if s.denominator == 1 else s
            return s
        if op == 'inv':
            return 1.0 / asarr(self(a[0]))
        if op == 'list' or op == 'tuple':
            xs = [self(x) for x in a]
            return xs if op == 'list' else tuple(xs)
        if op == 'dict':
            return {self(k): self(v) for k, v in a}
        if op == 'fn':
            xs = [asarr(self(x)) for x in a[1:]]
            n = a[0]
            if n in ('floor', 'ceil', 'int', 'round') and len(xs) == 1 and isinstance(xs[0], (int, Fraction)):
                return {'floor': math.floor, 'ceil': math.ceil, 'int': int, 'round': round}[n](xs[0])
            if n == 'floordiv' and all(isinstance(x, (int, Fraction)) for x in xs):
                return math.floor(Fraction(xs[0]) / Fraction(xs[1]))
            xs = [float(x) if isinstance(x, Fraction) else x for x in xs]
            if n in ('int', 'float', 'bool') and len(xs) == 1:
                if isinstance(xs[0], np.ndarray):
                    return np.trunc(xs[0]).astype(np.int64) if n == 'int' else xs[0].astype(float if n == 'float' else bool)
                return {'int': int, 'float': float, 'bool': bool}[n](xs[0])
            if n in self.funcs:
                return self.funcs[n](*xs)
            if n in ('min', 'max'):
                if len(xs) == 1:
                    return (np.min if n == 'min' else np.max)(xs[0])
                r = xs[0]
                for y in xs[1:]:
                    r = (np.minimum if n == 'min' else np.maximum)(r, y)
                return r
            if n in FN:
                return FN[n](*xs)
            if n in SAFE:
                return getattr(np, n)(*xs)
            raise Unknown(n)
        if op == 'ite':
            return self(a[1]) if self.truth(a[0]) else self(a[2])
        if op in ('lt', 'gt'):
            x, y = asarr(self(a[0])), asarr(self(a[1]))
            return x < y if op == 'lt' else x > y
        if op == 'eq':
            x, y = self(a[0]), self(a[1])
            if x is None or y is None or isinstance(x, str) or isinstance(y, str):
                return x is y or x == y
            return asarr(x) == asarr(y)
        if op == 'not':
            v = self(a[0])
            return np.logical_not(v) if isinstance(v, np.ndarray) else not v
        if op in ('and', 'or'):
            xs = [self(x) for x in a]
            if any(isinstance(x, np.ndarray) for x in xs):
                r = xs[0]
                for y in xs[1:]:
                    r = np.logical_and(r, y) if op == 'and' else np.logical_or(r, y)
                return r
            return all(xs) if op == 'and' else any(xs)
        if op == 'truthy':
            return self.truth(a[0])
        if op == 'is':
            x, y = self(a[0]), self(a[1])
            return x is y
        if op == 'range':
            return list(range(*[int(self(x)) for x in a]))
        if op == 'slice':
            return slice(*[None if v is None else int(v) for v in (self(x) for x in a)])
        if op == 'len':
            return len(self(a[0]))
        if op == 'call' and a[0] == 'alloc':
            return self.alloc(a[1])
        if op == 'call':
            f = a[0]
            n = f.split('.')[-1]
            xs = [nofrac(self(x)) for x in a[1]]
            kw = {k: self(v) for k, v in a[2] if k not in ('dtype', 'requirements', 'like')}
            for q in (f, n):
                if q in self.funcs:
                    return self.funcs[q](*xs, **kw)
            if f.split('.')[0] in ('numpy', 'np') or '.' not in f:
                if n in ('ascontiguousarray', 'require', 'copy', 'asarray', 'array', 'asfarray'):
                    return np.array(xs[0]) if not isinstance(xs[0], SArr) else xs[0].copy()
                if n in ('list', 'tuple'):
                    return list(xs[0])
                if n == 'len':
                    return len(xs[0])
                if n in ('int', 'float', 'bool', 'str'):
                    return {'int': int, 'float': float, 'bool': bool, 'str': str}[n](xs[0])
                if n == 'slice':
                    return slice(*[None if v is None else int(v) for v in xs])
                if f in ('numpy.linalg.norm', 'numpy.linalg.inv', 'numpy.linalg.det') and not isinstance(xs[0], SArr):
                    return getattr(np.linalg, n)(*xs, **kw)
                if n in SAFE:
                    for v, k in zip(a[1], range(len(xs))):
                        if isinstance(xs[k], SArr):
                            raise Unknown(n)
                    return getattr(np, n)(*xs, **kw)
            raise Unknown(f)
        if op == 'mcall':
            n = a[1]
            r = self(a[0])
            if n in self.methods:
                return self.methods[n](r, *[self(x) for x in a[2]])
            if isinstance(r, SArr):
                if n == 'copy':
                    return r.copy()
                raise Unknown(n)
            if isinstance(r, str):
                if n in ('upper', 'lower', 'strip'):
                    return getattr(r, n)()
                raise Unknown(n)
            r = np.asarray(r)
            if n == 'astype':
                d = a[2][0] if a[2] else None
                s = show(d) if d is not None else ''
                if 'int' in s:
                    return np.trunc(r).astype(np.int64)
                if 'bool' in s:
                    return r.astype(bool)
                return r * 1 if r.dtype != bool else r.astype(float)
            if n in METH and n not in ('view',):
                kw = {k: self(v) for k, v in (a[3] if len(a) > 3 else ()) if k not in ('dtype', 'copy', 'order')}
                return getattr(r, n)(*[ints(self(x)) for x in a[2]], **kw)
            if n == 'view':
                return r
            raise Unknown(n)
        if op == 'cast':
            d, x = (a[1], a[0]) if isinstance(a[0], T) else (a[0], a[1])
            v = self(x)
            if isinstance(v, SArr):
                return v
            v = asarr(v)
            s = d if isinstance(d, str) else show(d)
            if 'int' in s:
                return np.trunc(v).astype(np.int64) if isinstance(v, np.ndarray) else int(v)
            if 'bool' in s:
                return v.astype(bool) if isinstance(v, np.ndarray) else bool(v)
            return v * 1.0 if not isinstance(v, (str, dict)) else v
        if op == 'attr':
            b = self(a[0])
            if isinstance(b, dict) and a[1] in b:
                return b[a[1]]
            b = asarr(b)
            if a[1] == 'shape':
                return tuple(b.shape)
            if a[1] in ('size', 'ndim', 'T', 'flat'):
                if isinstance(b, SArr):
                    return int(np.prod(b.shape)) if a[1] == 'size' else len(b.shape)
                v = getattr(np.asarray(b), a[1])
                return v.copy() if a[1] == 'T' else v
            raise Unknown(show(t, 2))
        if op == 'store':
            b = self(a[0])
            if a[1].op == 'dupkey':
                return b
            v = asarr(nofrac(self(a[2])))
            if isinstance(b, dict):
                b = dict(b)
                b[self(a[1])] = v
                return b
            if a[1].op == 'dupkey':
                return b
            ks = list(keytuple(a[1]))
            if len(ks) == 2 and ks[0].op == 'nested':
                inner = mk('store', mk('sel', a[0], ks[0].args[0]), ks[1], a[2])
                return self(mk('store', a[0], ks[0].args[0], inner))
            b = b.copy() if isinstance(b, SArr) else np.array(b)
            if a[1].op == 'via':
                m = a[1].args[0].args[1]
                if isinstance(b, SArr) or m not in ('squeeze', 'T', 'reshape', 'ravel', 'transpose', 'swapaxes') or m in ('reshape', 'swapaxes') and len(a[1].args) == 2:
                    raise Unknown('store through ' + m)
                w = b.T if m == 'T' else getattr(b, m)(*[ints(self(x)) for x in a[1].args[2:]])
                if not np.shares_memory(w, b):
                    raise Unknown('store through a copy')
                if np.asarray(v).dtype.kind == 'f' and b.dtype.kind in 'iub':
                    raise Unknown('float into int')
                w[self.key(a[1].args[1])] = v
                return b
            k = self.key(a[1])
            return self.put(b, k, v)
        if op == 'sel':
            b = self(a[0])
            if isinstance(b, dict):
                return b[self(a[1])]
            if isinstance(b, str):
                return b[self(a[1])]
            k = self.key(a[1])
            if isinstance(b, SArr):
                return self.sget(b, k)
            if isinstance(b, (list, tuple)):
                if isinstance(k, (int, slice)) and not isinstance(k, bool):
                    return b[k]
                b = np.array(b)
            if isinstance(k, str):
                return SArr(b.shape, base=b).get(k)
            if isinstance(k, tuple) and any(isinstance(x, str) for x in k):
                return self.sget(SArr(b.shape, base=b), k)
            r = b[k]
            return r.item() if isinstance(r, np.generic) else r
        if op == 'view':
            return self(mk('sel', a[0], a[1]))
        if op == 'comp':
            if a[0].op == 'filter':
                raise Unknown('filter')
            n = trips(a[0])
            return [self(subst(a[1], {mk('it', a[2]): const(i)})) for i in range(int(self(n)))]
        if op == 'after' and isinstance(a[1], T) and a[1].op == 'end':
            lid = a[1].args[0]
            r = self.run(lid)
            h = mk('after', a[0], lid)
            if ('c', h) in r and r[('c', h)] is not None:
                return r[('c', h)]
            raise Unknown('after loop')
        if op == 'muend':
            r = self.run(a[0])
            k = ('n', a[1]) if not isinstance(a[1], T) else None
            if k is None:
                h = mk('mu', a[0], a[1])
                if ('c', h) in r:
                    return r[('c', h)]
            if k in r and r[k] is not None:
                return r[k]
            raise Unknown('after loop ' + str(a[1]))
        if op == 'concat':
            xs = [self(x) for x in a]
            return [y for x in xs for y in list(x)]
        raise Unknown(show(t, 3))

    def run(self, lid):
        """follow a summarised loop: {('n', name) | ('c', content head)}: value after it"""
        if lid in self.ran:
            return self.ran[lid]
        L = self.loops.get(lid)
        if L is None:
            raise Unknown('loop')
        if len(L.ends) != 1 or L.breakstates:
            raise Unknown('loop with several ways round')
        end = L.ends[0]
        it = self.it

        def at0(v):
            return self(it.deep(it.V(v, L.state0), L.state0.heap))

        def atend(v, sub):
            return sub(it.deep(it.V(v, end), end.heap))
        heads = {}
        for k, h in L.heads.items():
            heads[h] = at0(h.args[0]) if k[0] == 'c' else (at0(L.attr0[k]) if L.attr0.get(k) is not None else None)
        names = {}
        for k, mu in L.mus.items():
            if mu.op == 'mu':
                names[k] = mu
                try:
                    heads[mu] = at0(L.init[k]) if k in L.init else None
                except Unknown:
                    heads[mu] = None
        n = None
        if L.kind != 'while':
            n = int(self(L.trip if L.trip is not None else trips(L.iter)))
        i = 0
        last = None
        while n is None or i < n:
            if i > self.limit:
                raise Unknown('loop does not end')
            e = dict(self.env)
            e.update(heads)
            e[mk('it', lid)] = i
            sub = NV(e, self.funcs, self.methods, self.it, self.limit)
            if n is None and not sub.truth(L.cond):
                break
            nxt = {}
            for k, h in L.heads.items():
                v = end.heap.get(k)
                nxt[h] = atend(v, sub) if v is not None and v is not h else heads[h]
            for k, mu in names.items():
                v = end.env.get(k)
                try:
                    nxt[mu] = heads[mu] if v is mu else atend(v, sub) if v is not None else None
                except Unknown:
                    nxt[mu] = None
            last = sub
            heads = nxt
            i += 1
        out = {('c', h): heads[h] for h in L.heads.values()}
        for k, mu in L.mus.items():
            if mu.op == 'mu':
                out[('n', k)] = heads[mu]
            else:
                v = L.init.get(k) if last is None else end.env.get(k)
                if v is not None:
                    try:
                        out[('n', k)] = at0(v) if last is None else atend(v, last)
                    except Unknown:
                        pass
        self.ran[lid] = out
        return out

    def sget(self, b, k):
        if isinstance(k, tuple) and any(isinstance(x, str) for x in k):
            s = [x for x in k if isinstance(x, str)][0]
            i = k.index(s)
            r = b.get(s) if i == 0 else b.get(k[:i] if i > 1 else k[0])
            rest = k[i + 1:] if i == 0 else k[i:]
            rest = tuple(rest)
            if i == 0:
                return r[rest] if rest else r
            return self.sget(r, rest) if len(rest) > 1 else r.get(rest[0])
        return b.get(k)

    def put(self, b, k, v):
        hasstr = isinstance(k, str) or isinstance(k, tuple) and any(isinstance(x, str) for x in k)
        if not isinstance(b, SArr) and (hasstr or isinstance(v, SArr)):
            b = SArr(b.shape, base=b)
        if isinstance(b, SArr):
            if isinstance(k, tuple) and hasstr:
                s = [x for x in k if isinstance(x, str)][0]
                rest = tuple(x for x in k if not isinstance(x, str))
                f = b.field(s)
                if np.asarray(v).dtype.kind == 'f' and f.dtype.kind != 'f':
                    f = f.astype(float)
                f[rest] = v
                b.f[s] = f
                return b
            b.put(k, v)
            return b
        v = np.asarray(v)
        if v.dtype.kind == 'f' and b.dtype.kind in 'iub':
            b = b.astype(float)
        if v.dtype.kind == 'O' and b.dtype.kind != 'O':
            b = b.astype(object)
        b[k] = v
        return b

    def alloc(self, a):
        kind = a[0].args[1]
        if kind == 'arange':
            return np.arange(*[self(x) for x in (a[1:] if len(a) == 2 else a[2:])])
        sh = self(a[1])
        sh = tuple(int(x) for x in sh) if isinstance(sh, (list, tuple, np.ndarray)) else (int(sh),)
        if kind == 'full':
            return np.full(sh, self(a[2]))
        if kind in ('zeros', 'ones'):
            return np.full(sh, 0.0 if kind == 'zeros' else 1.0)
        if kind == 'empty':
            return np.full(sh, np.nan)
        if kind in ('eye', 'identity'):
            return np.eye(sh[0])
        raise Unknown('alloc ' + kind)


def same(x, y, tol=1e-9):
    """True / False; None when the shapes cannot be compared"""
    try:
        x, y = np.asarray(x), np.asarray(y)
        if x.dtype.kind == 'O' or y.dtype.kind == 'O' or x.dtype.kind in 'US' or y.dtype.kind in 'US':
            return bool(np.array_equal(x, y))
        if x.shape != y.shape:
            return False
        return bool(np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True))
    except Exception:
        return None
