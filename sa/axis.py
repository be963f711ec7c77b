"""Which pattern does a value belong to?  An abstract interpretation over extracted terms.  Classes:
  ('U',)        does not depend on any pattern
  ('S', i)      depends on pattern i only
  ('P', k, n)   an n-dimensional array whose entry at position i of axis k depends on pattern i only
  ('F', s)      a flat array, pattern i occupying entries [i*s, (i+1)*s)
  ('L', [c..])  a list or tuple of values
  ('M', why)    mixes different patterns
  ('?', why)    not decided
"""
from .term import *
U = ('U',)
REDUCE = {'min', 'max', 'mean', 'sum', 'std', 'var', 'median', 'nansum', 'nanmean', 'nanmin', 'nanmax', 'amin', 'amax', 'prod', 'ptp', 'any', 'all', 'argmax', 'argmin', 'percentile'}
ELEM = {'abs', 'sqrt', 'fabs', 'clip', 'maximum', 'minimum', 'nan_to_num', 'isfinite', 'isnan', 'exp', 'log', 'asarray', 'array', 'ascontiguousarray', 'copy', 'where', 'float32', 'float64', 'int32', 'int64', 'logical_and', 'logical_or', 'logical_not', 'multiply', 'add', 'subtract', 'divide'}
PER = {'gaussian_filter', 'gaussian_filter1d', 'grey_dilation', 'maximum_filter', 'minimum_filter', 'uniform_filter', 'median_filter'}
NEUTRAL = {'len', 'isinst'}


def short(name):
    return name.rsplit('.', 1)[-1] if isinstance(name, str) else '?'


class Axis:
    def __init__(self, it, env, count=None):
        self.it, self.env, self.count = it, dict(env), count
        self.memo = {}
        self.arr = {}            # (initial value, loop id) -> object
        self.loops = {}
        self.stores = {}
        for e in it.events:
            for L in e.loops:
                self.loops[L.id] = L
            if e.kind == 'store':
                b = e.d.get('base')
                while b is not None and b.op == 'view':
                    b = b.args[0]
                self.stores.setdefault(b, []).append(e)
        for L in self.loops.values():
            for k, v in getattr(L, 'changed', {}).items():
                if k[0] == 'c' and v.op == 'after':
                    self.arr[(v.args[0], L.id)] = k[1]
                    for h in (it.state.heap, L.headheap):
                        self.arr.setdefault((it.deep(v.args[0], h), L.id), k[1])
        self.busy = set()
        self.prev = {}

    # -------------------------------------------------- lattice
    def join(self, a, b):
        if a == b:
            return a
        for x in (a, b):
            if x[0] == 'M':
                return x
        for x in (a, b):
            if x[0] == '?':
                return x
        if a == U:
            return b
        if b == U:
            return a
        if a[0] == 'L' or b[0] == 'L':
            return self.join(self.flat(a), self.flat(b))
        if a[0] == 'S' and b[0] == 'S':
            return ('M', 'values of patterns %s and %s meet' % (show(a[1], 3), show(b[1], 3)))
        if {a[0], b[0]} == {'S', 'P'}:
            return ('M', 'a value of one pattern meets the array of all patterns')
        if a[0] == b[0] == 'P':
            if a[2] is None or b[2] is None:
                return ('?', 'array of unknown rank')
            if a[1] - a[2] == b[1] - b[2]:
                return a if a[2] >= b[2] else b
            return ('M', 'pattern axes %d of %d and %d of %d are combined' % (a[1], a[2], b[1], b[2]))
        return ('?', 'combination of %s and %s' % (a[0], b[0]))

    def flat(self, a):
        if a[0] != 'L':
            return a
        r = U
        for x in a[1]:
            r = self.join(r, self.flat(x))
        return r

    def joinall(self, ts):
        r = U
        for t in ts:
            r = self.join(r, self.flat(self.c(t)))
        return r

    def cls(self, t):
        """class of a term, iterated until values carried round loops are stable"""
        old = None
        for _ in range(6):
            self.memo = {}
            r = self.c(t)
            if r == old and all(self.prev.get(k) == v for k, v in self.memo.items()):
                return r
            self.prev, old = self.memo, r
        return ('?', 'no fixed point')

    # -------------------------------------------------- transfer
    def c(self, t):
        if t in self.memo:
            return self.memo[t]
        if t in self.busy:
            return self.prev.get(t, U)
        self.busy.add(t)
        try:
            r = self.c1(t)
        finally:
            self.busy.discard(t)
        self.memo[t] = r
        return r

    def c1(self, t):
        if t in self.env:
            return self.env[t]
        if not isinstance(t, T):
            return U
        op, a = t.op, t.args
        if op == 'len':
            r = self.flat(self.c(a[0]))
            return r if r[0] == 'S' else U
        if op == 'range':
            return self.joinall(a)
        if op in ('const', 'ext', 'slice', 'func', 'class', 'bool', 'it', 'new', 'module') or op in NEUTRAL:
            return U
        if op == 'sym':
            return U
        if op == 'obj':
            return self.c(self.it.V(t, self.it.state))
        if op == 'attr':
            if a[1] in ('shape', 'ndim', 'size', 'dtype', 'T'):
                return U if a[1] != 'T' else self.transpose(self.c(a[0]), None)
            return self.c(a[0]) if self.c(a[0])[0] in ('M', '?') else U if self.c(a[0]) == U else self.c(a[0])
        if op in ('list', 'tuple'):
            return ('L', tuple(self.c(x) for x in a))
        if op == 'poly':
            r = U
            for m, _ in a[0]:
                for x, _ in m:
                    r = self.join(r, self.flat(self.c(x)))
            return r
        if op == 'sel':
            return self.sel(self.c(a[0]), a[1])
        if op == 'view':
            return self.sel(self.c(a[0]), a[1]) if len(a) > 1 and isinstance(a[1], T) else self.c(a[0])
        if op == 'store':
            return self.store(self.c(a[0]), a[1], self.c(a[2]))
        if op == 'after':
            lid = a[1].args[0] if isinstance(a[1], T) else a[1]
            base = a[0]
            o = self.arr.get((base, lid))
            if o is None:
                return ('?', 'array changed in a loop that is not known')
            while base.op == 'store' and base.args[1].op == 'dupkey':
                base = base.args[0]
            r = self.c(base)
            self.memo[t] = r
            for e in self.stores.get(o, []):
                if any(L.id == lid for L in e.loops):
                    v = self.c(self.it.V(e.value, self.it.state) if e.value.op == 'obj' else e.value)
                    if v == U:       # whether it is stored may depend on the pattern
                        w = self.joinall(list(e.pc) + [L.iter for L in e.loops if L.id != lid and L.iter is not None])
                        v = w if w[0] == 'S' else v
                    r = self.store(r, e.full, v, e, lid)
            return r
        if op in ('mu', 'muend'):
            L = self.loops.get(a[0])
            n = a[1]
            if L is None or n not in L.final:
                return ('?', 'value carried by a loop')
            r = self.flat(self.c(L.init[n])) if n in L.init else U
            fin = L.final[n]
            r = self.join(r, self.joinall(fin if isinstance(fin, (list, tuple)) else [fin]))
            if r == ('S', mk('it', a[0])):
                return ('M', 'a value of one pattern is carried on to the next')
            return r
        if op == 'cast':
            return self.c(a[1])
        if op in ('call', 'mcall'):
            return self.call(t)
        if op == 'fn':
            if a[0] in ('max', 'min') and len(a) == 2:
                return self.reduce(self.c(a[1]), None)
            return self.joinall(a[1:])
        if op in ('ite', 'and', 'or', 'not', 'eq', 'lt', 'gt', 'inv', 'is', 'truthy', 'uniop', 'binop', 'in') or op.startswith('?'):
            return self.joinall([x for x in a if isinstance(x, T)])
        if op == 'nested':
            return U
        ch = [x for x in subterms(t) if x is not t and x in self.env and self.env[x] != U]
        return ('?', 'operation %s' % op) if ch else U

    def isslice(self, k):
        return k.op == 'slice'

    def fullslice(self, k):
        lo, hi, st = (list(k.args) + [NONE, NONE, NONE])[:3]
        if st not in (NONE, ONE):
            return False
        return lo in (NONE, ZERO) and (hi is NONE or hi is self.count)

    def keyclass(self, ks, skip=None):
        r = U
        for j, k in enumerate(ks):
            if j == skip:
                continue
            for x in ([k] if not self.isslice(k) else [y for y in k.args if isinstance(y, T)]):
                r = self.join(r, self.flat(self.c(x)))
        return r

    def sel(self, b, key):
        ks = list(keytuple(key))
        if len(ks) == 1 and ks[0].op == 'const' and ks[0].args[0] == 'str':
            return b if b[0] != 'L' else self.flat(b)
        if ks and ks[0].op == 'nested':
            ks = ks[1:]
        if b[0] in ('M', '?'):
            return b
        if b[0] == 'L':
            if len(ks) == 1 and is_const(ks[0]) and isinstance(cval(ks[0]), int) and -len(b[1]) <= cval(ks[0]) < len(b[1]):
                return b[1][cval(ks[0])]
            if len(ks) > 1 and is_const(ks[0]) and isinstance(cval(ks[0]), int) and -len(b[1]) <= cval(ks[0]) < len(b[1]):
                return self.sel(b[1][cval(ks[0])], mk('tuple', *ks[1:]))
            return self.join(self.flat(b), self.keyclass(ks)) if b[1] else U
        if b == U:
            return self.keyclass(ks)
        if b[0] == 'S':
            return self.join(b, self.keyclass(ks))
        if b[0] == 'F':
            if len(ks) != 1:
                return ('?', 'subscript of a flat array')
            k = ks[0]
            if self.isslice(k):
                lo, hi = k.args[0], k.args[1]
                for i in self.owner(lo, b[1]):
                    if sub(hi, lo) is b[1]:
                        return ('S', i)
                return ('?', 'slice of a flat array')
            own = self.owner(k, b[1])
            rest = [i for i in own]
            if len(rest) == 1:
                i = rest[0]
                r = sub(k, mul(i, b[1]))
                kc = self.flat(self.c(r))
                if contains(r, i):
                    return ('M', 'entry %s of a flat array reaches other patterns' % show(k, 4))
                return self.join(('S', i), kc)
            drift = [i for i in subterms(k) if i.op == 'it' and contains(sub(k, mul(i, b[1])), i) and all(poly(k).get(m) == c for m, c in poly(mul(i, b[1])).items())]
            if not rest and drift and all(self.fixed(i) or self.loops.get(i.args[0]) is not None for i in drift):
                return ('M', 'entry %s of a flat array drifts away from the pattern' % show(k, 4))
            if not rest and self.fixed(k):
                return ('M', 'entry %s of a flat array is the same whatever the pattern' % show(k, 4))
            return ('?', 'entry %s of a flat array' % show(k, 4))
        _, ax, n = b
        out, pos = 0, 0
        where = None
        own = None
        expl = [k for k in ks if not (k is NONE)]
        if any(k.op == 'ext' and 'Ellipsis' in str(k.args) or k.op == 'ellipsis' or (k.op == 'const' and k.args[0] == 'ellipsis') for k in ks):
            if n is None:
                return ('?', 'ellipsis')
            j = [i for i, k in enumerate(ks) if k.op == 'ellipsis' or 'llipsis' in str(k.args)][0]
            ks[j:j + 1] = [mk('slice', NONE, NONE, NONE)] * (n - len(expl) + 1)
        for k in ks:
            if k is NONE:
                out += 1
                continue
            if pos == ax:
                if self.isslice(k):
                    if not self.fullslice(k):
                        return ('?', 'patterns %s of an array' % show(k, 4))
                    where = out
                    out += 1
                else:
                    own = k
            else:
                kc = self.flat(self.c(k)) if not self.isslice(k) else self.keyclass([k])
                if self.isslice(k):
                    out += 1
                elif kc[0] in ('P', 'F'):
                    return ('?', 'array subscript')
            pos += 1
        kc = self.keyclass(ks, skip=None)
        if own is not None:
            return self.join(('S', own), self.keyclass([k for k in ks if k is not own]))
        if where is None:
            where = ax - pos + out
        nn = None if n is None else n - pos + out
        return self.join(('P', where, nn), kc)

    def fixed(self, k):
        for x in subterms(k):
            if x.op in ('mu', 'muend', 'sym', 'ret', 'call', 'mcall') and x is not self.count:
                return False
            if x.op == 'it':
                L = self.loops.get(x.args[0])
                if L is None or L.iter is None or contains(L.iter, self.count):
                    return False
        return True

    def owner(self, k, stride):
        """the i in k = i*stride + rest"""
        r = []
        for i in [x for x in subterms(k) if x.op in ('it', 'sym', 'mu')]:
            if i is stride:
                continue
            d = sub(k, mul(i, stride))
            if not contains(d, i):
                r.append(i)
        return r

    def store(self, b, key, v, e=None, lid=None):
        ks = list(keytuple(key))
        if ks and ks[0].op == 'nested':
            ks = ks[1:]
        v = self.flat(v)
        if v[0] in ('M', '?'):
            return v
        if b[0] in ('M', '?'):
            return b
        kc = self.keyclass(ks)
        if len(ks) == 1 and ks[0].op == 'const' and ks[0].args[0] == 'str':
            if b[0] == 'P' and v[0] == 'P' and b[1] == v[1]:
                return b if b == v else ('P', b[1], None)
            return ('P', v[1], None) if b == U and v[0] == 'P' else self.join(b, v)
        whole = all(self.isslice(k) and k.args[0] is NONE and k.args[1] is NONE for k in ks) or len(ks) == 0
        if whole:
            return self.join(b, v)
        if v[0] == 'S' or kc[0] == 'S':
            s = self.join(v, kc) if (v[0] == 'S' or v == U) and (kc[0] == 'S' or kc == U) else ('?', 'store')
            if s[0] != 'S':
                return s
            at = [j for j, k in enumerate(ks) if k is s[1]]
            if len(at) == 1:
                n = self.ndim(e) or (b[2] if b[0] == 'P' else None)
                if n is None and not any(self.isslice(k) for k in ks):
                    n = None
                new = ('P', at[0], n)
                if b[0] == 'P':
                    if b[1] == at[0]:
                        return b
                    return ('M', 'patterns are stored along different axes')
                if b == U:
                    return new if n is not None else ('P', at[0], len(ks))
                return ('?', 'store')
            if b[0] == 'S' and b[1] is s[1]:
                return b
            if lid is not None and not at and s[1] is mk('it', lid):
                return ('M', 'the value of pattern %s is stored at [%s]' % (show(s[1], 3), ', '.join(show(k, 3) for k in ks)))
            if b == U and not any(k.op == 'it' for k in ks) and not at:
                # an array made anew for each pattern
                return s
            if not at:
                return ('M', 'the value of pattern %s is stored at [%s]' % (show(s[1], 3), ', '.join(show(k, 3) for k in ks)))
            return ('?', 'store')
        if v == U:
            return b
        if v[0] == 'P':
            ints = sum(1 for k in ks if not self.isslice(k))
            if b[0] == 'P':
                n = b[2]
                if n is None or v[2] is None:
                    return ('?', 'store of an array of unknown rank')
                # position of the pattern axis among the sliced axes of the target
                keyat = ks[b[1]] if b[1] < len(ks) else mk('slice', NONE, NONE, NONE)
                if not self.isslice(keyat) or not self.fullslice(keyat):
                    return ('?', 'store into some patterns')
                left = sum(1 for k in ks[:b[1]] if not self.isslice(k))
                if (b[1] - left) - (n - ints) == v[1] - v[2]:
                    return b
                return ('M', 'pattern axis %d of the stored array is put on axis %d' % (v[1], b[1]))
            if b == U:
                # a fresh array: the target keeps the sliced axes
                n = self.ndim(e)
                m = n if n is not None else max(len(ks), (v[2] or 0) + ints)
                free = [j for j in range(m) if j >= len(ks) or self.isslice(ks[j])]
                j = len(free) - v[2] + v[1] if v[2] is not None else None
                if j is None or not 0 <= j < len(free):
                    return ('?', 'store')
                p = free[j]
                if p < len(ks) and not self.fullslice(ks[p]):
                    return ('?', 'store into some patterns')
                return ('P', p, m)
        return ('?', 'store of %s' % v[0])

    def ndim(self, e):
        return None

    def reduce(self, x, ax, keep=False):
        if x[0] in ('U', 'S', 'M', '?'):
            return x
        if x[0] == 'L':
            return self.flat(x)
        if x[0] == 'F':
            return ('M', 'a reduction over all patterns')
        k, n = x[1], x[2]
        if ax is None:
            return ('M', 'a reduction over all patterns')
        axs = [cval(y) for y in (ax.args if ax.op in ('tuple', 'list') else (ax,)) if is_const(y)]
        if not axs or n is None:
            return ('?', 'reduction along an unknown axis')
        axs = [y % n for y in axs]
        if k in axs:
            return ('M', 'a reduction over axis %d, which runs over the patterns' % k)
        return x if keep else ('P', k - sum(1 for y in axs if y < k), n - len(axs))

    def transpose(self, x, perm):
        if x[0] != 'P':
            return x
        k, n = x[1], x[2]
        if n is None:
            return ('?', 'transpose')
        if perm is None:
            return ('P', n - 1 - k, n)
        p = [cval(y) if is_const(y) else None for y in perm]
        if None in p or len(p) != n:
            return ('?', 'transpose')
        return ('P', [y % n for y in p].index(k), n)

    def call(self, t):
        a = t.args
        if t.op == 'call':
            name, vals, kw = a[0], list(a[1]), dict(a[2]) if len(a) > 2 and a[2] else {}
        else:
            name, vals, kw = a[1], [a[0]] + list(a[2]), dict(a[3]) if len(a) > 3 and a[3] else {}
        if not isinstance(name, str):
            return ('?', 'call')
        s = short(name)
        if name == 'alloc' or s in ('zeros_like', 'ones_like', 'empty_like', 'full_like', 'zeros', 'ones', 'empty', 'arange', 'shape', 'ndim'):
            if name == 'alloc' and len(vals) > 2:
                return self.flat(self.c(vals[2]))
            return U
        cs = [self.c(v) for v in vals]
        x = self.flat(cs[0]) if cs else U
        rest = self.joinall(vals[1:] + list(kw.values()))
        allc = self.join(x, rest)
        if allc[0] in ('M', '?', 'U'):
            return allc
        if allc[0] == 'S':
            return allc
        if s in REDUCE:
            ax = kw.get('axis', vals[1] if len(vals) > 1 else None)
            return self.reduce(x, None if ax is NONE else ax, kw.get('keepdims') is TRUE)
        if s in ('reshape',):
            sh = vals[1:]
            if len(sh) == 1 and sh[0].op in ('tuple', 'list'):
                sh = list(sh[0].args)
            return self.reshape(x, sh)
        if s in ('ravel', 'flatten'):
            return self.reshape(x, [const(-1)])
        if s == 'squeeze':
            return ('?', 'squeeze of the array of all patterns')
        if s == 'transpose':
            p = vals[1:]
            if len(p) == 1 and p[0].op in ('tuple', 'list'):
                p = p[0].args
            return self.transpose(x, p or None)
        if s == 'expand_dims':
            ax = kw.get('axis', vals[1] if len(vals) > 1 else None)
            if x[0] == 'P' and ax is not None and is_const(ax) and x[2] is not None:
                j = cval(ax) % (x[2] + 1)
                return ('P', x[1] + (j <= x[1]), x[2] + 1)
            return ('?', 'expand_dims')
        if s in ('flip', 'roll', 'sort', 'argsort', 'cumsum'):
            ax = kw.get('axis', vals[-1] if len(vals) > 1 else None)
            if x[0] == 'P' and ax is not None and ax is not NONE and is_const(ax) and x[2]:
                return x if cval(ax) % x[2] != x[1] else ('M', '%s along axis %d, which runs over the patterns' % (s, x[1]))
            return ('M', '%s of the array of all patterns' % s) if x[0] in ('P', 'F') and s == 'flip' else ('?', s)
        if s in PER and x[0] == 'P':
            w = kw.get('size', kw.get('sigma', vals[1] if len(vals) > 1 else None))
            if s == 'gaussian_filter1d':
                ax = kw.get('axis', const(-1))
                return x if is_const(ax) and x[2] and cval(ax) % x[2] != x[1] else ('M', 'filtering over the patterns')
            if w is not None and w.op in ('tuple', 'list') and x[2] == len(w.args):
                z = w.args[x[1]]
                none = ZERO if s == 'gaussian_filter' else ONE
                return x if z is none else ('M', '%s is %s wide along axis %d, which runs over the patterns' % (s, show(z, 3), x[1]))
            return ('M', '%s runs over the axis of the patterns' % s) if w is not None and rank(w) == 0 else ('?', s)
        if s in ELEM or s == 'astype':
            if s == 'where' and len(vals) == 1:
                return ('?', 'where')
            return allc
        return ('?', 'call of %s' % name)

    def reshape(self, x, sh):
        if x[0] == 'P':
            k, n = x[1], x[2]
            if len(sh) == 1 and is_const(sh[0]) and cval(sh[0]) == -1:
                if k == 0:
                    return ('F', self.stride) if getattr(self, 'stride', None) is not None else ('?', 'flattening')
                if n == 1:
                    return x
                return ('?', 'flattening')
            at = [j for j, y in enumerate(sh) if y is self.count]
            if len(at) == 1 and n is not None:
                if (k == n - 1 and at[0] == len(sh) - 1) or (k == 0 and at[0] == 0) or (n == 1 and all(y in (ONE, self.count) for y in sh)):
                    return ('P', at[0], len(sh))
                if k == n - 1 and all(y is ONE for y in sh[at[0] + 1:]):
                    return ('P', at[0], len(sh))
                return ('M', 'reshape puts the pattern axis on axis %d' % at[0]) if all(y is not ONE for y in sh) and len(sh) == n else ('?', 'reshape')
            if is_const(sh[-1]) and cval(sh[-1]) == -1 and k == n - 1:
                return ('?', 'reshape')
            return ('?', 'reshape')
        return ('?', 'reshape')
