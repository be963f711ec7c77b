"""Index expressions over small integers: a term compiled to a Python expression, so that a subscript can be tabulated over the iterations
of the loops (or the work items) it depends on.  Only subscripts, bounds and conditions extracted from the source are tabulated."""
import math
from .term import *
from . import term as tm


class Unknown(Exception):
    pass


def _div(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


G = {'floor': math.floor, 'ceil': math.ceil, 'sqrt': math.sqrt, 'exp': math.exp, 'F': __import__('fractions').Fraction, 'int_': int}


def peel(t):
    """the array a (partly) written value is a state of"""
    while t.op in ('after', 'store', 'view') and isinstance(t.args[0], T):
        if t.op == 'store' and isinstance(t.args[1], T) and t.args[1].op == 'dupkey':
            return t              # tells apart objects created alike
        t = t.args[0]
    return t


def identities(it):
    """the object each initial array value belongs to (None where two objects look alike)"""
    m = {}

    def put(k, v):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == 'c' and isinstance(v, T) and isinstance(k[1], T):
            r = peel(v)
            m[r] = k[1] if m.get(r, k[1]) is k[1] else None
    seen = set()
    for e in it.events:
        for L in e.loops or ():
            if L.id not in seen:
                seen.add(L.id)
                for k, v in (getattr(L, 'headheap', None) or {}).items():
                    put(k, v)
    for k, v in it.state.heap.items():
        put(k, v)
    return m


class Expr:
    def __init__(self, leaf=None):
        self.leaf = leaf          # term -> constant, name or None
        self.names = {}
        self.memo = {}

    def src(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = s = self._src(t)
        if len(s) > 20000:
            raise Unknown('too large')
        return s

    def name(self, t):
        if t not in self.names:
            self.names[t] = 'v%d' % len(self.names)
        return self.names[t]

    def _src(self, t):
        op, a = t.op, t.args
        if self.leaf:
            v = self.leaf(t)
            if isinstance(v, str):
                return v
            if v is not None:
                return repr(v)
        if op == 'const':
            if a[0] == 'n':
                return repr(int(a[1])) if a[1].denominator == 1 else 'F(%d, %d)' % (a[1].numerator, a[1].denominator)
            if isinstance(a[1], bool):
                return repr(a[1])
            raise Unknown(show(t, 2))
        if op == 'it':
            return self.name(t)
        if op == 'poly':
            out = []
            for m, c in a[0]:
                f = [repr(int(c))] if c.denominator == 1 else ['F(%d, %d)' % (c.numerator, c.denominator)]
                for x, e in m:
                    s = self.src(x)
                    f.append('*'.join(['(%s)' % s] * e) if e > 0 else 'F(1, (%s)%s)' % (s, '**%d' % -e if e < -1 else ''))
                out.append('*'.join(f))
            return '(' + '+'.join(out) + ')'
        if op == 'inv':
            return 'F(1, %s)' % self.src(a[0])
        if op == 'fn':
            xs = [self.src(x) for x in a[1:]]
            n = a[0]
            if n in ('min', 'max') and len(xs) > 1:
                return '%s(%s)' % (n, ', '.join(xs))
            if n == 'abs' and len(xs) == 1:
                return 'abs(%s)' % xs[0]
            if n in ('floor', 'ceil') and len(xs) == 1:
                return '%s(%s)' % (n, xs[0])
            if n in ('int', 'float') and len(xs) == 1:
                return 'int_(%s)' % xs[0]
            if n == 'mod' and len(xs) == 2:
                return '((%s) %% (%s))' % tuple(xs)
            if n == 'floordiv' and len(xs) == 2:
                return '((%s) // (%s))' % tuple(xs)
            if n in ('minimum', 'maximum') and len(xs) == 2:
                return '%s(%s)' % (n[:3], ', '.join(xs))
            raise Unknown(show(t, 2))
        if op == 'cast':
            return self.src(a[0] if isinstance(a[0], T) else a[1])
        if op == 'ite':
            return '(%s if %s else %s)' % (self.src(a[1]), self.src(a[0]), self.src(a[2]))
        if op in ('lt', 'gt', 'eq'):
            return '((%s) %s (%s))' % (self.src(a[0]), {'lt': '<', 'gt': '>', 'eq': '=='}[op], self.src(a[1]))
        if op == 'not':
            return '(not %s)' % self.src(a[0])
        if op in ('and', 'or'):
            return '(' + (' %s ' % op).join(self.src(x) for x in a) + ')'
        if op == 'truthy':
            return 'bool(%s)' % self.src(a[0])
        raise Unknown(show(t, 3))


def compiled(terms, leaf=None):
    """-> (function of the iteration values, in order of the returned `it` terms)"""
    x = Expr(leaf)
    s = '(' + ''.join(x.src(t) + ', ' for t in terms) + ')'
    its = list(x.names)
    f = eval('lambda %s: %s' % (', '.join(x.names[i] for i in its), s), dict(G, min=min, max=max, abs=abs, bool=bool))
    return f, its
