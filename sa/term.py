"""Hash-consed value terms: the lattice of the value-flow analysis.

Arithmetic is kept in polynomial normal form (rational coefficients over atoms), conditions in
negation normal form, selections (gated phi) as `ite`.  Two expressions that denote the same
polynomial / boolean / selection get the same term, which is what makes the rules independent of
how the code is written.
"""
from fractions import Fraction
import math

_tab = {}


class T:
    __slots__ = ('op', 'args', 'uid')

    def __init__(self, op, args, uid):
        self.op = op
        self.args = args
        self.uid = uid

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T(op, args, len(_tab) + 1)
        _tab[key] = t
    return t


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool) or v is None or v is Ellipsis:
        return mk('const', 'b', v)
    if isinstance(v, (int, Fraction)):
        return mk('const', 'n', Fraction(v))
    if isinstance(v, float):
        if v != v:
            return mk('fn', 'nan')
        if v in (float('inf'), float('-inf')):
            return mk('sym', 'inf') if v > 0 else mul(const(-1), mk('sym', 'inf'))
        return mk('const', 'n', Fraction(repr(v)))
    if isinstance(v, complex):
        return mk('const', 'c', v)
    return mk('const', type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ELL = const(Ellipsis)
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == 'const'


def is_num(t):
    return t.op == 'const' and t.args[0] == 'n'


def cval(t):
    """Python value of a constant term (ints as int)."""
    v = t.args[1]
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


def sym(name, kind=None):
    return mk('sym', name)


# ---------------------------------------------------------------- polynomials
def poly(t):
    if t.op == 'poly':
        return dict(t.args[0])
    if is_num(t):
        return {(): t.args[1]} if t.args[1] else {}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, 1),): Fraction(1)}


def unpoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(d.items(), key=lambda mc: _mkey(mc[0]))))


def _mkey(m):
    return (sum(abs(e) for _, e in m), tuple((a.uid, e) for a, e in m))


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].uid))


def _padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + c * k
        if not r[m]:
            del r[m]
    return r


def _reduce(m):
    """rewrite one monomial: sqrt(x)^2 -> x, cos(x)^2 -> 1-sin(x)^2; returns poly dict or None"""
    for a, e in m:
        if a.op == 'fn' and a.args[0] == 'sqrt' and abs(e) >= 2:
            rest = tuple((b, f) for b, f in m if b is not a)
            k = e // 2 if e > 0 else -((-e) // 2)
            left = e - 2 * k
            base = a.args[1]
            r = {rest: Fraction(1)}
            if left:
                r = {_mmul(rest, ((a, left),)): Fraction(1)}
            bt = power(base, k)
            return _pmul(r, poly(bt))
        if a.op == 'fn' and a.args[0] == 'cos' and e >= 2:
            rest = tuple((b, f) for b, f in m if b is not a)
            if e > 2:
                rest = _mmul(rest, ((a, e - 2),))
            s = mk('fn', 'sin', a.args[1])
            return _pmul({rest: Fraction(1)}, {(): Fraction(1), ((s, 2),): Fraction(-1)})
        if a.op == 'ind' and e >= 2:      # 0/1 indicator
            rest = tuple((b, f) for b, f in m if b is not a)
            return _pmul({_mmul(rest, ((a, 1),)): Fraction(1)}, {(): Fraction(1)})
    return None


def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            rd = _reduce(m)
            if rd is None:
                r[m] = r.get(m, 0) + c1 * c2
                if not r[m]:
                    del r[m]
            else:
                for m3, c3 in rd.items():
                    r[m3] = r.get(m3, 0) + c1 * c2 * c3
                    if not r[m3]:
                        del r[m3]
    return r


def add(*ts):
    r = {}
    for t in ts:
        r = _padd(r, poly(t))
    return unpoly(r)


def neg(t):
    return unpoly({m: -c for m, c in poly(t).items()})


def sub(a, b):
    return unpoly(_padd(poly(a), poly(b), -1))


MAXMONO = 4000


def mul(*ts):
    r = {(): Fraction(1)}
    for t in ts:
        p = poly(t)
        if len(p) > 1:
            # cancel inv(p) atoms
            iv = _invatom(p)
            if iv is not None:
                atom, k = iv
                if r and all(any(a is atom and e >= 1 for a, e in m) for m in r):
                    r = {_mmul(m, ((atom, -1),)): c / k for m, c in r.items()}
                    continue
        if len(r) * len(p) > MAXMONO:
            return mk('opaque', 'bigmul', tuple(ts))
        r = _pmul(r, p)
    return unpoly(r)


def _invatom(p):
    lead = max(p, key=_mkey)
    k = p[lead]
    base = unpoly({m: c / k for m, c in p.items()})
    if base.op != 'poly':
        return None
    return mk('inv', base), 1 / k


def inv(t):
    p = poly(t)
    if not p:
        return mk('opaque', 'div0')
    if len(p) == 1:
        (m, c), = p.items()
        out = {tuple((a, -e) for a, e in m): 1 / c}
        # reduce e.g. sqrt^-2
        (m2, c2), = out.items()
        rd = _reduce(m2)
        if rd is not None:
            return unpoly({mm: cc * c2 for mm, cc in rd.items()})
        # (inv p)^-1 -> p
        for a, e in m2:
            if a.op == 'inv' and e < 0:
                rest = tuple((b, f) for b, f in m2 if b is not a)
                return mul(unpoly({rest: c2}), power(a.args[0], -e))
        return unpoly(out)
    atom, k = _invatom(p)
    return mul(const(k), atom)


def div(a, b):
    if is_num(b) and b.args[1] == 0:
        return mk('opaque', 'div0')
    p, q = poly(a), poly(b)
    if len(p) > 1 and len(q) > 1:
        # constant ratio
        lead = max(q, key=_mkey)
        if lead in p:
            k = p[lead] / q[lead]
            if not _padd(p, q, -k):
                return const(k)
    return mul(a, inv(b))


def power(a, n):
    if isinstance(n, T):
        if is_num(n) and n.args[1].denominator == 1 and abs(n.args[1]) <= 8:
            n = int(n.args[1])
        elif is_num(n) and n.args[1].denominator == 2 and abs(n.args[1]) < 8:
            return power(fn('sqrt', a), int(n.args[1] * 2))
        elif is_num(n) and is_num(a) and abs(n.args[1]) < 4096 and n.args[1].denominator == 1:
            return const(a.args[1] ** int(n.args[1]))
        else:
            return mk('fn', 'pow', a, n)
    if n < 0:
        return inv(power(a, -n))
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def add_all(ts):
    return add(*ts)


# ---------------------------------------------------------------- integer knowledge
_ints = set()


_intmemo = {}


def declare_int(t):
    if t not in _ints:
        _ints.add(t)
        _intmemo.clear()


def isint(t):
    if t.op in ('const', 'sym', 'len', 'it'):
        return isint0(t)
    r = _intmemo.get(t)
    if r is None:
        r = _intmemo[t] = isint0(t)
    return r


def isint0(t):
    if is_num(t):
        return t.args[1].denominator == 1
    if t in _ints:
        return True
    op = t.op
    if op == 'poly':
        return all(c.denominator == 1 and all(e > 0 and isint(a) for a, e in m) for m, c in t.args[0])
    if op in ('len', 'it', 'ind'):
        return True
    if op == 'fn':
        n = t.args[0]
        if n in ('floor', 'ceil', 'round', 'int', 'floordiv', 'mod', 'sign'):
            return n not in ('mod',) or (isint(t.args[1]) and isint(t.args[2]))
        if n in ('min', 'max', 'abs'):
            return all(isint(a) for a in t.args[1:])
    if op == 'sel':
        b = t.args[0]
        if b.op == 'attr' and b.args[1] in ('shape',):
            return True
    if op == 'attr' and t.args[1] in ('size', 'ndim', 'nPatterns', 'patternH', 'patternW', 'nCols', 'nRows'):
        return True
    if op == 'ite':
        return isint(t.args[1]) and isint(t.args[2])
    if op == 'mu':
        return t in _ints
    return False


# ---------------------------------------------------------------- functions
def fn(name, *args):
    if name == 'sqrt':
        a = args[0]
        if is_num(a) and a.args[1] >= 0:
            v = a.args[1]
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return const(Fraction(n, d))
            # sqrt(p/q) = sqrt(p*q)/q, extract squares
            num = v.numerator * v.denominator
            k = 1
            f = 2
            while f * f <= num and f < 2000:
                while num % (f * f) == 0:
                    num //= f * f
                    k *= f
                f += 1
            return mul(const(Fraction(k, v.denominator)), mk('fn', 'sqrt', const(num)))
        return mk('fn', 'sqrt', a)
    if name in ('sin', 'tan', 'arcsin', 'arctan'):
        a = args[0]
        if is_num(a) and a.args[1] == 0:
            return ZERO
        p = poly(a)
        if p and max(p.items(), key=lambda mc: _mkey(mc[0]))[1] < 0:
            return neg(fn(name, neg(a)))
        if name == 'tan':
            return div(fn('sin', a), fn('cos', a))
        r = _trigpi(name, a)
        if r is not None:
            return r
        return mk('fn', name, a)
    if name == 'cos':
        a = args[0]
        if is_num(a) and a.args[1] == 0:
            return ONE
        p = poly(a)
        if p and max(p.items(), key=lambda mc: _mkey(mc[0]))[1] < 0:
            return fn('cos', neg(a))
        r = _trigpi('cos', a)
        if r is not None:
            return r
        return mk('fn', 'cos', a)
    if name == 'abs':
        a = args[0]
        if is_num(a):
            return const(abs(a.args[1]))
        p = poly(a)
        if p and max(p.items(), key=lambda mc: _mkey(mc[0]))[1] < 0:
            return fn('abs', neg(a))
        if len(p) == 1:
            (m, c), = p.items()
            if c != 1 and c > 0:
                return mul(const(c), fn('abs', unpoly({m: Fraction(1)})))
        return mk('fn', 'abs', a)
    if name == 'ceil':
        return neg(fn('floor', neg(args[0])))
    if name == 'floor':
        a = args[0]
        if is_num(a):
            return const(math.floor(a.args[1]))
        if isint(a):
            return a
        p = poly(a)
        ip = {m: c for m, c in p.items() if isint(unpoly({m: c}))}
        # (x + b - 1)//b == ceil(x/b) for integer x, b
        rest = {m: c for m, c in p.items() if m not in ip}
        c0 = ip.get((), 0)
        if rest and any(c < 0 and len(m) == 1 and m[0][1] == -1 for m, c in rest.items()):
            for m, c in rest.items():
                if len(m) == 1 and m[0][1] == -1 and c == -1 and isint(m[0][0]):
                    other = {k: v for k, v in rest.items() if k != m}
                    scaled = mul(unpoly(other), m[0][0]) if other else None
                    if other and isint(scaled) and len(other) == 1:
                        r = fn('ceil', unpoly(other))
                        return add(r, unpoly(ip), const(-1))
        if ip:
            return add(unpoly(ip), fn('floor', unpoly(rest)))
        return mk('fn', 'floor', a)
    if name == 'int':
        a = args[0]
        if isint(a):
            return a
        if is_num(a):
            return const(math.trunc(a.args[1]))
        if a.op == 'ite':
            return ite(a.args[0], fn('int', a.args[1]), fn('int', a.args[2]))
        return mk('fn', 'int', a)
    if name == 'round':
        if isint(args[0]):
            return args[0]
        if is_num(args[0]):
            return const(round(args[0].args[1]))
        return mk('fn', 'round', *args)
    if name in ('min', 'max'):
        fl = []
        for a in args:
            if a.op == 'fn' and a.args[0] == name:
                fl.extend(a.args[1:])
            else:
                fl.append(a)
        nums = [a.args[1] for a in fl if is_num(a)]
        rest = sorted(set(a for a in fl if not is_num(a)), key=lambda x: x.uid)
        if nums:
            n = min(nums) if name == 'min' else max(nums)
            rest = rest + [const(n)]
        if len(rest) == 1:
            return rest[0]
        return mk('fn', name, *rest)
    if name == 'mod':
        if all(is_num(a) for a in args) and args[1].args[1] != 0:
            return const(args[0].args[1] % args[1].args[1])
        return mk('fn', 'mod', *args)
    if name in ('exp', 'log') and is_num(args[0]):
        if name == 'exp' and args[0].args[1] == 0:
            return ONE
        if name == 'log' and args[0].args[1] == 1:
            return ZERO
    return mk('fn', name, *args)


PI = mk('sym', 'pi')
_TRIG = {  # multiples of pi/12? keep pi/6, pi/4, pi/3, pi/2
}


def _trigpi(name, a):
    p = poly(a)
    if set(p) != {((PI, 1),)} or name not in ('sin', 'cos'):
        return None
    c = p[((PI, 1),)]
    v = c % 2
    if name == 'cos':
        v = (v + Fraction(1, 2)) % 2
    tab = {Fraction(0): ZERO, Fraction(1, 6): const(Fraction(1, 2)), Fraction(1, 4): div(fn('sqrt', const(2)), const(2)),
           Fraction(1, 3): div(fn('sqrt', const(3)), const(2)), Fraction(1, 2): ONE}
    s = 1
    if v >= 1:
        v -= 1
        s = -1
    if v > Fraction(1, 2):
        v = 1 - v
    if v in tab:
        return mul(const(s), tab[v])
    return None


def floordiv(a, b):
    if is_num(a) and is_num(b) and b.args[1] != 0:
        return const(a.args[1] // b.args[1])
    return fn('floor', div(a, b))


# ---------------------------------------------------------------- booleans
_notmemo = {}


def notb(t):
    r = _notmemo.get(t)
    if r is None:
        r = _notmemo[t] = _notb(t)
        _notmemo[r] = t if r.op not in ('const',) else r
        if r.op == 'const':
            del _notmemo[r]
    return r


def _notb(t):
    if t.op == 'const':
        if t is NONE:
            return TRUE
        if t.args[0] in ('b', 'n', 'str'):
            return const(not t.args[1])
    if t.op == 'not':
        return t.args[0]
    if t.op == 'and':
        return orb(*[notb(x) for x in t.args])
    if t.op == 'or':
        return andb(*[notb(x) for x in t.args])
    return mk('not', t)


def andb(*ts):
    s = []
    for t in ts:
        if t.op == 'and':
            s.extend(t.args)
        else:
            s.append(t)
    out = []
    for t in s:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t not in out:
            out.append(t)
    for t in out:
        if notb(t) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *sorted(out, key=lambda x: x.uid))


def orb(*ts):
    s = []
    for t in ts:
        if t.op == 'or':
            s.extend(t.args)
        else:
            s.append(t)
    out = []
    for t in s:
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t not in out:
            out.append(t)
    for t in out:
        if notb(t) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', *sorted(out, key=lambda x: x.uid))


def truth(t):
    """term as a condition"""
    if t.op == 'const':
        if t is NONE:
            return FALSE
        v = t.args[1]
        return const(bool(v)) if not (t is ELL) else TRUE
    if t.op in ('lt', 'gt', 'eq', 'not', 'and', 'or', 'is', 'in', 'truthy', 'isinst'):
        return t
    if t.op in ('list', 'tuple', 'dict'):
        return const(len(t.args) > 0)
    if t.op == 'ite':
        a, b = truth(t.args[1]), truth(t.args[2])
        return boolite(t.args[0], a, b)
    if t.op == 'ind':
        return t.args[0]
    if t.op in ('func', 'class', 'closure', 'module', 'new', 'bound', 'vpath', 'vfile', 'vdata'):
        return TRUE
    return mk('truthy', t)


def boolite(c, a, b):
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return notb(c)
    if a is TRUE:
        return orb(c, b)
    if a is FALSE:
        return andb(notb(c), b)
    if b is TRUE:
        return orb(notb(c), a)
    if b is FALSE:
        return andb(c, a)
    return orb(andb(c, a), andb(notb(c), b))


def _cansign(p):
    lead = max(p, key=_mkey)
    return p[lead] > 0


def lt(a, b):
    """a < b"""
    if a.op == 'ite' and (is_const(a.args[1]) or is_const(a.args[2])):
        return boolite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if b.op == 'ite' and (is_const(b.args[1]) or is_const(b.args[2])):
        return boolite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    for t in (a, b):
        if t.op == 'const' and t.args[0] not in ('n', 'b'):
            if a.op == 'const' and b.op == 'const' and a.args[0] == b.args[0]:
                return const(a.args[1] < b.args[1])
            return mk('fn', 'ltany', a, b)
    d = sub(a, b)
    if is_num(d):
        return const(d.args[1] < 0)
    p = poly(d)
    allint = isint(d)
    if allint:
        k = p.get((), Fraction(0))
        rest = {m: c for m, c in p.items() if m != ()}
        # rest + k < 0
        if _cansign(rest):
            return mk('lt', unpoly(rest), const(-k))      # rest < -k
        nr = {m: -c for m, c in rest.items()}
        # -nr + k < 0  <=> nr > k <=> not (nr < k+1)
        return notb(mk('lt', unpoly(nr), const(k + 1)))
    k = p.get((), Fraction(0))
    rest = {m: c for m, c in p.items() if m != ()}
    lead = rest[max(rest, key=_mkey)]
    if len(rest) == 1:
        sc = abs(lead)
        rest = {m: c / sc for m, c in rest.items()}
        k = k / sc
    if lead > 0:
        return mk('lt', unpoly(rest), const(-k))
    return mk('gt', unpoly({m: -c for m, c in rest.items()}), const(k))


def le(a, b):
    """a <= b, as not (b < a)"""
    return notb(lt(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'vpath' and b.op in ('vpath', 'const') or b.op == 'vpath' and a.op == 'const':
        return FALSE
    if a.op == 'const' and b.op == 'const':
        if a.args[0] in ('n', 'b') and b.args[0] in ('n', 'b'):
            return const(a.args[1] == b.args[1]) if a is not NONE and b is not NONE else FALSE
        if a.args[0] != b.args[0]:
            return FALSE
        return const(a.args[1] == b.args[1])
    if a.op == 'ite' and (is_const(b) or is_const(a.args[1]) or is_const(a.args[2])):
        return boolite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and (is_const(a) or is_const(b.args[1]) or is_const(b.args[2])):
        return boolite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if b is TRUE or a is TRUE:
        return truth(a if b is TRUE else b)
    if b is FALSE or a is FALSE:
        return notb(truth(a if b is FALSE else b))
    for x, y in ((a, b), (b, a)):
        if x is NONE:
            return isnone(y)
    if a.op in ('list', 'tuple') and b.op in ('list', 'tuple'):
        if len(a.args) != len(b.args):
            return FALSE
        return andb(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if any(x.op == 'const' and x.args[0] not in ('n', 'b') for x in (a, b)):
        return mk('eq', *sorted((a, b), key=lambda t: t.uid))
    d = sub(a, b)
    if is_num(d):
        return const(d.args[1] == 0)
    p = poly(d)
    if not _cansign({m: c for m, c in p.items() if m != ()}):
        d = neg(d)
        p = poly(d)
    k = p.get((), Fraction(0))
    rest = {m: c for m, c in p.items() if m != ()}
    return mk('eq', unpoly(rest), const(-k))


NOTNONE_OPS = {'poly', 'list', 'tuple', 'dict', 'func', 'class', 'new', 'obj', 'closure', 'bound', 'len', 'it', 'inv',
               'module', 'ext', 'view', 'comp', 'lt', 'eq', 'not', 'and', 'or', 'ind', 'gt', 'fstr', 'slice', 'truthy'}


def isnone(t):
    if t is NONE:
        return TRUE
    if t.op == 'const' or t.op in ('vpath', 'vfile', 'vdata'):
        return FALSE
    if t.op == 'ite':
        return boolite(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
    if t.op in NOTNONE_OPS or t.op == 'fn':
        return FALSE
    if t.op == 'call' and t.args[0].startswith('numpy.'):
        return FALSE
    if t.op == 'store':
        return FALSE
    return mk('is', t, NONE)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    a2, b2 = assume(a, c, True), assume(b, c, False)
    if a2 is b2:
        return a2
    a, b = a2, b2
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return notb(c)
    # min / max
    if c.op in ('lt', 'gt'):
        x, y = c.args
        d = sub(a, b)
        if d.op in ('poly', 'sym') or not is_const(d):
            if sub(x, y) is d:
                return fn('min' if c.op == 'lt' else 'max', a, b)
            if sub(y, x) is d:
                return fn('max' if c.op == 'lt' else 'min', a, b)
    # ite(and(c,d), a, ite(d.., )) left as is
    return mk('ite', c, a, b)


def assume(t, c, pol, depth=3):
    """simplify ite-spine of t knowing condition c has truth value pol"""
    if t.op != 'ite' or depth == 0:
        return t
    k = implied(t.args[0], c, pol)
    if k is True:
        return assume(t.args[1], c, pol, depth)
    if k is False:
        return assume(t.args[2], c, pol, depth)
    a, b = assume(t.args[1], c, pol, depth - 1), assume(t.args[2], c, pol, depth - 1)
    if a is t.args[1] and b is t.args[2]:
        return t
    return ite0(t.args[0], a, b)


def ite0(c, a, b):
    if a is b:
        return a
    return mk('ite', c, a, b)


def implied(x, c, pol):
    """does (c == pol) determine x?  returns True/False/None"""
    if x is c:
        return pol
    if x is notb(c):
        return not pol
    lits = literals(c, pol)
    k = _evalc(x, lits)
    return k


def literals(c, pol):
    out = {}
    _lits(c, pol, out)
    return out


def _lits(c, pol, out):
    if c in out:
        return out
    if c.op == 'not':
        _lits(c.args[0], not pol, out)
    elif c.op == 'and' and pol:
        for a in c.args:
            _lits(a, True, out)
    elif c.op == 'or' and not pol:
        for a in c.args:
            _lits(a, False, out)
    out[c] = pol
    # eq(x,const) true  => eq(x,other) false
    return out


def _evalc(x, lits, memo=None):
    if x in lits:
        return lits[x]
    if x.op in ('and', 'or', 'not'):
        if memo is None:
            memo = {}
        if x in memo:
            return memo[x]
        memo[x] = None
        r = memo[x] = _evalc1(x, lits, memo)
        return r
    return _evalc1(x, lits, memo)


def _evalc1(x, lits, memo):
    if x.op == 'const':
        return bool(x.args[1])
    if x.op == 'not':
        k = _evalc(x.args[0], lits, memo)
        return None if k is None else not k
    if x.op == 'and':
        ks = [_evalc(a, lits, memo) for a in x.args]
        if any(k is False for k in ks):
            return False
        if all(k is True for k in ks):
            return True
        return None
    if x.op == 'or':
        ks = [_evalc(a, lits, memo) for a in x.args]
        if any(k is True for k in ks):
            return True
        if all(k is False for k in ks):
            return False
        return None
    if x.op == 'eq':
        for y, v in lits.items():
            if v and y.op == 'eq' and y is not x:
                # same variable, different constants
                for i in (0, 1):
                    for j in (0, 1):
                        if x.args[i] is y.args[j] and is_const(x.args[1 - i]) and is_const(y.args[1 - j]) \
                                and x.args[1 - i] is not y.args[1 - j]:
                            return False
            if v and y.op == 'lt' and x.args[0] is y.args[0] and is_num(x.args[1]) and is_num(y.args[1]):
                if x.args[1].args[1] >= y.args[1].args[1]:
                    return False
    if x.op == 'is' and x.args[1] is NONE:
        for y, v in lits.items():
            if v and y.op == 'eq' and x.args[0] in y.args and any(is_const(z) for z in y.args):
                return False
            if v and y.op == 'truthy' and y.args[0] is x.args[0]:
                return False
    if x.op in ('lt', 'gt') and is_num(x.args[1]):
        for y, v in lits.items():
            if y.op in ('lt', 'gt') and y.args[0] is x.args[0] and is_num(y.args[1]):
                r = _ordimp(x, y, v)
                if r is not None:
                    return r
            if y.op == 'eq' and v and y.args[0] is x.args[0] and is_num(y.args[1]):
                k, cc = y.args[1].args[1], x.args[1].args[1]
                return (k < cc) if x.op == 'lt' else (k > cc)
    return None


def _ordimp(x, y, v):
    kx, ky = x.args[1].args[1], y.args[1].args[1]
    if y.op == 'lt':
        if v:    # e < ky
            if x.op == 'lt' and ky <= kx:
                return True
            if x.op == 'gt' and ky <= kx:
                return False
        else:    # e >= ky
            if x.op == 'lt' and ky >= kx:
                return False
            if x.op == 'gt' and ky > kx:
                return True
    else:
        if v:    # e > ky
            if x.op == 'gt' and ky >= kx:
                return True
            if x.op == 'lt' and ky >= kx:
                return False
        else:    # e <= ky
            if x.op == 'gt' and ky <= kx:
                return False
            if x.op == 'lt' and ky < kx:
                return True
    return None


# ---------------------------------------------------------------- walking / substitution
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            _push(a, st)


def _push(a, st):
    if isinstance(a, T):
        st.append(a)
    elif isinstance(a, tuple):
        for b in a:
            _push(b, st)


def contains(t, pred):
    if isinstance(pred, T):
        return any(x is pred for x in subterms(t))
    return any(pred(x) for x in subterms(t))


def rebuild(t, f):
    """bottom-up rewrite with f(term)->term or None, re-normalising"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        memo[x] = x
        r = f(x)
        if r is not None and r is not x:
            memo[x] = r
            return r
        op = x.op
        if op == 'poly':
            acc = ZERO
            parts = []
            for m, c in x.args[0]:
                fs = [const(c)]
                for a, e in m:
                    fs.append(power(go(a), e))
                parts.append(mul(*fs))
            r = add(*parts)
        elif op in ('const', 'sym'):
            r = x
        else:
            na = tuple(_goarg(a) for a in x.args)
            r = x if na == x.args else remake(op, na)
        memo[x] = r
        return r

    def _goarg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(_goarg(b) for b in a)
        return a
    return go(t)


def remake(op, a):
    if op == 'fn':
        return mk("fn", *a) if len(a) == 2 and a[0] in ("min", "max") and rank(a[1]) != 0 else fn(*a)
    if op == 'ite':
        return ite(*a)
    if op == 'and':
        return andb(*a)
    if op == 'or':
        return orb(*a)
    if op == 'not':
        return notb(*a)
    if op == 'lt':
        return lt(*a)
    if op == 'gt':
        return lt(a[1], a[0])
    if op == 'eq':
        return eq(*a)
    if op == 'is':
        return isnone(a[0]) if a[1] is NONE else mk('is', *a)
    if op == 'inv':
        return inv(a[0])
    if op == 'sel':
        return sel(a[0], a[1])
    if op == 'truthy':
        return truth(a[0])
    if op == 'len':
        return length(a[0])
    return mk(op, *a)


def subst(t, m):
    return rebuild(t, lambda x: m.get(x))


def inst(t, lits):
    """specialise a term under known truth values of conditions"""
    def f(x):
        if x.op in ('lt', 'gt', 'eq', 'is', 'truthy', 'and', 'or', 'not', 'isinst', 'in'):
            k = _evalc(x, lits)
            if k is not None:
                return const(k)
        return None
    return rebuild(t, f)


# ---------------------------------------------------------------- containers
def length(t):
    if t.op in ('list', 'tuple'):
        if not any(a.op == 'starred' for a in t.args):
            return const(len(t.args))
    if t.op == 'dict':
        return const(len(t.args))
    if t.op == 'const' and t.args[0] == 'str':
        return const(len(t.args[1]))
    if t.op == 'concat':
        return add(*[length(a) for a in t.args])
    if t.op == 'comp':
        n = trips(t.args[0])
        if n is not None:
            return n
    if t.op == 'range':
        return rangelen(t)
    if t.op == 'store':
        return length(t.args[0])
    if t.op == 'ite':
        a, b = length(t.args[1]), length(t.args[2])
        if a is b:
            return a
    if t.op == 'view':
        pass
    return mk('len', t)


def rangelen(t):
    a, b, s = t.args
    if s is ONE:
        d = sub(b, a)
        if is_num(d):
            return const(max(0, cval(d)))
        return d      # non-negative assumed for symbolic trip counts
    if is_num(s) and s.args[1] != 0:
        return fn('ceil', div(sub(b, a), s))
    return fn('ceil', div(sub(b, a), s))


def trips(it):
    """trip count of an iterable term"""
    if it.op == 'range':
        return rangelen(it)
    if it.op == 'enumerate':
        return length(it.args[0])
    if it.op == 'reversed':
        return trips(it.args[0])
    if it.op == 'zip':
        return length(it.args[0])
    return length(it)


def keytuple(k):
    return k.args if k.op == 'tuple' else (k,)


def distinct(k1, k2):
    """surely different index keys"""
    a, b = keytuple(k1), keytuple(k2)
    for x, y in zip(a, b):
        if x.op == 'slice' or y.op == 'slice':
            continue
        if x.op == 'const' and y.op == 'const' and x is not y:
            if x.args[0] == 'n' and y.args[0] == 'n' and (x.args[1] < 0) != (y.args[1] < 0):
                continue
            if x is ELL or y is ELL or x is NONE or y is NONE or x.args[0] != y.args[0]:
                return False
            return True
        if not (x.op == 'const' or y.op == 'const') or is_num(sub(x, y) if _numlike(x) and _numlike(y) else NONE):
            if _numlike(x) and _numlike(y):
                d = sub(x, y)
                if is_num(d) and d.args[1] != 0:
                    return True
    return False


def _numlike(t):
    return t.op in ('poly', 'it', 'mu', 'sym', 'sel', 'len', 'fn') or is_num(t)


FULL = mk('slice', NONE, NONE, NONE)

# known 1-d vectors (declared by a query): lets indexing distribute over arithmetic
_vecs = set()
_scal = set()


def declare_vec(t):
    _vecs.add(t)


def declare_scalar(t):
    _scal.add(t)


def rank(t):
    """0 scalar, 1 vector, None unknown"""
    if is_num(t) or t is PI or t in _scal or t in _ints:
        return 0
    if t in _vecs or t.op in ('list', 'tuple', 'comp'):
        return 1
    if t.op == 'poly':
        rs = set(rank(a) for m, c in t.args[0] for a, e in m)
        if None in rs:
            return None
        return max(rs) if rs else 0
    if t.op == 'fn' and t.args[0] in ('sqrt', 'sin', 'cos', 'abs', 'floor', 'int', 'round', 'exp', 'log', 'arccos', 'arcsin', 'arctan', 'min', 'max'):
        if t.args[0] in ('min', 'max') and len(t.args) == 2:
            return 0
        rs = set(rank(a) for a in t.args[1:])
        if None in rs:
            return None
        return max(rs) if rs else 0
    if t.op == 'inv':
        return rank(t.args[0])
    if t.op in ('len', 'it'):
        return 0
    if t.op == 'sel':
        b = t.args[0]
        if rank(b) == 1 and t.args[1].op not in ('slice', 'tuple'):
            return 0
        if b.op == 'attr' and b.args[1] == 'shape':
            return 0
        if rank(b) == 1 and t.args[1].op == 'slice':
            return 1
    if t.op == 'attr' and t.args[1] in ('size', 'ndim'):
        return 0
    if t.op == 'ite':
        a, b = rank(t.args[1]), rank(t.args[2])
        return a if a == b else None
    if t.op == 'store':
        return rank(t.args[0])
    return None


def _nestlist(t):
    n = 0
    while t.op == 'list' and t.args:
        n, t = n + 1, t.args[0]
    return n


def sel(b, k):
    """b[k] on values"""
    if b.op == 'ite':
        if not (b.args[1].op in ('sym',) and b.args[2].op in ('sym',)):
            return ite(b.args[0], sel(b.args[1], k), sel(b.args[2], k))
    if b.op in ('list', 'tuple'):
        if is_num(k) and not any(a.op == 'starred' for a in b.args):
            i = cval(k)
            if isinstance(i, int) and -len(b.args) <= i < len(b.args):
                return b.args[i]
            return mk('opaque', 'oob', b, k)
        if k.op == 'slice' and all(x is NONE or is_num(x) for x in k.args) and not any(a.op == 'starred' for a in b.args):
            s = slice(*[None if x is NONE else cval(x) for x in k.args])
            return mk(b.op, *b.args[s])
        if k.op == 'tuple' and k.args:
            if is_num(k.args[0]):
                h = sel(b, k.args[0])
                rest = k.args[1:]
                return sel(h, mk('tuple', *rest) if len(rest) > 1 else rest[0]) if rest else h
            if k.args[0].op == 'slice':
                h = sel(b, k.args[0])
                rest = k.args[1:]
                if h.op in ('list', 'tuple') and rest and all(x.op in ('list', 'tuple') for x in h.args):
                    rk = mk('tuple', *rest) if len(rest) > 1 else rest[0]
                    return mk('list', *[sel(x, rk) for x in h.args])
        if k.op in ('list',) and all(is_num(x) for x in k.args):
            return mk('list', *[sel(b, x) for x in k.args])
        if b.op == 'list' and k.op in ('tuple', 'slice', 'const'):
            from . import lit
            nd = lit.lshape(b)
            ks = lit.litkeys(k, len(nd)) if nd else None
            r = lit.lget(b, ks) if ks is not None else None
            if r is not None:
                return r
    if b.op == 'dict':
        if k.op == 'const':
            for kk, vv in b.args:
                if kk is k:
                    return vv
    if b.op == 'store':
        base, sk, sv = b.args
        if sk is k and k.op != 'list':
            return sv
        if k.op not in ('slice',) and distinct(sk, k):
            return sel(base, k)
        # store to a constant slice / read at a constant index of a 1-d array
        if sk.op == 'slice' and is_num(k) and all(x is NONE or is_num(x) for x in sk.args):
            a, z, st = [None if x is NONE else cval(x) for x in sk.args]
            i = cval(k)
            if isinstance(i, int) and i >= 0 and (a is None or a >= 0) and (z is None or z >= 0) and st in (None, 1):
                lo = a or 0
                if i >= lo and (z is None or i < z):
                    r = rank(sv)
                    if r == 0:
                        return sv
                    if r == 1 or sv.op in ('list', 'tuple'):
                        return sel(sv, const(i - lo))
                else:
                    return sel(base, k)
        kt, st_ = keytuple(k), keytuple(sk)
        if len(kt) > len(st_) and kt[:len(st_)] == st_ and not any(x.op == 'slice' or x is ELL for x in st_):
            rest = kt[len(st_):]
            return sel(sv, rest[0] if len(rest) == 1 else mk('tuple', *rest))
        if any(x is FULL for x in st_) and len(kt) >= len(st_) and not any(x.op in ('slice', 'list') or x is ELL or x is NONE for x in kt) \
                and all(x is FULL or x is y for x, y in zip(st_, kt)) and sv.op in ('list', 'const', 'poly'):
            rest = [y for x, y in zip(st_, kt) if x is FULL] + list(kt[len(st_):])
            r = rank(sv)
            if is_num(sv):
                return sv
            if sv.op == 'list' and _nestlist(sv) == len(rest):
                return sel(sv, rest[0] if len(rest) == 1 else mk('tuple', *rest))
        if sk is ELL or sk is FULL:
            if sv.op not in ('const',) and rank(sv) != 0:
                return sel(sv, k)
            if k.op not in ('slice',):
                return sv
    if b.op == 'sel' and b.args[1].op == 'slice' and is_num(k):
        a, z, st = b.args[1].args
        if st in (NONE, ONE) and k.args[1] >= 0 and (a is NONE or not (is_num(a) and a.args[1] < 0)):
            return sel(b.args[0], add(ZERO if a is NONE else a, k))
    if b.op == 'sel' and not any(x.op == 'slice' or x is NONE or x is ELL for x in keytuple(b.args[1])) \
            and b.args[0].op not in ('list', 'tuple', 'dict', 'attr', 'comp') \
            and all(_numlike(x) for x in keytuple(b.args[1]) + keytuple(k) if x.op != 'slice') and not k.op == 'list':
        # a[i][j] == a[i, j]
        if not (b.args[0].op == 'attr' and b.args[0].args[1] == 'shape'):
            return sel(b.args[0], mk('tuple', *(keytuple(b.args[1]) + keytuple(k))))
    if b.op == 'sel' and any(x.op == 'slice' for x in keytuple(b.args[1])) and b.args[1].op == 'tuple' \
            and k.op not in ('slice', 'list') and all(x.op != 'slice' and _numlike(x) for x in keytuple(k)):
        # a[i, :][j] -> a[i, j]  (full slices only)
        kk = list(b.args[1].args)
        rest = list(keytuple(k))
        ok = True
        for i, x in enumerate(kk):
            if x.op == 'slice' and rest:
                if x is FULL or (x.args[0] in (NONE, ZERO) and x.args[2] in (NONE, ONE)):
                    kk[i] = rest.pop(0)
                elif x.args[2] in (NONE, ONE) and is_num(x.args[0]) and x.args[0].args[1] >= 0:
                    kk[i] = add(x.args[0], rest.pop(0))
                else:
                    ok = False
                    break
        if ok:
            return sel(b.args[0], mk('tuple', *(kk + rest)))
    if b.op == 'attr' and b.args[1] == 'shape' and k is ZERO:
        return length(b.args[0])
    if b.op == 'poly' and k.op not in ('slice', 'tuple') and rank(b) == 1:
        parts = []
        for m, c in b.args[0]:
            fs = [const(c)]
            for a, e in m:
                fs.append(power(sel(a, k) if rank(a) == 1 else a, e))
            parts.append(mul(*fs))
        return add(*parts)
    if b.op == 'poly' and k.op == 'slice' and rank(b) == 1:
        parts = []
        for m, c in b.args[0]:
            fs = [const(c)]
            for a, e in m:
                fs.append(power(sel(a, k) if rank(a) == 1 else a, e))
            parts.append(mul(*fs))
        return add(*parts)
    if b.op == 'inv' and rank(b) == 1 and k.op not in ('tuple',):
        return inv(sel(b.args[0], k))
    if b.op == 'fn' and rank(b) == 1 and k.op not in ('tuple',) and b.args[0] != 'sort':
        return fn(b.args[0], *[sel(a, k) if rank(a) == 1 else a for a in b.args[1:]])
    if b.op == 'concat':
        if is_num(k) and k.args[1] >= 0:
            i = cval(k)
            for part in b.args:
                n = length(part)
                if not is_num(n):
                    break
                if i < n.args[1]:
                    return sel(part, const(i))
                i -= cval(n)
    if b.op == 'const' and b.args[0] == 'str' and is_num(k):
        try:
            return const(b.args[1][cval(k)])
        except (IndexError, TypeError):
            pass
    if b.op == 'range' and k.op != 'slice':
        return add(b.args[0], mul(b.args[2], k))
    return mk('sel', b, k)


def root(t):
    """underlying object of a (possibly updated / viewed / indexed) value"""
    while True:
        if t.op in ('store', 'sel', 'view', 'after', 'append'):
            t = t.args[0]
        elif t.op == 'attr' and t.args[1] in ('T', 'real', 'imag', 'flat'):
            t = t.args[0]
        elif t.op == 'mcall' and t.args[1] in ('reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'view'):
            t = t.args[0]
        else:
            return t


# ---------------------------------------------------------------- evaluation of closed constant terms
def tofloat(t):
    if t.op == 'const' and t.args[0] in ('n', 'b'):
        return float(t.args[1])
    if t is PI:
        return math.pi
    if t.op == 'poly':
        s = 0.0
        for m, c in t.args[0]:
            v = float(c)
            for a, e in m:
                x = tofloat(a)
                if x is None:
                    return None
                v *= x ** e
            s += v
        return s
    if t.op == 'inv':
        x = tofloat(t.args[0])
        return None if x is None else 1.0 / x
    if t.op == 'fn':
        xs = [tofloat(a) for a in t.args[1:]]
        if any(x is None for x in xs):
            return None
        f = {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'abs': abs, 'floor': math.floor, 'int': int,
             'arccos': math.acos, 'arcsin': math.asin, 'arctan': math.atan, 'exp': math.exp, 'log': math.log,
             'round': round, 'min': min, 'max': max}.get(t.args[0])
        try:
            return None if f is None else float(f(*xs))
        except (ValueError, OverflowError):
            return None
    return None


# ---------------------------------------------------------------- printing
def show(t, depth=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(a, depth) for a in t) + ')'
        return str(t)
    if depth == 0:
        return '…'
    op, a = t.op, t.args
    d = depth - 1
    if op == 'const':
        if a[0] == 'n':
            return str(a[1]) if a[1].denominator < 1000 else repr(float(a[1]))
        return repr(a[1])
    if op == 'sym':
        return a[0]
    if op == 'poly':
        out = []
        for m, c in a[0]:
            ms = '*'.join((show(x, d) if x.op != 'poly' else '(%s)' % show(x, d)) + ('^%d' % e if e != 1 else '') for x, e in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append('-' + ms)
            else:
                out.append('%s*%s' % (c, ms))
        return '(' + ' + '.join(out) + ')'
    if op == 'attr':
        return show(a[0], d) + '.' + a[1]
    if op == 'sel':
        return '%s[%s]' % (show(a[0], d), ', '.join(show(x, d) for x in keytuple(a[1])))
    if op == 'slice':
        f = lambda x: '' if x is NONE else show(x, d)
        return f(a[0]) + ':' + f(a[1]) + ((':' + f(a[2])) if a[2] is not NONE else '')
    if op == 'ite':
        return '(%s ? %s : %s)' % tuple(show(x, d) for x in a)
    if op in ('lt', 'gt', 'eq'):
        return '(%s %s %s)' % (show(a[0], d), {'lt': '<', 'gt': '>', 'eq': '=='}[op], show(a[1], d))
    if op == 'is':
        return '(%s is %s)' % (show(a[0], d), show(a[1], d))
    if op == 'not':
        return '!' + show(a[0], d)
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(show(x, d) for x in a) + ')'
    if op == 'truthy':
        return '?' + show(a[0], d)
    if op in ('list', 'tuple'):
        b = '[]' if op == 'list' else '()'
        return b[0] + ', '.join(show(x, d) for x in a[:12]) + ('…' if len(a) > 12 else '') + b[1]
    if op == 'fn':
        return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1:]))
    if op == 'call':
        return '%s(%s)' % (a[0].replace('numpy.', 'np.'), ', '.join([show(x, d) for x in a[1]] + ['%s=%s' % (k, show(v, d)) for k, v in a[2]]))
    if op == 'mcall':
        return '%s.%s(%s)' % (show(a[0], d), a[1], ', '.join([show(x, d) for x in a[2]] + ['%s=%s' % (k, show(v, d)) for k, v in a[3]]))
    if op == 'new':
        return 'new %s#%s' % (a[0].split('.')[-1], a[1])
    if op == 'obj':
        return 'obj#%s' % (a[0],)
    if op == 'it':
        return 'it@%s' % (a[0],)
    if op == 'mu':
        return 'mu@%s.%s' % (a[0], a[1] if isinstance(a[1], str) else show(a[1], d))
    if op == 'len':
        return 'len(%s)' % show(a[0], d)
    if op in ('func', 'class', 'ext', 'module'):
        return a[0]
    return '%s(%s)' % (op, ', '.join(show(x, d) for x in a))
