"""Abstract file objects: the byte position is a symbolic quantity kept in the abstract heap of the file object, so seeks, transfers and
the branches between them are followed like any other value.  Reading at a position yields the term field(position, type); every
transfer is an event carrying its position, element type and count."""
from .term import *

SIZES = {'uint8': 1, 'int8': 1, 'uint16': 2, 'int16': 2, 'uint32': 4, 'int32': 4, 'float32': 4, 'uint64': 8, 'int64': 8, 'float64': 8, 'float': 8, 'int': 8}
SHORT = {'u1': 'uint8', 'u2': 'uint16', 'u4': 'uint32', 'u8': 'uint64', 'i1': 'int8', 'i2': 'int16', 'i4': 'int32', 'i8': 'int64', 'f4': 'float32', 'f8': 'float64',
         'B': 'uint8', 'H': 'uint16', 'I': 'uint32', 'L': 'uint64', 'b': 'int8', 'h': 'int16', 'i': 'int32', 'q': 'int64', 'f': 'float32', 'd': 'float64'}


def dtname(t):
    """element type name of a dtype term, or None"""
    if t is None:
        return None
    if t.op == 'ext':
        n = t.args[0].rsplit('.', 1)[-1]
        return n if n in SIZES else None
    if t.op == 'const' and t.args[0] == 'str':
        s = t.args[1]
        if s in SIZES:
            return s
        if s[:1] == '>':
            return 'big:' + s[1:]
        return SHORT.get(s.lstrip('<=|'))
    if t.op == 'call' and t.args[0] == 'numpy.dtype':
        return dtname(t.args[1][0]) if t.args[1] else None
    return None


def sizeof(t):
    """bytes of one element of a dtype term (a term)"""
    n = dtname(t)
    if n is not None and n in SIZES:
        return const(SIZES[n])
    if t.op == 'call' and t.args[0] == 'numpy.dtype' and t.args[1] and t.args[1][0].op in ('list', 'tuple'):
        tot = ZERO
        for fld in t.args[1][0].args:
            if fld.op not in ('tuple', 'list') or len(fld.args) < 2:
                return mk('itemsize', t)
            n1 = sizeof(fld.args[1])
            if len(fld.args) > 2:
                dims = fld.args[2].args if fld.args[2].op in ('tuple', 'list') else (fld.args[2],)
                for d in dims:
                    n1 = mul(n1, d)
            tot = add(tot, n1)
        return tot
    return mk('itemsize', t)


class Files:
    def __init__(self, size=None, content=None):
        self.size = size if size is not None else sym('filesize')
        self.content = content          # f(pos, dtype name) -> term or None
        self.opened = []
        self.log = []

    def hooks(self):
        return {'open': self.open, 'io.open': self.open, '.seek': self.seek, '.tell': self.tell, 'numpy.fromfile': self.fromfile, '.tofile': self.tofile,
                '.close': self.close, 'dynamic': self.dyn, 'numpy.asarray': self.typed, 'numpy.array': self.typed, '.astype': self.astype,
                'numpy.uint8': self.scalar, 'numpy.uint16': self.scalar, 'numpy.uint32': self.scalar, 'numpy.int16': self.scalar, 'numpy.uint64': self.scalar,
                'numpy.float64': self.scalar, 'numpy.float32': self.scalar, 'numpy.int64': self.scalar, 'numpy.int32': self.scalar, 'numpy.int8': self.scalar,
                '.write': self.write, '.read': self.read, '.truncate': self.truncate, '__exit__': self.leave}

    def isf(self, t):
        return t is not None and t.op == 'file'

    def pos(self, f, st):
        return st.heap.get(('a', f, 'filepos'), ZERO)

    def setpos(self, f, st, p):
        st.heap[('a', f, 'filepos')] = p

    def rec(self, it, st, node, **d):
        ev = it.event('file', st, node, **d)
        if ev is not None:
            self.log.append(ev)

    def open(self, it, recv, args, vals, kv, st, node):
        mode = vals[1] if len(vals) > 1 else kv.get('mode', const('r'))
        f = it.fresh('file', vals[0] if vals else NONE, mode)
        self.setpos(f, st, ZERO)
        st.heap[('a', f, 'isopen')] = TRUE
        self.opened.append((f, vals[0] if vals else NONE, mode))
        self.rec(it, st, node, what='open', f=f, path=vals[0] if vals else NONE, mode=mode)
        return f

    def seek(self, it, f, args, vals, kv, st, node):
        if not self.isf(f) or not vals:
            return None
        w = vals[1] if len(vals) > 1 else kv.get('whence', ZERO)
        if w is ZERO:
            p = vals[0]
        elif w is ONE:
            p = add(self.pos(f, st), vals[0])
        elif w is const(2):
            p = add(self.size, vals[0])
        else:
            p = it.fresh('opaque', 'seek')
        self.setpos(f, st, p)
        self.rec(it, st, node, what='seek', f=f, pos=p)
        return p

    def truncate(self, it, f, args, vals, kv, st, node):
        if not self.isf(f):
            return None
        n = vals[0] if vals else kv.get('size', NONE)
        if n is NONE:
            n = self.pos(f, st)
        self.rec(it, st, node, what='truncate', f=f, pos=n)
        return n

    def tell(self, it, f, args, vals, kv, st, node):
        return self.pos(f, st) if self.isf(f) else None

    def files(self, t):
        """the files a conditional expression chooses among"""
        if t is None or t.op == 'file':
            return [t] if t is not None else []
        return [x for a in t.args[1:] if isinstance(a, T) for x in self.files(a)] if t.op == 'ite' else []

    def close(self, it, f, args, vals, kv, st, node):
        if not self.isf(f):
            fs = self.files(f)
            for x in fs:
                st.heap[('a', x, 'isopen')] = FALSE
            return NONE if fs else None
        self.rec(it, st, node, what='close', f=f)
        st.heap[('a', f, 'isopen')] = FALSE
        return NONE

    def leave(self, it, f, st, node):
        for x in self.files(f):
            st.heap[('a', x, 'isopen')] = FALSE

    def fromfile(self, it, recv, args, vals, kv, st, node):
        f = args[0] if args else None
        if not self.isf(f):
            return None
        dt = kv.get('dtype', vals[1] if len(vals) > 1 else const('float64'))
        cnt = kv.get('count', vals[2] if len(vals) > 2 else const(-1))
        p = self.pos(f, st)
        off = kv.get('offset')
        if off is not None:
            p = add(p, off)
        sz = sizeof(dt)
        self.setpos(f, st, add(p, mul(sz, cnt)) if cnt is not const(-1) else self.size)
        self.rec(it, st, node, what='read', f=f, pos=p, dtype=dt, count=cnt)
        n = dtname(dt)
        if n is not None and is_num(cnt) and 0 <= cval(cnt) <= 16:
            els = []
            for k in range(int(cval(cnt))):
                q = add(p, mul(sz, const(k)))
                x = self.content(q, n) if self.content else None
                els.append(x if x is not None else mk('field', q, n))
            return it.newobj(mk('list', *els))
        return it.newobj(mk('fields', p, dt, cnt))

    def tofile(self, it, recv, args, vals, kv, st, node):
        f = args[0] if args else None
        if not self.isf(f):
            return None
        dt = st.heap.get(('a', recv, 'dtype'))
        v = it.deep(it.V(recv, st), st.heap)
        p = self.pos(f, st)
        n, sz = self.nbytes(v, dt, it, recv, st)
        self.setpos(f, st, add(p, sz))
        self.rec(it, st, node, what='write', f=f, pos=p, dtype=dt, value=v, size=sz)
        return NONE

    def nbytes(self, v, dt, it, recv, st):
        if dt is not None:
            e = sizeof(dt)
            if v.op == 'list':
                return None, mul(e, const(len(v.args)))
            s = it.shape(recv, st) if v.op not in ('attr', 'sym', 'poly') or ('a', recv, 'shape') in st.heap else None
            if s is not None and s.op == 'tuple':
                for d in s.args:
                    e = mul(e, d)
            return None, e
        return None, mk('nbytes', v)

    def write(self, it, f, args, vals, kv, st, node):
        if not self.isf(f):
            return None
        p = self.pos(f, st)
        n = mk('nbytes', vals[0])
        if vals and vals[0].op == 'filebytes':
            n = vals[0].args[1]
        elif vals and vals[0].op == 'const' and isinstance(vals[0].args[1], (bytes, str)):
            n = const(len(vals[0].args[1]))
        self.setpos(f, st, add(p, n))
        self.rec(it, st, node, what='write', f=f, pos=p, dtype=None, value=vals[0] if vals else NONE, size=n)
        return n

    def read(self, it, f, args, vals, kv, st, node):
        if not self.isf(f):
            return None
        p = self.pos(f, st)
        n = vals[0] if vals else sub(self.size, p)
        self.setpos(f, st, add(p, n))
        self.rec(it, st, node, what='read', f=f, pos=p, dtype=const('uint8'), count=n)
        return mk('filebytes', p, n)

    def dyn(self, it, f, args, vals, kw, st, node):
        # a numpy type held in a variable: value of that type
        o = it.newobj(vals[0] if vals else ZERO)
        st.heap[('a', o, 'dtype')] = f
        st.heap[('a', o, 'nbytes')] = st.heap[('a', o, 'itemsize')] = sizeof(f)
        return o

    def scalar(self, it, recv, args, vals, kv, st, node):
        if len(vals) != 1 or it.lit and vals[0].op == 'list' and len(vals[0].args) != 1:
            return None
        v = vals[0].args[0] if vals[0].op == 'list' and len(vals[0].args) == 1 else vals[0]
        o = it.newobj(v)
        dt = it_name(node, it, st)
        self.fits(it, args[0], v, dt, st, node)
        st.heap[('a', o, 'dtype')] = dt
        st.heap[('a', o, 'nbytes')] = st.heap[('a', o, 'itemsize')] = sizeof(dt)
        return o

    def typed(self, it, recv, args, vals, kv, st, node):
        dt = kv.get('dtype', vals[1] if len(vals) > 1 else None)
        if dt is None or not vals:
            return None
        o = it.newobj(it.deep(vals[0], st.heap))
        self.fits(it, args[0], vals[0], dt, st, node)
        st.heap[('a', o, 'dtype')] = dt
        return o

    def fits(self, it, o, v, dt, st, node):
        """a plain negative number given to an unsigned type (numpy refuses; numbers that already have a numpy type are wrapped)"""
        n = dtname(dt)
        if n and n.startswith('uint') and is_num(v) and cval(v) < 0 and ('a', o, 'dtype') not in st.heap:
            self.rec(it, st, node, what='overflow', value=v, dtype=dt)

    def astype(self, it, recv, args, vals, kv, st, node):
        return None


def it_name(node, it, st):
    """the numpy type a scalar constructor call names"""
    t = it.ev(node.func, st.copy())
    return t
