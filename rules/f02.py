"""Pattern addressing.  Readers and writers run over the abstract file with a symbolic first pattern; the seek position, element count and
record layout must be those of pattern k.  The range normalisation of read_data/write_data is decided for every clamping case, rectangular
requests included, and the default integer conversion must leave values the file can hold unchanged."""
from rules._file import *
from rules.f01 import cmpv, samevalue, writes, fpbranch, evalcmp

DT = {1: 'numpy.uint8', 2: 'numpy.uint16', 4: 'numpy.uint32'}
FLOATS = ('float16', 'float32', 'float64')
MAXV = {'uint8': 255, 'uint16': 65535, 'uint32': 4294967295}


def L(*a):
    return mk('list', *[x if isinstance(x, T) else const(x) for x in a])


def typedhooks():
    """values of a numpy type held in a variable remember that type for isinstance"""
    def dyn(it, f, args, vals, kw, st, node):
        o = it.newobj(vals[0] if vals else ZERO)
        st.heap[('a', o, 'dtype')] = f
        st.heap[('a', o, 'nbytes')] = st.heap[('a', o, 'itemsize')] = sizeof(f)
        return o

    def isin(it, recv, args, vals, kv, st, node):
        if len(args) != 2:
            return None
        d = st.heap.get(('a', args[0], 'dtype'))
        d = dtname(d) if d is not None else None
        c = vals[1].args[0].rsplit('.', 1)[-1] if vals[1].op == 'ext' else None
        if d is None or c is None:
            return None
        fl = d in FLOATS
        kinds = {d, 'number', 'generic', 'floating' if fl else 'integer', 'inexact' if fl else ('unsignedinteger' if d[0] == 'u' else 'signedinteger')}
        return TRUE if c in kinds else FALSE
    hk = {k: v for k, v in Files().hooks().items() if k.startswith('numpy.') and k.rsplit('.', 1)[-1] in SIZES}
    hk.update({'dynamic': dyn, 'isinstance': isin})
    return hk


def reqrange(P, s, n):
    """patterns a one-dimensional request (start, count) designates"""
    n = P - s if n == -1 else (1 if n == 0 else n)
    return s, min(n, P - s)


def calls(it, suffix):
    return [e for e in it.events if e.kind == 'call' and e.name and str(e.name).endswith('.' + suffix)]


def barg(it, e, name):
    v = e.bound.get(name) if e.bound else None
    return None if v is None else it.deep(it.V(v, it.state), it.state.heap)


def scenario(nc, nr):
    a = syms()
    a.update(version=const(3), filedatatype=mk('ext', 'numpy.uint16'), vendor=NONE, filetype=NONE, filepath=sym('a_path'), nCols=const(nc), nRows=const(nr), nPatterns=const(nc * nr))
    return a


NP = {EP + 'EBSDPatternFile.pat_reader', EP + 'EBSDPatternFile.pat_writer', EP + 'EBSDPatternFile.read_header', EP + 'EBSDPatternFile.write_header', EP + 'pat_flt2int'}
ONED = [(7, 5, 0, -1), (7, 5, 0, 0), (7, 5, 4, -1), (7, 5, 4, 1), (7, 5, 30, 5), (7, 5, 30, 9), (7, 5, 34, 0), (1, 6, 5, -1), (7, 5, 0, 35), (7, 5, 3, 36)]
SLAB = [(7, 5, 2, 1, 3, 2), (7, 5, 0, 0, -1, -1), (7, 5, 5, 1, 4, 2), (7, 5, 1, 3, 2, 9), (7, 5, 2, 1, -1, 2), (7, 5, 0, 4, 2, -1), (5, 7, 2, 5, 3, 1), (3, 2, 2, 1, 1, 1), (5, 7, 4, 2, 1, 3)]
SLAB += [(nc, nr, c, r, w, h) for nc, nr in ((3, 5), (5, 3)) for c, r in ((1, 1), (nc - 1, nr - 1), (0, 1)) for w in (1, -1, 4, 9) for h in (2, -1, 4, 9)]


def slab(nc, nr, c, r, w, h):
    w = nc - c if w < 0 or c + w > nc else w
    h = nr - r if h < 0 or r + h > nr else h
    return w, h, [((r + i) * nc + c, w) for i in range(h)]


def constof(t):
    t = scalarise(t) if t is not None else None
    return cval(t) if t is not None and is_num(t) else None


def r_range(ctx):
    R = ctx.rule('range', 'a request (start, count) or (columns, rows) is normalised to exactly the patterns it designates', 40)
    f = ctx.func(EP + 'EBSDPatternFile.read_data')
    g = ctx.func(EP + 'EBSDPatternFile.write_data')
    for nc, nr, s, n in ONED:
        want = reqrange(nc * nr, s, n)
        F, it = run(ctx, 'EBSDPatternFile', 'read_data', scenario(nc, nr), args=dict(patStartCount=L(s, n), path=NONE, convertToFloat=FALSE, returnArrayOnly=TRUE), boundary=NP, recur=3)
        cs = calls(it, 'pat_reader')
        got = [(constof(barg(it, e, 'patStart')), constof(barg(it, e, 'nPatToRead'))) for e in cs]
        ok = None if not got or any(None in x for x in got) or any(e.pc for e in cs) else got == [want]
        ctx.verdict(ok, R, 'read-%d-%d-%d-%d' % (nc, nr, s, n), f.loc(), 'request (%d, %d) on %d patterns reads %s, designates %s' % (s, n, nc * nr, got, want))
    for nc, nr, c, r, w, h in SLAB:
        W, H, want = slab(nc, nr, c, r, w, h)
        F, it = run(ctx, 'EBSDPatternFile', 'read_data', scenario(nc, nr), args=dict(patStartCount=L(L(c, r), L(w, h)), path=NONE, convertToFloat=FALSE, returnArrayOnly=TRUE), boundary=NP, recur=3)
        cs = calls(it, 'pat_reader')
        got = [(constof(barg(it, e, 'patStart')), constof(barg(it, e, 'nPatToRead'))) for e in cs]
        tag = 'slab-%d-%d-%d-%d-%d-%d' % (nc, nr, c, r, w, h)
        ok = None if not got or any(None in x for x in got) or any(e.pc or e.loops for e in cs) else got == want
        ctx.verdict(ok, R, 'read' + tag, f.loc(), 'request (%d, %d) + (%d, %d) reads %s, designates %s' % (c, r, w, h, got, want))
        # rows are delivered one after the other
        res = it.deep(it.result, it.state.heap) if it.result is not None else None
        pats = res.args[0] if res is not None and res.op == 'tuple' and len(res.args) == 2 else None
        got, okp = placed(pats, 'pat_reader', 'patStart')
        wantp = {(i * W, (i + 1) * W): s for i, (s, _) in enumerate(want)}
        ctx.verdict(None if not okp else got == wantp, R, 'place' + tag, f.loc(), 'patterns are returned at rows %s, belong at %s' % (got, wantp))
    # writing
    w0 = sym('a_new')
    for nc, nr, s, n in ONED:
        for m in (3, 40):
            a = scenario(nc, nr)
            np_ = m if n == -1 else (1 if n == 0 else n)
            if np_ > m:
                continue
            want = (s, min(np_, nc * nr - s))
            it = wrun(ctx, a, L(s, n), w0, m)
            cs = calls(it, 'pat_writer')
            got = [(constof(barg(it, e, 'patStart')), constof(barg(it, e, 'nPatToWrite'))) for e in cs]
            ok = None if not got or any(None in x for x in got) or any(e.pc for e in cs) else got == [want]
            ctx.verdict(ok, R, 'write-%d-%d-%d-%d-%d' % (nc, nr, s, n, m), g.loc(), 'request (%d, %d) with %d patterns on %d writes %s, designates %s' % (s, n, m, nc * nr, got, want))
    for nc, nr, c, r, w, h in SLAB:
        W, H, want = slab(nc, nr, c, r, w, h)
        it = wrun(ctx, scenario(nc, nr), L(L(c, r), L(w, h)), w0, W * H)
        cs = calls(it, 'pat_writer')
        got = [(constof(barg(it, e, 'patStart')), constof(barg(it, e, 'nPatToWrite'))) for e in cs]
        tag = 'slab-%d-%d-%d-%d-%d-%d' % (nc, nr, c, r, w, h)
        ok = None if not got or any(None in x for x in got) or any(e.pc or e.loops for e in cs) else got == want
        ctx.verdict(ok, R, 'write' + tag, g.loc(), 'request (%d, %d) + (%d, %d) writes %s, designates %s' % (c, r, w, h, got, want))
        src = []
        for e in cs:
            v = barg(it, e, 'pat2write')
            sl = [x for x in subterms(v) if x.op == 'sel' and x.args[0] is w0] if v is not None else []
            k = keytuple(sl[0].args[1]) if len(sl) == 1 else ()
            src.append(bounds(k[0]) if k else None)
        wants = [(i * W, (i + 1) * W) for i in range(H)]
        ctx.verdict(None if None in src or not src else src == wants, R, 'source' + tag, g.loc(), 'scan rows are filled from patterns %s, belong to %s' % (src, wants))


def bounds(k):
    if k.op == 'slice' and all(is_num(x) for x in k.args[:2]) and (len(k.args) < 3 or k.args[2] in (NONE, ONE)):
        return int(cval(k.args[0])), int(cval(k.args[1]))
    return None


def placed(t, name, par):
    """{(lo, hi): start} of the row blocks stored into an array from calls of `name`; second value False when not recognised"""
    out = {}
    if t is None:
        return out, False
    while t.op == 'store':
        k = keytuple(t.args[1])
        b = bounds(k[0])
        src = [x for x in subterms(t.args[2]) if x.op == 'ret' and str(x.args[0]).endswith('.' + name)]
        if b is None or len(src) != 1:
            return out, False
        st = [v[1] for v in src[0].args[1] if v[0] == par]
        if len(st) != 1 or not is_num(st[0]):
            return out, False
        if not contains(t.args[2], lambda x: x.op == 'sel' and x.args[0] is src[0] and x.args[1] is ZERO):
            return out, False
        out.setdefault(b, int(cval(st[0])))
        t = t.args[0]
    return out, t.op in ('alloc', 'call')


def isbr(t, node):
    y = rebuild(t, lambda z: ({EP + 'EBSDPatterns': FALSE, 'numpy.ndarray': TRUE}.get(z.args[1].args[0]) if z.op == 'isinst' and z.args[1].op == 'ext' else (FALSE if z.op == 'isinst' else None)))
    return True if y is TRUE else (False if y is FALSE else brancher(isfile=True)(y, node))


def wrun(ctx, a, psc, w0, m):
    hp = {('a', w0, 'ndim'): const(3), ('a', w0, 'shape'): mk('tuple', const(m), a['patternH'], a['patternW'])}
    F, it = run(ctx, 'EBSDPatternFile', 'write_data', a, args=dict(patStartCount=psc, newpatterns=w0, writeHead=FALSE, maxScale=NONE), boundary=NP, recur=3, branch=isbr, heap=hp,
                hooks={'.max': lambda it, r, ar, v, kv, st, n: sym('a_max')})
    return it


def r_values(ctx):
    R = ctx.rule('values', 'the default conversion stores every value the file type can hold unchanged', 3)
    f = ctx.func(EP + 'pat_flt2int')
    x = sym('a_new')
    # the conversion write_data selects by default
    how = {}
    for e in calls(ctx.analyse(EP + 'EBSDPatternFile.write_data', args={k: v for k, v in defaults(ctx.func(EP + 'EBSDPatternFile.write_data')).items() if k in ('flt2int', 'scalevalue')}, boundary=NP), 'pat_flt2int')[:1]:
        for k in ('method',):
            if e.bound and k in e.bound:
                how[k] = e.bound[k]
    how = {k: v for k, v in how.items() if v.op == 'const'}
    from sa.evalt import Valuation, Unknown
    for d in ('uint8', 'uint16', 'uint32'):
        it = ctx.analyse(EP + 'pat_flt2int', args=dict(patterns=x, typeout=mk('ext', 'numpy.' + d), maxScale=NONE, **how), hooks=typedhooks(), branch=isbr, lit=True,
                         heap={('a', x, 'ndim'): const(3)})
        st = [e for e in it.events if e.kind == 'store' and contains(e.value, x)]
        r = it.deep(it.result, it.state.heap)
        v = uncast(r.args[2] if r is not None and r.op == 'store' and all(k is SLALL for k in keytuple(r.args[1])) else r)
        res = None
        for val in (0, 1, 17, 200, 255, 256, 4000, 65535, 65536, 4294967295):
            if val > MAXV[d]:
                continue
            try:
                y = Valuation(env={x: val})(v)
            except Unknown:
                res = None
                break
            if y != val:
                res = val, y
                break
            res = True
        ctx.verdict(res if res is True or res is None else False, R, d, f.loc(), 'a pattern value %s is stored as %s in a %s file' % ((res if isinstance(res, tuple) else (None, None)) + (d,)))


def defaults(f):
    import ast
    a = f.node.args
    out = {}
    for p, d in list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if isinstance(d, ast.Constant):
            out[p.arg] = const(d.value) if not isinstance(d.value, bool) and d.value is not None else {None: NONE, True: TRUE, False: FALSE}[d.value]
    return out


SLALL = mk('slice', NONE, NONE, NONE)


def uncast(t):
    def f(z):
        if z.op == 'mcall' and z.args[1] == 'astype':
            return z.args[0]
        if z.op == 'cast':
            return z.args[-1]
        return None
    return rebuild(t, f)


def inplace(ctx, S, key, g, modes):
    """a partial write must leave the bytes outside it as they were"""
    for loc, m in modes:
        m = m.args[-1] if m.op == 'const' and isinstance(m.args[-1], str) else None
        ok = None if m is None else not set(m) & set('wx') and (m != 'w-') and ('a' not in m or 'b' not in m and 'h5' in key)
        ctx.verdict(ok, S, key, loc, 'the file is opened with mode %r to write some of its patterns: the others would not survive, or be written elsewhere' % m)
    if not modes:
        ctx.und(S, key, 'no file is opened')


def fmodes(F):
    return [(e.loc, e.mode) for e in F.log if e.what == 'open' and not (e.mode.op == 'const' and e.mode.args[-1] in ('r', 'rb', 'br'))]


def r_addr(ctx):
    S = ctx.rule('in-place', 'writing some patterns opens the file without discarding what it already holds', 4)
    R = ctx.rule('address', 'pattern k is read and written at header offset + k x stored pattern size, n whole patterns of height x width', 24)
    ps = sym('a_start')
    declare_int(ps)
    n = 3
    for cls in ('UPFile', 'TFPatFile'):
        rec = 8 if cls == 'TFPatFile' else 0
        for B in ((1, 2) if cls == 'UPFile' else (2,)):
            a = syms()
            a.update(version=const(3 if cls == 'UPFile' else 1), filedatatype=mk('ext', DT[B]))
            W, H, fp = a['patternW'], a['patternH'], a['filePos']
            at = add(fp, mul(ps, add(const(rec), mul(const(B), mul(W, H)))))
            f = ctx.func(EP + cls + '.pat_reader')
            F, it = run(ctx, cls, 'pat_reader', a, args=dict(patStart=ps, nPatToRead=const(n)))
            tag = '%s-%d' % (cls, B)
            rd = [e for e in F.log if e.what == 'read']
            if len(rd) != 1 or rd[0].loops:
                ctx.und(R, tag + '-read', '%d transfers' % len(rd))
            else:
                cmpv(ctx, R, tag + '-read-at', rd[0].loc, rd[0].pos, at, 'patterns are read from byte %s, stored at %s')
                cmpv(ctx, R, tag + '-read-count', rd[0].loc, mul(sizeof(rd[0].dtype), rd[0].count), mul(const(n), add(const(rec), mul(const(B), mul(W, H)))), '%s bytes are read, %s hold the patterns')
                res = it.deep(it.result, it.state.heap)
                pat = res.args[0] if res.op == 'tuple' else res
                shape(ctx, R, tag + '-read-shape', f.loc(), pat, (const(n), H, W))
                if rec:
                    fields(ctx, R, tag + '-record', rd[0], W, H)
            w = sym('a_pats')
            g = ctx.func(EP + cls + '.pat_writer')
            hk = {}
            if rec:
                hk = {'.pat_flt2int': None}
            F, it = run(ctx, cls, 'pat_writer', a, args=dict(patStart=ps, nPatToWrite=const(n), pat2write=w, typewrite=mk('ext', DT[B])), boundary={EP + 'pat_flt2int'})
            ws = writes(F)
            inplace(ctx, S, tag, g, fmodes(F))
            if not rec:
                ctx.verdict(None if len(ws) != 1 or ws[0].loops else True, R, tag + '-write', g.loc(), '%d transfers' % len(ws))
                if len(ws) == 1:
                    cmpv(ctx, R, tag + '-write-at', ws[0].loc, ws[0].pos, at, 'patterns are written at byte %s, read from %s')
                    v = ws[0].value
                    k = keytuple(v.args[1]) if v.op == 'sel' and v.args[0] is w else None
                    ctx.verdict(True if v is w or (k and bounds(k[0]) == (0, n) and all(z is SLALL for z in k[1:])) else (False if k and bounds(k[0]) and bounds(k[0]) != (0, n) else None),
                                R, tag + '-write-what', ws[0].loc, '%s is written instead of the first %d patterns' % (show(v, 4), n))
            else:
                # alternating position / pattern records
                loc = [e for e in ws if not contains(e.value, w)]
                pt = [e for e in ws if contains(e.value, w)]
                nb = {x: (const(8) if not contains(x, w) else mul(const(2), mul(W, H))) for e in ws for x in subterms(e.pos) if x.op == 'nbytes'}
                if len(loc) != n or len(pt) != n or any(e.loops for e in ws):
                    ctx.und(R, tag + '-write', '%d transfers' % len(ws))
                    continue
                for k in range(n):
                    q = add(at, mul(const(k), add(const(8), mul(const(2), mul(W, H)))))
                    cmpv(ctx, R, '%s-write-loc%d' % (tag, k), loc[k].loc, subst(loc[k].pos, nb), q, 'record is written at %s, read from %s')
                    cmpv(ctx, R, '%s-write-pat%d' % (tag, k), pt[k].loc, subst(pt[k].pos, nb), add(q, const(8)), 'pattern is written at %s, read from %s')
                    nC = a['nCols']
                    wantl = mk('list', fn('mod', add(ps, const(k)), nC), fn('floor', div(add(ps, const(k)), nC)))
                    cmpv(ctx, R, '%s-write-xy%d' % (tag, k), loc[k].loc, scalarise(loc[k].value), wantl, 'stored (column, row) is %s, pattern belongs to %s')
                    s = [x for x in subterms(pt[k].value) if x.op == 'sel' and x.args[0] is w]
                    kk = keytuple(s[0].args[1]) if len(s) == 1 else ()
                    b = bounds(kk[0]) if kk else None
                    if kk and is_num(kk[0]):
                        b = (int(cval(kk[0])), int(cval(kk[0])) + 1)
                    ctx.verdict(None if b is None else b == (k, k + 1), R, '%s-write-src%d' % (tag, k), pt[k].loc, 'record %d holds pattern %s of the data handed in' % (k, b))
    # ebsp: one file position per pattern
    fps = [sym('fp_%d' % i) for i in range(5)]
    for v in (2, 5):
        for B in (1, 2):
            a = syms()
            a.update(version=const(v), filePos=L(*fps), hasxypos=FALSE, filedatatype=mk('ext', DT[B]))
            W, H = a['patternW'], a['patternH']
            F, it = run(ctx, 'EBSPFile', 'pat_reader', a, args=dict(patStart=const(2), nPatToRead=const(2)), branch=fpbranch())
            f = ctx.func(EP + 'EBSPFile.pat_reader')
            tag = 'EBSPFile-v%d-%d' % (v, B)
            rd = [e for e in F.log if e.what == 'read']
            head = 24 if v >= 5 else 16
            if len(rd) != 2:
                ctx.und(R, tag + '-read', '%d transfers' % len(rd))
            else:
                for k in range(2):
                    cmpv(ctx, R, '%s-read-at%d' % (tag, k), rd[k].loc, rd[k].pos, add(fps[2 + k], const(head)), 'pattern is read from %s, stored at %s')
                    cmpv(ctx, R, '%s-read-count%d' % (tag, k), rd[k].loc, mul(sizeof(rd[k].dtype), rd[k].count), mul(const(B), mul(W, H)), '%s bytes are read, a pattern has %s')
                res = it.deep(it.result, it.state.heap)
                pat = res.args[0] if res.op == 'tuple' else res
                shape(ctx, R, tag + '-read-shape', f.loc(), pat, (const(2), H, W))
                got = rowsof(pat, fps)
                ctx.verdict(None if got is None else got == [2, 3], R, tag + '-read-rows', f.loc(), 'returned rows hold patterns %s, asked for [2, 3]' % (got,))
            w = sym('a_pats')
            F, it = run(ctx, 'EBSPFile', 'pat_writer', a, args=dict(patStart=const(2), nPatToWrite=const(2), pat2write=w, typewrite=mk('ext', DT[B])), branch=fpbranch())
            ws = [e for e in writes(F) if contains(e.value, w)]
            inplace(ctx, S, tag, f, fmodes(F))
            for k in range(2):
                if len(ws) != 2:
                    ctx.und(R, '%s-write%d' % (tag, k), '%d transfers' % len(ws))
                    continue
                cmpv(ctx, R, '%s-write-at%d' % (tag, k), ws[k].loc, ws[k].pos, add(fps[2 + k], const(head)), 'pattern is written at %s, read from %s')
                kk = keytuple(ws[k].value.args[1]) if ws[k].value.op == 'sel' and ws[k].value.args[0] is w else ()
                ctx.verdict(True if kk and kk[0] is const(k) else (False if kk and is_num(kk[0]) else None), R, '%s-write-src%d' % (tag, k), ws[k].loc, 'place %d receives pattern %s of the data handed in' % (k, show(kk[0], 2) if kk else None))
    # HDF5 data sets
    h5 = sym('a_dset')
    for cls in ('HDF5PatFile', 'EDAXOH5', 'OXFORDOINA'):
        a = syms()
        a.update(h5patdatpth=h5, filedatatype=mk('ext', DT[1]))
        F, it = run(ctx, cls, 'pat_reader', a, args=dict(patStart=ps, nPatToRead=const(n)))
        f = ctx.func(EP + 'HDF5PatFile.pat_reader')
        res = it.deep(it.result, it.state.heap)
        pat = res.args[0] if res.op == 'tuple' else res
        sl = dsel(pat, h5)
        want = (ps, add(ps, const(n)))
        ctx.verdict(None if sl is None else same2(sl, want), R, cls + '-read', f.loc(), 'patterns %s are read, asked for %s' % (sh2(sl), sh2(want)))
        shape(ctx, R, cls + '-read-shape', f.loc(), pat, (const(n), a['patternH'], a['patternW']))
    w = sym('a_pats')
    a = syms()
    a.update(h5patdatpth=h5, filedatatype=mk('ext', DT[1]))
    F, it = run(ctx, 'HDF5PatFile', 'pat_writer', a, args=dict(patStart=ps, nPatToWrite=const(n), pat2write=w, typewrite=mk('ext', DT[1])))
    g = ctx.func(EP + 'HDF5PatFile.pat_writer')
    inplace(ctx, S, 'HDF5PatFile-h5', g, [(e.loc, e.vals[1] if len(e.vals) > 1 else e.kw.get('mode', const('r')) if getattr(e, 'kw', None) else const('r')) for e in it.events if e.kind == 'call' and e.name == 'h5py.File'])
    st = [e for e in it.events if e.kind == 'store' and contains(e.value, w)]
    if len(st) != 1:
        ctx.und(R, 'HDF5PatFile-write', '%d stores' % len(st))
    else:
        k = keytuple(st[0].key)
        sl = k[0].args[:2] if k[0].op == 'slice' else None
        want = (ps, add(ps, const(n)))
        ctx.verdict(None if sl is None else same2(sl, want), R, 'HDF5PatFile-write', st[0].loc, 'patterns are written to %s, belong at %s' % (sh2(sl), sh2(want)))
        v = st[0].value
        kk = keytuple(v.args[1]) if v.op == 'sel' and v.args[0] is w else None
        ctx.verdict(True if v is w or (kk and bounds(kk[0]) == (0, n)) else (False if kk and bounds(kk[0]) else None), R, 'HDF5PatFile-write-src', st[0].loc, '%s is written' % show(v, 4))


def same2(a, b):
    vs = [samevalue(x, y) for x, y in zip(a, b)]
    return False if False in vs else (None if None in vs else True)


def sh2(p):
    return 'None' if p is None else '%s:%s' % (show(p[0], 4), show(p[1], 4))


def dsel(t, h5):
    """row range selected from the pattern data set"""
    for x in subterms(t):
        if x.op == 'sel':
            k = keytuple(x.args[1])
            b = x.args[0]
            if k[0] is h5 and len(k) > 1:
                k = k[1:]
            elif not (b.op == 'sel' and keytuple(b.args[1])[-1] is h5):
                continue
            if k[0].op == 'slice' and all(z is SLALL for z in k[1:]):
                return k[0].args[:2]
    return None


def shape(ctx, R, key, loc, t, want):
    r = shapeof(t)
    if r is None:
        return ctx.und(R, key, 'shape of %s not recognised' % (show(t, 3) if t is not None else None))
    vs = [samevalue(x, y) for x, y in zip(r, want)] if len(r) == len(want) else [False]
    ctx.verdict(False if False in vs else (None if None in vs else True), R, key, loc, 'patterns are returned with shape (%s), recorded (%s)' % (', '.join(show(x, 3) for x in r), ', '.join(show(x, 3) for x in want)))


def shapeof(t):
    if t is None:
        return None
    if t.op == 'mcall' and t.args[1] == 'reshape':
        x = t.args[2]
        if len(x) == 1 and x[0].op in ('tuple', 'list'):
            x = x[0].args
        return x
    if t.op == 'mcall' and t.args[1] in ('copy', 'astype'):
        return shapeof(t.args[0])
    return None


def fields(ctx, R, key, e, W, H):
    d = e.dtype
    fl = d.args[1][0].args if d.op == 'call' and d.args[0] == 'numpy.dtype' and d.args[1] and d.args[1][0].op in ('list', 'tuple') else None
    if not fl:
        return ctx.und(R, key, 'record type not recognised')
    want = [('uint32', mk('tuple', const(2))), ('uint16', mk('tuple', H, W))]
    got = []
    for x in fl:
        dims = x.args[2] if len(x.args) > 2 else mk('tuple')
        got.append((dtname(x.args[1]), dims if dims.op == 'tuple' else mk('tuple', *(dims.args if dims.op == 'list' else (dims,)))))
    ctx.verdict(True if got == want else False, R, key, e.loc, 'a record is read as %s' % '; '.join('%s %s' % (a, show(b, 3)) for a, b in got))


def rowsof(t, fps):
    """which file position each returned row was read from"""
    while t.op == 'mcall':
        t = t.args[0]
    rows = {}
    while t.op == 'store':
        k = keytuple(t.args[1])
        u = [i for i, p in enumerate(fps) if contains(t.args[2], p)]
        if not is_num(k[0]) or len(u) != 1:
            return None
        rows.setdefault(int(cval(k[0])), u[0])
        t = t.args[0]
    if t.op == 'list':
        for i, x in enumerate(t.args):
            u = [j for j, p in enumerate(fps) if contains(x, p)]
            if i not in rows:
                if len(u) != 1:
                    return None
                rows[i] = u[0]
    return [rows[k] for k in sorted(rows)] if rows else None


def r_copy(ctx):
    R = ctx.rule('copy', 'a copy has the same header and the same length; it has the same patterns unless an empty copy is asked for', 9)
    for cls in ('UPFile', 'TFPatFile', 'EBSPFile'):
        for empty in (None, TRUE, FALSE):
            a = dict(filePos=sym('a_filePos'), filepath=sym('a_path'))
            new = sym('a_newpath')
            kw = mk('dict') if empty is None else mk('dict', (const('empty_data'), empty))
            F, it = run(ctx, cls, 'copy_file', a, args=dict(newpath=new, kwargs=kw), branch=cpbranch(new, kw))
            m = ctx.prog.method(ctx.prog.cls(EP + cls), 'copy_file')
            cp = [e for e in it.events if e.kind == 'call' and e.name in ('shutil.copyfile', 'shutil.copy', 'shutil.copy2') and not any(x.op == 'const' and x.args[1] == '.ebsd' for v in e.vals for x in subterms(v))]
            tag = '%s-%s' % (cls, 'plain' if empty is None else 'empty' if empty is TRUE else 'full')
            ws = writes(F)
            if empty is TRUE and ws:
                dst = [e for e in F.log if e.what == 'open' and e.f is ws[0].f]
                ok = bool(dst) and contains(dst[0].path, new)
                ctx.verdict(True if ok else None, R, tag + '-dest', m.loc(), 'the destination is not recognised')
                h = ws[0]
                v = h.value
                if h.pos is ZERO and v.op == 'filebytes':
                    cmpv(ctx, R, tag + '-header', h.loc, v.args[0], ZERO, 'the header copied starts at byte %s, not %s')
                    cmpv(ctx, R, tag + '-headerlen', h.loc, v.args[1], a['filePos'], '%s bytes of header are copied, the header has %s')
                else:
                    ctx.und(R, tag + '-header', 'header copy not recognised')
                last = [e for e in F.log if e.what in ('write', 'truncate') and e.f is ws[0].f][-1]
                cmpv(ctx, R, tag + '-length', last.loc, last.pos if last.what == 'truncate' else add(last.pos, last.size), F.size, 'the copy is %s bytes long, the original %s')
            else:
                full = [e for e in cp if len(e.vals) >= 2]
                ok = True if full and not any(e.pc for e in full) else (False if not cp and not ws else None)
                ctx.verdict(ok, R, tag + '-copied', m.loc(), 'nothing is copied')
                for e in full[:1]:
                    s, d = contains(e.vals[0], a['filepath']), contains(e.vals[1], new)
                    ctx.verdict(True if s and d and not contains(e.vals[0], new) else (False if contains(e.vals[0], new) and contains(e.vals[1], a['filepath']) else None), R, tag + '-direction', e.loc, 'copies %s to %s' % (show(e.vals[0], 3), show(e.vals[1], 3)))


def cpbranch(new, kw):
    b = brancher()

    def br(t, node):
        y = rebuild(t, lambda z: TRUE if z.op == 'is' and z.args[0] is NONE and z.args[1] is NONE else (FALSE if z.op == 'is' and z.args[0] is new and z.args[1] is NONE else None))
        if y in (TRUE, FALSE):
            return y is TRUE
        return b(y, node)
    return br
