"""Pattern-file headers.  Every read_header / write_header runs over the abstract file: for every format version the library writes, each header
field must be written at the offset, with the width and byte order, and from the attribute the layout table gives, and must be read back
into the same attribute from the same place; the data offset must be the end of the header, and the pattern count must follow from the
header or from file size and pattern size.  HDF5 readers must take each quantity from the dataset axis or header entry of that name."""
from rules._file import *

UP = {1: [('version', 0, 'uint32'), ('patternW', 4, 'uint32'), ('patternH', 8, 'uint32'), ('filePos', 12, 'uint32')]}
UP[3] = UP[1] + [('extraPatterns', 16, 'uint8'), ('nCols', 17, 'uint32'), ('nRows', 21, 'uint32'), ('hexflag', 25, 'uint8'), ('xStep', 26, 'float64'), ('yStep', 34, 'float64')]
TF = [('version', 0, 'uint32'), ('nCols', 4, 'uint32'), ('nRows', 8, 'uint32'), ('patternW', 12, 'uint32'), ('patternH', 16, 'uint32'), ('bitdepth', 22, 'uint8')]
LEN = {1: 16, 3: 42}


def ver(v, dt):
    return lambda p, n: const(v) if p is ZERO else None


def eqv(a, b):
    return None if a is None else compare(a, b) if not (a is b) else True


def cmpv(ctx, R, name, loc, got, want, msg):
    if got is want:
        return ctx.ok(R, name)
    v = None
    if got is not None and want is not None:
        v = samevalue(got, want)
    ctx.verdict(v, R, name, loc, msg % (show(got, 5) if got is not None else 'never set', show(want, 5)))


def samevalue(a, b):
    """True when equal in normal form; False when both are plain file fields / known values and differ; else by evaluation"""
    if a is b:
        return True
    if a.op in ('list', 'tuple') and b.op in ('list', 'tuple'):
        if len(a.args) != len(b.args):
            return False
        vs = [samevalue(x, y) for x, y in zip(a.args, b.args)]
        return False if False in vs else (None if None in vs else True)
    plain = lambda t: t.op == 'field' or is_num(t) or (t.op == 'sym' and t.args[0].startswith('a_'))
    if plain(a) and plain(b):
        return False
    return evalcmp(a, b)


def evalcmp(a, b, n=12):
    """evaluate both over sample values of their leaves; False on a definite difference"""
    from sa.evalt import Valuation
    leaves = []
    for t in (a, b):
        for x in subterms(t):
            if x.op in ('field', 'sym') and x not in leaves:
                leaves.append(x)
    rnd = random.Random(5)
    for k in range(n):
        vals = {x: rnd.choice([rnd.randrange(1, 9), rnd.randrange(20, 200)]) for x in leaves}
        vals.update({x: rnd.randrange(100000, 900000) for x in leaves if x.op == 'sym' and x.args[0] == 'filesize'})
        try:
            va, vb = Valuation(env=vals)(a), Valuation(env=vals)(b)
        except Exception:
            return None
        if isinstance(va, (int, float)) and isinstance(vb, (int, float)) and abs(va - vb) > 1e-6 * max(1, abs(va)):
            return False
    return None


def r_up_read(ctx):
    R = ctx.rule('up-header-read', 'each up1/up2 header field is read from its offset with its type into its attribute', 16)
    for v in (1, 3, 4):
        for ext, dt in (('.up1', 'numpy.uint8'), ('.up2', 'numpy.uint16')):
            a = dict(xStep=NONE, yStep=NONE, nCols=NONE, nRows=NONE)
            F, it = run(ctx, 'UPFile', 'read_header', a, content=ver(v, 'uint32'), branch=brancher(ext=ext), args=dict(path=NONE))
            f = ctx.func(EP + 'UPFile.read_header')
            for nm, off, t in UP[min(v, 3)]:
                cmpv(ctx, R, 'v%d%s-%s' % (v, ext, nm), f.loc(), attr(it, nm), const(v) if nm == 'version' else mk('field', const(off), t),
                     nm + ' is read as %s, the format stores it as %s')
            cmpv(ctx, R, 'v%d%s-type' % (v, ext), f.loc(), attr(it, 'filedatatype'), mk('ext', dt), 'element type is %s, not %s')
            W, H = mk('field', const(4), 'uint32'), mk('field', const(8), 'uint32')
            n = attr(it, 'nPatterns')
            if v >= 3:
                want = mul(mk('field', const(17), 'uint32'), mk('field', const(21), 'uint32'))
            else:
                size = [x for x in subterms(n) if x.op == 'attr' and x.args[1] == 'st_size'] if n is not None else []
                sz = sym('filesize')
                if n is not None and size:
                    n = subst(n, {size[0]: sz})
                want = div(sub(sz, const(16)), mul(mul(W, H), const(1 if ext == '.up1' else 2)))
                n2 = subst(n, {mk('field', const(12), 'uint32'): const(16)})
                n = n2
            n = strip(n)
            cmpv(ctx, R, 'v%d%s-count' % (v, ext), f.loc(), n, want, 'the number of patterns is %s, not %s')


def strip(t):
    return rebuild(t, lambda x: x.args[1] if x.op == 'fn' and x.args[0] in ('int', 'floor') else None)


def writes(F):
    return [e for e in F.log if e.what == 'write']


def tablewrites(ctx, R, tag, loc, ws, table):
    """every table entry is written where it belongs and nothing else is written inside the header"""
    byoff = {}
    for e in ws:
        p = scalarise(e.pos)
        if not is_num(p):
            continue
        v = scalarise(e.value)
        if v.op == 'list' and e.dtype is not None and dtname(e.dtype) in SIZES:
            for k, x in enumerate(v.args):
                byoff.setdefault(cval(p) + k * SIZES[dtname(e.dtype)], []).append((e, x))
        else:
            byoff.setdefault(cval(p), []).append((e, v))
    for nm, off, t, val in table:
        es = byoff.get(off)
        if not es:
            here = [e for e in ws if scalarise(e.value) is val]
            ctx.verdict(False if all(is_num(scalarise(e.pos)) for e in ws) else None, R, '%s-%s' % (tag, nm), loc, 'nothing is written at byte %d, where %s belongs' % (off, nm))
            continue
        for e, v in es:
            d = dtname(e.dtype) if e.dtype is not None else None
            if e.dtype is None:
                ctx.und(R, '%s-%s' % (tag, nm), 'type of the value written at byte %d not recognised' % off)
                continue
            ctx.verdict(d == t, R, '%s-%s-type' % (tag, nm), e.loc, '%s is written as %s, the format stores %s' % (nm, d, t))
            cmpv(ctx, R, '%s-%s' % (tag, nm), e.loc, v, val, 'byte %d holds %%s instead of %%s (%s)' % (off, nm))


def r_up_write(ctx):
    R = ctx.rule('up-header-write', 'each up1/up2 header field is written at the offset and with the type from which it is read', 20)
    f = ctx.func(EP + 'UPFile.write_header')
    for v in (1, 3):
        for isf in (False, True):
            for fp in (None, 'given'):
                a = syms()
                a['version'] = const(v)
                if fp is None:
                    a['filePos'] = NONE
                F, it = run(ctx, 'UPFile', 'write_header', a, args=dict(writeBlank=FALSE, bitdepth=NONE), branch=brancher(isfile=isf))
                tag = 'v%d%s%s' % (v, '-update' if isf else '-new', '' if fp is None else '-pos')
                tab = [(nm, off, t, const(v) if nm == 'version' else (const(LEN[v]) if nm == 'filePos' and fp is None else a[nm])) for nm, off, t in UP[v]]
                tablewrites(ctx, R, tag, f.loc(), writes(F), tab)
                if fp is None:
                    end = ZERO
                    for e in writes(F):
                        end = add(e.pos, e.size)
                    cmpv(ctx, R, tag + '-length', f.loc(), attr(it, 'filePos'), end, 'patterns are said to start at byte %s but the header is %s bytes long')
    # default version and the blank file
    a = syms()
    a['version'], a['filePos'] = NONE, NONE
    F, it = run(ctx, 'UPFile', 'write_header', a, args=dict(writeBlank=FALSE, bitdepth=NONE))
    v0 = attr(it, 'version')
    ctx.verdict(True if v0 in (const(3), const(1)) else (False if v0 is NONE else None), R, 'default-version', f.loc(), 'a new file gets version %s' % show(v0, 3))
    a = syms()
    a.update(version=const(3), nRows=const(2), nCols=const(3))
    F, it = run(ctx, 'UPFile', 'write_header', a, args=dict(writeBlank=TRUE, bitdepth=NONE), ints=())
    bl = [e for e in writes(F) if not is_num(scalarise(e.pos)) or cval(scalarise(e.pos)) >= 42]
    ctx.verdict(True if len(bl) == 6 else (False if bl and all(not e.loops for e in bl) else None), R, 'blank-count', f.loc(), '%d blank patterns are written for a 2 x 3 scan' % len(bl))


def r_tf(ctx):
    R = ctx.rule('tfpat-header', 'each tfpat header field is read and written at its offset with its type', 16)
    f = ctx.func(EP + 'TFPatFile.read_header')
    for scan in (-1, 0):
        for bg in (-1, 0):
            def content(p, n, scan=scan, bg=bg):
                if p is ZERO:
                    return const(1)
                if is_num(p) and n == 'int16':
                    return const(scan) if cval(p) == 20 else (const(bg) if cval(p) == 23 else None)
                return None
            F, it = run(ctx, 'TFPatFile', 'read_header', dict(hasbackground=TRUE, isscan=TRUE, background=NONE), content=content, args=dict(path=NONE))
            tag = 'read%s%s' % ('' if scan else '-points', '-bg' if bg else '')
            for nm, off, t in TF:
                cmpv(ctx, R, '%s-%s' % (tag, nm), f.loc(), attr(it, nm), const(1) if nm == 'version' else mk('field', const(off), t), nm + ' is read as %s, the format stores it as %s')
            W, H = mk('field', const(12), 'uint32'), mk('field', const(16), 'uint32')
            fp = add(const(25), mul(const(2), mul(W, H))) if bg else const(25)
            cmpv(ctx, R, tag + '-filePos', f.loc(), attr(it, 'filePos'), fp, 'patterns are said to start at %s, not at %s')
            n = attr(it, 'nPatterns')
            want = mul(mk('field', const(4), 'uint32'), mk('field', const(8), 'uint32')) if scan else fn('floor', div(sub(sym('filesize'), fp), add(const(8), mul(const(2), mul(W, H)))))
            cmpv(ctx, R, tag + '-count', f.loc(), n, want, 'the number of patterns is %s, not %s')
            cmpv(ctx, R, tag + '-hasbackground', f.loc(), attr(it, 'hasbackground'), TRUE if bg else FALSE, 'presence of the background is %s, not %s')
            s = attr(it, 'isscan')
            ctx.verdict(True if s in (TRUE, FALSE) and (s is TRUE) == bool(scan) else (False if s in (TRUE, FALSE) or s is None else None), R, tag + '-isscan', f.loc(),
                        'a file whose header says it %s a scan is recorded as isscan=%s' % ('is' if scan else 'is not', show(s, 2) if s is not None else None))
            st = [e for e in F.log if e.what == 'seek' and e.loops]
            if not scan:
                # the stored positions are 8 bytes plus one pattern apart
                rd = [e for e in F.log if e.what == 'read' and e.loops]
                for k, e in enumerate(st):
                    r = [x for x in rd if x.seq < e.seq]
                    d = sub(e.pos, r[-1].pos) if r else None
                    if d is not None:
                        cmpv(ctx, R, tag + '-stride', e.loc, d, add(const(8), mul(const(2), mul(W, H))), 'stored pattern positions are stepped by %s bytes, patterns are %s apart')
                if not st:
                    ctx.und(R, tag + '-stride', 'no per-pattern position loop found')
    f = ctx.func(EP + 'TFPatFile.write_header')
    for scan in (TRUE, FALSE):
        for bg in (TRUE, FALSE):
            for have in ((True, False) if bg is TRUE else (False,)):
                a = syms()
                back = a['background']
                a.update(version=const(1), isscan=scan, hasbackground=bg, filedatatype=mk('ext', 'numpy.uint16'))
                if not have:
                    a['background'] = NONE
                hp = {('a', back, 'size'): mul(a['patternH'], a['patternW'])}
                true = [mk('isinst', back, mk('ext', 'numpy.ndarray'))]
                F, it = run(ctx, 'TFPatFile', 'write_header', a, args=dict(writeBlank=TRUE, bitdepth=NONE), heap=hp, types={}, branch=tfbranch(back))
                tag = 'write%s%s%s' % ('' if scan is TRUE else '-points', '-bg' if bg is TRUE else '', '-have' if have else '')
                tab = [(nm, off, t, const(1) if nm == 'version' else a[nm]) for nm, off, t in TF]
                tab += [('isscan', 20, 'int16', const(-1) if scan is TRUE else ZERO), ('hasbackground', 23, 'int16', const(-1) if bg is TRUE else ZERO)]
                ws = writes(F)
                tablewrites(ctx, R, tag, f.loc(), ws, tab)
                if bg is TRUE:
                    b = [e for e in ws if scalarise(e.pos) is const(25)]
                    if not b:
                        ctx.verdict(False if all(is_num(e.pos) for e in ws if e is not ws[-1]) else None, R, tag + '-background', f.loc(), 'no background pattern is written after the header that announces one')
                    elif have:
                        ctx.verdict(True if all(contains(e.value, back) for e in b) else (False if any(e.value.op == 'alloc' for e in b) else None), R, tag + '-background', b[0].loc,
                                    'a blank is written in place of the stored background')
                # the blank file must hold every pattern
                W, H = a['patternW'], a['patternH']
                tot = add(add(const(25), mul(const(2), mul(W, H)) if bg is TRUE else ZERO), mul(a['nPatterns'], add(const(8), mul(const(2), mul(W, H)))))
                last = ws[-1]
                end = subsz(add(last.pos, last.size), W, H)
                cmpv(ctx, R, tag + '-size', last.loc, end, tot, 'a blank file is %s bytes long, its header promises %s')


def subsz(t, W, H):
    """sizes of the background block and of the pattern record"""
    m = {}
    for x in subterms(t):
        if x.op == 'nbytes':
            m[x] = mul(const(2), mul(W, H))
        elif x.op == 'attr' and x.args[1] == 'itemsize':
            m[x] = sizeof(x.args[0])
    return subst(t, m) if m else t


def tfbranch(back):
    base = brancher()

    def br(t, node):
        r = base(t, node)
        if r is not None:
            return r
        # the stored background is an array, never the class itself
        if contains(t, back):
            nd = mk('ext', 'numpy.ndarray')
            v = None
            if contains(t, nd):
                isins = [x for x in subterms(t) if x.op in ('isinst',)]
                y = rebuild(t, lambda x: TRUE if x.op == 'isinst' else None)
                if y in (TRUE, FALSE):
                    return y is TRUE
                y = rebuild(t, lambda x: ONE if x is back else (const(2) if x is nd else None))
                if y in (TRUE, FALSE):
                    return y is TRUE
        return None
    return br


H5 = {'EDAXOH5': ('nColumns', 'nRows', 'Step X', 'Step Y'), 'KIKUCHIPYH5': ('n_columns', 'n_rows', 'step_x', 'step_y'),
      'BRUKERH5': ('NCOLS', 'NROWS', 'XSTEP', 'YSTEP'), 'OXFORDOINA': ('X Cells', 'Y Cells', 'X Step', 'Y Step')}


def r_h5(ctx):
    R = ctx.rule('h5-header', 'each HDF5 reader takes pattern height, width and count from the dataset axes and the scan quantities from the header entry of that name', 30)
    for cls, keys in list(H5.items()) + [('HDF5PatFile', None)]:
        f = ctx.func(EP + cls + '.read_header')
        pth = sym('a_path')
        a = dict(h5patdatpth=pth)
        B = {EP + c + '.get_data_paths' for c in ('HDF5PatFile', 'OXFORDOINA')} | {EP + c + '.set_data_path' for c in H5}
        F, it = run(ctx, cls, 'read_header', a, boundary=B, branch=h5branch(), args=dict(path=NONE))
        shp = {'patternW': -1, 'patternH': -2, 'nPatterns': -3}
        for nm, k in shp.items():
            v = attr(it, nm)
            got = axis(v)
            ctx.verdict(None if got is None else got == k, R, '%s-%s' % (cls, nm), f.loc(), '%s is taken from axis %s of the pattern dataset, stored on axis %d' % (nm, got, k))
        if keys:
            for nm, key in zip(('nCols', 'nRows', 'xStep', 'yStep'), keys):
                v = attr(it, nm)
                got = [x.args[1] for x in subterms(v) if x.op == 'const' and x.args[0] == 'str' and x.args[1] not in ('Header',)] if v is not None else []
                got = [g for g in got if g not in ('r',)]
                ctx.verdict(True if got == [key] else (False if len(got) == 1 else None), R, '%s-%s' % (cls, nm), f.loc(), '%s is read from header entry %s, stored as %r' % (nm, got, key))


def axis(v):
    """which axis (negative) of the dataset's shape a value is"""
    if v is None:
        return None
    s = [x for x in subterms(v) if x.op == 'sel' and is_num(x.args[1]) and (contains(x.args[0], lambda y: y.op == 'attr' and y.args[1] == 'shape') or x.args[0].op == 'shape')]
    if len(s) != 1:
        return None
    k = cval(s[0].args[1])
    return k - 3 if k >= 0 else k


def h5branch():
    def br(t, node):
        # supported format version, pattern groups present
        if contains(t, lambda x: x.op == 'const' and x.args[0] == 'str' and any(c.isdigit() or c == 'X' for c in x.args[1])):
            return True
        return None
    return br


def r_ebsp(ctx):
    R = ctx.rule('ebsp-layout', 'the ebsp offset table, per-pattern headers and position footers are written where the reader looks for them', 60)
    f = ctx.func(EP + 'EBSPFile.write_header')
    for v in (1, 2, 3, 4):
        for xy in ((TRUE,) if v == 1 else (TRUE, FALSE)):
            for B, dt in ((1, 'numpy.uint8'), (2, 'numpy.uint16')):
                tag = 'write-v%d%s-%d' % (v, '-xy' if xy is TRUE else '', B)
                a = syms()
                a.update(version=const(v), filePos=NONE, nPatterns=const(3), nRows=ONE, nCols=const(3), hasxypos=xy, filedatatype=mk('ext', dt))
                F, it = run(ctx, 'EBSPFile', 'write_header', a, args=dict(writeBlank=TRUE, bitdepth=const(8 * B)))
                W, H = a['patternW'], a['patternH']
                hwb = mul(mul(H, W), const(B))
                bl = lambda t: subst(t, {x: hwb for x in subterms(t) if x.op == 'nbytes'})
                head = 9 if v >= 4 else 8
                foot = (16 if v == 1 else 18) if xy is TRUE else 1
                tbl = [add(const(head + 24 + k * (16 + foot)), mul(const(k), hwb)) for k in range(3)]
                want = [('version', ZERO, 'uint64', const(-v))]
                if v >= 4:
                    want.append(('byte', const(8), 'uint8', None))
                want.append(('offset table', const(head), 'uint64', mk('list', *tbl)))
                for k in range(3):
                    p = tbl[k]
                    want.append(('pattern header', p, 'uint32', mk('list', ZERO, H, W, hwb)))
                    p = add(p, const(16))
                    want.append(('pattern', p, None, None))
                    p = add(p, hwb)
                    if xy is not TRUE:
                        want.append(('footer flag', p, 'uint8', ZERO))
                        continue
                    for q in 'xy':
                        if v >= 2:
                            want.append(('footer flag', p, 'uint8', None))
                            p = add(p, ONE)
                        want.append((q + ' position', p, 'float64', None))
                        p = add(p, const(8))
                ov = [e for e in F.log if e.what == 'overflow']
                ctx.verdict(not ov, R, tag + '-fits', ov[0].loc if ov else f.loc(), 'the negative number %s is given to the unsigned type %s, which numpy refuses' % ((show(ov[0].value, 3), dtname(ov[0].dtype)) if ov else ('', '')))
                ws = [(bl(scalarise(e.pos)), e) for e in writes(F)]
                for k, (nm, p, d, val) in enumerate(want):
                    es = [e for q, e in ws if q is p]
                    key = '%s-%d-%s' % (tag, k, nm.replace(' ', ''))
                    if not es:
                        plain = all(q.op == 'poly' or is_num(q) for q, e in ws) and len(ws) >= len(want) - 6 and not any(e.loops for q, e in ws)
                        ctx.verdict(False if plain else None, R, key, f.loc(), 'nothing is written at byte %s, where the %s belongs' % (show(p, 6), nm))
                        continue
                    e = es[-1]
                    got = dtname(e.dtype) if e.dtype is not None else None
                    if d is not None:
                        ctx.verdict(None if got is None else got == d, R, key + '-type', e.loc, '%s is written as %s, the format stores %s' % (nm, got, d))
                    if val is not None:
                        cmpv(ctx, R, key, e.loc, bl(scalarise(e.value)), val, 'the ' + nm + ' holds %s instead of %s')
                    elif nm == 'pattern':
                        cmpv(ctx, R, key, e.loc, bl(e.size), hwb, 'a pattern of %s bytes is written, the header announces %s')
    # reader
    f = ctx.func(EP + 'EBSPFile.read_header')
    for v in (1, 2, 3, 4, 5):
        head = 9 if v >= 4 else 8
        n = 6 if v >= 5 else 4

        def content(p, t, v=v):
            if p is ZERO:
                return const(-v)
            if t == 'uint32' and p.op == 'sel' and p.args[0].op == 'fields' and p.args[1] is ZERO:
                return ZERO
            return None
        F, it = run(ctx, 'EBSPFile', 'read_header', dict(hasxypos=FALSE), content=content, args=dict(path=NONE))
        tag = 'read-v%d' % v
        fp, npat = attr(it, 'filePos'), attr(it, 'nPatterns')
        cmpv(ctx, R, tag + '-version', f.loc(), attr(it, 'version'), const(v), 'version is read as %s, stored as %s')
        if fp is None or fp.op != 'fields':
            ctx.und(R, tag + '-table', 'offset table not recognised: %s' % (show(fp, 3) if fp is not None else None))
            continue
        ctx.verdict(None if not is_num(fp.args[0]) else fp.args[0] is const(head), R, tag + '-table', f.loc(), 'the offset table is read from byte %s, stored at %d' % (show(fp.args[0], 3), head))
        d = dtname(fp.args[1])
        ctx.verdict(None if d is None else d in ('uint64', 'int64'), R, tag + '-table-type', f.loc(), 'the offset table is read as %s, stored as uint64' % d)
        ctx.verdict(True if fp.args[2] is npat else None, R, tag + '-table-count', f.loc(), 'one offset per pattern')
        p0 = mk('sel', fp, ZERO)
        for nm, back in (('patternW', 2), ('patternH', 3)):
            cmpv(ctx, R, '%s-%s' % (tag, nm), f.loc(), attr(it, nm), mk('field', add(p0, const(4 * (n - back))), 'uint32'), nm + ' is read as %s, stored as %s')
        # bit depth from bytes per pattern and pattern area
        t = attr(it, 'filedatatype')
        W, H, NB = (mk('field', add(p0, const(4 * (n - k))), 'uint32') for k in (2, 3, 1))
        for B, nm in ((1, 'uint8'), (2, 'uint16')):
            from sa.evalt import Valuation
            y = subst(t, {W: const(7), H: const(5), NB: const(35 * B)}) if t is not None else None
            g = dtname(y) if y is not None and y.op == 'ext' else None
            ctx.verdict(None if g is None else g == nm, R, '%s-depth%d' % (tag, B), f.loc(), '%d bytes per pixel are read as %s' % (B, g))
        # footers
        nb = NB
        rd = [e for e in F.log if e.what == 'read' and e.loops and e.dtype is not None and dtname(e.dtype) == 'float64']
        fo = 0 if v == 1 else 1
        offs = set()
        for e in rd:
            q = subst(e.pos, {x: ONE for x in subterms(e.pos) if x.op == 'ite' and contains(x, lambda w: w.op == 'undef')})
            base = [x for x in subterms(q) if x.op == 'sel' and x.args[0] is fp and x.args[1].op == 'it']
            if len(base) == 1:
                o = sub(sub(q, base[0]), nb)
                offs.add(cval(o) if is_num(o) else None)
        want = {4 * n + fo, 4 * n + 2 * fo + 8}
        ctx.verdict(None if not rd or None in offs else offs == want, R, tag + '-footer', f.loc(), 'the positions are read %s bytes after the pattern, stored %s' % (sorted(o for o in offs if o is not None), sorted(want)))
    # single-pattern writer and reader agree on the pattern header
    fw = ctx.func(EP + 'EBSPFile.pat_writer')
    for v in (1, 2, 3, 4, 5):
        for xy in (TRUE, FALSE):
            a = syms()
            a.update(version=const(v), filePos=mk('list', sym('fp_0'), sym('fp_1')), nRows=ONE, nCols=const(2), nPatterns=const(2), hasxypos=xy, filedatatype=mk('ext', 'numpy.uint8'))
            w = sym('a_pats')
            F, it = run(ctx, 'EBSPFile', 'pat_writer', a, args=dict(patStart=ONE, nPatToWrite=ONE, typewrite=mk('ext', 'numpy.uint8'), pat2write=w), branch=fpbranch())
            ws = [(e.pos, e) for e in writes(F)]
            tag = 'patwrite-v%d%s' % (v, '-xy' if xy is TRUE else '')
            nh = 24 if v >= 5 else 16
            pt = [(p, e) for p, e in ws if contains(e.value, w)]
            o = sub(pt[0][0], sym('fp_1')) if len(pt) == 1 else None
            ctx.verdict(None if o is None or not is_num(o) else cval(o) == nh, R, tag + '-data', fw.loc(), 'pattern data are written %s bytes after the pattern offset, and read %d bytes after it' % (show(o, 3) if o is not None else None, nh))
            if v < 5:
                hd = [(p, e) for p, e in ws if p is sym('fp_1')]
                cmpv(ctx, R, tag + '-head', fw.loc(), scalarise(hd[0][1].value) if hd else None, mk('list', ZERO, a['patternH'], a['patternW'], mul(a['patternH'], a['patternW'])), 'the pattern header holds %s instead of %s')
                if xy is TRUE and pt:
                    fo = 0 if v == 1 else 1
                    nbw = pt[0][1].size
                    offs = {cval(x) if is_num(x) else None for x in (sub(sub(p, pt[0][0]), nbw) for p, e in ws if e.dtype is not None and dtname(e.dtype) == 'float64')}
                    ctx.verdict(None if None in offs or len(offs) != 2 else offs == {fo, 2 * fo + 8}, R, tag + '-footer', fw.loc(), 'positions are written %s bytes after the pattern, read %s' % (sorted(o for o in offs if o is not None), [fo, 2 * fo + 8]))
    fr = ctx.func(EP + 'EBSPFile.pat_reader')
    for v in (1, 2, 3, 4, 5):
        a = syms()
        a.update(version=const(v), filePos=mk('list', sym('fp_0'), sym('fp_1')), hasxypos=TRUE, filedatatype=mk('ext', 'numpy.uint8'))
        F, it = run(ctx, 'EBSPFile', 'pat_reader', a, args=dict(patStart=ONE, nPatToRead=ONE), branch=fpbranch())
        rd = [e for e in F.log if e.what == 'read']
        nh, fo = (24 if v >= 5 else 16), (0 if v == 1 else 1)
        o = sub(rd[0].pos, sym('fp_1')) if rd else None
        ctx.verdict(None if o is None or not is_num(o) else cval(o) == nh, R, 'patread-v%d-data' % v, fr.loc(), 'pattern data are read %s bytes after the pattern offset, stored %d after it' % (show(o, 3) if o is not None else None, nh))
        hw = mul(a['patternH'], a['patternW'])
        offs = [sub(sub(e.pos, sym('fp_1')), hw) for e in rd[1:]]
        offs = [cval(x) if is_num(x) else None for x in offs]
        ctx.verdict(None if None in offs or len(offs) != 2 else offs == [nh + fo, nh + 2 * fo + 8], R, 'patread-v%d-footer' % v, fr.loc(), 'positions are read at %s, stored at %s after the pattern' % (offs, [nh + fo, nh + 2 * fo + 8]))


def fpbranch():
    base = brancher()

    def br(t, node):
        r = base(t, node)
        if r is not None:
            return r
        y = subst(t, {x: const(100) for x in subterms(t) if x.op == 'sym' and x.args[0].startswith('fp_')})
        return True if y is TRUE else (False if y is FALSE else None)
    return br
