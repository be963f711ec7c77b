"""Options by value flow: every option of an entry point is followed, as an opaque value, from the entry point's parameter through the
constructors and set-up calls to the quantity it names (attribute of the indexer or band detector, argument of the Radon transform, of the
band search or of the pole conversion).  A different value arriving there (another option, a constant, nothing) is a violation; defaults
of options that both entry points have are compared as written."""
import ast
from rules._par import *
from sa.term import rebuild

IX = S + 'EBSDIndexer'
BD = 'pyebsdindex.band_detect.BandDetect'
GPF = 'pyebsdindex.ebsd_pattern.get_pattern_file_obj'
OPTS = ('filename', 'phaselist', 'vendor', 'PC', 'sampleTilt', 'camElev', 'bandDetectPlan', 'nRho', 'nTheta', 'tSigma', 'rSigma', 'rhoMaskFrac', 'nBands', 'patternmask', 'patternmaskindex')
ASSUMES = ['options are handed over by the caller as values other than None unless a rule says they are left out']


def given(names, stack=None):
    """tests whether one of these values is None are false; slices of the stack of patterns are stacks"""
    ss = {sym(n) if isinstance(n, str) else n for n in names}

    def f(z):
        if z.op == 'is' and z.args[1] is NONE and (z.args[0] in ss or stack is not None and arange(z.args[0], stack, 1)):
            return FALSE
        if z.op == 'len' and z.args[0].op == 'attr' and z.args[0].args[1] == 'shape' and stack is not None and arange(z.args[0].args[0], stack, 1):
            return const(3)

    def br(t, node):
        y = rebuild(t, f)
        return True if y is TRUE else False if y is FALSE else None
    return br


KNOWN = ('sym', 'const', 'poly', 'fn', 'attr', 'sel', 'ite', 'is', 'not', 'and', 'or', 'lt', 'gt', 'eq', 'inv', 'cast', 'tuple', 'list', 'len')


def through(v):
    """the value under conversions that keep it"""
    while v.op == 'call' and v.args[0] in ('numpy.asarray', 'numpy.array', 'numpy.asfarray', 'numpy.copy', 'list', 'tuple', 'copy.copy', 'copy.deepcopy') and v.args[1] and isinstance(v.args[1][0], T):
        v = v.args[1][0]
    while v.op == 'ret' and v.args[0] in ('.copy',) and v.args[1:] and isinstance(v.args[1], T):
        v = v.args[1]
    return v


def same(v, want, syms):
    """True: this value; False: definitely another option, a constant or nothing; None: something else"""
    if v is None:
        return None
    v = through(v)
    if v == want:
        return True
    if v.op == 'ite':
        r = [same(x, want, syms) for x in v.args[1:]]
        return True if all(x is True for x in r) else False if False in r else None
    if v.op in ('const',) or v is NONE:
        return False
    return False if want not in set(subterms(v)) and all(x.op in KNOWN for x in subterms(v)) else None


def posargs(e):
    return e.d.get('bound') or {}


def of(it, name):
    return [e for e in it.events if e.kind == 'call' and e.name == name]


def r_entry(ctx):
    R = ctx.rule('entry', 'the entry points hand every option to the indexer under its own name', 24)
    fi = ctx.func(IX + '.__init__')
    both = {}
    for q in (S + 'index_pats', Q):
        f = ctx.func(q)
        names = f.params()
        both[q] = f
        args = {n: sym(n) for n in names}
        short = q.split('.')[-1]
        syms = set(args.values())
        if q == Q:
            args.update(patsin=NONE, npats=const(3), patstart=ZERO, chunksize=const(4), ncpu=const(2), keep_log=FALSE, verbose=ZERO)
            bound = BOUND
        else:
            args.update(backgroundSub=FALSE)
            bound = {IX + '.__init__', IX + '.index_pats', IX + '.update_file'}
        args['ebsd_indexer_obj'] = NONE
        it = ctx.analyse(q, args=args, boundary=bound, branch=given(names), lit=True, exact_try=True, maxdepth=3,
                         returns={S + 'index_pats': lambda s, b: mk('tuple', sym('t1'), sym('t2'), b['ebsd_indexer_obj'])} if q == Q else {})
        news = [e for e in it.events if e.kind == 'new' and e.cls == IX]
        need(news, '%s makes no EBSDIndexer' % short)
        for n in OPTS:
            if n not in names or n not in fi.params():
                continue
            for e in news:
                v = posargs(e).get(n)
                ctx.verdict(same(v, sym(n), syms), R, '%s %s' % (short, n), e.loc, 'option %s of %s reaches the indexer as %s' % (n, short, show(v, 5) if v is not None else 'nothing'))
        if q != Q:
            ps = [e for e in it.events if e.kind == 'call' and e.name == IX + '.index_pats']
            need(ps, 'index_pats does not call the indexer')
            for n in ('patstart', 'npats', 'clparams', 'verbose', 'chunksize', 'gpu_id'):
                for e in ps:
                    v = posargs(e).get(n)
                    ctx.verdict(same(v, sym(n), syms), R, '%s call %s' % (short, n), e.loc, 'option %s reaches the indexing call as %s' % (n, show(v, 5) if v is not None else 'nothing'))
        # a given indexer is used as it is
        a2 = dict(args, ebsd_indexer_obj=sym('ebsd_indexer_obj'))
        it = ctx.analyse(q, args=a2, boundary=bound, branch=given(names), lit=True, exact_try=True, maxdepth=3,
                         returns={S + 'index_pats': lambda s, b: mk('tuple', sym('t1'), sym('t2'), b['ebsd_indexer_obj'])} if q == Q else {})
        news = [e for e in it.events if e.kind == 'new' and e.cls == IX]
        ctx.verdict(not news, R, short + ' given indexer', news[0].loc if news else f.loc(), 'a new indexer is made although one was given')
        st = [e for e in it.events if e.kind == 'store' and e.base == sym('ebsd_indexer_obj') and e.d.get('key') is not None]
        ctx.verdict(not st, R, short + ' given indexer settings', st[0].loc if st else f.loc(), 'a setting of the given indexer is replaced')
    D = ctx.rule('defaults', 'an omitted option has the same default in both entry points', 12)
    d1, d2 = [defaults(both[q].node) for q in (S + 'index_pats', Q)]
    for n in sorted(set(d1) & set(d2)):
        if n == 'chunksize':            # a block size, no result depends on it (B01, D01); 0 asks for a size fitted to the worker
            continue
        ctx.verdict(d1[n] == d2[n], D, n, both[Q].loc(), 'default of %s is %s in index_pats and %s in index_pats_distributed' % (n, d1[n], d2[n]))


def defaults(node):
    a = node.args
    ps = a.posonlyargs + a.args
    out = {p.arg: d for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults)}
    out.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})

    def val(d):
        try:
            return repr(ast.literal_eval(d))
        except ValueError:
            return ast.unparse(d)
    return {n: val(d) for n, d in out.items()}


def attrs(it, o):
    """end values of the attributes of an object on the normal exits"""
    out = {}
    for k, st, v, nd in it.frame.exits:
        if k not in ('return', 'fall', 'end', 'normal'):
            continue
        for key, val in st.heap.items():
            if key[0] == 'a' and key[1] == o:
                out.setdefault(key[2], []).append(it.deep(val, st.heap))
    return out


def r_indexer(ctx):
    R = ctx.rule('indexer', 'the indexer keeps every option and sets up the band detector with it', 20)
    q = IX + '.__init__'
    f = ctx.func(q)
    names = f.params()
    self_ = names[0]
    nps = 3
    phases = [sym('ph%d' % i) for i in range(nps)]

    def isinst(it, recv, a, vals, kv, st, node):
        if vals[0] in phases:
            return TRUE if any('BandIndexer' in show(x, 4) for x in (vals[1].args if vals[1].op in ('tuple', 'list') else (vals[1],))) else FALSE
        if vals[0] == sym('filename'):
            return FALSE
        return None
    BOUNDARY = {BD + '.__init__', BD + '.band_detect_setup', GPF, 'pyebsdindex.tripletvote.addphase'}
    fobj = sym('fobj')

    def go(leave=(), file=True):
        args = {n: sym(n) for n in names[1:] if n not in leave}
        args.update(phaselist=mk('list', *phases))
        if 'bandDetectPlan' in leave:
            args['bandDetectPlan'] = NONE
        for n in leave:
            if n not in args:
                d = defaults(f.node).get(n)
                args[n] = NONE if d in (None, 'None') else const(ast.literal_eval(d)) if d[0] != '[' else NONE
        if not file:
            args['filename'] = NONE
        g = [n for n in names if n not in leave and (file or n != 'filename')]
        return ctx.analyse(q, args=args, boundary=BOUNDARY, branch=given(g + [fobj] + phases), hooks={'isinstance': isinst}, lit=True, returns={GPF: lambda s, b: fobj})

    syms = {sym(n) for n in names}
    it = go(('bandDetectPlan',))
    at = attrs(it, it.selfobj) if hasattr(it, 'selfobj') else attrs(it, sym(self_))
    if not at:
        os_ = {key[1] for k, st, v, nd in it.frame.exits for key in st.heap if key[0] == 'a' and key[2] == 'sampleTilt'}
        need(len(os_) == 1, 'the indexer object is not recognised')
        at = attrs(it, os_.pop())
    kept = {'sampleTilt': 'sampleTilt', 'camElev': 'camElev', 'vendor': 'vendor', 'PC': 'PC', 'nband_earlyexit': 'nband_earlyexit', 'filein': 'filename'}
    for a, n in kept.items():
        for v in at.get(a, [None]):
            ctx.verdict(same(v, sym(n), syms), R, 'attribute ' + a, f.loc(), 'given option %s is kept as %s' % (n, show(v, 5) if v is not None else 'nothing'))
    for v in at.get('phaseLib', [None]):
        good = None
        if v is not None and v.op == 'list':
            good = list(v.args) == phases
        ctx.verdict(good, R, 'attribute phaseLib', f.loc(), 'given phases are kept as %s' % (show(v, 4) if v is not None else 'nothing'))
    for v in at.get('fID', [None]):
        ctx.verdict(same(v, fobj, {fobj}), R, 'attribute fID', f.loc(), 'the pattern file is kept as %s' % (show(v, 4) if v is not None else 'nothing'))
    news = [e for e in it.events if e.kind == 'new' and e.cls == BD]
    need(news, 'the indexer makes no band detector')
    setups = of(it, BD + '.band_detect_setup')
    for n in ('nRho', 'nTheta', 'tSigma', 'rSigma', 'rhoMaskFrac', 'nBands'):
        v = posargs(news[-1]).get(n)
        w = [posargs(e).get(n) for e in setups]
        w = [x for x in w if x is not None and x is not NONE]
        r = same(v, sym(n), syms)
        for x in w:                                      # set-up calls may repeat an option, not replace it
            y = same(x, sym(n), syms)
            r = y if y is not True else r
        ctx.verdict(r, R, 'band detector ' + n, news[-1].loc, 'option %s reaches the band detector as %s' % (n, show(w[-1] if w else v, 4) if v is not None else 'nothing'))
    v = posargs(news[-1]).get('nPhases')
    ctx.verdict(None if v is None or v.op != 'const' else v == const(nps), R, 'band detector nPhases', news[-1].loc, 'the band detector is told of %s phases for %d' % (show(v, 3) if v is not None else 'no', nps))
    for file in (True, False):
        i2 = go(('bandDetectPlan',), file) if not file else it
        ss = of(i2, BD + '.band_detect_setup')
        if not file:
            ss = [e for e in ss if same(posargs(e).get('patDim'), sym('patDim'), syms) is not None or e is ss[-1]]
        lab = 'file' if file else 'array'
        ctx.verdict(bool(ss) or None, R, 'setup ' + lab, f.loc(), 'the band detector is not set up')
        for n in ('patternmask', 'patternmaskindex'):
            v = [posargs(e).get(n) for e in ss] + [posargs(news[-1]).get(n)]
            r = [same(x, sym(n), syms) for x in v if x is not None]
            ctx.verdict(True if True in r else False if r and all(x is False for x in r) else None, R, 'setup %s %s' % (lab, n), (ss or news)[-1].loc, 'option %s does not reach the band detector' % n)
        for e in ss[-1:]:
            v = posargs(e).get('patDim')
            if file:
                d = [i2.deep(i2.V(v, st), st.heap) for k, st, x, nd in i2.frame.exits] if v is not None else []
                hw = (mk('attr', fobj, 'patternH'), mk('attr', fobj, 'patternW'))
                ctx.verdict(None if not d or d[0].op not in ('list', 'tuple') else True if d[0].args == hw else False if set(d[0].args) <= set(hw) else None, R, 'setup file patDim', e.loc, 'pattern dimensions reach the band detector as %s' % (show(d[0], 4) if d else 'nothing'))
            else:
                ctx.verdict(same(v, sym('patDim'), syms), R, 'setup array patDim', e.loc, 'pattern dimensions reach the band detector as %s' % show(v, 4))
    # left out
    it = go(('bandDetectPlan', 'vendor', 'PC'), False)
    o = [key[1] for k, st, v, nd in it.frame.exits for key in st.heap if key[0] == 'a' and key[2] == 'sampleTilt']
    at = attrs(it, o[0])
    for v in at.get('vendor', [None]):
        ctx.verdict(None if v is None or v.op != 'const' else v == const('EDAX'), R, 'default vendor', f.loc(), 'without vendor and file the vendor is %s' % (show(v, 3) if v is not None else 'unset'))
    it = go(('bandDetectPlan', 'vendor'), True)
    o = [key[1] for k, st, v, nd in it.frame.exits for key in st.heap if key[0] == 'a' and key[2] == 'sampleTilt']
    for v in attrs(it, o[0]).get('vendor', [None]):
        fv = mk('attr', fobj, 'vendor')
        ctx.verdict(True if v == fv else False if v is not None and v.op in ('const', 'sym') else None, R, 'file vendor', f.loc(), 'without vendor the vendor of the file is replaced by %s' % (show(v, 3) if v is not None else 'nothing'))
    # a given band detector is used
    it = go((), False)
    news = [e for e in it.events if e.kind == 'new' and e.cls == BD]
    o = [key[1] for k, st, v, nd in it.frame.exits for key in st.heap if key[0] == 'a' and key[2] == 'sampleTilt']
    for v in attrs(it, o[0]).get('bandDetectPlan', [None]):
        ctx.verdict(same(v, sym('bandDetectPlan'), syms), R, 'given band detector', f.loc(), 'the given band detector is replaced by %s' % (show(v, 3) if v is not None else 'nothing'))


SET = ('nTheta', 'nRho', 'tSigma', 'rSigma', 'rhoMaskFrac', 'nBands', 'patternmask', 'patternmaskindex')


def r_detector(ctx):
    R = ctx.rule('detector', 'the band detector keeps every option it is given, and a set-up call changes only what it is given', 20)
    RDQ = 'pyebsdindex.radon_fast.Radon'
    BN = {RDQ + '.__init__', RDQ + '.radon_faster', BD + '._circmask'}
    # construction
    q = BD + '.__init__'
    f = ctx.func(q)
    names = f.params()[1:]
    it = ctx.analyse(q, args={**{n: sym(n) for n in names}, 'patterns': NONE, 'patDim': NONE}, branch=given(names), lit=True, boundary=BN | {BD + '.band_detect_setup'})
    o = {key[1] for k, st, v, nd in it.frame.exits for key in st.heap if key[0] == 'a' and key[2] == 'nTheta'}
    need(len(o) == 1, 'the band detector object is not recognised')
    o = o.pop()
    at = attrs(it, o)
    syms = {sym(n) for n in names}
    for n in ('nTheta', 'nRho', 'tSigma', 'rSigma', 'rhoMaskFrac', 'nBands', 'nPhases'):
        for v in at.get(n, [None]):
            ctx.verdict(same(v, sym(n), syms), R, 'construct ' + n, f.loc(), 'option %s of the band detector is kept as %s' % (n, show(v, 4) if v is not None else 'nothing'))
    q = BD + '.band_detect_setup'
    f = ctx.func(q)
    ps = f.params()
    me = sym(ps[0])
    H, W = 40, 56
    old = {n: sym('old_' + n) for n in SET}
    osyms = set(old.values())

    def setup(gave):
        heap = {}
        args = {n: NONE for n in ps[1:]}
        for n in gave:
            args[n] = sym(n)
        sa = dict(old)
        known = [sym(n) for n in gave] + list(old.values()) + [sym('old_dRho'), sym('old_dTheta'), sym('old_patDim'), sym('old_radonPlan')]
        sa.update(patDim=sym('old_patDim'), dRho=sym('old_dRho'), dTheta=sym('old_dTheta'), radonPlan=sym('old_radonPlan'))
        return ctx.analyse(q, args=args, selfattrs=sa, boundary=BN, branch=given(known), maxdepth=3)

    def ends(it, n):
        out = []
        for k, st, v, nd in it.frame.exits:
            if k == 'raise':
                continue
            for key, val in st.heap.items():
                if key[0] == 'a' and key[2] == n and show(key[1], 3).endswith('#self'):
                    out.append(it.deep(val, st.heap))
        return out
    for gave in [(n,) for n in SET] + [()]:
        it = setup(gave)
        radons = [e for e in it.events if e.kind == 'new' and e.cls == RDQ]
        for n in SET:
            want = sym(n) if n in gave else old[n]
            vs = ends(it, n) or ([old[n]] if n not in gave else [])
            lab = 'setup %s%s' % ('given ' + n if n in gave else n, '' if n in gave else ' (given: %s)' % (','.join(gave) or 'nothing'))
            for v in vs or [None]:
                ctx.verdict(same(v, want, {sym(x) for x in gave} | osyms), R, lab, f.loc(), '%s becomes %s' % (n, show(v, 4) if v is not None else 'nothing'))
        if gave and gave[0] in ('nTheta', 'nRho', 'patternmask', 'patternmaskindex', 'rhoMaskFrac'):
            un = [e for e in radons]
            ctx.verdict(bool(un), R, 'setup %s radon' % gave[0], f.loc(), 'giving %s does not make a new Radon transform' % gave[0])
        for e in radons:
            b = posargs(e)
            for rn, n in (('nTheta', 'nTheta'), ('nRho', 'nRho'), ('mask', 'patternmask'), ('maskindex', 'patternmaskindex')):
                want = sym(n) if n in gave else old[n]
                v = b.get(rn)
                ctx.verdict(same(v, want, {sym(x) for x in gave} | osyms), R, 'radon %s (given: %s)' % (rn, ','.join(gave) or 'nothing'), e.loc, 'the Radon transform gets %s as %s' % (rn, show(v, 4) if v is not None else 'nothing'))


    # other pattern dimensions
    for prev in (NONE, mk('tuple', const(30), const(50))):
        args = {n: NONE for n in ps[1:]}
        args['patDim'] = mk('tuple', const(H), const(W))
        sa = dict(old, patDim=prev, dRho=sym('old_dRho'), dTheta=sym('old_dTheta'), radonPlan=sym('old_radonPlan'))
        it = ctx.analyse(q, args=args, selfattrs=sa, boundary=BN, branch=given(list(old.values()) + [sym('old_dRho'), sym('old_dTheta')]), lit=True, maxdepth=3)
        radons = [e for e in it.events if e.kind == 'new' and e.cls == RDQ]
        lab = 'setup patDim %s' % ('first' if prev is NONE else 'changed')
        if prev is NONE:
            ctx.verdict(bool(radons), R, lab, f.loc(), 'new pattern dimensions make no new Radon transform')
        for e in radons:
            v = through(posargs(e).get('imageDim') or NONE)
            d = [through(it.deep(it.V(v, st), st.heap)) for k, st, x, nd in it.frame.exits if k != 'raise'][0]
            want = args['patDim'].args
            ctx.verdict(True if d.op in ('tuple', 'list') and d.args == want else False if d.op in ('tuple', 'list') and all(x.op == 'const' for x in d.args) else None, R, lab + ' radon', e.loc, 'the Radon transform is made for %s instead of %s' % (show(d, 4), (H, W)))


def r_call(ctx):
    R = ctx.rule('indexing', 'the indexing call hands its options to the band search and the pole conversion', 6)
    q = IX + '.index_pats'
    f = ctx.func(q)
    names = f.params()[1:]
    fb = ctx.func(BD + '.find_bands').params()[1:]
    rp = ctx.func('pyebsdindex.radon_fast.Radon.radon2pole').params()[1:]
    syms = {sym(n) for n in names}

    def arg(e, order, n):
        if n in e.kw:
            return e.kw[n]
        i = order.index(n) if n in order else 99
        return e.args[i] if i < len(e.args) else None
    for pc in (True, False):
        args = {n: sym(n) for n in names}
        if not pc:
            args['PC'] = NONE
        args['patsin'] = NONE
        sa = {n: sym('own_' + n) for n in ('PC', 'vendor', 'fID', 'bandDetectPlan')}
        it = ctx.analyse(q, args=args, selfattrs=sa, branch=given([n for n in names if n != 'patsin' and (pc or n != 'PC')] + [sym('own_PC'), mk('attr', sym('own_bandDetectPlan'), 'patDim')]), maxdepth=3,
                         boundary={IX + '._indexbandsphase'})
        calls = [e for e in it.events if e.kind == 'call' and str(e.name).endswith('.find_bands')]
        poles = [e for e in it.events if e.kind == 'call' and str(e.name).endswith('.radon2pole')]
        need(calls and poles, 'the band search or pole conversion is not recognised')
        for e in calls:
            for n in ('clparams', 'verbose', 'chunksize'):
                v = arg(e, fb, n)
                ctx.verdict(same(v, sym(n), syms) if v is not None else False if not any(k is None or k == '**' for k in e.kw) else None, R, 'find_bands ' + n, e.loc, 'option %s reaches the band search as %s' % (n, show(v, 4) if v is not None else 'nothing'))
            v = arg(e, fb, 'gpu_id')
            ok = None if v is None else True if sym('gpu_id') in set(subterms(v)) else None
            ctx.verdict(ok, R, 'find_bands gpu_id', e.loc, 'option gpu_id does not reach the band search')
        for e in poles:
            want = sym('PC') if pc else sym('own_PC')
            v = arg(e, rp, 'PC')
            ctx.verdict(same(v, want, syms | {sym('own_PC')}), R, 'radon2pole PC %s' % ('given' if pc else 'own'), e.loc, 'pole conversion uses %s' % (show(v, 4) if v is not None else 'the default centre'))
            v = arg(e, rp, 'vendor')
            ctx.verdict(same(v, sym('own_vendor'), {sym('own_vendor')}) if v is not None else False, R, 'radon2pole vendor', e.loc, 'pole conversion uses vendor %s' % (show(v, 4) if v is not None else 'default'))
        rd = [e for e in it.events if e.kind == 'call' and str(e.name).endswith('.read_data')]
        for e in rd:
            v = e.kw.get('patStartCount')
            want = (sym('patstart'), sym('npats'))
            got = tuple(v.args) if v is not None and v.op in ('list', 'tuple') else None
            if got is None and v is not None:
                d = [it.deep(v, st.heap) for k, st, x, nd in it.frame.exits]
                got = tuple(d[0].args) if d and d[0].op in ('list', 'tuple') else None
            ctx.verdict(None if got is None else True if got == want else False if set(got) <= {sym('patstart'), sym('npats')} or all(x.op == 'const' for x in got) else None, R, 'range from file', e.loc,
                        'the range read from the file is %s' % (show(v, 4) if v is not None else 'everything'))
    # arrays: every combination of a range, on a small array
    N = 7
    for start in (0, 2, -3):
        for n in (-1, 0, 2, 5):
            arr = sym('patsin')
            args = {k: NONE for k in names}
            args.update(patsin=arr, patstart=const(start), npats=const(n), verbose=ZERO, chunksize=const(4))
            sa = {k: sym('own_' + k) for k in ('PC', 'vendor', 'fID', 'bandDetectPlan')}
            it = ctx.analyse(q, args=args, selfattrs=sa, lit=True, heap={('a', arr, 'shape'): mk('tuple', const(N), const(4), const(5))}, branch=given([arr, mk('attr', sym('own_bandDetectPlan'), 'patDim')], arr), maxdepth=3, boundary={IX + '._indexbandsphase'})
            calls = [e for e in it.events if e.kind == 'call' and str(e.name).endswith('.find_bands')]
            lo = start if start >= 0 else N + start
            hi = min(lo + n, N) if n > 0 else N
            for e in calls:
                v = arg(e, fb, 'patternsIn') or arg(e, fb, fb[0])
                got = arange(v, arr, N)
                ctx.verdict(None if got is None else got == (lo, hi), R, 'range of array start=%d count=%d' % (start, n), e.loc, 'patterns %s of %d are indexed for patstart=%d, npats=%d' % (got, N, start, n))


def arange(v, arr, n):
    """(first, end) of a slice along the first axis of arr"""
    if v == arr:
        return 0, n
    if v is not None and v.op in ('sel', 'sub', 'get') and len(v.args) == 2:
        b = arange(v.args[0], arr, n)
        if b is None:
            return None
        s = v.args[1]
        if s.op == 'tuple':
            if any(x.op != 'slice' or any(y is not NONE for y in x.args) for x in s.args[1:]):
                return None
            s = s.args[0]
        if s.op == 'slice' and all(isinstance(x, T) and (x is NONE or x.op == 'const') for x in s.args):
            c = [None if x is NONE else int(x.args[-1]) for x in s.args]
            lo, hi, stp = slice(*c).indices(b[1] - b[0])
            return (b[0] + lo, b[0] + hi) if stp == 1 else None
    return None


RULES = [r_entry, r_indexer, r_detector, r_call]
