"""Value flow of the parallel scheduler.  index_pats_distributed is interpreted for constant (total, start, count, chunk size) scenarios with
every answer of Ray left symbolic: the chunk bounds it hands out must partition the requested range, every findbands/indexpoles task must
be given the patterns / band rows of its own chunk, and every store into a returned array must be the right part of a worker's answer at
the rows of the job in that same answer, minus the first requested pattern.  Which part of an answer is what comes from the workers' own code."""
from rules._par import *

ASSUMES = ['Ray returns for a task the value the worker method returned for it', 'chunk bounds are decided for the listed constant scenarios; the placement arithmetic is decided for all job bounds']

SCEN = [(17, 0, -1, 4), (17, 3, -1, 4), (17, 3, 7, 4), (16, 0, -1, 4), (16, 0, 8, 4), (10, 0, 10, 100), (9, 8, -1, 3), (9, 2, 3, 1), (17, -5, -1, 2), (17, -5, 3, 2), (17, 5, 0, 4), (17, 5, 100, 4), (17, 5, 15, 4), (12, 1, 11, 5)]
DEEP = [(t, s, n, c) for t in (1, 2, 11, 24) for s in (0, 1, t - 1, -1) if -t <= s < t for n in (-1, 0, 1, 2, t, t + 3) for c in (1, 2, 5, 12, 30)]


def bounds(e):
    a, b = e.bound.get('pstart'), e.bound.get('pend')
    return a, b


def r_cover(ctx):
    R = ctx.rule('cover', 'the chunks handed out contain every requested pattern exactly once', 8)
    A = ctx.rule('rows', 'the returned arrays have one row per requested pattern', 8)
    q = SCEN + (DEEP if ctx.tier == 'thorough' else [])
    for tot, s, n, c in q:
        r = Run(ctx, tot, s, n, c)
        want = list(range(r.start, r.start + r.n))
        got, ok = [], True
        js = r.first_jobs()
        for e in js:
            a, b = bounds(e)
            if a is None or b is None or not is_num(a) or not is_num(b):
                ok = None
                break
            got += list(range(int(cval(a)), int(cval(b))))
        if ok is None or not js:
            ctx.und(R, r.label, 'the chunk bounds are not constant')
        else:
            good = sorted(got) == want and all(cval(bounds(e)[0]) < cval(bounds(e)[1]) for e in js)
            ctx.verdict(good, R, r.label if good else 'chunks', js[0].loc,
                        'for %s the chunks %s are not non-empty and do not contain each of the patterns %d..%d exactly once' % (r.label, [tuple(int(cval(x)) for x in bounds(e)) for e in js][:8], want[0], want[-1]))
        o = r.rootobjs()
        for nm, obj, ax in (('index data', o[0], 1), ('band data', o[1], 0)) if o else ():
            sh = allocof(r.it, obj)
            d = sh[ax] if sh and len(sh) > ax else None
            if d is None or not is_num(d):
                ctx.und(A, r.label + ' ' + nm, 'the allocation is not constant')
            else:
                ctx.verdict(cval(d) == r.n, A, r.label + ' ' + nm if cval(d) == r.n else nm, ctx.func(Q).loc(), 'for %s the returned %s has %s rows, not %d' % (r.label, nm, show(d), r.n))


def answer(ctx):
    """{method: {k: role}}: what each part of a 'Done' answer is"""
    R = ctx.rule('worker', "a worker computes from its job's patterns and answers with the results and that same job", 4)
    B = ctx.rule('worker-input', "a worker reads the patterns of its own job", 2)
    out = {}
    rl = roles(ctx)
    for meth, it in rl.items():
        f = ctx.func(M + ('GPUWorker.' if meth == 'findbands' else 'CPUWorker.') + meth)
        jobpar = sym(f.params()[1])
        roleof = {}
        for e in it.events:
            if e.kind != 'call':
                continue
            if e.name == '._detectbands':
                roleof[mk('sel', e.result, ZERO)] = 'bands'
                roleof[mk('sel', e.result, ONE)] = 'norms'
            if e.name == '._indexbandsphase':
                roleof[mk('sel', e.result, ZERO)] = 'index'
                roleof[mk('sel', e.result, ONE)] = 'bands'
        roleof[jobpar] = 'job'
        for k, st, v, nd in it.frame.exits:
            if k != 'return':
                continue
            v = it.deep(it.V(v, st), st.heap)
            if v.op != 'tuple' or len(v.args) != 2:
                ctx.und(R, meth, 'unrecognised answer ' + show(v, 3))
                continue
            if v.args[0] is not const('Done'):
                continue
            parts = v.args[1].args if v.args[1].op in ('tuple', 'list') else ()
            got = [roleof.get(p) for p in parts]
            need_ = {'findbands': {'bands', 'norms', 'job'}, 'indexpoles': {'index', 'bands', 'job'}}[meth]
            unk = [p for p, g in zip(parts, got) if g is None]
            if unk:
                ctx.und(R, meth, 'unrecognised part of the answer ' + show(unk[0], 3))
            else:
                ctx.verdict(set(got) == need_, R, meth, 'pyebsdindex/_ebsd_index_parallel.py:%s' % getattr(nd, 'lineno', '?'),
                            '%s answers with %s instead of %s' % (meth, got, sorted(need_)))
            out[meth] = {i: g for i, g in enumerate(got)}
            for a in ('pstart', 'pend', 'jobid'):
                w = st.heap.get(('a', jobpar, a))
                ctx.verdict(w is None or w is mk('attr', jobpar, a), R, '%s keeps %s' % (meth, a), 'pyebsdindex/_ebsd_index_parallel.py:%s' % getattr(nd, 'lineno', '?'), '%s changes the %s of the job it answers with' % (meth, a))
        # inputs
        for e in it.events:
            if e.kind == 'call' and e.name == '._getpats':
                kw = dict(e.kw)
                for i, x in enumerate(e.args):
                    kw.setdefault(('patsin', 'patstart', 'npats', 'xyloc')[i], x)
                w = {'patstart': [mk('attr', jobpar, 'pstart')], 'npats': [mk('attr', jobpar, 'npat'), sub(mk('attr', jobpar, 'pend'), mk('attr', jobpar, 'pstart'))], 'patsin': [sym('pats')]}
                for a, ws in w.items():
                    g = kw.get(a)
                    ctx.verdict(g in ws, B, 'findbands ' + a, e.loc, 'the worker calls _getpats with %s=%s' % (a, show(g, 4) if g is not None else 'default'))
                gp = e.result
            if e.kind == 'call' and e.name == '._detectbands':
                p = e.args[0] if e.args else e.kw.get('pats')
                g = [x for x in it.events if x.kind == 'call' and x.name == '._getpats']
                if g and p is not None:
                    ctx.verdict(True if p is mk('sel', g[0].result, ZERO) else (False if p in (sym('pats'), NONE) else None), B, 'findbands patterns', e.loc, 'the bands are detected on %s, not on the patterns of the job' % show(p, 4))
            if e.kind == 'call' and e.name == '._indexbandsphase':
                g = list(e.args) + [e.kw[x] for x in ('banddata', 'bandnorm') if x in e.kw]
                w = [sym('banddata'), sym('bandnorm')]
                ctx.verdict(g[:2] == w, B, 'indexpoles bands', e.loc, 'the worker indexes %s' % ', '.join(show(x, 3) for x in g[:2]))
    return out


def r_worker(ctx):
    answer(ctx)
    R = ctx.rule('job', 'a job knows how many patterns it has', 1)
    q = M + 'CPUGPUJob.__init__'
    it = ctx.analyse(q)
    me = sym('self')
    p, e, g = sym('pstart'), sym('pend'), None
    for k, st, v, nd in it.frame.exits:
        vals = {key[2]: val for key, val in st.heap.items() if key[0] == 'a' and key[1] not in (p, e)}
        if 'npat' in vals:
            g = vals['npat']
            ctx.verdict(g is sub(e, p), R, 'npat', q, 'a job of patterns pstart..pend counts %s' % show(g, 4))
        for a, w in (('pstart', p), ('pend', e)):
            if a in vals:
                ctx.verdict(vals[a] is w, R, a, q, 'a job built with %s=%s keeps %s' % (a, show(w), show(vals[a], 4)))
    if g is None:
        ctx.und(R, 'npat', 'not found')


def rowsof(key, ax, lead):
    ks = keytuple(key)
    return ks[ax] if len(ks) > ax else None


def r_place(ctx):
    R = ctx.rule('placement', "every result is stored at the rows of the job in the same answer", 8)
    E = ctx.rule('hand-over', 'the indexing task is given the band rows of its job', 4)
    N = ctx.rule('next-job', 'the indexing job is the band-detection job that has just finished', 2)
    ans = answer(ctx)
    for sc in [(17, 3, -1, 4), (17, -5, 4, 2), (17, 0, -1, 4)]:
        r = Run(ctx, *sc)
        it = r.it
        o = r.rootobjs()
        need(o, 'the returned arrays are not recognised')
        roleobj = {o[0]: ('index', 1), o[1]: ('bands', 0)}
        # the array handed to indexpoles as third argument carries the normals
        for e in r.remotes:
            if e.name == '.indexpoles' and len(e.args) >= 1 and e.args[0] is not NONE:
                a = dict(zip(('cpujob', 'banddata', 'bandnorm'), e.args))
                a.update(e.kw)
                J = a.get('cpujob')
                for nm, role in (('banddata', 'bands'), ('bandnorm', 'norms')):
                    v = a.get(nm)
                    if v is None or v is NONE:
                        if J is not None and J is not NONE:
                            ctx.und(E, '%s %s' % (r.label, nm), 'not given')
                        continue
                    if v.op not in ('view', 'sel'):
                        ctx.und(E, '%s %s' % (r.label, nm), 'unrecognised rows ' + show(v, 3))
                        continue
                    base, key = v.args
                    if role == 'norms' and base.op == 'obj':
                        roleobj.setdefault(base, ('norms', 0))
                    if base in roleobj:
                        ctx.verdict(roleobj[base][0] == role, E, '%s:%s array' % (e.loc, nm), e.loc, 'indexpoles gets the %s array as %s' % (roleobj[base][0], nm))
                    sl = rowsof(key, 0, 0)
                    verdict_rows(ctx, E, '%s %s %s' % (r.label, nm, e.loc.rsplit(':')[-1]), e.loc, sl, J, r.start, 'indexpoles is given rows')
        for e in it.events:
            if e.kind != 'store' or e.base not in roleobj or not e.loops:
                if e.kind == 'store' and e.base in roleobj:
                    ctx.und(R, e.loc, 'a store outside the scheduling loop')
                continue
            role, ax = roleobj[e.base]
            v = e.value
            if v.op == 'ite':
                ctx.und(R, e.loc, 'conditional value')
                continue
            g, path = source(v, r)
            if g is None:
                sl = rowsof(e.key, ax, 0)
                mine = [x.result for x in r.gets if x.loops and x.loops[-1] is e.loops[-1]]
                if v.op == 'mu' and v.args[0] == e.loops[-1].id and sl is not None and any(x in mine for x in subterms(sl)):
                    ctx.bad(R, '%s of an earlier answer' % role, e.loc, 'the rows of the job in this answer are given %s, a value left from before this answer' % show(v, 3))
                    continue
                ctx.und(R, '%s %s' % (r.label, e.loc), 'the stored value is not part of a worker answer: ' + show(v, 3))
                continue
            kinds = r.taskof(g.args[0]) if g.args else set()
            kind = next(iter(kinds)) if len(kinds) == 1 else None
            if kind is None:
                ctx.und(R, '%s %s' % (r.label, e.loc), 'the answer belongs to tasks ' + str(sorted(kinds)))
                continue
            have = ans.get(kind, {}).get(path[1] if len(path) == 2 and path[0] == 1 else None)
            name = '%s@%s' % (role, kind)
            if have is None:
                ctx.und(R, '%s %s' % (r.label, e.loc), 'part %s of a %s answer is not recognised' % (path, kind))
                continue
            ctx.verdict(have == role, R, name + ' part', e.loc, 'the %s array is given the %s part of a %s answer' % (role, have, kind))
            jk = [i for i, x in ans.get(kind, {}).items() if x == 'job']
            J = mk('sel', mk('sel', g.result, ONE), const(jk[0])) if jk else None
            sl = rowsof(e.key, ax, 0)
            verdict_rows(ctx, R, '%s %s' % (r.label, name), e.loc, sl, None, r.start, 'the %s of a job is stored at rows' % role, J=J, result=g.result, wrker=g.args[0] if g.args else None, loops=[getattr(l, 'id', l) for l in e.loops])
        for e in r.jobs():
            if not e.loops:
                continue
            js = {x for a in e.bound.values() if isinstance(a, T) for x in subterms(a) if x.op == 'attr' and x.args[1] in ('pstart', 'pend', 'jobid')}
            src = {x.args[0] for x in js}
            a, b = bounds(e)
            if len(src) != 1:
                ctx.und(N, e.loc, 'the new job is not built from one job')
                continue
            J = next(iter(src))
            P_, E_ = mk('attr', J, 'pstart'), mk('attr', J, 'pend')
            a, b = (subst(x, {mk('attr', J, 'npat'): sub(E_, P_)}) for x in (a, b))
            plain = all(x in (P_, E_) for t in (a, b) for m in poly(t) for x, _ in m)
            ctx.verdict(a is P_ and b is E_ or (False if plain else None), N, '%s bounds' % r.label if a is P_ and b is E_ else 'bounds', e.loc,
                        'the indexing job covers %s to %s' % (show(a, 4), show(b, 4)))
            # from the answer of the task, or the job list entry
            ctx.verdict(True if source(J, r)[0] is not None or J.op in ('sel', 'view') else None, N, '%s source' % r.label, e.loc, 'the indexing job comes from ' + show(J, 4))


def source(v, r):
    """(ray.get event, index path) when v is a part of a worker's answer"""
    path = []
    while v.op == 'sel':
        k = v.args[1]
        ks = keytuple(k)
        if not all(is_num(x) for x in ks):
            return None, None
        path = [int(cval(x)) for x in ks] + path
        v = v.args[0]
        for g in r.gets:
            if g.result is v:
                return g, path
    return None, None


def verdict_rows(ctx, R, inst, loc, sl, job, start, what, J=None, result=None, wrker=None, loops=()):
    if sl is None or sl.op != 'slice':
        ctx.und(R, inst, 'rows not recognised: ' + (show(sl, 3) if sl is not None else 'none'))
        return
    lo, hi, step = sl.args
    cands = {x.args[0] for y in (lo, hi) for x in subterms(y) if x.op == 'attr' and x.args[1] in ('pstart', 'pend', 'npat')}
    j = job if job is not None else (next(iter(cands)) if len(cands) == 1 else None)
    if j is None:
        if J is not None and loops and not any(x in (wrker, result) or x.op in ('it', 'mu') and x.args[0] == loops[-1] for x in subterms(lo)):
            ctx.bad(R, inst.rsplit(' ', 1)[-1] + ' job', loc, '%s that do not depend on the answer: %s' % (what, show(sl, 4)))
            return
        ctx.und(R, inst, 'rows of several jobs: ' + show(sl, 4))
        return
    p, e, n = (mk('attr', j, a) for a in ('pstart', 'pend', 'npat'))
    nn = lambda t: subst(t, {n: sub(e, p)})
    good = nn(lo) is sub(p, const(start)) and nn(hi) is sub(e, const(start)) and step in (NONE, ONE)
    cname = inst
    if J is not None and result is not None:
        same = norm(j) is norm(J)
        if not same:
            other = [x for x in subterms(j) if x is result]
            if not other:
                near = [x for x in subterms(j) if x in (wrker, result) or loops and x.op in ('it', 'mu') and x.args[0] == loops[-1]]
                (ctx.und if near or not loops else ctx.bad)(*([R, inst] if near or not loops else [R, inst.rsplit(' ', 1)[-1] + ' job', loc]), '%s of a job that is not the one in the answer: %s' % (what, show(j, 3)))
                return
            ctx.bad(R, inst.rsplit(' ', 1)[-1] + ' rows', loc, '%s taken from %s' % (what, show(j, 4)))
            return
    known = all(x is j for x in cands) and cands
    ctx.verdict(True if good else (False if known else None), R, cname if good else inst.split('chunksize')[-1].split(' ', 1)[-1] + ' rows', loc,
                '%s %s:%s (job bounds minus %d expected)' % (what, show(lo, 4), show(hi, 4), start))


def norm(t):
    """nested selections as one"""
    path = []
    while t.op == 'sel':
        path = list(keytuple(t.args[1])) + path
        t = t.args[0]
    return mk('path', t, *path)


def r_input(ctx):
    R = ctx.rule('task-input', 'a band-detection task is given the patterns of the job it is given', 6)
    G = ctx.rule('read', 'patterns of a job are read from the file at its start, for its count; handed-in patterns are used as they are', 2)
    for mode, sc in (('file', (17, 3, -1, 4)), ('array', (17, 3, -1, 4)), ('array', (17, -5, 4, 2)), ('h5', (17, 3, -1, 4)), ('obj', (17, 3, -1, 4)), ('array2d', (1, 0, -1, 4)), ('h52d', (1, 0, -1, 4))):
        r = Run(ctx, *sc, mode=mode)
        n = 0
        for e in r.remotes:
            if e.name != '.findbands':
                continue
            n += 1
            a = dict(zip(('gpujob', 'pats'), e.args))
            a.update(e.kw)
            J, p = a.get('gpujob'), a.get('pats', NONE)
            inst = '%s %s' % (r.label, e.loc)
            cons = '%s %s' % (mode, e.loc.rsplit(':')[-1])
            cons = mode + ' patterns'
            if mode == 'file':
                ctx.verdict(p is NONE, R, inst if p is NONE else cons, e.loc, 'a task of a file is handed %s' % show(p, 4))
                continue
            if p is NONE:
                ctx.bad(R, cons, e.loc, 'a task of an array gets no patterns')
                continue
            if p.op not in ('sel', 'view'):
                ctx.und(R, inst, 'patterns not recognised ' + show(p, 4))
                continue
            base, key = p.args
            if not any(x is r.arr for x in subterms(base)):
                ctx.und(R, inst, 'patterns of ' + show(base, 3))
                continue
            sl = keytuple(key)[0]
            js = [e2 for e2 in r.jobs() if e2.result is J]
            if sl.op != 'slice':
                ctx.und(R, inst, 'rows ' + show(sl, 3))
                continue
            if js:
                lo, hi = bounds(js[0])
            else:
                lo, hi = mk('attr', J, 'pstart'), mk('attr', J, 'pend')
            good = sl.args[0] is lo and sl.args[1] is hi and sl.args[2] in (NONE, ONE)
            if not good and not js:
                # bounds of the popped job may be looked up through the object
                cands = {x.args[0] for y in sl.args[:2] for x in subterms(y) if x.op == 'attr' and x.args[1] in ('pstart', 'pend')}
                if cands != {J}:
                    v = False if cands and all(c.op in ('ret', 'sel') for c in cands) else None
                    ctx.verdict(v, R, cons if v is False else inst, e.loc, 'a task for job %s is handed patterns %s' % (show(J, 3), show(sl, 4)))
                    continue
            ctx.verdict(good, R, inst if good else cons, e.loc, 'a task for job %s is handed patterns %s' % (show(J, 3), show(sl, 4)))
        if not n:
            ctx.und(R, r.label, 'no band-detection task found')
    # _getpats
    q = S + 'EBSDIndexer._getpats'
    for given in (False, True):
        p = sym('patsin')
        it = ctx.analyse(q, args=dict(patsin=p if given else NONE, patstart=sym('k0'), npats=sym('cnt')), branch=lambda t, n: False if t.op == 'is' and t.args[0] is p and t.args[1] is NONE else None)
        rd = [e for e in it.events if e.kind == 'call' and e.name.endswith('read_data')]
        if not given:
            if not rd:
                ctx.und(G, 'file', 'no read found')
            for e in rd:
                v = e.kw.get('patStartCount')
                v = e.d.get('kvals', {}).get('patStartCount', v)
                if v is None or v.op not in ('list', 'tuple'):
                    ctx.und(G, 'file', 'range not recognised')
                else:
                    ctx.verdict(v.args == (sym('k0'), sym('cnt')), G, 'file range', e.loc, '_getpats reads the range %s' % show(v, 3))
        else:
            for k, st, v, nd in it.frame.exits:
                if k != 'return':
                    continue
                v = it.deep(it.V(v, st), st.heap)
                w = v.args[0] if v.op == 'tuple' and v.args else None
                bs = leaves(w) if w is not None else []
                for b in bs:
                    if b is p or b.op in ('call', 'mcall', 'reshape') and 'reshape' in show(b, 2) and any(x is p for x in subterms(b)) or b.op == 'reshape' and b.args[0] is p:
                        ctx.ok(G, 'array ' + show(b, 3))
                    elif b.op in ('sel', 'view') and root(b) is p:
                        ctx.bad(G, 'array part', 'pyebsdindex/_ebsd_index_single.py', '_getpats uses %s of the patterns it is handed' % show(b, 4))
                    else:
                        ctx.und(G, 'array', show(b, 3))


def leaves(t):
    if t.op == 'ite':
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]
