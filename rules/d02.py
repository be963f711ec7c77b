"""Typestate of a chunk through one step of the parallel scheduler.  For every kind of answer a worker can give (taken from the workers'
code, plus a failing task) and every outcome of the undecided tests of that step, the step's path is enumerated and the chunk accounted
for: finished chunks are passed on and counted exactly once, failed or killed ones go back to the queue (or to a worker) exactly once,
everything taken from a queue is submitted, and the task, job and worker lists change together."""
import ast
from rules._par import *

ASSUMES = ['ray.get raises when a task failed or its worker died; it returns the worker method\'s value otherwise', 'submitting a task does not itself raise']
LIMIT = 160


def explore(ctx, get, infocus, sc=(17, 3, -1, 4)):
    """all outcomes of the undecided tests of the part under study: yields Run"""
    script = []
    n = 0
    while True:
        chosen, order, tests, last = {}, [], [], {}

        def lens(t, node, it):
            if not infocus(it):
                return None
            k = id(node)
            if k not in chosen:
                i = len(order)
                chosen[k] = script[i] if i < len(script) else True
                order.append(k)
            tests.append((t, chosen[k]))
            last[k] = (t, chosen[k])           # the round with every list in its general form comes last
            return chosen[k]
        r = Run(ctx, *sc, get=get, lens=lens)
        r.tests, r.last = tests, last
        yield r
        n += 1
        full = [chosen[k] for k in order]
        while full and full[-1] is False:
            full.pop()
        if not full:
            return
        full[-1] = False
        script = full
        if n >= LIMIT:
            raise AnalysisErr('too many paths in one scheduling step')


def answerhook(kind, msg, r0):
    """ray.get answers msg for tasks of this kind and stays symbolic otherwise"""
    def get(it, recv, a, vals, kv, st, node):
        ks = set()
        for x in subterms(vals[0]):
            if x.op == 'ret' and x.args[0] == 'ray.wait':
                ks |= {k for k in ('findbands', 'indexpoles') if any(y.op == 'ret' and y.args[0] == 'remote:.' + k for y in subterms(x))}
        if ks and ks != {kind} and kind not in ks:
            return None
        if msg is None:
            if it.trys:
                it.trys[-1].raised.append(st.copy())
            return mk('never', 'ray.get')
        r = it.fresh('ret', 'ray.get', vals[0])
        return mk('tuple', const(msg), mk('tuple', *[mk('sel', r, const(i)) for i in range(3)]))
    return get


class AnalysisErr(AnalysisError):
    pass


def messages(ctx):
    """statuses a worker can answer with, and whether they carry a job that was really finished"""
    R = ctx.rule('status', "a worker that fails says so: 'Done' is only answered after the computation", 2)
    out = {}
    for cls, meth, comp in (('GPUWorker', 'findbands', '._detectbands'), ('CPUWorker', 'indexpoles', '._indexbandsphase')):
        q = M + cls + '.' + meth
        f = ctx.func(q)
        it = ctx.analyse(q, boundary={S + 'EBSDIndexer._getpats', S + 'EBSDIndexer._detectbands', S + 'EBSDIndexer._indexbandsphase', M + 'CPUGPUJob._starttime', M + 'CPUGPUJob._endtime'}, maxdepth=3)
        hs = [h for n in ast.walk(f.node) if isinstance(n, ast.Try) for h in n.handlers]
        inh = lambda nd: any(h.lineno <= getattr(nd, 'lineno', 0) <= (h.end_lineno or 0) for h in hs)
        out[meth] = set()
        for k, st, v, nd in it.frame.exits:
            if k != 'return':
                continue
            v = it.deep(it.V(v, st), st.heap)
            if v.op != 'tuple' or len(v.args) != 2 or v.args[0].op != 'const':
                ctx.und(R, meth, 'unrecognised answer ' + show(v, 3))
                continue
            m = v.args[0].args[1]
            out[meth].add(m)
            if inh(nd):
                ctx.verdict(m != 'Done', R, '%s handler' % meth, '%s:%s' % (f.module.path, nd.lineno), "%s answers 'Done' although the computation failed" % meth)
            elif m == 'Done':
                parts = v.args[1].args if v.args[1].op in ('tuple', 'list') else ()
                done = any(x.op == 'ret' and comp in str(x.args[0]) for p in parts for x in subterms(p))
                ctx.verdict(done or None, R, '%s done' % meth, '%s:%s' % (f.module.path, nd.lineno), "%s answers 'Done' without results" % meth)
    return out


def popped(v):
    return v.op == 'ret' and v.args[0] == '.pop'


class Step:
    """the events of one part of a run"""

    def __init__(self, r, inpart):
        self.r = r
        self.ev = [e for e in r.it.events if inpart(e)]
        # a test of the path decided by the enumeration is not in the path condition; what is left belongs to other parts
        self.remotes = [e for e in self.ev if e.kind == 'remote']
        self.mut = [e for e in self.ev if e.kind == 'mutate']
        self.stores = [e for e in self.ev if e.kind == 'store']


QUEUES = {}


def lists(r):
    """pending queue per kind, task list per kind"""
    first = {e.result for e in r.first_jobs()}
    pops = {e.base for e in r.it.events if e.kind == 'mutate' and e.how == 'pop'}
    gq = {e.base for e in r.it.events if e.kind == 'mutate' and e.how == 'append' and e.value in first} & pops
    newj = {e.result for e in r.jobs()} - first
    cq = {e.base for e in r.it.events if e.kind == 'mutate' and e.how == 'append' and e.value in newj} & pops
    tl = {}
    for o, ks in r.taskkind.items():
        for k in ks:
            tl.setdefault(k, set()).add(o)
    q = dict(findbands=gq, indexpoles=cq)
    for k in q:                            # objects made before the loop have the same name in every run of one program
        if q[k]:
            QUEUES.setdefault((id(r.it.prog), k), q[k])
        else:
            q[k] = QUEUES.get((id(r.it.prog), k), q[k])
    return q, tl


def r_step(ctx):
    msgs = messages(ctx)
    D = ctx.rule('finished', 'a finished chunk is passed on and counted exactly once, and not done again', 4)
    F = ctx.rule('failed', 'a failed chunk goes back to the queue or to a worker exactly once and is not counted', 4)
    T_ = ctx.rule('taken', 'every chunk taken from a queue is submitted or put back exactly once', 6)
    K = ctx.rule('lock-step', 'task, job and worker lists change together', 6)
    W = ctx.rule('wait-all', 'the scheduler runs until as many chunks are counted as were handed out', 2)
    r0 = Run(ctx, 17, 3, -1, 4)
    need(r0.gets, 'no ray.get found')
    part = {}
    for g in r0.gets:
        ks = r0.taskof(g.args[0]) if g.args else set()
        need(g.loops, 'ray.get outside a loop')
        for k in ks:
            part[k] = (g.loops[-1].node, g.loops[0].node, g)
    need(set(part) == {'findbands', 'indexpoles'}, 'the loops over finished tasks are not recognised: %s' % sorted(part))
    njobs = len(r0.first_jobs())
    lists(r0)
    idle = {k for k in part if any(e.name == '.' + k and jobarg(e) is NONE for e in r0.remotes)}
    counters = {}
    for k, (ln, wn, g) in part.items():
        cs = set()
        for p in g.pc:
            for x in (p.args if p.op == 'and' else (p,)):
                if x.op == 'lt' and x.args[0].op == 'mu' and is_num(x.args[1]):
                    cs.add((x.args[0].args[1], cval(x.args[1])))
        counters[k] = cs
    for k, (ln, wn, g) in part.items():
        loop = g.loops[-1]
        written = {x.id for n in ast.walk(ln) for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        tests = [n.test for n in ast.walk(wn) if isinstance(n, (ast.While, ast.If)) and n.lineno <= ln.lineno and (n.end_lineno or 0) >= (ln.end_lineno or 0)]
        names = {x.id for t in tests for x in ast.walk(t) if isinstance(x, ast.Name)} & written
        if len(names) != 1:
            ctx.und(W, k, 'the counter of finished chunks is not recognised')
            counters[k] = None
            continue
        n = names.pop()
        mine = [v for m, v in counters[k] if m == n]
        for v in mine:
            ctx.verdict(v == njobs, W, '%s counter' % k, g.loc, 'waiting for %s tasks ends when %s reaches %s although %d chunks were handed out' % (k, n, v, njobs))
        if not mine:
            ctx.und(W, '%s counter' % k, 'the number waited for is not recognised')
        counters[k] = n
    wl = part['indexpoles'][2].loops[0]
    ctx.verdict(True if not wl.breaks and not [e for e in r0.it.events if e.kind == 'return' and e.loops] else None, W, 'no early exit', part['indexpoles'][2].loc, 'the scheduling loop can be left early')
    c = wl.cond
    cn = counters['indexpoles']
    if isinstance(cn, str) and c is not None:
        ctx.verdict(True if c is lt(mk('mu', wl.id, cn), const(njobs)) else None, W, 'loop condition', part['indexpoles'][2].loc, 'the loop runs while ' + show(c, 4))
    inner = {part[k][0] for k in part}
    out = [e for e in r0.it.events if any(L.node is part['indexpoles'][1] for L in e.loops) and not any(L.node in inner for L in e.loops)]
    kl = [set(e.pc) for e in out if e.kind == 'call' and e.name == 'ray.kill']
    for kind in part:
        OTHER[(id(r0.it.prog), kind)] = [e for e in out if e.kind == 'remote' and e.name == '.' + kind and not any(p <= set(e.pc) for p in kl)]
    for kind in ('findbands', 'indexpoles'):
        ln, wn, g = part[kind]
        caught(ctx, kind, g, ln)

        def infocus(it, ln=ln):
            return any(L.node is ln for L in it.loops)
        for msg in sorted(msgs[kind], key=str) + [None]:
            if msg == 'Bored' and kind not in idle:
                continue                   # no idle tasks of this kind are ever submitted
            seen = 0
            try:
                for r in explore(ctx, answerhook(kind, msg, r0), infocus):
                    seen += 1
                    account(ctx, r, kind, msg, ln, counters.get(kind), D, F, T_, K)
            except AnalysisErr as e:
                ctx.und(F, '%s %s' % (kind, msg), str(e))
    # a killed worker: the part of the scheduling loop outside the loops over finished tasks
    wn = part['findbands'][1]
    inner = {part[k][0] for k in part}

    def infocus(it):
        return it.loops and any(L.node is wn for L in it.loops) and not any(L.node in inner for L in it.loops)
    n = 0
    try:
        for r in explore(ctx, None, infocus):
            evs = [e for e in r.it.events if any(L.node is wn for L in e.loops) and not any(L.node in inner for L in e.loops)]
            kills = [e for e in evs if e.kind == 'call' and e.name == 'ray.kill']
            if not kills:
                continue
            n += 1
            killed(ctx, r, evs, kills, F, T_, K)
    except AnalysisErr as e:
        ctx.und(F, 'killed', str(e))
    if not n:
        ctx.ok(F, 'no worker is killed')


ANY = {'Exception', 'BaseException'}


def caught(ctx, kind, g, ln):
    """whatever a task raises, and whatever is raised because of its answer, reaches the handler that puts the chunk back"""
    R = ctx.rule('caught', 'no failure of a worker leaves the scheduling loop as an exception', 2)
    f = ctx.func(Q)
    ts = [n for n in ast.walk(ln) if isinstance(n, ast.Try) and n.handlers and any(isinstance(x, ast.Call) and x.lineno == int(g.loc.rsplit(':')[-1]) for b in n.body for x in ast.walk(b))]
    if not ts:
        ctx.und(R, kind, 'the handler of failures is not recognised')
        return
    t = ts[-1]
    names = []
    for h in t.handlers:
        ty = h.type
        for y in ty.elts if isinstance(ty, ast.Tuple) else [ty]:
            names.append('BaseException' if y is None else ast.unparse(y).rsplit('.')[-1])
    aliases = {n.targets[0].id for n in ast.walk(f.module.tree) if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
    if set(names) & ANY:
        ctx.ok(R, kind)
        return
    if set(names) & aliases:
        ctx.und(R, kind, 'handler of ' + ', '.join(names))
        return
    ctx.verdict('RayError' in names, R, kind + ' raises', '%s:%d' % (f.module.path, t.lineno), 'a task that raises is only handled for %s; a dead worker and an error in the task raise different kinds of RayError' % ', '.join(names))
    for n in [x for b in t.body for x in ast.walk(b) if isinstance(x, ast.Raise) and x.exc is not None]:
        c = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
        nm = ast.unparse(c).rsplit('.')[-1]
        ctx.verdict(nm in names or None if nm not in ('Exception', 'BaseException') else False, R, '%s %s' % (kind, nm), '%s:%d' % (f.module.path, n.lineno), 'the %s raised for a reported failure is not handled (only %s)' % (nm, ', '.join(names)))


def token(v, dep):
    """'popped' | 'this' | 'none' | None (unknown) for a job value"""
    if v is NONE:
        return 'none'
    if popped(v):
        return 'popped'
    if any(x in dep for x in subterms(v)):
        if v.op in ('sel', 'view', 'call', 'mcall', 'attr', 'ret'):
            return 'this'
    if v.op == 'ite':
        ts = {token(a, dep) for a in v.args[1:]}
        return ts.pop() if len(ts) == 1 else None
    return None


def jobarg(e):
    return e.args[0] if e.args else next((v for k, v in e.kw.items() if 'job' in k), NONE)


def flow(r, evs, kind, dep):
    """(requeued tokens, submitted tokens, popped count, unknown) of one path"""
    q, tl = lists(r)
    P = q[kind]
    re, su, un = [], [], []
    pops = [e for e in evs if e.kind == 'mutate' and e.how == 'pop' and e.base in P]
    for e in evs:
        if e.kind == 'mutate' and e.base in P and e.how in ('append', 'insert', 'appendleft'):
            t = token(e.value, dep)
            (re if t else un).append((t, e.value, e))
        if e.kind == 'remote' and e.name == '.' + kind:
            v = jobarg(e)
            t = token(v, dep)
            (su if t else un).append((t, v, e))
    return P, re, su, pops, un


def lockstep(ctx, K, r, evs, kind, inst):
    q, tl = lists(r)
    TL = tl.get(kind, set())
    P = set().union(*q.values())
    jobvals = {}
    for e in r.it.events:
        if e.kind == 'remote' and e.name == '.' + kind:
            jobvals[e.result] = jobarg(e)
    jv = set(jobvals.values())
    JL = {e.base for e in r.it.events if e.kind in ('mutate', 'store') and e.d.get('value') in jv and e.base not in P and e.base not in TL and (e.kind == 'store' or e.how == 'append')}
    place = [e for e in evs if e.kind in ('mutate', 'store') and e.base in TL and isinstance(e.d.get('value'), T) and e.value in jobvals]
    for e in place:
        j = jobvals[e.value]
        match = [x for x in evs if x.kind == e.kind and x.base in JL and x.d.get('value') is j and (x.kind == 'mutate' and x.how == e.how or x.kind == 'store' and x.key is e.key)]
        if match:
            ctx.ok(K, '%s %s' % (inst, e.loc.rsplit(':')[-1]))
        elif not JL:
            ctx.und(K, inst, 'no list of the jobs in work found')
        else:
            other = [x for x in evs if x.kind in ('mutate', 'store') and x.base in JL and x.kind == e.kind]
            wrong = [x for x in other if x.d.get('value') is not None and x.value in jv | {NONE}]
            ctx.verdict(False if wrong or not other else None, K, '%s %s record' % (kind, e.kind if e.kind == 'store' else e.how), e.loc, 'a task for job %s is entered without recording that job with it' % show(j, 3))
    dels = {}
    for e in evs:
        if e.kind == 'mutate' and e.how == 'del':
            dels.setdefault(e.base, []).append(e)
    base = sorted(str(e.value.id if hasattr(e.value, 'id') else show(e.value, 9)) for o in TL for e in dels.get(o, ()))
    return base, dels, TL, JL


def account(ctx, r, kind, msg, ln, counter, D, F, T_, K):
    evs = [e for e in r.it.events if any(L.node is ln for L in e.loops)]
    gets = [e for e in r.gets if any(L.node is ln for L in e.loops)]
    loops = [L for L in r.it.loopsmade if L.node is ln]
    if not loops:
        return
    loop = loops[-1]
    dep = {mk('it', loop.id)} | {e.result for e in gets} | {x for e in evs for v in e.d.values() if isinstance(v, T) for x in subterms(v) if x.op == 'ret' and x.args[0] == 'ray.get'}
    P, re, su, pops, un = flow(r, evs, kind, dep)
    name = '%s %s' % (kind, msg or 'raises')
    loc = (evs[0].loc if evs else '?')
    if not P:
        ctx.und(F, name, 'the queue of pending jobs is not recognised')
        return
    if un:
        ctx.und(T_, name, 'job not recognised: ' + show(un[0][1], 4))
        return
    this = [x for x in re + su if x[0] == 'this']
    q, tl = lists(r)
    # popped jobs
    sub_ = [x[1] for x in su + re if x[0] == 'popped']
    spare = len(pops) - len(sub_)
    # the path is only taken when the job taken is None
    nonepop = False
    for t, val in r.tests:
        y = rebuild(t, lambda z: FALSE if z.op == 'is' and z.args[1] is NONE and popped(z.args[0]) or z.op == 'eq' and NONE in z.args and any(popped(x) for x in z.args) else (TRUE if z.op == 'truthy' and popped(z.args[0]) else None))
        if (y is TRUE or y is FALSE) and (y is TRUE) != val and any(popped(x) for x in subterms(t)):
            nonepop = True
    if len(set(sub_)) != len(sub_):
        ctx.bad(T_, name + ' twice', loc, 'on a path where %s, a job taken from the queue is submitted more than once' % name)
    elif spare > 0 and not nonepop:
        ctx.bad(T_, name + ' lost', pops[0].loc, 'on a path where %s, a job taken from the queue is not submitted' % name)
    elif spare < 0:
        ctx.und(T_, name, 'more submissions than jobs taken')
    else:
        ctx.ok(T_, name + ' ' + '+'.join(e.loc.rsplit(':')[-1] for e in pops))
    # counter
    cnt = None
    if isinstance(counter, str):
        fin = loop.final.get(counter)
        mu = mk('mu', loop.id, counter)
        vals = fin if isinstance(fin, list) else [fin] if fin is not None else [mu]
        if counter in loop.ind:
            cnt = {show(loop.ind[counter][1], 3)}
        else:
            i0 = loop.init.get(counter)
            cnt = {show(sub(v, mu if contains(v, lambda x: x is mu) or i0 is None else i0), 3) for v in vals}
    passed = []
    if kind == 'findbands':
        for e in evs:
            if e.kind == 'mutate' and e.how == 'append' and e.base in q['indexpoles']:
                passed.append(e)
    if msg == 'Done':
        ctx.verdict(not this, D, name + (' again' if this else ''), loc, 'a chunk that is done is handed out again')
        if cnt is not None:
            ctx.verdict(cnt == {'1'} if all(c.lstrip('-').isdigit() for c in cnt) else None, D, name + ' count', loc, 'a finished %s task changes %s by %s' % (kind, counter, sorted(cnt)))
        if kind == 'findbands':
            # the queue may have been unrecognised when nothing is passed on at all
            ctx.verdict(len(passed) == 1 if q['indexpoles'] else None, D, name + ' passed on', loc, 'a chunk whose bands are detected is passed on %d times' % len(passed))
    elif msg == 'Bored':
        if cnt is not None:
            ctx.verdict(cnt == {'0'}, D, name + ' count', loc, 'an idle worker changes %s' % counter)
        ctx.verdict(not this or None, D, name, loc, 'an idle task is requeued')
    else:
        if not this and nojob(r, dep):
            ctx.ok(F, name + ' without a job')
            this = None
        if this is not None:
            ctx.verdict(len(this) == 1, F, name if len(this) == 1 else '%s %s' % (name, 'lost' if not this else 'duplicated'), loc,
                    'a chunk whose %s task %s is handed out again %d times' % (kind, 'raises' if msg is None else "answers '%s'" % msg, len(this)))
            staffed(ctx, r, kind, evs, name, loc)
        if cnt is not None:
            ctx.verdict(cnt == {'0'}, F, name + ' count', loc, 'a failed %s task changes %s by %s' % (kind, counter, sorted(cnt)))
        if passed:
            ctx.bad(F, name + ' passed on', passed[0].loc, 'a chunk whose band detection failed is passed on to indexing')
        st = [e for e in evs if e.kind == 'store' and e.base in set(r.rootobjs() or ())]
        if st:
            ctx.bad(F, name + ' stored', st[0].loc, 'the answer of a failed task is stored in the results')
    base, dels, TL, JL = lockstep(ctx, K, r, evs, kind, name)
    for o in JL:
        mine = sorted(str(show(e.value, 9)) for e in dels.get(o, ()))
        ctx.verdict(mine == base, K, name + (' removed' if mine != base else ' lists'), loc, 'on a path where %s, %d tasks but %d recorded jobs are removed' % (name, len(base), len(mine)))


def nojob(r, dep):
    """the path is taken only when there is no job behind the task (an idle worker)"""
    for t, val in r.tests:
        y = rebuild(t, lambda z: FALSE if z.op in ('is', 'eq') and NONE in z.args and any(token(x, dep) == 'this' for x in z.args) else (TRUE if z.op == 'truthy' and token(z.args[0], dep) == 'this' else None))
        if (y is TRUE or y is FALSE) and (y is TRUE) != val:
            return True
    return False


def staffed(ctx, r, kind, evs, name, loc):
    """after a failure that leaves no worker, the chunk just put back is given to a new one"""
    R = ctx.rule('staffed', 'a failure never leaves queued chunks without a worker', 2)
    if any(e.kind == 'remote' and e.name == '.' + kind for e in evs) or OTHER.get((id(r.it.prog), kind)):
        ctx.ok(R, '%s %s' % (name, kind))
        return
    q, tl = lists(r)

    def alone(z):
        if z.op in ('len', 'truthy'):
            x = z.args[0]
            if isinstance(x, T) and x.op == 'mutated' and 'del' in x.args:
                return ZERO if z.op == 'len' else FALSE
            if isinstance(x, T) and x.op == 'appended':
                return ONE if z.op == 'len' else TRUE
        return None
    seen = False
    for t, val in r.last.values():
        y = rebuild(t, alone)
        if y is TRUE or y is FALSE:
            seen = True
            if (y is TRUE) != val:
                ctx.ok(R, '%s %s' % (name, kind))
                return
        elif y is not t:
            ctx.und(R, name, 'when a worker is replaced is not recognised: ' + show(t, 4))
            return
    if r.tests and not seen and any(x.op == 'len' for t, v in r.tests for x in subterms(t)):
        ctx.und(R, name, 'when a worker is replaced is not recognised')
        return
    ctx.bad(R, '%s left' % kind, loc, 'after %s of the only worker, with one chunk queued, no worker is started: the call never ends' % name)


OTHER = {}


def killed(ctx, r, evs, kills, F, T_, K):
    dep = {x for e in kills for v in list(e.args) + list(e.d.get('vals', ())) if isinstance(v, T) for x in subterms(v) if x.op == 'ret' and x.args[0] == 'ray.wait'}
    kinds = set()
    for x in dep:
        kinds |= r.taskof(x)
    if len(kinds) != 1:
        ctx.und(F, 'killed', 'which tasks the killed worker serves is not recognised')
        return
    kind = kinds.pop()
    P, re, su, pops, un = flow(r, evs, kind, dep)
    name = 'killed ' + kind
    loc = kills[0].loc
    if un:
        ctx.und(F, name, 'job not recognised: ' + show(un[0][1], 4))
        return
    this = [x for x in re + su if x[0] == 'this']
    ctx.verdict(len(this) == 1, F, name if len(this) == 1 else '%s %s' % (name, 'lost' if not this else 'duplicated'), loc, 'the chunk of a killed worker is handed out again %d times' % len(this))
    staffed(ctx, r, kind, evs, name, loc)
    sub_ = [x[1] for x in su + re if x[0] == 'popped']
    if len(set(sub_)) != len(sub_) or len(sub_) != len(pops):
        ctx.bad(T_, name, loc, '%d jobs are taken from the queue and %d submitted' % (len(pops), len(sub_)))
    else:
        ctx.ok(T_, name)
    base, dels, TL, JL = lockstep(ctx, K, r, evs, kind, name)
    for o in JL:
        mine = sorted(str(show(e.value, 9)) for e in dels.get(o, ()))
        ctx.verdict(mine == base, K, name + (' removed' if mine != base else ' lists'), loc, '%d tasks but %d recorded jobs of a killed worker are removed' % (len(base), len(mine)))


def r_launch(ctx):
    r0 = Run(ctx, 17, 3, -1, 4)
    R = ctx.rule('launch', 'the first round submits distinct chunks and leaves the others queued', 2)
    for sc in ((17, 3, -1, 4), (17, 0, 3, 4)):
        r = Run(ctx, *sc)
        js = [e.result for e in r.first_jobs()]
        su = [jobarg(e) for e in r.remotes if e.name == '.findbands' and not e.loops]
        q, tl = lists(r)
        pops = [e for e in r.it.events if e.kind == 'mutate' and e.how == 'pop' and not e.loops and e.base in q['findbands']]
        if not su or any(x not in js for x in su):
            ctx.und(R, r.label, 'the first round is not recognised')
            continue
        ctx.verdict(len(set(su)) == len(su) and len(pops) == len(su), R, r.label if len(set(su)) == len(su) == len(pops) else 'first round', r.remotes[0].loc, 'the first round takes %d chunks from the queue and submits %d' % (len(pops), len(set(su))))
    N = ctx.rule('manned', 'however few chunks there are, at least one worker of each kind is started', 3)
    for sc in ((3, 0, -1, 4), (17, 0, 3, 4), (9, 0, -1, 4), (17, 3, -1, 4)):
        r = Run(ctx, *sc)
        nj = len(r.first_jobs())
        g = [e for e in r.remotes if e.name == '.findbands' and not e.loops]
        if any(e.name == '.findbands' and e.loops for e in r.remotes):
            ctx.verdict(bool(g) or None, N, r.label + ' findbands', r.remotes[0].loc, 'no chunk is submitted before the scheduling loop')
        inner = {L.node for L in r.it.loopsmade for e in r.gets if e.loops and e.loops[-1] is L}
        c = [e for e in r.remotes if e.name == '.indexpoles' and not any(L.node in inner for L in e.loops)]
        if not c:
            ctx.verdict(False if any(e.name == '.indexpoles' for e in r0.remotes if not any(L.node in {x.loops[-1].node for x in r0.gets if x.loops} for L in e.loops)) else None, N, 'no indexing worker', ctx.func(Q).loc(), 'for %s (%d chunks) no indexing worker is started' % (r.label, nj))
            continue
        ok = None
        for e in c:
            never = False
            for p in e.pc:
                for x in (p.args if p.op == 'and' else (p,)):
                    if x.op == 'lt' and x.args[0].op == 'len' and is_num(x.args[1]) and cval(x.args[1]) <= 0 or x is FALSE:
                        never = True
            ok = True if not never else ok
            if never and ok is None:
                ok = False
        ctx.verdict(ok, N, r.label + ' indexpoles' if ok else 'indexing workers', c[0].loc, 'for %s (%d chunks) no indexing worker is ever started' % (r.label, nj))
