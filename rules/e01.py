"""Acquire/release over ghost state.  The process environment and the state of the Ray runtime are modelled as ghost variables that
os.environ / os.getenv / os.putenv and ray.init / ray.shutdown operations read and write.  Every operation that changes either (helpers
included) is followed over all its paths; where it returns normally, the runtime it started is shut down and every variable equals its
value on entry, for both cases: variable set before, and variable absent before."""
import ast
from sa.ctx import *
from sa.term import rebuild, subterms, contains, keytuple
P = 'pyebsdindex.'
ENTRIES = [P + '_ebsd_index_parallel.index_pats_distributed', P + 'opencl.nlpar_clray.NLPAR.calcnlpar_clray', P + 'opencl.nlpar_clray.NLPAR.calcsigma_clray']
ENV, RAY = mk('ghost', 'env'), mk('ghost', 'ray')
ABSENT = NONE
ASSUMES = ['environment changes made inside a Ray actor stay in the worker process', 'ray.shutdown ends every worker started since ray.init',
           'modules set NUMBA_CACHE_DIR, GRPC_VERBOSITY and PYOPENCL_COMPILER_OUTPUT when they are imported, which is not part of a call']
WRITE = {'os.putenv', 'os.unsetenv', 'ray.init', 'ray.shutdown'}


def dotted(n, alias):
    p = []
    while isinstance(n, ast.Attribute):
        p.append(n.attr)
        n = n.value
    if not isinstance(n, ast.Name):
        return None
    return '.'.join([alias.get(n.id, n.id)] + p[::-1])


def aliases(mod):
    out = {}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    out[a.asname] = a.name
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = n.module + '.' + a.name
    return out


def direct(f, alias):
    """the function itself touches the environment or the runtime"""
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Attribute, ast.Name)):
            d = dotted(n, alias)
            if d in WRITE or d == 'os.environ':
                return True
    return False


def actor(f, prog):
    c = prog.classes.get(f.qual.rsplit('.', 1)[0])
    if c is None:
        return False
    return any('remote' in ast.dump(d) for d in c.node.decorator_list)


def callees(f):
    return {getattr(c.func, 'id', getattr(c.func, 'attr', None)) for c in ast.walk(f.node) if isinstance(c, ast.Call)}


def plan(ctx):
    """operations to follow and the functions to follow them into"""
    al = {}
    D = []
    for q, f in sorted(ctx.prog.funcs.items()):
        if '.tests.' in q or not q.startswith(P):
            continue
        m = f.module.name
        if m not in al:
            al[m] = aliases(f.module)
        if direct(f, al[m]) and not actor(f, ctx.prog):
            D.append(q)
    touch = set(D)
    short = lambda q: q.rsplit('.', 1)[-1]
    cal = {q: callees(f) for q, f in ctx.prog.funcs.items() if q.startswith(P) and '.tests.' not in q}
    roots, inline = set(), set(D)
    todo = list(D)
    while todo:
        q = todo.pop()
        cs = [g for g, c in cal.items() if short(q) in c and g != q and ctx.prog.funcs[g].module is ctx.prog.funcs[q].module] if q not in ENTRIES else []
        if not cs:
            roots.add(q)
            continue
        for g in cs:
            inline.add(g)
            if g not in touch:
                touch.add(g)
                todo.append(g)
    return sorted(roots), inline - set(ENTRIES)


def follow(ctx, q, inline):
    odd = []

    def isenv(b):
        return b.op == 'ext' and b.args[0] == 'os.environ'

    def name(k):
        return k.args[1] if k.op == 'const' and k.args[0] == 'str' else None

    def get(it, st, k, dflt=None):
        v = it.getattr(ENV, k, st)
        return v if dflt is None else ite(isnone(v), dflt, v)

    def put(it, st, k, v, node):
        if k is None:
            odd.append('a variable whose name is computed')
            return
        st.heap[('a', ENV, k)] = v

    def setitem(it, b, args, vals, kv, st, node):
        if not isenv(b):
            return None
        put(it, st, name(vals[0]), vals[1], node)
        return True

    def getitem(it, b, args, vals, kv, st, node):
        return get(it, st, name(vals[0])) if isenv(b) and name(vals[0]) else None

    def delitem(it, b, args, vals, kv, st, node):
        if not isenv(b):
            return None
        put(it, st, name(vals[0]), ABSENT, node)
        return True

    def has(it, b, args, vals, kv, st, node):
        return notb(isnone(get(it, st, name(vals[0])))) if isenv(b) and name(vals[0]) else None

    def getenv(it, recv, args, vals, kv, st, node):
        k = name(vals[0]) if vals else None
        if k is None:
            return None
        return get(it, st, k, vals[1] if len(vals) > 1 else kv.get('default'))

    def pop(it, recv, args, vals, kv, st, node):
        k = name(vals[0])
        r = get(it, st, k, vals[1] if len(vals) > 1 else None) if k else None
        put(it, st, k, ABSENT, node)
        return r

    def setdefault(it, recv, args, vals, kv, st, node):
        k = name(vals[0])
        if k:
            put(it, st, k, get(it, st, k, vals[1]), node)
            return get(it, st, k)
        put(it, st, k, None, node)

    def update(it, recv, args, vals, kv, st, node):
        for v in vals:
            if v.op == 'dict':
                for k, x in v.args:
                    put(it, st, name(k), x, node)
            else:
                odd.append('update with a computed mapping')
        for k, x in kv.items():
            put(it, st, k, x, node)
        return NONE

    def clear(it, recv, args, vals, kv, st, node):
        odd.append('clear')
        return NONE

    def putenv(it, recv, args, vals, kv, st, node):
        put(it, st, name(vals[0]), vals[1], node)
        return NONE

    def unset(it, recv, args, vals, kv, st, node):
        put(it, st, name(vals[0]), ABSENT, node)
        return NONE

    def rinit(it, recv, args, vals, kv, st, node):
        st.heap[('a', RAY, 'up')] = TRUE
        return None

    def rdown(it, recv, args, vals, kv, st, node):
        st.heap[('a', RAY, 'up')] = FALSE
        return None

    def rup(it, recv, args, vals, kv, st, node):
        return it.getattr(RAY, 'up', st)

    hooks = {'setitem': setitem, 'getitem': getitem, 'delitem': delitem, 'contains': has, 'os.getenv': getenv, 'os.environ.get': getenv, 'os.environ.pop': pop, 'os.environ.setdefault': setdefault,
             'os.environ.update': update, 'os.environ.clear': clear, 'os.putenv': putenv, 'os.unsetenv': unset, 'ray.init': rinit, 'ray.shutdown': rdown, 'ray.is_initialized': rup}
    bound = {g for g in ctx.prog.funcs if g not in inline}
    it = ctx.analyse(q, hooks=hooks, boundary=bound, exact_try=True, inline=None)
    for e in it.events:
        if e.kind == 'call' and e.d.get('name', '').startswith('os.environ.') and e.name not in hooks:
            odd.append(e.name)
    return it, odd


def value(t, absent, present):
    """the ghost value when the variable was absent / present on entry"""
    e0 = present

    def g(x):
        if x.op == 'attr' and x.args[0] is ENV:
            return ABSENT if absent else mk('sym', 'value of ' + x.args[1])
        return None
    def h(x):
        if x.op == 'is' and x.args[1] is NONE and x.args[0].op == 'sym' and str(x.args[0].args[0]).startswith('value of '):
            return FALSE
        if x.op == 'is' and x.args[1] is NONE and x.args[0].op == 'sel' and any(y.op == 'slice' for y in keytuple(x.args[0].args[1])):
            return FALSE
        if x.op in ('truthy',) and x.args[0] is NONE:
            return FALSE
        return None
    return rebuild(rebuild(t, g), h)


def leaves(t):
    return leaves(t.args[1]) + leaves(t.args[2]) if t.op == 'ite' else [t]


def conds(t):
    return [t.args[0]] + conds(t.args[1]) + conds(t.args[2]) if t.op == 'ite' else []


def judge(got, want, facts):
    """True: always the wanted value; False: can be another one; None: not decided"""
    for c in facts:
        if got is not want:
            got = inst(got, literals(c, True))
    ls = leaves(got)
    if all(x is want for x in ls):
        return True
    if any(x.op in ('opaque', 'after') or x is not want and contains(x, want) and want is not NONE for x in ls):
        return None
    if want not in ls:
        return False
    return False if all(plain(c) for c in conds(got)) else None


def plain(c):
    """a test of inputs alone, which can come out either way"""
    return not any(x.op in ('mu', 'muend', 'opaque', 'after', 'ret', 'phi') for x in subterms(c))


def r_restore(ctx):
    S = ctx.rule('shut-down', 'on every normal return the Ray runtime started by the call is shut down', 3)
    R = ctx.rule('environment', 'on every normal return each environment variable has its value on entry, set or absent', 2)
    roots, inline = plan(ctx)
    for q in sorted(set(roots) | set(ENTRIES)):
        if q not in ctx.prog.funcs:
            ctx.und(S, q, 'not found')
            continue
        f = ctx.prog.funcs[q]
        try:
            it, odd = follow(ctx, q, inline)
        except AnalysisError as e:
            ctx.und(S, q, str(e)[:100])
            continue
        ex = [x for x in it.frame.exits if x[0] == 'return']
        if not ex:
            ctx.und(S, q, 'no normal return recognised')
        nm = q.replace(P, '')
        started = [e for e in it.events if e.kind == 'call' and e.d.get('name') == 'ray.init']
        for i, (k, st, v, nd) in enumerate(ex):
            line = getattr(nd, 'lineno', 0) if not isinstance(nd, ast.FunctionDef) else nd.end_lineno
            loc = '%s:%d' % (f.module.path, line)
            up = st.heap.get(('a', RAY, 'up'))
            up = FALSE if up is None else rebuild(up, lambda x: FALSE if x.op == 'attr' and x.args[0] is RAY else None)
            if started:
                if up.op in ('and', 'or', 'not', 'truthy', 'eq', 'lt', 'is', 'cmp'):
                    up = ite(up, TRUE, FALSE) if ite(up, TRUE, FALSE).op == 'ite' else mk('ite', up, TRUE, FALSE)
                ctx.verdict(judge(up, FALSE, st.pc), S, '%s-%d' % (nm, i), loc, 'the Ray runtime started at line %s can still be running when %s returns here' % (started[-1].node.lineno, f.node.name))
            for key, val in sorted(((k2[2], v2) for k2, v2 in st.heap.items() if k2[0] == 'a' and k2[1] is ENV)):
                for absent in (True, False):
                    want = ABSENT if absent else mk('sym', 'value of ' + key)
                    got = value(val, absent, None)
                    v = None if odd else judge(got, want, [value(c, absent, None) for c in st.pc])
                    ctx.verdict(v, R, '%s-%s-%s-%d' % (nm, key, 'absent' if absent else 'set', i), loc,
                                '%s was %s before the call and is %s after it%s' % (key, 'absent' if absent else 'set', 'absent' if got is ABSENT else show(got, 4), ' (%s)' % odd[0] if odd else ''))


RULES = [r_restore]
