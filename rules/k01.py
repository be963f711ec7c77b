"""Loop-dependence analysis.  Every function compiled with parallel=True is followed and, for each outermost loop that numba distributes over
threads, every access to an object that exists outside the loop is examined: a store needs an owner coordinate - a subscript component that
determines the iteration (affine in the parallel index, or mixed radix with a matching stride) - and every other access to the same object
has to use the same owner.  Scalars may only be combined as reductions, dictionaries and lists have to be the iteration's own.  Subscripts
without an owner are tabulated over small bounds for two iterations that meet; if none is found the access is undecided.  Device kernels: see
rules/_gpu.py."""
import ast, itertools, random
from sa.ctx import *
from sa.term import subterms, contains, keytuple, trips, poly, sub, mul, add
from sa.ieval import compiled, peel, identities, Unknown
ASSUMES = ['distinct array parameters of a kernel are distinct memory', 'numba runs the iterations of the outermost prange of a function compiled with parallel=True concurrently and serialises nested ones',
           'strides named in subscripts are positive integers']


# ---------------------------------------------------------------- which functions run in parallel
def numbaname(prog, f, d):
    """the numba entry point a decorator expression names, or None"""
    p = []
    while isinstance(d, ast.Attribute):
        p.append(d.attr)
        d = d.value
    if not isinstance(d, ast.Name):
        return None
    r = prog.lookup(f.module.name, d.id)
    full = None
    if r and r[0] == 'ext':
        full = '.'.join([r[1]] + p[::-1])
    elif r and r[0] == 'module':
        full = None
    return full if full and full.split('.')[0] == 'numba' else None


def constflag(prog, f, e):
    if isinstance(e, ast.Constant):
        return bool(e.value)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        v = constflag(prog, f, e.operand)
        return None if v is None else not v
    if isinstance(e, ast.Name):
        r = prog.lookup(f.module.name, e.id)
        if r and r[0] == 'assign' and len(r[2]) == 1:
            v = r[2][0]
            v = getattr(v, 'value', v)
            return constflag(prog, f, v)
    return None


def flag(ctx, f):
    """True/False/None: compiled with parallel=True; and the decorator"""
    out = False
    for d in f.node.decorator_list:
        c = d.func if isinstance(d, ast.Call) else d
        n = numbaname(ctx.prog, f, c)
        if n is None:
            continue
        if n.split('.')[-1] not in ('jit', 'njit', 'vectorize', 'guvectorize', 'stencil'):
            continue
        for k in (d.keywords if isinstance(d, ast.Call) else []):
            if k.arg == 'parallel':
                v = constflag(ctx.prog, f, k.value)
                if v is not False:
                    out = v
            if k.arg == 'target' and not (isinstance(k.value, ast.Constant) and k.value.value == 'cpu'):
                return None
            if k.arg is None:
                return None
    return out


# ---------------------------------------------------------------- one parallel loop
FULLARGS = (NONE, NONE, NONE)


class Acc:
    __slots__ = ('kind', 'base', 'key', 'ev', 'guarded')

    def __init__(self, kind, base, key, ev, guarded=False):
        self.kind, self.base, self.key, self.ev, self.guarded = kind, base, plain(key), ev, guarded


class At:
    """where an access happens, when that is not a single event"""
    def __init__(self, loops, pc, where):
        self.loops, self.pc, self.where, self.d = tuple(loops), pc, where, {}


def plain(t):
    """integer conversions of integer expressions dropped"""
    m = {}
    deep = {y for x in subterms(t) if x.op == 'sel' for y in subterms(x)}
    for x in subterms(t):
        if x in deep:
            continue
        if x.op == 'fn' and x.args[0] == 'int' and len(x.args) == 2 or x.op == 'cast':
            y = x.args[1] if isinstance(x.args[1], T) else x.args[0]
            if isinstance(y, T) and all(c.denominator == 1 and all(e > 0 for _, e in mm) for mm, c in poly(y).items()):
                m[x] = y
    for _ in range(4):
        if not m or not any(x in m for x in subterms(t)):
            break
        t = subst(t, m)
    return t


def through(a, L, ids, stores):
    """the subscripts a read can have when its position is read from an array the iteration has filled itself"""
    out = []
    for x in subterms(a.key):
        if x.op != 'sel':
            continue
        o = ids.get(peel(x.args[0]))
        ws = [w for w in stores if w.base is o] if o is not None else []
        for w in ws:
            v = w.ev.d.get('value')
            if isinstance(v, T):
                n = list(a.ev.loops).index(L)
                loops = list(a.ev.loops) + [J for J in w.ev.loops if J not in a.ev.loops]
                out.append(Acc(a.kind, a.base, subst(a.key, {x: v}), At(loops, tuple(a.ev.pc or ()) + tuple(w.ev.pc or ()), a.ev.where), a.guarded))
    return out


def varies(t, L):
    """depends on anything that changes while the loop runs"""
    for x in subterms(t):
        if x.op in ('mu', 'muend', 'after', 'end'):
            return True
        if x.op == 'it':
            return True
    return False


def owners(key, L, inner):
    """subscript forms that determine the iteration of L"""
    me = mk('it', L.id)
    out = set()
    for c, k in enumerate(keytuple(key)):
        if not isinstance(k, T) or not contains(k, me):
            continue
        co = lin(k, me)
        if co is None:
            continue
        a, rest = co
        if not varies(rest, L) and not contains(a, me):
            out.add((c, 'affine', k))
            continue
        # i + N*q with i in range(0, N)
        n = trips(L.iter)
        if a is ONE and L.iter.op == 'range' and L.iter.args[0] is ZERO and n is not None and not is_const(n) and divisible(rest, n):
            out.add((c, 'mod', n))
        # S*i + r, 0 <= r < S
        for J in inner:
            r = mk('it', J.id)
            s = trips(J.iter) if J.iter is not None else None
            if s is not None and a is s and J.iter.op == 'range' and J.iter.args[0] is ZERO and J.iter.args[2] is ONE:
                left = sub(rest, r)
                if not varies(left, L):
                    out.add((c, 'div', s, left))
    return out


def lin(k, x):
    """k = a*x + rest with a, rest free of x"""
    p = poly(k)
    a, rest = ZERO, ZERO
    for m, c in p.items():
        t = const(c)
        e = 0
        for y, n in m:
            if y is x:
                e += n
            else:
                if contains(y, x):
                    return None
                t = mul(t, power(y, n))
        if e == 0:
            rest = add(rest, t)
        elif e == 1:
            a = add(a, t)
        else:
            return None
    return (a, rest) if a is not ZERO else None


def power(y, n):
    t = ONE
    for _ in range(abs(n)):
        t = mul(t, y)
    return t if n > 0 else mk('inv', t)


def divisible(rest, n):
    if rest is ZERO:
        return True
    for m, c in poly(rest).items():
        if c.denominator != 1 or not any(y is n and e >= 1 for y, e in m) or any(e < 0 for y, e in m):
            return False
    return True


def reads(v):
    """(base, key, guarded) of the subscripted reads in a value, and the whole-object uses"""
    out, whole, seen = [], [], set()
    st = [(v, False)]
    while st:
        x, g = st.pop()
        if isinstance(x, tuple):
            st.extend((y, g) for y in x)
            continue
        if not isinstance(x, T) or (x, g) in seen:
            continue
        seen.add((x, g))
        if x.op == 'sel':
            b = peel(x.args[0])
            out.append((b, x.args[1], g))
            st.append((x.args[1], g))
            y = x.args[0]
            while y.op in ('after', 'store', 'view') and isinstance(y.args[0], T):
                st.extend((z, g) for z in y.args[1:] if isinstance(z, T))
                y = y.args[0]
            if y.op not in ('obj', 'sym', 'alloc'):
                st.append((y, g))
            continue
        if x.op in ('after', 'store', 'view'):
            whole.append((peel(x), g))
            st.extend((z, g) for z in x.args[1:] if isinstance(z, T))
            continue
        if x.op == 'attr' and x.args[1] in ('shape', 'ndim', 'dtype', 'size'):
            continue
        if x.op == 'len':
            continue
        if x.op in ('obj', 'alloc', 'sym'):
            whole.append((x, g))
        if x.op == 'ite':
            st.append((x.args[0], g))
            st.extend((y, True) for y in x.args[1:])
            continue
        st.extend((y, g) for y in x.args)
    return out, whole


def firstpass(t, loops, pinned):
    """the value in the first pass of the inner loops it is carried by"""
    for _ in range(6):
        mus = [x for x in subterms(t) if x.op == 'mu']
        if not mus:
            return t
        m = {}
        for x in mus:
            J = next((J for J in loops if J.id == x.args[0]), None)
            if J is None or x.args[1] not in J.init:
                raise Unknown(show(x, 2))
            pinned.add(J.id)
            m[x] = J.init[x.args[1]]
        t = subst(t, m)
    raise Unknown('carried')


def tabulate(L, a, seed, vals):
    """{subscript: iterations of L that reach it} for small bounds"""
    rng = random.Random(seed)

    def leaf(t):
        if t.op in ('sym', 'sel', 'len', 'attr') and not varies(t, L):
            if t not in vals:
                vals[t] = rng.randint(1, 4)
            return vals[t]
        return None
    n = list(a.ev.loops).index(L)
    inner = list(a.ev.loops[n + 1:])
    pinned = {J.id for J in a.ev.loops[:n]}
    if any(J.kind != 'for' for J in inner):
        raise Unknown('while')
    keys = [firstpass(k, inner, pinned) for k in keytuple(a.key)]
    if any(k.op in ('slice', 'const') and not is_const(k) or k.op == 'sym' and not isinstance(k, T) for k in keys):
        raise Unknown('slice')
    conds = []
    for c in a.ev.pc or ():
        try:
            c = firstpass(c, inner, pinned)
            compiled([c], leaf)
            conds.append(c)
        except Unknown:
            if any(x.op == 'eq' for x in subterms(c)):
                raise
    bounds = [firstpass(trips(J.iter), inner, pinned) for J in [L] + inner]
    f, its = compiled(keys, leaf)
    g, gits = compiled(conds, leaf)
    bs = [compiled([b], leaf) for b in bounds]
    out = {}
    order = [mk('it', J.id) for J in [L] + inner]

    def go(d, env):
        if len(out) > 3000:
            return
        if d == len(order):
            if all(g(*[env[x] for x in gits])):
                out.setdefault(tuple(int(v) for v in f(*[env[x] for x in its])), set()).add(env[order[0]])
            return
        h, hi = bs[d]
        n = int(h(*[env[x] for x in hi])[0])
        if d and ([L] + inner)[d].id in pinned:
            n = min(n, 1)
        for i in range(min(n, 9)):
            env[order[d]] = i
            go(d + 1, env)
    env = {mk('it', J.id): 0 for J in a.ev.loops[:n]}
    go(0, env)
    return out


def meet(L, a, b):
    """two iterations at which the subscripts coincide, as text; '' none found; None cannot tabulate"""
    done = False
    for seed in range(6):
        vals = {}
        try:
            pa = tabulate(L, a, seed, vals)
            pb = tabulate(L, b, seed, vals)
        except (Unknown, ZeroDivisionError, TypeError, OverflowError, KeyError, ValueError):
            return None
        done = done or bool(pa and pb)
        for k, ia in sorted(pa.items()):
            for i in sorted(ia):
                for j in sorted(pb.get(k, ())):
                    if i != j:
                        vs = ', '.join('%s=%s' % (show(t, 2), v) for t, v in list(vals.items())[:5])
                        return 'iterations %d and %d both reach [%s]%s' % (i, j, ', '.join(map(str, k)), ' for ' + vs if vs else '')
    return '' if done else None


def owners_data(a):
    """no component of the subscript is computed from the loops alone: the position comes from data"""
    ks = keytuple(a.key)
    if any(k.op == 'slice' for k in ks):
        return True
    return not any(any(x.op == 'sel' for x in subterms(k)) for k in ks)


def shared(b, own, it):
    """the object exists outside the loop: True / False / None"""
    if b in own:
        return False
    if b.op in ('obj', 'sym', 'alloc', 'ret'):
        return True
    return None


def parallelloop(ctx, R, RS, q, it, L):
    where = ctx.where(it, L) if hasattr(ctx, 'where') else '%s:%d' % (L.func.module.path, L.node.lineno)
    short = q.replace('pyebsdindex.', '')
    ev = [e for e in it.events if L in (e.loops or ())]
    own = set()
    for e in ev:
        if e.kind == 'new':
            own |= {v for v in e.d.values() if isinstance(v, T)}
        if e.kind == 'call':
            r = e.d.get('result')
            if isinstance(r, T):
                own.add(r)
    stores = [Acc('store', e.d['base'], e.full, e) for e in ev if e.kind == 'store']
    inl = [J for e in ev for J in e.loops]
    loads, wholes, ids = [], [], identities(it)
    for e in ev:
        vs = [e.full, e.d.get('value')] if e.kind == 'store' else [v for k, v in e.d.items() if isinstance(v, (T, tuple)) and k in ('vals', 'kvals', 'value', 'args', 'kw')]
        vs += list(e.pc or ())
        rd, wh = reads(tuple(vs))
        loads += [Acc('read', ids.get(b, b), k, e, g) for b, k, g in rd]
        wholes += [(ids.get(b, b), e) for b, g in wh]
    for e in ev:
        if e.kind == 'mutate':
            b = e.d.get('recv') or e.d.get('base')
            b = peel(b) if isinstance(b, T) else None
            if b is None or shared(b, own, it) is None:
                ctx.und(R, '%s: %s' % (short, show(b, 2) if b is not None else '?'), 'mutated object not identified')
            elif shared(b, own, it):
                ctx.bad(R, '%s mutates %s' % (short, show(b, 2)), e.where, 'every iteration of the parallel loop mutates the same object')
    if any(a.base is None for a in loads) and any(shared(a.base, own, it) and a.base.op == 'obj' for a in stores):
        ctx.und(R, '%s: arrays created alike' % short, 'the reads of %d of them cannot be told apart' % len([1 for a in loads if a.base is None]))
    n = 0
    written = {}
    for a in stores:
        s = shared(a.base, own, it)
        if s is False:
            continue
        written.setdefault(a.base, []).append(a)
    for base, ws in written.items():
        nm = arrayname(it, L, base)
        if base.op == 'ret' or isdict(it, base):
            ctx.bad(R, '%s: %s' % (short, nm), ws[0].ev.where, 'a container created outside the parallel loop is written by every iteration')
            continue
        rs = [a for a in loads if a.base is base]
        own0 = None
        todo = ws + rs
        sigs = {}
        for a in todo:
            inner = list(a.ev.loops)[list(a.ev.loops).index(L) + 1:]
            sigs[id(a)] = owners(a.key, L, inner)
        common = None
        for a in ws:
            common = sigs[id(a)] if common is None else common & sigs[id(a)]
        seen = set()
        for a in todo:
            k = (a.kind, a.key, a.ev.where)
            if k in seen:
                continue
            seen.add(k)
            n += 1
            con = '%s: %s of %s[%s]' % (short, a.kind, nm, show(a.key, 4))
            if common and sigs[id(a)] & common:
                ctx.ok(R, con, a.ev.where)
                continue
            res, un = None, False
            if a.kind == 'store' and all(k.op == 'slice' and k.args == FULLARGS for k in keytuple(a.key)):
                if a.ev.d.get('op') in ('Add', 'Sub', 'Mult') and len(todo) == 1:
                    ctx.ok(R, con + ' (array reduction)', a.ev.where)
                else:
                    ctx.bad(R, con, a.ev.where, 'every iteration of the parallel loop writes the whole of %s' % nm)
                continue
            for w in ws:
                for b in [a] + through(a, L, ids, stores):
                    m = meet(L, w, b)
                    if m is None:
                        un = True
                    elif m:
                        res = (w, m)
                        break
            if not res and a.kind == 'store' and not owners_data(a):
                res = (a, 'its position is read from an array, and two iterations can read the same one')
            if res and not a.guarded:
                ctx.bad(R, con, a.ev.where, 'data race on %s in the parallel loop: %s' % (nm, res[1]))
            else:
                ctx.und(R, con, 'no owner subscript' + (' (cannot be tabulated)' if un else ''))
        for b, e in wholes:
            if b is base and ('whole', e.where) not in seen:
                seen.add(('whole', e.where))
                ctx.und(R, '%s: %s' % (short, nm), 'used as a whole inside the loop that writes it (%s)' % e.where)
    # scalars
    inside = []
    for e in ev:
        for J in e.loops[list(e.loops).index(L) + 1:]:
            if J not in inside:
                inside.append(J)
    for name in sorted(k for k in L.final if isinstance(k, str)):
        vs = finals(L, name)
        if not vs:
            continue
        mu = mk('mu', L.id, name)
        taint = {mu}
        accs = set()
        for _ in range(4):
            taint |= {mk('mu', L.id, k) for k in L.final if isinstance(k, str) and any(contains(w, x) for x in taint for w in finals(L, k))} if name in L.init else set()
            for J in inside:
                for k, w in J.init.items():
                    if isinstance(w, T) and any(contains(w, x) for x in taint):
                        taint |= {mk('mu', J.id, k), mk('muend', J.id, k)}
                        if isinstance(k, str):
                            accs.add((J, k))
        users = [e for e in ev if any(contains(x, y) for x in flatvals(e) for y in taint) and not accumulates(e, mu)]
        con = '%s: %s carried over the iterations' % (short, name)
        if users:
            ctx.bad(RS, con, users[0].where, 'an iteration of the parallel loop uses the value %s has from another iteration' % name)
            continue
        end = mk('muend', L.id, name)
        later = any(contains(x, end) for e in it.events if e not in ev for x in flatvals(e)) or isinstance(it.result, T) and contains(it.result, end)
        if later and any(contains(v, x) for x in taint for v in vs) and all(reduction(v, mu, inside) for v in vs):
            ctx.ok(RS, con, where)
        elif later:
            ctx.bad(RS, con, where, 'the value %s has after the parallel loop depends on which iteration ran last' % name)
    for name in L.ind:
        if not isinstance(name, str) or any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(L.node.target)):
            continue
        used = [x for x in ast.walk(L.node) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load)]
        aug = [x for x in ast.walk(L.node) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name]
        if used or not aug:
            ctx.bad(RS, '%s: %s counted over the iterations' % (short, name), '%s:%d' % (L.func.module.path, (used or [L.node])[0].lineno),
                    'an iteration of the parallel loop uses the count reached by other iterations')
        else:
            ctx.ok(RS, '%s: %s counted over the iterations' % (short, name), where)
    return n


def accumulates(e, mu):
    """an augmented assignment to the carried value as a whole (an array reduction)"""
    return e.kind in ('augname', 'assign', 'if', 'loop') or e.kind == 'store' and e.d.get('op') in ('Add', 'Sub', 'Mult') and e.d.get('base') is mu and all(k.op == 'slice' and k.args == FULLARGS for k in keytuple(e.full)) \
        and not any(isinstance(x, T) and contains(x, mu) for x in [e.d.get('raw')])


def finals(L, k):
    v = L.final.get(k)
    return [w for w in (v if isinstance(v, list) else [v]) if isinstance(w, T)]


def flatvals(e):
    for v in list(e.d.values()) + list(e.pc or ()):
        if isinstance(v, (T, tuple)):
            st = [v]
            while st:
                x = st.pop()
                if isinstance(x, tuple):
                    st.extend(x)
                elif isinstance(x, T):
                    yield x


def reduction(v, mu, inside=(), depth=4):
    """v = mu op x with x free of mu (possibly on some paths only, possibly accumulated by an inner loop)"""
    if v is mu:
        return True
    if v.op == 'ite':
        return not contains(v.args[0], mu) and reduction(v.args[1], mu, inside, depth) and reduction(v.args[2], mu, inside, depth)
    if depth and not contains(v, mu):
        ends = [x for x in subterms(v) if x.op == 'muend']
        for x in ends:
            J = next((J for J in inside if J.id == x.args[0]), None)
            if J is None or x.args[1] not in J.init or x.args[1] not in J.final:
                continue
            if contains(J.init[x.args[1]], mu):
                m2 = mk('mu', J.id, x.args[1])
                return reduction(J.init[x.args[1]], mu, inside, depth - 1) and all(reduction(w, m2, inside, depth - 1) for w in finals(J, x.args[1])) and reduction(subst(v, {x: mu}), mu, inside, 0)
        return False
    c = lin(v, mu)
    if c is not None:
        return c[0] is ONE or c[1] is ZERO and not contains(c[0], mu)
    return v.op == 'fn' and v.args[0] in ('min', 'max') and sum(1 for x in v.args[1:] if x is mu) == 1 and not any(x is not mu and contains(x, mu) for x in v.args[1:])


def isdict(it, b):
    return b.op == 'ret' and 'Dict' in str(b.args[0])


def arrayname(it, L, b):
    """the name the source gives the object"""
    if b.op == 'sym':
        return b.args[0]
    for e in it.events:
        if e.kind == 'new' and any(v is b for v in e.d.values()):
            return 'the array created at ' + e.where.split('/')[-1].split(' ')[0]
    return show(b, 2)


def r_parallel(ctx):
    R = ctx.rule('K01.access', 'every access to an object shared by the iterations of a parallel loop stays with the iteration that owns the element', 3)
    RS = ctx.rule('K01.scalar', 'scalars assigned in a parallel loop are private to the iteration or pure reductions', 0)
    RF = ctx.rule('K01.kernels', 'every function compiled for several threads is identified and followed', 3)
    for q, f in sorted(ctx.prog.funcs.items()):
        if not q.startswith('pyebsdindex.'):
            continue
        v = flag(ctx, f)
        if v is False:
            continue
        if v is None:
            ctx.und(RF, q.replace('pyebsdindex.', ''), 'whether it is compiled with parallel=True is not a constant')
            continue
        it = ctx.analyse(q, args={p: sym(p) for p in f.params()}, arrays=f.params(), unroll_par=False)
        loops = []
        for e in it.events:
            for L in e.loops or ():
                if L not in loops:
                    loops.append(L)
        outer = [L for L in loops if L.parallel and not any(M.parallel for M in parents(L))]
        np_ = len([n for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and n.attr == 'prange' or isinstance(n, ast.Name) and n.id == 'prange'])
        if np_ and not outer:
            ctx.und(RF, q.replace('pyebsdindex.', ''), 'its parallel loops were not reached')
            continue
        ctx.ok(RF, '%s: %d parallel loop(s)' % (q.replace('pyebsdindex.', ''), len(outer)), f.loc())
        for L in outer:
            parallelloop(ctx, R, RS, q, it, L)


def parents(L):
    p = L.parent
    while p is not None:
        yield p
        p = p.parent
