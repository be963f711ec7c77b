"""Built-in phases: the library name is propagated as a constant through addphase to the values handed to the band indexer's
setters; the resulting lattice and reflector tables are folded and checked against the space group's rules.  User-supplied
values are tracked symbolically to the same setters."""
from sa.ctx import *
from sa.evalt import fold, flat
TVM = 'pyebsdindex.tripletvote'
BI = TVM + '.BandIndexer.'
B = {BI + 'setlatticeparameter', BI + 'setspacegroup', BI + 'setpolefamilies', BI + 'build_trip_lib'}
ASSUMES = ['International Tables reflection conditions: F (all even/all odd), I (h+k+l even), P6_3/mmc (hh-2hl: l even; 000l: l even) with '
           'atoms on 2c sites for the hcp structure (l odd extinct when h+2k=3n)']
SG = {'FCC': (225, 23, 43), 'BCC': (229, 23, 43), 'HCP': (194, 6, 62)}


def setters(ctx, args, pc=()):
    it = ctx.analyse(TVM + '.addphase', args=args, boundary=B, unroll=100, pc=pc, recur=2)
    out = {}
    for e in it.events:
        if e.kind == 'call' and e.name in B and not e.inlined:
            n = e.name.split('.')[-1]
            ps = e.callee.params()
            v = it.V(e.bound[ps[1]], it.state) if len(ps) > 1 and e.callee.cls else None
            out.setdefault(n, []).append((v, e))
    return it, out


def r_library(ctx):
    R = ctx.rule('phase-library', 'space group, lattice, reflectors and name of every built-in phase are consistent', 9)
    f = ctx.func(TVM + '.addphase')
    for lib in ('FCC', 'fcc', 'BCC', 'bcc', 'HCP', 'hcp', None):
        want = SG[(lib or 'FCC').upper()]
        nm = lib or 'default'
        it, s = setters(ctx, {'libtype': lib, 'phasename': None, 'spacegroup': None, 'latticeparameter': None, 'polefamilies': None})
        for part in ('setspacegroup', 'setlatticeparameter', 'setpolefamilies', 'build_trip_lib'):
            if part not in s:
                ctx.bad(R, '%s-%s' % (nm, part), f.loc(), 'addphase(%r) never reaches %s' % (lib, part))
        if 'setspacegroup' in s:
            v = fold(it.deep(s['setspacegroup'][-1][0], it.state.heap))
            ctx.verdict(None if v is None else v == want[0], R, nm + '-spacegroup', s['setspacegroup'][-1][1].loc, 'space group of %s is %s, want %d' % (nm, v, want[0]))
        if 'setlatticeparameter' in s:
            v = fold(it.deep(s['setlatticeparameter'][-1][0], it.state.heap))
            good = None
            if isinstance(v, list) and len(v) == 6:
                a, b, c, al, be, ga = v
                if want[0] == 194:
                    good = a == b and a > 0 and 1.5 < c / a < 1.9 and (al, be, ga) == (90, 90, 120)
                else:
                    good = a == b == c and a > 0 and (al, be, ga) == (90, 90, 90)
            elif v is not None:
                good = False
            ctx.verdict(good, R, nm + '-lattice', s['setlatticeparameter'][-1][1].loc, 'lattice %s does not obey space group %d' % (v, want[0]))
        if 'setpolefamilies' in s:
            v = fold(it.deep(s['setpolefamilies'][-1][0], it.state.heap))
            w = 4 if want[0] == 194 else 3
            if v is None:
                ctx.und(R, nm + '-reflectors', show(s['setpolefamilies'][-1][0], 4))
            else:
                err = refl(v, want[0], w)
                ctx.verdict(not err, R, nm + '-reflectors', s['setpolefamilies'][-1][1].loc, '; '.join(err[:4]))


def refl(v, sg, w):
    err = []
    if not isinstance(v, list) or len(v) < 3 or any(not isinstance(r, list) or len(r) not in (3, 4) for r in v):
        return ['reflector table has the wrong shape']
    seen = set()
    for r in v:
        if len(r) == 4:
            if sg != 194:
                err.append('four-index reflector %s for a cubic phase' % r)
                continue
            h, k, i, l = r
            if h + k + i:
                err.append('%s: h+k+i is not 0' % r)
        else:
            h, k, l = r
        if any(x != int(x) for x in r) or not any(r):
            err.append('%s is not a plane' % r)
            continue
        if sg == 225 and len({x % 2 for x in (h, k, l)}) != 1:
            err.append('%s is extinct for face centring (mixed parity)' % r)
        if sg == 229 and (h + k + l) % 2:
            err.append('%s is extinct for body centring (odd sum)' % r)
        if sg == 194 and l % 2 and (h - k) % 3 == 0:
            err.append('%s is extinct in P6_3/mmc (hcp)' % r)
        if sg == 194:
            key = (tuple(sorted((abs(h), abs(k), abs(h + k)))), abs(l))
        else:
            key = tuple(sorted(abs(x) for x in (h, k, l)))
        if key in seen:
            err.append('family %s is listed twice' % r)
        seen.add(key)
    strongest = {225: [(1, 1, 1), (0, 0, 2), (0, 2, 2)], 229: [(0, 1, 1), (0, 0, 2), (1, 1, 2)], 194: [((0, 1, 1), 0), ((0, 0, 0), 2), ((0, 1, 1), 1)]}[sg]
    for k in strongest:
        if k not in seen:
            err.append('strongest family %s is missing' % (k,))
    return err


def r_user(ctx):
    R = ctx.rule('user-values-win', 'a space group, lattice, reflector list or name given by the user reaches the indexer unchanged', 12)
    f = ctx.func(TVM + '.addphase')
    vals = dict(phasename=sym('u_name'), spacegroup=sym('u_sg'), latticeparameter=sym('u_lat'), polefamilies=sym('u_pol'))
    for lib, given in (('FCC', 1), ('BCC', 1), ('HCP', 1), (None, 1), (None, 0)):
        a = dict(vals, libtype=lib)
        if not given:
            a['spacegroup'] = NONE
        it, s = setters(ctx, a, pc=tuple(notb(isnone(v)) for v in vals.values()))
        lib = lib if given else 'default'
        for part, v in (('setspacegroup', 'u_sg'), ('setlatticeparameter', 'u_lat'), ('setpolefamilies', 'u_pol')):
            if part == 'setspacegroup' and not given:
                continue
            if part not in s:
                ctx.bad(R, '%s-%s' % (lib, part), f.loc(), 'addphase(%r, ...) never reaches %s' % (lib, part))
                continue
            t = it.deep(s[part][-1][0], it.state.heap)
            r = strip(t)
            ctx.verdict(True if r is sym(v) else (False if not contains(t, sym(v)) else None), R, '%s-%s' % (lib, part), s[part][-1][1].loc,
                        '%s receives %s instead of the user\'s value' % (part, show(t, 4)))
        ph = it.getattr(it.result, 'phasename', it.state)
        ctx.verdict(True if strip(ph) is sym('u_name') else (False if not contains(ph, sym('u_name')) else None), R, '%s-phasename' % lib, f.loc(),
                    'phasename becomes %s' % show(ph, 4))


def strip(t):
    while True:
        if t.op == 'cast' or (t.op == 'mcall' and t.args[1] in ('astype', 'copy')):
            t = t.args[0]
        elif t.op == 'fn' and t.args[0] in ('str', 'cast', 'float') and len(t.args) == 2:
            t = t.args[1]
        elif t.op == 'call' and t.args[0].split('.')[-1] in ('array', 'asarray', 'atleast_2d', 'str', 'copy', 'ascontiguousarray') and t.args[1]:
            t = t.args[1][0]
        elif t.op == 'fstr' and len(t.args) == 1:
            t = t.args[0]
        elif t.op == 'ite' and strip(t.args[1]) is strip(t.args[2]):
            t = t.args[1]
        else:
            return t


def r_setters(ctx):
    R = ctx.rule('setter-stores', 'the indexer stores the lattice it is given and builds its crystal from a,b,c,alpha,beta,gamma in that order', 7)
    q = BI + 'setlatticeparameter'
    f = ctx.func(q)
    p = sym(f.params()[1])
    init = ctx.func('pyebsdindex.crystallometry.Crystal.__init__')
    names = init.params()
    it = ctx.analyse(q, vecs=[f.params()[1]], boundary={init.qual})
    ev = [e for e in it.events if e.kind == 'call' and e.callee is init]
    if len(ev) != 1:
        ctx.und(R, 'crystal', '%d crystals built' % len(ev))
    else:
        for i, n in enumerate(('a', 'b', 'c', 'alpha', 'beta', 'gamma')):
            v = ev[0].bound.get(n)
            if v is None:
                ctx.und(R, n, 'constructor has no parameter ' + n)
                continue
            v = strip(it.V(v, it.state))
            w = sel(p, const(i))
            ctx.verdict(True if v is w else (False if v.op == 'sel' and v.args[0] is p or is_const(v) else None), R, 'lattice-' + n, ev[0].loc,
                        'crystal parameter %s is built from %s, want element %d of the lattice' % (n, show(v, 3), i))
    lp = strip(it.V(it.getattr(it.self, 'latticeparameter', it.state), it.state))
    ctx.verdict(True if lp is p else (False if not contains(lp, p) else None), R, 'latticeparameter', f.loc(), 'stored lattice is ' + show(lp, 3))
