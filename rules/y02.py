"""Space group -> Laue class, for each of the 230 numbers, by constant propagation of the number through
spacegroup2lauenumber and through BandIndexer.setspacegroup (which also must take the symmetry operators of that class)."""
from sa.ctx import *
CS = 'pyebsdindex.crystal_sym'
TABLE = [(1, 2, 1), (3, 15, 2), (16, 74, 22), (75, 88, 4), (89, 142, 42), (143, 148, 3), (149, 167, 32), (168, 176, 6),
         (177, 194, 62), (195, 206, 23), (207, 230, 43)]
ASSUMES = ['International Tables numbering of space groups; Laue ids as documented in crystal_sym.py']


def laue(n):
    return [c for a, b, c in TABLE if a <= n <= b][0]


def r_table(ctx):
    R = ctx.rule('sg-to-laue', 'the converter returns the Laue id of International Tables for the space group', 230)
    f = ctx.func(CS + '.spacegroup2lauenumber')
    p = f.params()[0]
    for n in range(1, 231):
        it = ctx.analyse(CS + '.spacegroup2lauenumber', args={p: n}, unroll=600)
        r = tofloat(it.result)
        if r is None:
            ctx.und(R, 'sg%d' % n, 'result not constant: ' + show(it.result, 4))
        elif r == laue(n):
            ctx.ok(R, 'sg%d' % n, str(int(r)))
        else:
            ctx.bad(R, 'spacegroup2lauenumber(%d)' % n, f.loc(), 'space group %d gets Laue id %s, International Tables say %d' % (n, r, laue(n)))


def r_indexer(ctx):
    R = ctx.rule('indexer-uses-table', 'setting a space group on an indexer stores that number, its Laue id and the operators of that Laue id', 3)
    q = 'pyebsdindex.tripletvote.BandIndexer.setspacegroup'
    f = ctx.func(q)
    p = f.params()[1]
    for n in range(1, 231):
        it = ctx.analyse(q, args={p: n}, unroll=600, boundary={CS + '.laueid2symops'})
        st = it.state
        sg = it.getattr(it.self, 'spacegroup', st)
        lc = tofloat(it.getattr(it.self, 'lauecode', st))
        ops = it.getattr(it.self, 'qsymops', st)
        if tofloat(sg) not in (None, float(n)):
            ctx.bad(R, 'setspacegroup-spacegroup', f.loc(), 'spacegroup attribute becomes %s for %d' % (show(sg, 4), n))
        elif lc is not None and lc != laue(n):
            ctx.bad(R, 'setspacegroup-lauecode', f.loc(), 'lauecode becomes %s for space group %d (want %d)' % (lc, n, laue(n)))
        else:
            a = tofloat(ops.args[1][0][1]) if ops.op == 'ret' and ops.args[0].endswith('laueid2symops') else None
            if a is not None and a != laue(n):
                ctx.bad(R, 'setspacegroup-qsymops', f.loc(), 'operators of Laue id %s are used for space group %d' % (a, n))
            elif a is None or lc is None or tofloat(sg) is None:
                ctx.und(R, 'sg%d' % n, 'not constant: %s %s %s' % (show(sg, 3), lc, show(ops, 3)))
            else:
                ctx.ok(R, 'sg%d' % n)


def r_symops(ctx):
    R = ctx.rule('sg-to-symops', 'the space-group shortcut returns the operators of the space group\'s own Laue id', 230)
    q = CS + '.spacegroupnum2symops'
    f = ctx.func(q)
    p = f.params()[0]
    for n in range(1, 231):
        r = ctx.analyse(q, args={p: n}, unroll=600, boundary={CS + '.laueid2symops'}).result
        a = tofloat(r.args[1][0][1]) if r.op == 'ret' and r.args[0].endswith('laueid2symops') else None
        if a is None:
            ctx.und(R, 'sg%d' % n, show(r, 4))
        else:
            ctx.verdict(a == laue(n), R, 'sg%d' % n, f.loc(), 'space group %d gets the operators of Laue id %s, want %d' % (n, a, laue(n)))
