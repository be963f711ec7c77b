"""Shared: what the result-file writers write, as terms.  A scan of a few points with opaque field values is handed to the writer; the text
of a .ang file is collected as a sequence of literal text and value terms and split into header entries and columns, the datasets of a .oh5
file are collected by name."""
from sa.ctx import *
from sa.term import rebuild, subterms, subst
from sa.evalt import Valuation, Unknown, close
E = 'pyebsdindex.ebsdfile.'
EUL = 'pyebsdindex.rotlib.qu2eu'
FIELDS = ('iq', 'pq', 'cm', 'phase', 'fit', 'nmatch', 'totvotes')


class Scan:
    def __init__(self, ctx, writer, nph=2, n=5, ncols=None, nrows=None, fid=None, version=None, laue=43):
        self.n, self.nph = n, nph
        self.layers = []
        for k in range(nph + 1):
            fs = {}
            for f in FIELDS:
                fs[f] = [sym('%s%d_%d' % (f, k, i)) for i in range(n)]
                for x in fs[f]:
                    declare_scalar(x)
            fs['quat'] = [mk('list', *[sym('quat%d_%d_%d' % (k, i, j)) for j in range(4)]) for i in range(n)]
            self.layers.append(fs)
        L = [mk('dict', *[(const(f), mk('list', *v)) for f, v in fs.items()]) for fs in self.layers]
        data = mk('list', *L)
        ix = sym('indexer')
        self.ph = [sym('phase%d' % i) for i in range(nph)]
        heap = {('a', ix, 'phaseLib'): mk('list', *self.ph), ('a', data, 'shape'): mk('tuple', const(nph + 1), const(n))}
        for k, l in enumerate(L):
            heap[('a', l, 'shape')] = mk('tuple', const(n))
            for f in self.layers[k]:
                pass
        self.lat, self.poles = [], []
        w = 4 if laue == 62 else 3
        for k, p in enumerate(self.ph):
            lat = [sym('lat%d_%d' % (k, i)) for i in range(6)]
            pol = [[sym('hkl%d_%d_%d' % (k, f, j)) for j in range(w)] for f in range(2)]
            for x in lat + sum(pol, []):
                declare_scalar(x)
            for x in sum(pol, []):
                declare_int(x)
            self.lat.append(lat)
            self.rawpoles = getattr(self, 'rawpoles', []) + [pol]
            self.poles.append([[r[0], r[1], r[-1]] for r in pol])
            heap.update({('a', p, 'npolefamilies'): const(2), ('a', p, 'latticeparameter'): mk('tuple', *lat), ('a', p, 'lauecode'): const(laue),
                         ('a', p, 'polefamilies'): mk('list', *[mk('list', *r) for r in pol])})
        self.step = [sym('dx'), sym('dy')]
        for x in self.step:
            declare_scalar(x)
        heap[('a', ix, 'fID')] = NONE
        if fid:
            f = sym('fid')
            self.step = [const(0), const(0)] if fid.get('step') == 0 else [const(fid['xstep']), const(fid['ystep'])] if 'xstep' in fid else self.step
            heap[('a', ix, 'fID')] = f
            for a, v in dict(xStep=self.step[0], yStep=self.step[1], nCols=const(fid['nCols']) if fid.get('nCols') else NONE, nRows=const(fid['nRows']) if fid.get('nRows') else NONE).items():
                heap[('a', f, a)] = v
            if fid.get('step') == 0:
                self.step = [sym('dx'), sym('dy')]
        self.ncols = ncols or (fid or {}).get('nCols') or 1
        self.eul = [[sym('eul%d_%d' % (i, j)) for j in range(3)] for i in range(n)]
        for r in self.eul:
            for x in r:
                declare_scalar(x)
        self.eulq = []

        def q2e(s, b):
            self.eulq.append(b.get('qu'))
            return mk('list', *[mk('list', *r) for r in self.eul])
        args = dict(filename=sym('filename'), indexer=ix, data=data, gridtype=const('SqrGrid'), xstep=sym('dx'), ystep=sym('dy'), ncols=const(ncols) if ncols else NONE, nrows=const(nrows) if nrows else NONE)
        if writer == 'writeoh5':
            args.update(version=const(version), datasetname=const('S'))
        self.f = ctx.func(E + writer)
        self.ix = ix

        def br(t, node):
            y = rebuild(t, lambda z: FALSE if z.op == 'is' and z.args[1] is NONE and z.args[0] in (ix, sym('fid')) else None)
            return True if y is TRUE else False if y is FALSE else None
        self.it = ctx.analyse(E + writer, args=args, heap=heap, lit=True, unroll=12, maxdepth=2, boundary={EUL}, returns={EUL: q2e}, branch=br)
        self.label = '%s%s phases=%d columns=%s%s' % (writer, ' ' + version if version else '', nph, ncols or 'unset', ' with file' if fid else '')
        best = self.layers[-1]
        self.best = best
        # do the orientations handed to the Euler conversion belong to the best-solution layer, in order?
        want = mk('list', *best['quat'])
        self.eulok = None if not self.eulq or any(q is None for q in self.eulq) else True if all(q is want for q in self.eulq) else \
            (False if all(q.op == 'list' and set(subterms(q)) and all(x.op in ('list', 'sym') for x in subterms(q)) for q in self.eulq) else None)

    def env(self, phases, seed=0):
        """numbers for everything opaque"""
        e = {}
        r = random.Random(seed + 17)
        for k, fs in enumerate(self.layers):
            for f in FIELDS:
                for i, x in enumerate(fs[f]):
                    e[x] = r.uniform(.1, 2.9)
        for i, p in enumerate(phases):
            e[self.best['phase'][i]] = p
        for row in self.eul + self.lat:
            for x in row:
                e[x] = r.uniform(.1, 6)
        for fam in self.rawpoles:
            for row in fam:
                for j, x in enumerate(row):
                    e[x] = r.randint(-5, 9)
        for x in (sym('dx'), sym('dy')):
            e[x] = r.uniform(.1, 3)
        return e


def decide(got, want, env):
    """True/False/None; want a term or number"""
    if got is None:
        return None
    if isinstance(want, T) and got is want:
        return True
    try:
        v = Valuation(env=env)
        return close(v(got), v(want) if isinstance(want, T) else want)
    except (Unknown, RecursionError):
        return None


# ------------------------------------------------------------ text
PAD = ('rjust', 'ljust', 'center')


def pieces(t, out):
    """literal text and ('v', term) in order; None is a token boundary (padded fields)"""
    if t.op == 'const' and t.args[0] == 'str':
        out.append(t.args[1])
    elif t.op == 'fstr':
        for x in t.args:
            pieces(x, out)
    elif t.op == 'call' and t.args[0] == 'fmt':
        out.append(('v', t.args[1][0]))
    elif t.op == 'call' and t.args[0] == 'join':
        sep, seq = t.args[1][0], t.args[1][1]
        if sep.op != 'const' or seq.op not in ('list', 'tuple'):
            out.append(('?', t))
            return
        for i, x in enumerate(seq.args):
            if i:
                pieces(sep, out)
            pieces(x, out)
    elif t.op == 'mcall' and t.args[1] in PAD:
        out.append(None)
        pieces(t.args[0], out)
        out.append(None)
    elif t.op == 'ite':
        out.append(('v', t))
    else:
        out.append(('v', t))


def lines(it):
    """lines of tokens (text or term) written to the file, in order; a condition or loop that is not resolved raises"""
    out = []
    for e in it.events:
        if e.kind == 'call' and e.name == '.write':
            if e.loops or any(p is not TRUE for p in e.pc):
                raise AnalysisError('a line is written under an unresolved condition or loop at ' + str(e.loc))
            pieces(it.deep(it.V(e.args[0], it.state), it.state.heap) if not e.args[0].op == 'fstr' else e.args[0], out)
        elif e.kind == 'call' and e.name in ('.writelines', 'numpy.savetxt', 'print') and e.name != 'print':
            raise AnalysisError('text written by ' + e.name)
    res, line, tok = [], [], []

    def flush():
        if tok:
            line.append(tok[0] if len(tok) == 1 else ('mix', tuple(tok)))
            tok.clear()
    for p in out:
        if p is None:
            flush()
        elif isinstance(p, str):
            for ch in p:
                if ch in ' \t\r':
                    flush()
                elif ch == '\n':
                    flush()
                    res.append(list(line))
                    line.clear()
                elif tok and isinstance(tok[-1], str):
                    tok[-1] += ch
                else:
                    tok.append(ch)
        elif p[0] == 'v':
            tok.append(p[1])
        else:
            raise AnalysisError('unrecognised text')
    flush()
    if line:
        res.append(list(line))
    return res


def tokterm(x):
    if isinstance(x, T):
        return x
    if isinstance(x, str):
        try:
            return const(float(x)) if '.' in x else const(int(x))
        except ValueError:
            return None
    return None


class Ang:
    """header entries and data rows"""

    def __init__(self, scan):
        self.phases, self.keys, self.rows = [], {}, []
        for ln in lines(scan.it):
            if not ln:
                continue
            if ln[0] == '#' and len(ln) > 1:
                k = ln[1]
                if k == 'Phase' and len(ln) == 3:
                    self.phases.append(dict(number=tokterm(ln[2]), hklFamilies=[]))
                elif k == 'hklFamilies' and self.phases:
                    self.phases[-1]['hklFamilies'].append([tokterm(x) for x in ln[2:]])
                elif k in ('MaterialName', 'Symmetry', 'LatticeConstants', 'NumberFamilies') and self.phases:
                    self.phases[-1][k] = [tokterm(x) for x in ln[2:]]
                elif isinstance(k, str):
                    self.keys[k.rstrip(':')] = [tokterm(x) for x in ln[2:]]
            elif ln[0] != '#':
                self.rows.append([tokterm(x) for x in ln])


COLS = ('phi1', 'Phi', 'phi2', 'x', 'y', 'pq', 'ci', 'phase', 'signal', 'fit')


def oh5(scan):
    """dataset name (below the scan) -> value term"""
    out = {}
    it = scan.it
    for e in it.events:
        if e.kind == 'call' and e.name in ('.create_dataset', '.require_dataset') and e.args and e.args[0].op == 'const':
            if e.loops or any(p is not TRUE for p in e.pc):
                raise AnalysisError('a dataset is written under an unresolved condition or loop at ' + str(e.loc))
            v = e.kw.get('data', e.args[3] if len(e.args) > 3 else None)
            if v is not None:
                out[e.args[0].args[1].lstrip('/').removeprefix('S/')] = it.deep(it.V(v, it.state), it.state.heap)
        elif e.kind == 'store' and e.base.op == 'sym' and False:
            pass
    return out


def item(t, i):
    """element i of a vector term"""
    if t is None:
        return None
    if t.op == 'list':
        return t.args[i] if i < len(t.args) else None
    return mk('sel', t, const(i))
