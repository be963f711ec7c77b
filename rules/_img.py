"""Shared: the map images as value flow.  makeipf / scalarimage are followed with opaque phases and data, and the extracted image term is
given small arrays (one recognisable colour per point and phase) to see which point and phase each pixel shows."""
import numpy as np
from sa.ctx import *
from sa.term import subterms
from sa.evalt import Unknown
from sa.npeval import NV, SArr, same
I = 'pyebsdindex.EBSDImage.'
CUB, HEX = I + 'IPFcolor.qu2ipf_cubic', I + 'IPFcolor.qu2ipf_hex'
VEC = np.array([.1, .2, .9])


class Ipf:
    def __init__(self, ctx, laues, xsize=None, ysize=None, ncols=None, extra=None):
        self.laues = laues
        ix, data = sym('indexer'), sym('ebsddata')
        self.data = data
        ph = [sym('phase%d' % i) for i in range(len(laues))]
        heap = {('a', ix, 'phaseLib'): mk('list', *ph), ('a', ix, 'fID'): sym('fid'), ('a', sym('fid'), 'nCols'): const(ncols) if ncols else sym('nCols')}
        for p, l in zip(ph, laues):
            heap[('a', p, 'lauecode')] = const(l)
        args = dict(ebsddata=data, indexer=ix, vector=sym('vector'), xsize=NONE if xsize is None else const(xsize), ysize=NONE if ysize is None else const(ysize))
        args.update(addmicronbar=FALSE, graychannel=NONE)
        args.update(extra or {})
        self.f = ctx.func(I + 'IPFcolor.makeipf')
        self.calls = []

        def col(kind):
            def r(s, b):
                vs = [b.get(p) for p in ctx.func(CUB if kind == 'cubic' else HEX).params()]
                self.calls.append((kind, vs))
                return mk('call', 'ipf_' + kind, tuple(v if v is not None else mk('sym', 'default_vector') for v in vs), ())
            return r
        self.it = ctx.analyse(I + 'IPFcolor.makeipf', args=args, heap=heap, boundary={CUB, HEX, I + 'micronbar.addmicronbar', I + 'scalarimage.scalarimage'}, returns={CUB: col('cubic'), HEX: col('hex')})
        self.result = self.it.deep(self.it.V(self.it.result, self.it.state), self.it.state.heap)

    def colour(self, kind, layer, i):
        """the colour the (opaque) colour function gives the orientation of point i in a layer"""
        s = (0.11 if kind == 'cubic' else 0.57) + 0.013 * layer + 0.0007 * i
        return np.array([s, s + .2, s + .4])

    def value(self, phases, unindexed_fit=180.0):
        n = len(phases)
        L = len(self.laues) + 1
        q = np.zeros((L, n, 4))
        for l in range(L):
            for i in range(n):
                p = phases[i] if l == L - 1 else l
                q[l, i] = [p if l == L - 1 else l, i, l == L - 1, 0]
        fit = np.full((L, n), .7)
        nm = np.full((L, n), 6)
        ph = np.zeros((L, n), int)
        for l in range(L - 1):
            ph[l] = l
        ph[-1] = phases
        for i, p in enumerate(phases):
            if p < 0:
                fit[:, i] = unindexed_fit
                nm[:, i] = 0
                ph[:, i] = -1
            for l in range(L - 1):             # the other phases need not have a solution
                if p >= 0 and l != p and (i + l) % 2 == 0:
                    fit[l, i], nm[l, i], ph[l, i] = unindexed_fit, 0, -1
        d = SArr((L, n), dict(quat=q, fit=fit, nmatch=nm, phase=ph, cm=np.full((L, n), .5), iq=np.full((L, n), 3.), pq=np.full((L, n), 4.)))

        def f(kind):
            def g(quats, vector):
                if same(vector, VEC) is False:
                    return np.full((len(quats), 3), np.nan)
                return np.array([self.colour(kind, int(x[0]), int(x[1])) for x in np.asarray(quats).reshape(-1, 4)])
            return g
        nv = NV(env={self.data: d, sym('vector'): VEC, sym('default_vector'): np.array([9., 9, 9]), sym('nCols'): 3}, funcs={'ipf_cubic': f('cubic'), 'ipf_hex': f('hex')})
        return np.asarray(nv(self.result), float)

    def expect(self, phases, xs, ys):
        out = np.zeros((xs * ys, 3))
        for i, p in enumerate(phases[:xs * ys]):
            if p >= 0:
                k = {43: 'cubic', 62: 'hex'}.get(self.laues[p])
                out[i] = self.colour(k, p, i) if k else 1.0
        return out.reshape(ys, xs, 3)


class Scalar:
    """scalarimage: what is normalised and how"""

    def __init__(self, ctx, field, **kw):
        ix, data = sym('indexer'), sym('ebsddata')
        self.data = data
        heap = {('a', ix, 'fID'): sym('fid'), ('a', sym('fid'), 'nCols'): const(kw.pop('ncols', 3))}
        args = dict(ebsddata=data, indexer=ix, datafield=const(field), xsize=NONE, ysize=NONE, addmicronbar=FALSE, norescalegray=FALSE, rescalenice=FALSE, cmap=const('viridis'), datafieldindex=ZERO)
        args.update(kw)
        self.f = ctx.func(I + 'scalarimage.scalarimage')
        self.it = ctx.analyse(I + 'scalarimage.scalarimage', args=args, heap=heap, boundary={I + 'micronbar.addmicronbar'})
        self.norms = [e for e in self.it.events if e.kind == 'call' and e.name and e.name.endswith('Normalize')]
        self.result = self.it.deep(self.it.V(self.it.result, self.it.state), self.it.state.heap)

    def num(self, t, phases, fits, seed=0):
        n = len(phases)
        r = np.random.RandomState(seed)
        f = np.array([fits[i] if phases[i] >= 0 else 180.0 for i in range(n)])
        d = SArr((2, n), dict(fit=np.stack([f, f]), phase=np.stack([phases] * 2), pq=r.uniform(1, 9, (2, n)), iq=r.uniform(1, 9, (2, n)), cm=r.uniform(0, 1, (2, n)), nmatch=r.randint(3, 9, (2, n))))
        return NV(env={self.data: d})(self.it.deep(self.it.V(t, self.it.state), self.it.state.heap))
