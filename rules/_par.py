"""Shared: runs of the parallel scheduler over constant job sizes.  Everything the workers return stays symbolic."""
from sa.ctx import *
from sa.term import rebuild, subterms, contains, keytuple

M = 'pyebsdindex._ebsd_index_parallel.'
Q = M + 'index_pats_distributed'
S = 'pyebsdindex._ebsd_index_single.'
BOUND = {S + 'index_pats', S + 'EBSDIndexer.update_file', S + 'EBSDIndexer.__init__'}
TRIO = 3


class Run:
    """one scenario: total patterns, first pattern, count, chunk size and how patterns are handed in"""

    def __init__(self, ctx, total, start, n, chunk, mode='file', ncpu=2, get=None, lens=None, **k):
        self.total, self.start0, self.n0, self.chunk, self.mode = total, start, n, chunk, mode
        self.start = start if start >= 0 else total + start
        self.n = n if n > 0 else total - self.start
        self.n = min(self.n, total - self.start)
        idx, fid, arr = sym('idx'), sym('fid'), sym('pats')
        self.arr = arr
        heap = {('a', idx, 'fID'): fid, ('a', fid, 'nPatterns'): const(total)}
        shape = (total, 5, 7)
        h5 = mode.startswith('h5')
        if mode.endswith('2d'):
            shape = (5, 7)
        heap[('a', arr, 'shape')] = mk('tuple', *map(const, shape))
        obj = sym('patobj')
        heap[('a', obj, 'patterns')] = arr
        src = {'file': NONE, 'obj': obj}.get(mode, arr)
        args = dict(patsin=src, filename=sym('fname') if mode == 'file' else NONE, ebsd_indexer_obj=idx, patstart=const(start), npats=const(n), chunksize=const(chunk),
                    ncpu=const(ncpu), gpu_id=NONE, verbose=ZERO, keep_log=FALSE, return_indexer_obj=FALSE)
        notnone = (idx, sym('fname'), arr, obj)

        def truthval(z):
            if z.op == 'is' and z.args[1] is NONE and z.args[0] in notnone:
                return FALSE
            if z.op == 'is' and z.args[0].op == 'call' and z.args[0].args[0] == 'type' and z.args[0].args[1][0] in (arr, obj):
                c = z.args[1]
                return TRUE if c.op == 'ext' and c.args[0] == 'numpy.ndarray' and z.args[0].args[1][0] is arr and not h5 else FALSE
            if z.op == 'eq' and any(x.op == 'call' and x.args[0] == 'type' and x.args[1][0] in (arr, obj) for x in z.args):
                c = [x for x in z.args if x.op == 'ext']
                o = [x for x in z.args if x.op == 'call'][0].args[1][0]
                return TRUE if c and c[0].args[0] == 'numpy.ndarray' and o is arr and not h5 else FALSE
            return None

        def branch(t, node):
            y = rebuild(t, truthval)
            if y is TRUE:
                return True
            if y is FALSE:
                return False
            return lens(t, node, branch.it) if lens else None
        branch.it = None

        def isinst(it, recv, a, vals, kv, st, node):
            v = vals[0]
            names = [show(x, 4) for x in (vals[1].args if vals[1].op in ('tuple', 'list') else (vals[1],))]
            if v not in (arr, obj):
                return None
            for nm in names:
                if v is obj and 'EBSDPatterns' in nm:
                    return TRUE
                if v is arr and h5 and 'Dataset' in nm:
                    return TRUE
                if v is arr and not h5 and 'ndarray' in nm:
                    return TRUE
            return FALSE

        hooks = {'isinstance': isinst}
        if get:
            hooks['ray.get'] = get
        self.arr2d = mode.endswith('2d')
        self.it = it = ctx.analyse(Q, args=args, heap=heap, lit=True, exact_try=True, boundary=BOUND, branch=branch, maxdepth=3, hooks=hooks,
                                   returns={S + 'index_pats': lambda s, b: mk('tuple', sym('t1'), sym('t2'), idx)}, **k)
        self.label = '%s total=%d patstart=%d npats=%d chunksize=%d' % (mode, total, start, n, chunk)
        # which list holds tasks of which kind
        self.taskkind = {}
        self.remotes = [e for e in it.events if e.kind == 'remote']
        byres = {}
        for e in self.remotes:
            byres[e.result] = e.name.lstrip('.')
        self.byres = byres
        for e in it.events:
            v = e.d.get('value')
            if isinstance(v, T) and v in byres:
                b = e.d.get('base')
                if e.kind == 'mutate' and e.how == 'append' or e.kind == 'store':
                    self.taskkind.setdefault(b, set()).add(byres[v])
        self.waits = {e.result: e for e in it.events if e.kind == 'call' and e.name == 'ray.wait'}
        self.gets = [e for e in it.events if e.kind == 'call' and e.name == 'ray.get']

    def jobs(self):
        return [e for e in self.it.events if e.kind == 'new' and e.cls.endswith('CPUGPUJob')]

    def first_jobs(self):
        return [e for e in self.jobs() if not e.loops]

    def taskof(self, wrker):
        """the kind of worker whose task this is"""
        out = set()
        for x in subterms(wrker):
            if x in self.waits:
                for o in self.waits[x].args:
                    out |= self.taskkind.get(o, set())
        return out

    def rootobjs(self):
        """objects returned: index data, band data"""
        for k, st, v, nd in self.it.frame.exits:
            if k == 'return':
                v = self.it.V(v, st) if v.op != 'tuple' else v
                if v.op == 'tuple' and len(v.args) >= 2:
                    return v.args[0], v.args[1]
        return None


def allocof(it, obj):
    """the shape an array object was allocated with"""
    for k, st, v, nd in it.frame.exits:
        if k == 'return':
            d = it.deep(it.V(obj, st), st.heap)
            while d.op != 'call' and d.args and isinstance(d.args[0], T):
                d = d.args[0]
            if d.op == 'call' and d.args[0] == 'alloc':
                s = d.args[1][1]
                if isinstance(s, T):
                    s = s.args if s.op in ('tuple', 'list') else (s,)
                return s
    return None


def roles(ctx):
    """what position of a worker's answer carries what: {worker method: ({role: index}, exits)}"""
    out = {}
    for cls, meth in (('GPUWorker', 'findbands'), ('CPUWorker', 'indexpoles')):
        q = M + cls + '.' + meth
        need(q in ctx.prog.funcs, q + ' not found')
        it = ctx.analyse(q, exact_try=True, boundary={S + 'EBSDIndexer._getpats', S + 'EBSDIndexer._detectbands', S + 'EBSDIndexer._indexbandsphase', M + 'CPUGPUJob._starttime', M + 'CPUGPUJob._endtime'},
                         maxdepth=3)
        out[meth] = it
    return out
