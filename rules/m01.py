"""No public operation writes into what its caller handed over.  Every function of the package is followed once with its callees replaced by
effect summaries, to a fixpoint (sa/effects.py): element stores, in-place operators, mutating methods and output arrays are attributed to the
origin of the written object -- a parameter, an attribute, or something the function made -- through views, aliasing calls and returns.
A parameter of a public entry must never be such an origin, nor a mutable default value, nor an attribute that keeps a caller's object."""
import ast
from sa.ctx import *
from sa.effects import Effects
P = 'pyebsdindex.'
ENTRIES = [P + x for x in (
    '_ebsd_index_single.index_pats', '_ebsd_index_single.EBSDIndexer.__init__', '_ebsd_index_single.EBSDIndexer.update_file', '_ebsd_index_single.EBSDIndexer.index_pats', '_ebsd_index_single.EBSDIndexer.getmatchedpole',
    '_ebsd_index_parallel.index_pats_distributed', 'band_detect.BandDetect.__init__', 'band_detect.BandDetect.band_detect_setup', 'band_detect.BandDetect.collect_background', 'band_detect.BandDetect.find_bands',
    'opencl.band_detect_cl.BandDetect.find_bands', 'radon_fast.Radon.__init__', 'radon_fast.Radon.radon_plan_setup', 'radon_fast.Radon.radon_fast', 'radon_fast.Radon.radon_faster',
    'pcopt.optimize', 'pcopt.optimize_pso', 'ebsd_pattern.get_pattern_file_obj', 'ebsd_pattern.pat_flt2int', 'ebsd_pattern.EBSDPatternFile.read_data', 'ebsd_pattern.EBSDPatternFile.write_data', 'ebsd_pattern.EBSDPatternFile.set_scan_rc',
    'ebsdfile.writeang', 'ebsdfile.writeoh5', 'EBSDImage.IPFcolor.makeipf', 'EBSDImage.IPFcolor.qu2ipf_cubic', 'EBSDImage.IPFcolor.ipf_color_cubic', 'EBSDImage.IPFcolor.qu2ipf_hex', 'EBSDImage.IPFcolor.ipf_color_hex',
    'EBSDImage.scalarimage.scalarimage', 'EBSDImage.micronbar.addmicronbar', 'tripletvote.addphase', 'tripletvote.BandIndexer.__init__', 'tripletvote.BandIndexer.bandindex', 'tripletvote.BandIndexer.setlatticeparameter',
    'tripletvote.BandIndexer.setpolefamilies', 'nlpar_cpu.NLPAR.__init__', 'nlpar_cpu.NLPAR.setfile', 'nlpar_cpu.NLPAR.setoutfile', 'nlpar_cpu.NLPAR.opt_lambda', 'nlpar_cpu.NLPAR.calcnlpar', 'nlpar_cpu.NLPAR.calcsigma',
    'opencl.nlpar_cl.NLPAR.calcnlpar_cl', 'opencl.nlpar_cl.NLPAR.calcsigma_cl', 'opencl.nlpar_clray.NLPAR.calcnlpar_clray', 'opencl.nlpar_clray.NLPAR.calcsigma_clray')]
WRITERS = ('pat_writer', 'write_header', 'write_data', 'copy_file')
# the array one stage of band detection hands to the next is the library's own: written on purpose
OWN = {}
ASSUMES = ['NumPy, h5py and other external calls do not write into their arguments, except through out=, copyto, put, place, putmask, shuffle and mutating methods',
           'basic indexing, reshape, ravel, squeeze, transpose, asarray and similar calls may return views; index arrays and masks copy',
           'a worker process receives copies of its arguments']
_E = {}


def effects(ctx):
    k = id(ctx.prog)
    if k not in _E:
        _E[k] = Effects(ctx.prog, skip=lambda q: '.tests.' in q)
    return _E[k]


def mutable(node):
    return isinstance(node, (ast.List, ast.Dict, ast.Set, ast.ListComp)) or isinstance(node, ast.Call)


def defaults(f):
    a = f.node.args
    ps = a.posonlyargs + a.args
    for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
        yield p.arg, d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            yield p.arg, d


def r_entries(ctx):
    R = ctx.rule('arguments', 'no argument of a public operation is written in place', 200)
    E = effects(ctx)
    ent = [q for q in ENTRIES if q in E.sum]
    for q in E.sum:
        if q.startswith(P + 'ebsd_pattern.') and q.rsplit('.', 1)[-1] in WRITERS and q not in ent:
            ent.append(q)
    for q in ENTRIES:
        if q not in E.sum:
            ctx.und(R, q, 'not found')
    for q in ent:
        f = ctx.prog.funcs[q]
        s = E.sum[q]
        if q in E.errors:
            ctx.und(R, q, E.errors[q])
            continue
        for p in f.params():
            if p == 'self':
                continue
            w = [(line, how) for o, line, how in E.writes.get(q, ()) if o == ('param', p)]
            ctx.verdict(not w, R, '%s(%s)' % (q.replace(P, '', 1), p), '%s:%d' % (f.module.path, w[0][0] if w else f.node.lineno), 'the caller\'s %s %s' % (p, w[0][1]) if w else '')
    ctx.analysed |= set(E.sum)


def r_defaults(ctx):
    R = ctx.rule('defaults', 'no mutable default value is written in place', 15)
    E = effects(ctx)
    for q in E.sum:
        f = ctx.prog.funcs[q]
        for p, d in defaults(f):
            if not mutable(d):
                continue
            w = [(line, how) for o, line, how in E.writes.get(q, ()) if o == ('param', p)]
            ctx.verdict(not w, R, '%s(%s)' % (q.replace(P, '', 1), p), '%s:%d' % (f.module.path, w[0][0] if w else f.node.lineno), 'the default value of %s %s' % (p, w[0][1]) if w else '')


def r_kept(ctx):
    R = ctx.rule('kept', 'an argument that is kept in an attribute is not written in place later', 20)
    E = effects(ctx)
    for a, held in sorted(E.attrheld.items()):
        held = [(q, p) for q, p in held if p in E.arr[q] or a in ('PC', 'phaselist', 'patternmask', 'patternmaskindex', 'clparams', 'start', 'bounds', 'lam', 'searchradius', 'dthresh')]
        held = held or E.attrheld[a]
        mut = E.attrmut.get(a, [])
        mod = {q.rsplit('.', 2)[0] for q, p in held}
        mut = [(q, l) for q, l in mut if q.rsplit('.', 2)[0] in mod or q.rsplit('.', 1)[0] in mod]
        f = ctx.prog.funcs[mut[0][0]] if mut else ctx.prog.funcs[held[0][0]]
        ctx.verdict(not mut, R, a, '%s:%d' % (f.module.path, mut[0][1] if mut else f.node.lineno), 'attribute %s holds the %s given to %s and is written in place by %s' % (a, held[0][1], held[0][0].replace(P, '', 1), mut[0][0].replace(P, '', 1)) if mut else '')


RULES = [r_entries, r_defaults, r_kept]
