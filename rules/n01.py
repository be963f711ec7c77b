"""NLPAR never writes to its input file.  The set-up of the output file, the pattern-file classes and the file look-up are followed on a model
of a file system (sa/vfs.py) for many ways of naming input and output (same text, relative, through links, ~, default names, lists with an
HDF5 path) and every file class; the receiver of every pattern write in the NLPAR classes is traced to the output file object."""
import ast
from sa.ctx import *
from sa.vfs import VFS, vp, text
from sa.term import subterms
P = 'pyebsdindex.'
EP = P + 'ebsd_pattern.'
CPU, CL, RAY = P + 'nlpar_cpu.NLPAR', P + 'opencl.nlpar_cl.NLPAR', P + 'opencl.nlpar_clray.NLPAR'
ASSUMES = ['paths follow POSIX rules; shutil.copyfile refuses to copy a file onto itself and os.path.samefile compares files, not names (documented behaviour)',
           'the name NLPAR chooses when none is given is not itself a link to the input file']
EXT = {'UPFile': '.up1', 'EBSPFile': '.ebsp', 'TFPatFile': '.pat', 'EDAXOH5': '.oh5', 'KIKUCHIPYH5': '.h5', 'BRUKERH5': '.h5', 'OXFORDOINA': '.h5oina'}
CHANGES = ('write', 'truncate', 'append', 'remove', 'rename', 'touch', 'create')


def fileclasses(ctx):
    base = ctx.prog.cls(EP + 'EBSDPatternFile')
    out = []
    for q, c in sorted(ctx.prog.classes.items()):
        if q.startswith(EP) and c is not base and base in ctx.prog.mro(c) and ctx.prog.method(c, 'pat_reader') is not None:
            out.append(c)
    return [c for c in out if not any(c is not d and c in ctx.prog.mro(d) for d in out)]


def scenarios(ext):
    """(label, the input's name, the output name or None, its HDF5 path, links)"""
    D, H = '/data/scan' + ext, '/home/u/scan' + ext
    out = []
    links = {'/work/link' + ext: D, '/sdir': '/data', '/work/rel' + ext: '../data/scan' + ext}
    for lab, o in (('default', None), ('same', D), ('relative', '../data/scan' + ext), ('dotted', '/data/./x/../scan' + ext), ('link', '/work/link' + ext), ('relative-link', 'rel' + ext),
                   ('linked-directory', '/sdir/scan' + ext), ('hard-link', '/work/hard' + ext), ('new', '/work/new' + ext), ('new-in-place', '/data/scan2' + ext),
                   ('other', '/data/other' + ext), ('other-type', '/work/new.up2'), ('upper-case', '/data/SCAN' + ext)):
        out.append((lab, D, o, None, links))
    for lab, i, o in (('default,relative-input', '../data/scan' + ext, None), ('same,relative-input', '../data/scan' + ext, D), ('default,linked-input', '/work/link' + ext, None),
                      ('link,linked-input', '/work/link' + ext, D), ('same-link', '/work/link' + ext, '/work/link' + ext), ('default,home-input', H, None), ('home', H, '~/scan' + ext),
                      ('home,home-input', '~/scan' + ext, '~/scan' + ext), ('new,home', H, '~/new' + ext),
                      ('default,own-output', '/data/scan_NLPAR_l0.70sr3' + ext, None), ('same,own-output', '/data/scan_NLPAR_l0.70sr3' + ext, '/data/scan_NLPAR_l0.70sr3' + ext)):
        out.append((lab, i, o, None, links))
    for lab, o in (('same,path', D), ('new,path', '/work/new' + ext), ('link,path', '/work/link' + ext)):
        out.append((lab, D, o, '/scan2', links))
    return out


def vfs(ext, links):
    D, H, T1 = '/data/scan' + ext, '/home/u/scan' + ext, '/data/scan_NLPAR_l0.70sr3' + ext
    f = {D: 1, '/work/hard' + ext: 1, H: 2, T1: 3, '/data/other' + ext: 4, '/data/scan.ebsd': 5, '/data/x/y': 6}
    return VFS(f, links)


def where(nd, ctx, q):
    f = ctx.prog.funcs.get(q)
    return f.loc() if nd is None or f is None else '%s:%d' % (f.module.path, getattr(nd, 'lineno', 0))


def instance(ctx, cls, path, V, h5):
    """the file object the constructor of a class makes for a path"""
    m = ctx.prog.method(cls, '__init__')
    p = mk('list', path, h5) if h5 is not None else path
    it = ctx.analyse(m.qual, selfcls=cls.qual, args={m.params()[1]: p}, hooks=V.hooks(), hard_raise=True, boundary={x for x in ctx.prog.funcs if x.endswith('.read_header') or x.endswith('.get_data_paths')})
    h = {k: it.deep(it.V(v, it.state), it.state.heap) for k, v in it.state.heap.items() if k[0] == 'a' and k[1] is it.self}
    for k, v in (('h5patdatpth', '/Scan 1/EBSD/Data/Pattern'), ):
        if h.get(('a', it.self, k)) in (None, NONE) and ctx.prog.method(cls, 'set_data_path') is not None:
            h[('a', it.self, k)] = const(v)
    h[('a', it.self, 'filePos')] = const(42)
    return it.self, h


class Case:
    pass


def setup(ctx, ncls, cls, sc):
    lab, i, o, h5, links = sc
    ext = EXT[cls.qual.rsplit('.', 1)[-1]]
    V = vfs(ext, links)
    src = V.ino(V.expand(i))
    pf, h = instance(ctx, cls, vp(i), V, None)
    V.log.clear()
    fo = NONE if o is None else (const(o) if h5 is None else mk('list', const(o), const(h5)))
    q = ctx.prog.method(ctx.prog.cls(ncls), 'setoutfile')
    selfv = {'lam': const(0.7), 'searchradius': const(3), 'filepath': vp(i), 'hdfdatapath': NONE, 'filepathout': NONE, 'hdfdatapathout': NONE, 'nrows': NONE, 'ncols': NONE}
    it = ctx.analyse(q.qual, selfcls=ncls, selfattrs=selfv, args={q.params()[1]: pf, q.params()[2]: fo}, heap=h, hooks=V.hooks(), hard_raise=True)
    c = Case()
    c.V, c.src, c.it, c.q = V, src, it, q
    c.ret = [x for x in it.frame.exits if x[0] == 'return']
    c.exc = [x for x in it.frame.exits if x[0] == 'raise']
    return c


def touched(V, src):
    return [(w, s, nd) for w, i, s, nd in V.log if i == src and (w in CHANGES or w.startswith('open ') and 'w' in w)]


def r_setup(ctx):
    R = ctx.rule('setup', 'setting up the output never writes to the input file and never ends with the input file as output', 60)
    lens = {CPU: None}
    for n in (CL, RAY):
        m = ctx.prog.method(ctx.prog.cls(n), 'setoutfile')
        if m is not ctx.prog.method(ctx.prog.cls(CPU), 'setoutfile'):
            lens[n] = None
    for ncls in lens:
        for cls in fileclasses(ctx):
            nm = cls.qual.rsplit('.', 1)[-1]
            if nm not in EXT:
                ctx.und(R, nm, 'file class without a scenario')
                continue
            fine = 0
            for sc in scenarios(EXT[nm]):
                con = '%s:%s:%s' % (ncls.split('.')[-2], nm, sc[0])
                c = setup(ctx, ncls, cls, sc)
                t = touched(c.V, c.src)
                if t:
                    ctx.bad(R, con, where(t[0][2], ctx, c.q.qual), 'input %s, output %s: the input file is changed (%s) while the output is set up' % (sc[1], sc[2], t[0][0]))
                    continue
                if c.V.lost:
                    ctx.und(R, con, 'a file operation on a name that is not known: %s' % (c.V.lost[0],))
                    continue
                if not c.ret and getattr(c.it, 'fell', None) is None and c.exc:
                    ctx.ok(R, con, 'refused')
                    continue
                st = c.it.state
                p = st.heap.get(('a', c.it.self, 'filepathout'))
                p = c.it.V(p, st) if p is not None else None
                s = text(p)
                if p is None or p is NONE:
                    ctx.ok(R, con, 'no output')
                    continue
                if s is None:
                    ctx.und(R, con, 'output path %s' % show(p, 3))
                    continue
                if c.V.ino(s) == c.src or c.V.real(c.V.expand(s)) == c.V.real(c.V.expand(sc[1])):
                    ctx.bad(R, con, c.q.loc(), 'input %s, output %s: NLPAR writes its patterns to %s, which is the input file' % (sc[1], sc[2], s))
                    continue
                ctx.ok(R, con, s)
                fine += 1
            if fine == 0:
                ctx.und(R, ncls + nm, 'no scenario was followed to an output file')


def objname(it, v, st):
    """the path of a file object, from its constructor argument"""
    p = st.heap.get(('a', v, 'filepath'))
    return text(it.V(p, st)) if p is not None else None


def r_objects(ctx):
    R = ctx.rule('objects', 'the output object opens the output path and no other; without an output path there is no output object', 12)
    quiet = {x for x in ctx.prog.funcs if x.startswith(EP) and x.rsplit('.', 1)[-1] in ('read_header', 'get_data_paths', 'set_data_path')}
    for ncls in (CPU, CL, RAY):
        for ext in ('.up1', '.ebsp', '.pat', '.oh5', '.h5oina'):
            for lab, out in (('set', '/work/new' + ext), ('unset', None)):
                con = '%s:%s:%s' % (ncls.split('.')[-2], ext[1:], lab)
                V = vfs(ext, {})
                V.files['/work/new' + ext] = 50
                m = ctx.prog.method(ctx.prog.cls(ncls), 'getoutfileobj')
                it = ctx.analyse(m.qual, selfcls=ncls, hooks=V.hooks(), hard_raise=True, boundary=quiet,
                                 selfattrs={'filepath': vp('/data/scan' + ext), 'hdfdatapath': NONE, 'filepathout': NONE if out is None else vp(out), 'hdfdatapathout': NONE, 'nrows': const(4), 'ncols': const(5)})
                t = touched(V, 1)
                if t:
                    ctx.bad(R, con, where(t[0][2], ctx, m.qual), 'getting the output object changes the input file (%s)' % t[0][0])
                    continue
                rets = [x for x in it.frame.exits if x[0] == 'return']
                if not rets:
                    ctx.verdict(True if out is None else None, R, con, m.loc(), 'no normal exit')
                    continue
                for k, st, v, nd in rets:
                    v = it.V(v, st) if v.op == 'obj' else v
                    if v is NONE:
                        ctx.verdict(True if out is None else None, R, con, m.loc(), 'no output object although an output path is set')
                        continue
                    s = objname(it, v, st)
                    if s is None:
                        ctx.und(R, con, 'output object %s' % show(v, 3))
                    elif V.ino(V.expand(s)) == 1:
                        ctx.bad(R, con, where(nd, ctx, m.qual), 'the output file object refers to the input file %s' % s)
                    else:
                        ctx.ok(R, con, s)


WRITES = ('write_data', 'pat_writer', 'write_header', 'file_from_pattern_obj')
RAW = ('tofile', 'copyfile', 'copy2', 'memmap', 'save', 'savez', 'write_bytes', 'unlink', 'rename', 'remove', 'replace', 'move', 'File')


def nlmod(q):
    return q.startswith((P + 'nlpar', P + 'opencl.nlpar'))


def calls(f):
    return [(n, n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')) for n in ast.walk(f.node) if isinstance(n, ast.Call)]


def outcalls(it):
    return [e for e in it.events if e.kind == 'call' and hasattr(e.d.get('callee'), 'qual') and e.d['callee'].qual.rsplit('.', 1)[-1] == 'getoutfileobj']


def srcs(it, t, st=None, d=0):
    """what a term can be: the choices of a conditional"""
    if t is None or d > 8:
        return []
    if t.op == 'ite':
        return srcs(it, t.args[1], st, d + 1) + srcs(it, t.args[2], st, d + 1)
    return [t]


def isout(t, names):
    """the term is the output object: result of getoutfileobj, or an attribute that only ever holds one"""
    if t.op == 'ret' and str(t.args[0]).endswith('.getoutfileobj'):
        return True
    if t.op == 'attr' and t.args[1] in names:
        return True
    if t.op == 'ret' and str(t.args[0]).endswith('.getinfileobj') or t.op == 'attr' and t.args[1] == 'patternfile':
        return False
    return None


KNOWN = set('''_calcchunks auto_nlpar automask backsub calcnlpar calcsigma getinfileobj getoutfileobj nlpar_nb opt_lambda setfile setoutfile sigma_numba calcnlpar_cl calcnlpar_cpu
calcsigma_cl calcsigma_cpu opt_lambda_cl opt_lambda_cpu _nlparchunkcalc_cl _sigmachunkcalc_cl calcnlpar_clray calcnlpar_clsq calcsigma_clray calcsigma_clsq runnlpar_chunk runsigma_chunk
get_context get_gpu get_platform get_queue'''.split())


def r_receiver(ctx):
    R = ctx.rule('receiver', 'every pattern write in the NLPAR classes goes to the object of the output file, made after that file has been set up for this input', 6)
    B = {q for q in ctx.prog.funcs if q.startswith((P + 'nlpar', P + 'opencl')) and q.rsplit('.', 1)[-1] in KNOWN or q.startswith((EP, P + 'opencl.openclparam'))}
    names, bads = {'patternfileout'}, []
    its = {}
    fs = [f for q, f in sorted(ctx.prog.funcs.items()) if nlmod(q) and f.qual.rsplit('.', 1)[-1] not in ('setoutfile', 'setfile', '__init__')]
    # attributes that hold the output object
    for f in fs:
        cs = calls(f)
        if any(n in WRITES or n in ('getoutfileobj', 'copy_file') or n in RAW and n not in ('remove', 'replace', 'move') for _, n in cs) or 'patternfileout' in ast.dump(f.node):
            its[f.qual] = ctx.analyse(f.qual, boundary=B - {f.qual}, grown=True)
    for f in fs:
        it = its.get(f.qual)
        if it is None:
            continue
        sname = f.qual[len(P):]
        for e in it.events:
            if e.kind == 'setattr' and e.d['name'] in names:
                for t in srcs(it, it.V(e.d['value'], it.state)):
                    v = True if t is NONE else isout(t, names)
                    ctx.verdict(v, R, sname + ':' + e.d['name'], where(e.node, ctx, f.qual), 'the output object is set to %s' % show(t, 3))
            if e.kind != 'call' or not e.d.get('name'):
                continue
            n = e.d['name'].rsplit('.', 1)[-1]
            if n in WRITES and (e.d.get('recv') is not None or hasattr(e.d.get('callee'), 'qual') and e.d['args']):
                r = e.d.get('recv') if e.d.get('recv') is not None else e.d['args'][0]
                for t in srcs(it, it.V(r, it.state) if r.op == 'obj' else r):
                    ctx.verdict(isout(t, names), R, sname + ':' + n, where(e.node, ctx, f.qual), 'patterns are written to %s, which is not the output file object' % show(t, 3))
            elif n in RAW and n not in ('remove', 'replace', 'move') and e.d.get('recv') is None and not hasattr(e.d.get('callee'), 'qual'):
                ctx.und(R, sname + ':' + n, 'a file operation outside the pattern-file classes')
            elif n == 'copy_file':
                ctx.und(R, sname + ':' + n, 'a file is copied outside setoutfile')
        seen = {}
        for e in it.events:
            if e.kind == 'call' and hasattr(e.d.get('callee'), 'qual') and e.d['callee'].qual.rsplit('.', 1)[-1] in ('setfile', 'getinfileobj', 'setoutfile', 'getoutfileobj'):
                seen.setdefault(e.d['callee'].qual.rsplit('.', 1)[-1], []).append(e)
        if 'getoutfileobj' not in seen:
            continue
        con = sname + ':order'
        pos = {id(e): i for i, e in enumerate(it.events)}
        go = seen['getoutfileobj'][0]
        so = [e for e in seen.get('setoutfile', []) if pos[id(e)] < pos[id(go)]]
        if not so:
            ctx.bad(R, con, where(go.node, ctx, f.qual), 'the output object is made without setting up the output file for this input first: it may still be that of an earlier call, or the input file')
            continue
        so = so[-1]
        if not set(so.pc) <= set(go.pc):
            ctx.bad(R, con, where(so.node, ctx, f.qual), 'the output file is set up on some paths only: otherwise the output file of an earlier call is used, which may be the input file of this one')
            continue
        late = [e for e in seen.get('setfile', []) if pos[id(e)] > pos[id(so)]]
        if late:
            ctx.bad(R, con, where(late[0].node, ctx, f.qual), 'the input file is chosen after the output file has been checked against it')
            continue
        b = bound(ctx, so)
        pf, fo = b.get('patternfile'), b.get('filepath')
        okp = pf is not None and all(t.op == 'ret' and str(t.args[0]).endswith('.getinfileobj') for t in srcs(it, it.V(pf, it.state) if pf.op == 'obj' else pf))
        ctx.verdict(True if okp else None, R, con, where(so.node, ctx, f.qual), 'the output file is set up for %s' % (show(pf, 3) if pf is not None else 'nothing'))
        if 'fileout' in f.params():
            ctx.verdict(fo is sym('fileout') or (None if fo is not None and fo is not NONE else False), R, sname + ':name', where(so.node, ctx, f.qual), 'the output name given by the user is not used')


def bound(ctx, e):
    """arguments of a call event by parameter name"""
    c = e.d['callee']
    ps = c.params()
    out = dict(zip(ps, e.d['args']))
    out.update(e.d.get('kw') or {})
    return out


READERS = ('read_header', 'read_data', 'pat_reader', 'get_data_paths', 'set_data_path', 'read_stepsize', 'read_backgroundpattern', 'set_scan_rc', 'copy_obj')
WRITERS = ('pat_writer', 'write_header', 'write_data')


def r_classes(ctx):
    R = ctx.rule('classes', 'reading methods of every pattern-file class never write; writing methods write only to the file of their own object', 40)
    for cls in fileclasses(ctx):
        nm = cls.qual.rsplit('.', 1)[-1]
        ext = EXT.get(nm)
        if ext is None:
            ctx.und(R, nm, 'file class without a scenario')
            continue
        for meth in READERS + WRITERS:
            m = ctx.prog.method(cls, meth)
            if m is None:
                continue
            V = vfs(ext, {})
            V.files['/work/new' + ext] = 50
            own = '/data/scan' + ext if meth in READERS else '/work/new' + ext
            pf, h = instance(ctx, cls, vp(own), V, None)
            V.log.clear()
            pn = [p for p in m.params() if p == 'path']
            quiet = {x for x in ctx.prog.funcs if x.startswith(EP) and x.rsplit('.', 1)[-1] in READERS + WRITERS and x != m.qual or x == EP + 'pat_flt2int'}
            con = nm + ':' + meth
            try:
                it = ctx.analyse(m.qual, selfcls=cls.qual, args={m.params()[0]: pf, **{p: NONE for p in pn}}, heap=h, hooks=V.hooks(), hard_raise=True, boundary=quiet)
            except AnalysisError as e:
                ctx.und(R, con, str(e))
                continue
            t = touched(V, 1)
            if t:
                ctx.bad(R, con, where(t[0][2], ctx, m.qual), 'the input file is changed (%s)%s' % (t[0][0], '' if meth in READERS else ' while writing to another file'))
            elif V.lost:
                ctx.und(R, con, 'a file operation on a name that is not known: %s line %s' % (V.lost[0][0], getattr(V.lost[0][1], 'lineno', '?')))
            else:
                ctx.ok(R, con, '%d file operations' % len(V.log))
