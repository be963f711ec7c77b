"""Open/close typestate.  Every function that opens a file is run over the abstract file model; on every return path each file it opened is
closed unless it is handed to the caller.  Functions on a reading path open files read-only."""
import ast
from rules._file import *

MODS = ('pyebsdindex.ebsd_pattern', 'pyebsdindex.ebsdfile')
OPENERS = ('open', 'h5py.File', 'io.open', 'numpy.memmap')
READERS = ('read_header', 'read_data', 'pat_reader', 'get_data_paths', 'read_stepsize', 'read_backgroundpattern', 'get_backgroundpattern', 'set_data_path', 'set_filepath', 'copy_obj')


def opens(f):
    n = 0
    for c in ast.walk(f.node):
        if isinstance(c, ast.Call):
            x = c.func
            if isinstance(x, ast.Name) and x.id == 'open' or isinstance(x, ast.Attribute) and (x.attr == 'File' or x.attr == 'open' or x.attr == 'memmap'):
                n += 1
    return n


def funcs(ctx):
    return [f for q, f in sorted(ctx.prog.funcs.items()) if any(q.startswith(m + '.') for m in MODS) and '<' not in q]


def study(ctx, f, B):
    F = Files()
    hk = F.hooks()
    hk['h5py.File'] = F.open
    kw = {}
    it = ctx.analyse(f.qual, hooks=hk, optimistic_try=True, boundary=B - {f.qual}, zero_trip=False, branch=filetests)
    return F, it


def escapes(it, f, exits):
    for k, st, v, nd in exits:
        if k == 'return' and holds(it.deep(it.V(v, st), st.heap), f):
            return True
        for key, val in st.heap.items():
            if key[0] == 'a' and key[1] is not f and isinstance(val, T) and val.op == 'file' and val is f:
                return True
    return False


def holds(v, f):
    """v is the file, a container of it, or a conditional choice of it (data read from it does not count)"""
    if v is f:
        return True
    if v.op in ('tuple', 'list', 'ite', 'dict', 'obj'):
        for a in v.args:
            for b in a if isinstance(a, tuple) else (a,):
                if isinstance(b, T) and holds(b, f):
                    return True
    return False


def filetests(t, node):
    """an opened file is an object, never None or false"""
    y = rebuild(t, lambda z: FALSE if z.op == 'is' and z.args[1] is NONE and z.args[0].op == 'file' else (TRUE if z.op == 'truthy' and z.args[0].op == 'file' else None))
    return True if y is TRUE else (False if y is FALSE else None)


def r_close(ctx):
    R = ctx.rule('closed', 'every opened file is closed on every return path', 30)
    M = ctx.rule('read-only', 'functions on a reading path open files read-only', 12)
    direct = [f for f in funcs(ctx) if opens(f)]
    need(direct, 'no function opens a file')
    openers = set()
    B = {f.qual for f in direct}
    todo, seen = list(direct), set()
    callers = {}
    results = {}
    while todo:
        f = todo.pop(0)
        if f.qual in seen:
            continue
        seen.add(f.qual)
        try:
            F, it = study(ctx, f, B)
        except AnalysisErr as e:
            ctx.und(R, f.qual, str(e)[:100])
            continue
        ex = [x for x in it.frame.exits if x[0] == 'return']
        nopen = {}
        for o, path, mode in F.opened:
            ev = [e for e in F.log if e.what == 'open' and e.f is o][0]
            i = nopen[f.qual] = nopen.get(f.qual, 0) + 1
            key = '%s-%d' % (f.qual.split('.', 2)[-1], i)
            if escapes(it, o, ex):
                if f.qual in B:
                    B = B - {f.qual}
                    openers.add(f.qual)
                    for g in funcs(ctx):
                        if any(isinstance(c, ast.Call) and getattr(c.func, 'id', getattr(c.func, 'attr', None)) == f.node.name for c in ast.walk(g.node)):
                            seen.discard(g.qual)
                            todo.append(g)
                continue
            ev.d['key'] = key
        results[f.qual] = (f, F, it, ex)
    for q, (f, F, it, ex) in sorted(results.items()):
        for o, path, mode in F.opened:
            ev = [e for e in F.log if e.what == 'open' and e.f is o][0]
            key = ev.d.get('key')
            if key is None:
                continue
            if not ex:
                ctx.und(R, key, 'no return path recognised')
                continue
            for j, (k, st, v, nd) in enumerate(ex):
                fl = st.heap.get(('a', o, 'isopen'), FALSE)
                fl = fl if isinstance(fl, T) else FALSE
                fl = rebuild(fl, lambda z: FALSE if z.op == 'undef' or z.op == 'attr' and z.args[-1] == 'isopen' else None)
                fl = truth(fl) if fl not in (TRUE, FALSE) else fl
                for c in st.pc:
                    fl = inst(fl, literals(c, True)) if fl not in (TRUE, FALSE) else fl
                line = getattr(nd, 'lineno', 0) if not isinstance(nd, (ast.FunctionDef,)) else 'end'
                ctx.verdict(True if fl is FALSE else (False if fl is TRUE or possible(fl) else None), R, '%s-exit%d' % (key, j), ev.loc,
                            'the file opened here is still open where %s returns at line %s%s' % (f.node.name, line, '' if fl is TRUE else ' when ' + show(fl, 4)))
            m = mode
            reading = f.node.name in READERS or f.node.name == 'get_pattern_file_obj' or calledbyreader(ctx, f)
            if reading:
                mm = m.args[1] if m.op == 'const' and m.args[0] == 'str' else None
                ctx.verdict(None if mm is None else not (set(mm) & set('wax+')), M, key, ev.loc, '%s opens the file with mode %r, which can change it' % (f.node.name, mm))
    # a copy never opens its source for writing
    for cls in ('UPFile', 'TFPatFile', 'EBSDPatternFile'):
        f = ctx.func(EP + cls + '.copy_file')
        new = sym('a_newpath')
        from rules.f02 import cpbranch
        kw = mk('dict', (const('empty_data'), TRUE))
        F, it = run(ctx, cls, 'copy_file', dict(filePos=sym('a_filePos'), filepath=sym('a_path')), args=dict(newpath=new, kwargs=kw), branch=cpbranch(new, kw))
        for i, (o, path, mode) in enumerate(F.opened):
            src = path is not NONE and contains(path, sym('a_path')) and not contains(path, new)
            mm = mode.args[1] if mode.op == 'const' else None
            if src:
                ctx.verdict(None if mm is None else not (set(mm) & set('wax+')), M, '%s.copy_file-%d' % (cls, i), f.loc(), 'the source of a copy is opened with mode %r' % mm)
            else:
                ctx.ok(M, '%s.copy_file-%d' % (cls, i))
    f = ctx.func(EP + 'HDF5PatFile.copy_file')
    new = sym('a_newpath')
    F = Files()
    hk = F.hooks()
    hk['h5py.File'] = F.open

    def br(t, node):
        y = rebuild(t, lambda z: FALSE if z.op in ('mcall', 'call') and any(a in ('exists', 'samefile', 'os.path.exists', 'os.path.isfile', 'os.path.samefile') for a in z.args if isinstance(a, str)) else None)
        y = scalarise(y)
        return True if y is TRUE else (False if y is FALSE else None)
    it = ctx.analyse(f.qual, selfattrs=dict(filepath=sym('a_path')), args=dict(newpath=mk('list', new, sym('a_h5'))), hooks=hk, optimistic_try=True, lit=True, branch=br)
    for i, (o, path, mode) in enumerate(F.opened):
        mm = mode.args[1] if mode.op == 'const' else None
        if contains(path, sym('a_path')) and not contains(path, new):
            ctx.verdict(None if mm is None else not (set(mm) & set('wax+')), M, 'HDF5PatFile.copy_file-%d' % i, f.loc(), 'the source of a copy is opened with mode %r' % mm)
        else:
            ctx.ok(M, 'HDF5PatFile.copy_file-%d' % i)


def possible(fl):
    """the remaining condition is made of plain tests of inputs"""
    return fl.op in ('and', 'not', 'or', 'eq', 'cmp', 'is', 'truthy', 'lt', 'ge', 'gt', 'le', 'in', 'isinst', 'ite') and len(list(subterms(fl))) < 60


_r = {}


def calledbyreader(ctx, f):
    """called, directly or through helpers, from a reading function of the same module"""
    if id(ctx) not in _r:
        fs = funcs(ctx)
        names = {}
        for g in fs:
            names[g.qual] = {getattr(c.func, 'id', getattr(c.func, 'attr', None)) for c in ast.walk(g.node) if isinstance(c, ast.Call)}
        reach = {g.qual for g in fs if g.node.name in READERS}
        byname = {}
        for g in fs:
            byname.setdefault(g.node.name, []).append(g.qual)
        work = list(reach)
        while work:
            q = work.pop()
            for n in names.get(q, ()):
                for g in byname.get(n, ()):
                    if g not in reach and n.startswith('_'):
                        reach.add(g)
                        work.append(g)
        _r.clear()
        _r[id(ctx)] = reach
    return f.qual in _r[id(ctx)]


from sa.program import AnalysisError as AnalysisErr
