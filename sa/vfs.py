"""A small model of a file system for scenarios with known path names: names, symbolic links and files (inodes).  Path operations on known
names are carried out on the model; what is opened for writing, written to, copied, linked or removed is recorded per file.
Path objects are the term vpath(text); open files are vfile(inode, mode, number)."""
import posixpath
from pathlib import PurePosixPath
from .term import *
from .interp import PyRaise


def text(t):
    """the text of a path-like term, or None"""
    if t is None:
        return None
    if t.op == 'vpath':
        return t.args[0]
    if t.op == 'const' and t.args[0] == 'str':
        return t.args[1]
    if t.op == 'fstr':
        ps = [field(x) for x in t.args]
        return None if None in ps else ''.join(ps)
    return None


def field(x, spec=None):
    """text of one part of a formatted string with known values"""
    if x.op == 'call' and x.args[0] == 'fmt' and x.args[1][1].op == 'const':
        return field(x.args[1][0], x.args[1][1].args[1])
    if is_num(x):
        v = cval(x)
        v = int(v) if int(v) == v and (not spec or spec[-1] in 'dxob') else float(v)
        try:
            return format(v, spec or '')
        except ValueError:
            return None
    return text(x)


def vp(s):
    return mk('vpath', str(PurePosixPath(s)))


class VFS:
    def __init__(self, files, links=None, cwd='/work', home='/home/u'):
        self.files, self.links, self.cwd, self.home = dict(files), dict(links or {}), cwd, home
        self.dirs = {'/', cwd, home}
        for p in list(self.files) + list(self.links):
            while p != '/':
                p = posixpath.dirname(p)
                self.dirs.add(p)
        self.next = 1 + max(self.files.values())
        self.log = []                   # (what, inode, path text, node)
        self.lost = []                  # operations on paths that are not known
        self.n = 0

    # ---- names
    def absname(self, s):
        return posixpath.normpath(posixpath.join(self.cwd, s))

    def real(self, s):
        p = posixpath.join(self.cwd, s)
        out = '/'
        for part in [x for x in p.split('/') if x not in ('', '.')]:
            if part == '..':
                out = posixpath.dirname(out)
                continue
            out = posixpath.join(out, part)
            k = 0
            while out in self.links and k < 9:
                out = self.real(posixpath.join(posixpath.dirname(out), self.links[out]))
                k += 1
        return out

    def ino(self, s):
        return self.files.get(self.real(s))

    def expand(self, s):
        return self.home + s[1:] if s == '~' or s.startswith('~/') else s

    def rec(self, what, ino, s, node):
        self.log.append((what, ino, s, node))

    def make(self, s, node, what):
        """the file a write-open of s gives: an existing one, or a new one"""
        i = self.ino(s)
        if i is None:
            r = self.real(s)
            if posixpath.dirname(r) not in self.dirs:
                raise PyRaise('FileNotFoundError')
            i = self.files[r] = self.next
            self.next += 1
            self.rec('create', i, s, node)
        else:
            self.rec(what, i, s, node)
        return i

    def must(self, s):
        i = self.ino(s)
        if i is None:
            raise PyRaise('FileNotFoundError')
        return i

    # ---- hooks
    def hooks(self):
        h = {}
        for n in ('Path', 'PurePath', 'PosixPath', 'PurePosixPath'):
            h['pathlib.' + n] = self.path
        for n in ('open', 'io.open', 'h5py.File', 'os.open'):
            h[n] = self.open
        h['str'] = h['os.fspath'] = h['os.fsdecode'] = h['repr'] = self.tostr
        h['numpy.atleast_1d'] = h['numpy.asarray'] = h['numpy.array'] = self.atleast
        for n in ('exists', 'isfile', 'lexists', 'isdir', 'samefile', 'abspath', 'realpath', 'normpath', 'expanduser', 'join', 'basename', 'dirname', 'splitext', 'split', 'islink', 'getsize'):
            h['os.path.' + n] = h['posixpath.' + n] = self.ospath(n)
        for n in ('copyfile', 'copy', 'copy2', 'move'):
            h['shutil.' + n] = self.shutil(n)
        h['shutil.copyfileobj'] = self.copyobj
        for n in ('link', 'symlink', 'rename', 'replace', 'remove', 'unlink', 'truncate'):
            h['os.' + n] = self.osop(n)
        h['os.getcwd'] = lambda it, r, a, v, kv, st, nd: const(self.cwd)
        h['os.stat'] = lambda it, r, a, v, kv, st, nd: mk('vstat', self.must(text(v[0]))) if v and text(v[0]) is not None else None
        for n in ('resolve', 'absolute', 'expanduser', 'exists', 'is_file', 'is_dir', 'is_symlink', 'samefile', 'with_suffix', 'with_name', 'with_stem', 'joinpath', 'as_posix', 'unlink', 'rename', 'replace', 'hardlink_to',
                  'link_to', 'symlink_to', 'touch', 'write_bytes', 'write_text', 'read_bytes', 'stat', 'is_absolute', 'relative_to', 'mkdir'):
            h['.' + n] = self.pmeth(n)
        h['.open'] = self.popen
        for n in ('write', 'writelines', 'truncate', 'create_dataset', 'create_group', 'require_dataset', 'require_group', 'move', 'write_direct', 'tofile', 'resize', 'clear'):
            h['.' + n] = self.fwrite(n)
        h['.copy'] = self.fcopy
        h['.close'] = h['.flush'] = self.fclose
        for n in ('read', 'readline', 'seek', 'tell', 'readinto', 'keys', 'visititems', 'visit', 'get', 'items', 'values'):
            h['.' + n] = self.fother(n)
        h['numpy.fromfile'] = self.fromfile
        h['numpy.memmap'] = self.memmap
        h['str.lower'] = lambda it, r, a, v, kv, st, nd: const(text(v[0]).lower()) if v and text(v[0]) is not None else None
        h['str.upper'] = lambda it, r, a, v, kv, st, nd: const(text(v[0]).upper()) if v and text(v[0]) is not None else None
        h['attr'], h['binop'] = self.attr, self.binop
        h['getitem'], h['setitem'], h['delitem'], h['contains'] = self.getitem, self.setitem, self.delitem, self.contains
        return h

    def path(self, it, r, a, v, kv, st, nd):
        ts = [text(x) for x in v]
        if any(t is None for t in ts):
            return None
        return vp(posixpath.join(*ts) if ts else '.')

    def tostr(self, it, r, a, v, kv, st, nd):
        return const(v[0].args[0]) if v and v[0].op == 'vpath' else None

    def atleast(self, it, r, a, v, kv, st, nd):
        if not v or kv:
            return None
        if text(v[0]) is not None or v[0] is NONE:
            return it.newobj(mk('list', v[0]), 'array')
        if v[0].op in ('list', 'tuple') and all(text(x) is not None or x is NONE for x in v[0].args):
            return it.newobj(mk('list', *v[0].args), 'array')
        return None

    def attr(self, it, b, name, st, nd):
        v = it.V(b, st)
        if v.op == 'vpath':
            p = PurePosixPath(v.args[0])
            if name in ('stem', 'suffix', 'name', 'root', 'anchor', 'drive'):
                return const(getattr(p, name))
            if name == 'parent':
                return vp(str(p.parent))
            if name == 'parts':
                return mk('tuple', *[const(x) for x in p.parts])
            if name == 'suffixes':
                return mk('list', *[const(x) for x in p.suffixes])
            if name == 'parents':
                return mk('tuple', *[vp(str(x)) for x in p.parents])
        if v.op == 'vstat':
            return const(v.args[0]) if name == 'st_ino' else (const(1) if name == 'st_dev' else None)
        if v.op == 'vfile' and name == 'name':
            return None
        return None

    def binop(self, it, o, a, b, st, nd):
        if o == 'Div' and (a.op == 'vpath' or b.op == 'vpath') and text(a) is not None and text(b) is not None:
            return vp(posixpath.join(text(a), text(b)))
        if o == 'Mod' and text(a) is not None:
            vs = b.args if b.op == 'tuple' else (b,)
            vs = [cval(x) if is_num(x) else text(x) for x in vs]
            try:
                return None if None in vs else const(text(a) % tuple(int(x) if not isinstance(x, str) and int(x) == x else (x if isinstance(x, str) else float(x)) for x in vs))
            except (TypeError, ValueError):
                return None
        if o == 'Add' and (a.op == 'fstr' or b.op == 'fstr') and text(a) is not None and text(b) is not None:
            return const(text(a) + text(b))
        return None

    def ospath(self, n):
        def f(it, r, a, v, kv, st, nd):
            ts = [text(x) for x in v]
            if not ts or any(t is None for t in ts):
                return None
            s = ts[0]
            if n in ('exists', 'isfile', 'lexists'):
                return const(self.ino(s) is not None or n != 'isfile' and self.real(s) in self.dirs)
            if n == 'isdir':
                return const(self.real(s) in self.dirs)
            if n == 'islink':
                return const(self.absname(s) in self.links)
            if n == 'samefile':
                return const(self.must(s) == self.must(ts[1]))
            if n == 'abspath':
                return const(self.absname(s))
            if n == 'realpath':
                return const(self.real(s))
            if n == 'normpath':
                return const(posixpath.normpath(s))
            if n == 'expanduser':
                return const(self.expand(s))
            if n == 'join':
                return const(posixpath.join(*ts))
            if n in ('basename', 'dirname'):
                return const(getattr(posixpath, n)(s))
            if n in ('splitext', 'split'):
                return mk('tuple', *[const(x) for x in getattr(posixpath, n)(s)])
            return None
        return f

    def pmeth(self, n):
        def f(it, r, a, v, kv, st, nd):
            p = it.V(r, st)
            if p.op != 'vpath':
                return None
            s, ts = p.args[0], [text(x) for x in v]
            if n == 'resolve':
                return vp(self.real(s))
            if n == 'absolute':
                return vp(posixpath.join(self.cwd, s))
            if n == 'expanduser':
                return vp(self.expand(s))
            if n in ('exists', 'is_file'):
                return const(self.ino(s) is not None or n == 'exists' and self.real(s) in self.dirs)
            if n == 'is_dir':
                return const(self.real(s) in self.dirs)
            if n == 'is_symlink':
                return const(self.absname(s) in self.links)
            if n == 'is_absolute':
                return const(s.startswith('/'))
            if n == 'as_posix':
                return const(s)
            if n == 'stat':
                return mk('vstat', self.must(s))
            if n == 'mkdir':
                self.dirs.add(self.real(s))
                return NONE
            if n in ('with_suffix', 'with_name', 'with_stem') and len(ts) == 1 and ts[0] is not None:
                return vp(str(getattr(PurePosixPath(s), n)(ts[0])))
            if n == 'joinpath' and all(t is not None for t in ts):
                return vp(posixpath.join(s, *ts))
            if n == 'samefile' and ts and ts[0] is not None:
                return const(self.must(s) == self.must(ts[0]))
            if n in ('touch',):
                self.make(s, nd, 'touch')
                return NONE
            if n in ('write_bytes', 'write_text'):
                i = self.make(s, nd, 'truncate')
                self.rec('write', i, s, nd)
                return NONE
            if n == 'read_bytes':
                return mk('vdata', self.must(s))
            if n == 'unlink':
                return self.drop(s, nd)
            if n in ('rename', 'replace') and ts and ts[0] is not None:
                return self.ren(s, ts[0], nd)
            if n in ('hardlink_to',) and ts and ts[0] is not None:
                return self.link(ts[0], s, nd)
            if n == 'link_to' and ts and ts[0] is not None:
                return self.link(s, ts[0], nd)
            if n == 'symlink_to' and ts and ts[0] is not None:
                return self.sym(ts[0], s, nd)
            self.lost.append(('.' + n, nd))
            return None
        return f

    def drop(self, s, nd):
        a = self.absname(s)
        if a in self.links:
            del self.links[a]
        else:
            i = self.must(s)
            self.rec('remove', i, s, nd)
            del self.files[self.real(s)]
        return NONE

    def ren(self, s, t, nd):
        i = self.must(s)
        j = self.ino(t)
        self.rec('rename', i, s, nd)
        if j is not None and j != i:
            self.rec('remove', j, t, nd)
        r, q = self.real(s), self.absname(t)
        del self.files[r]
        self.links.pop(q, None)
        self.files[q] = i
        return vp(t)

    def link(self, src, dst, nd):
        if self.ino(dst) is not None:
            raise PyRaise('FileExistsError')
        self.files[self.real(dst)] = self.must(src)
        return NONE

    def sym(self, src, dst, nd):
        if self.ino(dst) is not None:
            raise PyRaise('FileExistsError')
        self.links[self.absname(dst)] = src
        return NONE

    def osop(self, n):
        def f(it, r, a, v, kv, st, nd):
            ts = [text(x) for x in v]
            if not ts or ts[0] is None or n in ('link', 'symlink', 'rename', 'replace') and (len(ts) < 2 or ts[1] is None):
                self.lost.append(('os.' + n, nd))
                return None
            if n in ('remove', 'unlink'):
                return self.drop(ts[0], nd)
            if n == 'truncate':
                self.rec('truncate', self.must(ts[0]), ts[0], nd)
                return NONE
            return {'link': self.link, 'symlink': self.sym, 'rename': self.ren, 'replace': self.ren}[n](ts[0], ts[1], nd)
        return f

    def shutil(self, n):
        def f(it, r, a, v, kv, st, nd):
            v = list(v) + [kv[k] for k in ('src', 'dst') if k in kv and len(v) < 2]
            ts = [text(x) for x in v[:2]]
            if len(ts) < 2 or None in ts:
                self.lost.append(('shutil.' + n, nd))
                return None
            i = self.must(ts[0])
            if n == 'move':
                return self.ren(ts[0], ts[1], nd)
            if kv.get('follow_symlinks') is FALSE and self.absname(ts[0]) in self.links:
                return self.sym(self.links[self.absname(ts[0])], ts[1], nd)
            if self.ino(ts[1]) == i:
                raise PyRaise('SameFileError')
            d = self.make(ts[1], nd, 'truncate')
            self.rec('write', d, ts[1], nd)
            return v[1]
        return f

    # ---- open files
    def open(self, it, r, a, v, kv, st, nd):
        p = text(v[0]) if v else None
        m = v[1] if len(v) > 1 else kv.get('mode', const('r'))
        m = text(m)
        if p is None or m is None:
            self.lost.append(('open', nd))
            return None
        return self.fopen(p, m, nd)

    def popen(self, it, r, a, v, kv, st, nd):
        p = it.V(r, st)
        m = text(v[0] if v else kv.get('mode', const('r')))
        if p.op != 'vpath' or m is None:
            return None
        return self.fopen(p.args[0], m, nd)

    def fopen(self, p, m, nd):
        k = ''.join(sorted(m.replace('b', '').replace('t', '')))
        if k in ('r', '+r'):
            i = self.must(p)
        elif 'x' in k or k == '-w':
            if self.ino(p) is not None:
                raise PyRaise('FileExistsError')
            i = self.make(p, nd, 'create')
        else:
            i = self.make(p, nd, 'truncate' if 'w' in k else 'append')
        self.n += 1
        self.rec('open ' + m, i, p, nd)
        return mk('vfile', i, 'rw' if k != 'r' else 'r', p, self.n)

    def fof(self, it, r, st):
        v = it.V(r, st)
        for x in (r, v):
            if x.op in ('vfile', 'vdata'):
                return x
        for x in subterms(v):
            if x.op == 'vfile':
                return x
        return None

    def fwrite(self, n):
        def f(it, r, a, v, kv, st, nd):
            x = self.fof(it, v[0] if n == 'tofile' and v else r, st)
            if x is None or x.op != 'vfile':
                return None
            self.rec('write', x.args[0], x.args[2], nd)
            return mk('vdata', x.args[0], n, self.n)
        return f

    def fcopy(self, it, r, a, v, kv, st, nd):
        x = self.fof(it, r, st)
        if x is None:
            return None
        d = self.fof(it, a[1], st) if len(a) > 1 else x
        if d is None:
            if text(v[1]) is None:
                self.lost.append(('.copy', nd))
            d = x
        self.rec('write', d.args[0], d.args[2], nd)
        return NONE

    def copyobj(self, it, r, a, v, kv, st, nd):
        d = self.fof(it, a[1], st) if len(a) > 1 else None
        if d is None:
            self.lost.append(('shutil.copyfileobj', nd))
            return None
        self.rec('write', d.args[0], d.args[2], nd)
        return NONE

    def fclose(self, it, r, a, v, kv, st, nd):
        return NONE if self.fof(it, r, st) is not None else None

    def fother(self, n):
        def f(it, r, a, v, kv, st, nd):
            x = self.fof(it, r, st)
            if x is None or x.op != 'vfile':
                return None
            return mk('vdata', x.args[0], n, nd.lineno)
        return f

    def fromfile(self, it, r, a, v, kv, st, nd):
        x = self.fof(it, a[0], st) if a else None
        if x is None and v and text(v[0]) is not None:
            return it.newobj(mk('vdata', self.must(text(v[0])), 'data', 0), 'array')
        return it.newobj(mk('vdata', x.args[0], 'data', nd.lineno), 'array') if x is not None else None

    def memmap(self, it, r, a, v, kv, st, nd):
        m = text(kv.get('mode', v[2] if len(v) > 2 else const('r+')))
        p = text(v[0]) if v else None
        if p is None or m is None:
            self.lost.append(('numpy.memmap', nd))
            return None
        return it.newobj(self.fopen(p, {'c': 'r'}.get(m, m), nd), 'array')

    def getitem(self, it, b, a, v, kv, st, nd):
        x = b if b.op == 'vfile' else None
        return mk('item', x, v[0]) if x is not None else None

    def setitem(self, it, b, a, v, kv, st, nd):
        x = self.fof(it, b, st)
        if x is None or x.op != 'vfile':
            return None
        self.rec('write', x.args[0], x.args[2], nd)
        return TRUE

    def delitem(self, it, b, a, v, kv, st, nd):
        return self.setitem(it, b, a, v, kv, st, nd)

    def contains(self, it, b, a, v, kv, st, nd):
        return None
