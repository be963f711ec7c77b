#!/usr/bin/env python3
"""spec/numpy_api.json from the stubs of the installed NumPy: public names, and for functions every keyword any overload takes (null: unknown)."""
import ast, os, json, sys
SP = '/opt/venv/lib/python3.12/site-packages'


def path(mod):
    p = os.path.join(SP, *mod.split('.'))
    for c in (p + '.pyi', p + '/__init__.pyi', p + '.py', p + '/__init__.py'):
        if os.path.exists(c):
            return c
    return None


_m = {}
def module(mod):
    if mod not in _m:
        p = path(mod)
        names = {}
        _m[mod] = names
        if p is None:
            return names
        t = ast.parse(open(p).read())
        pk = mod if '__init__' in p else mod.rsplit('.', 1)[0]

        def coll(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    names.setdefault(s.name, []).append(('def', s))
                elif isinstance(s, ast.ClassDef):
                    names.setdefault(s.name, []).append(('class', s))
                elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                    for x in s.targets if isinstance(s, ast.Assign) else [s.target]:
                        if isinstance(x, ast.Name):
                            names.setdefault(x.id, []).append(('value', s))
                elif isinstance(s, ast.ImportFrom):
                    src = s.module or ''
                    if s.level:
                        b = pk.split('.')
                        b = b[:len(b) - s.level + 1]
                        src = '.'.join(b + ([s.module] if s.module else []))
                    for a in s.names:
                        names.setdefault(a.asname or a.name, []).append(('from', src, a.name))
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        names.setdefault(a.asname or a.name.split('.')[0], []).append(('mod', a.name))
                elif isinstance(s, (ast.If, ast.Try)):
                    coll(s.body)
                    coll(s.orelse)
        coll(t.body)
    return _m[mod]


def kw(mod, name, seen=()):
    if (mod, name) in seen:
        return None
    out = set()
    for b in module(mod).get(name, []):
        if b[0] == 'from':
            if not b[1].startswith('numpy'):
                return None
            if path(b[1] + '.' + b[2]) and b[2] not in module(b[1]):
                return None
            r = kw(b[1], b[2], seen + ((mod, name),))
            if r is None:
                return None
            out |= set(r)
        elif b[0] == 'def':
            a = b[1].args
            if a.kwarg:
                return None
            out |= {x.arg for x in a.args + a.kwonlyargs}
        else:
            return None
    return sorted(out) or None


api = {}
for m in ('numpy', 'numpy.linalg', 'numpy.random', 'numpy.fft'):
    api[m] = {n: kw(m, n) for n in module(m) if not n.startswith('_')}
api['numpy']['chararray'] = None      # deprecated, still there
nd = set()
for b in module('numpy')['ndarray']:
    pass
t = ast.parse(open(path('numpy')).read())
cl = {c.name: c for c in t.body if isinstance(c, ast.ClassDef)}
def members(c, seen=set()):
    for s in c.body:
        if isinstance(s, ast.FunctionDef): nd.add(s.name)
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name): nd.add(s.target.id)
    for b in c.bases:
        b = b.value if isinstance(b, ast.Subscript) else b
        if isinstance(b, ast.Name) and b.id in cl: members(cl[b.id])
for n in ('ndarray', 'dtype', 'generic'):
    members(cl[n])
api['ndarray'] = sorted(x for x in nd if not x.startswith('_'))
json.dump(api, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'numpy_api.json'), 'w'), indent=0, sort_keys=True)
print({k: len(v) for k, v in api.items()}, api['numpy']['arange'], api['numpy']['zeros'], api['numpy']['clip'])
