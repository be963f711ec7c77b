"""Interprocedural in-place effects.  Every function of the program is followed once with its callees replaced by their summaries (to a
fixpoint); a summary lists the parameters whose contents the function may write and those its result may be a view of.  Written objects are
named by their origin: a parameter, the default value of a parameter, an attribute, or something made by the function itself."""
import ast
from .term import *
from .interp import Interp, ALIAS_METHODS, PURE_METHODS, MUT_METHODS
from .ctx import analyse, AnalysisError

ALIASFN = {'atleast_1d', 'atleast_2d', 'atleast_3d', 'squeeze', 'ravel', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'reshape', 'expand_dims', 'asarray', 'asanyarray',
           'require', 'ascontiguousarray', 'asfortranarray', 'flip', 'fliplr', 'flipud', 'rot90', 'broadcast_to', 'diagonal', 'array_split', 'split', 'real', 'imag', 'nditer', 'frombuffer'}
ARRAYATTR = {'shape', 'ndim', 'dtype', 'size', 'T', 'flat'}
ARRAYMETH = {'reshape', 'astype', 'ravel', 'flatten', 'copy', 'squeeze', 'transpose', 'sum', 'mean', 'max', 'min', 'std', 'clip', 'nonzero', 'argsort', 'append', 'sort', 'swapaxes', 'fill', 'extend'}
CONTAINERS = {'list', 'dict'}


def arrayish(fnode, extra=None):
    """names of a function that are used as arrays: indexed, asked for their shape, ..."""
    out = set()
    for n in ast.walk(fnode):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
            out.add(n.value.id)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ARRAYATTR | ARRAYMETH:
            out.add(n.value.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and n.args and isinstance(n.args[0], ast.Name):
            out.add(n.args[0].id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'numpy') and n.func.attr in ALIASFN | {'array', 'zeros_like', 'empty_like', 'ones_like', 'full_like', 'copy'} \
                and n.args and isinstance(n.args[0], ast.Name):
            out.add(n.args[0].id)
    return out


class Effects:
    def __init__(self, prog, skip=lambda q: False, rounds=6):
        self.prog = prog
        self.whole = False
        self.quals = [q for q in prog.funcs if not skip(q)]
        self.sum = {q: dict(mut={}, ret=frozenset(), retpos=None) for q in self.quals}
        self.bymeth = {}
        for q in self.quals:
            f = prog.funcs[q]
            if getattr(f, 'cls', None) is not None:
                self.bymeth.setdefault(q.rsplit('.', 1)[-1], []).append(q)
        self.arr = {q: arrayish(prog.funcs[q].node) for q in self.quals}
        # a parameter handed to an array parameter of a callee is an array
        self.errors = {}
        self.attrheld = {}      # attribute name -> [(function, origin)]  objects of a parameter kept in an attribute
        self.attrmut = {}       # attribute name -> [(function, loc)]
        self.writes = {}        # qual -> [(origin, loc, how)]
        for r in range(rounds):
            self.attrheld, self.attrmut, self.writes = {}, {}, {}
            changed = [q for q in self.quals if self.one(q)]
            if not changed:
                break
        self.rounds = r + 1

    # -------------------------------------------------------------- origins
    def viewkey(self, k, q):
        ks = k.args if k.op == 'tuple' else (k,)
        if self.whole and not any(x.op == 'slice' for x in ks):
            return False
        for x in ks:
            if x.op in ('slice', 'it', 'mu', 'fstr') or x.op == 'const' or is_num(x):
                continue
            if x.op == 'poly':
                continue
            if x.op == 'sym' and x.args[0] not in self.arr.get(q, ()):
                continue
            if x.op in ('fn', 'attr', 'sel') and x.op != 'sel':
                continue
            return False
        return True

    def roots(self, t, q, depth=0, seen=None):
        """origins a value may be (a view of)"""
        if depth > 60:
            return frozenset()
        op = t.op
        if op in ('sym', 'default'):
            return frozenset([t])
        if op in ('view', 'sel'):
            if op == 'sel' and not self.viewkey(t.args[1], q):
                return frozenset()
            if op == 'view' and not self.viewkey(t.args[1], q):
                return frozenset()
            return self.roots(t.args[0], q, depth + 1)
        if op in ('store', 'after', 'appended', 'mutated'):
            return self.roots(t.args[0], q, depth + 1)
        if op == 'mcall':
            if t.args[1] in ALIAS_METHODS or t.args[1] in ('diagonal', 'get', 'values', 'items'):
                return self.roots(t.args[0], q, depth + 1)
            return frozenset()
        if op == 'obj':
            x = self.curit.promoted.get(t)
            return self.roots(x, q, depth + 1) if x is not None and x.op in ('ite', 'store', 'call', 'mcall') else frozenset()
        if op == 'mu':
            return self.roots(self.loopinit(t), q, depth + 1)
        if op == 'attr':
            if t.args[1] in ('T', 'flat', 'real', 'imag'):
                return self.roots(t.args[0], q, depth + 1)
            if t.args[1] in ('shape', 'dtype', 'size', 'ndim', 'itemsize', 'names'):
                return frozenset()
            return frozenset([t])
        if op == 'ite':
            return self.roots(t.args[1], q, depth + 1) | self.roots(t.args[2], q, depth + 1)
        if op == 'alias':
            return frozenset().union(*[self.roots(x, q, depth + 1) for x in t.args[1:]])
        if op == 'call' and isinstance(t.args[0], str) and t.args[0].rsplit('.', 1)[-1] in ALIASFN and t.args[0].startswith('numpy.') and t.args[1]:
            return self.roots(t.args[1][0], q, depth + 1)
        return frozenset()

    def direct(self, t, q):
        self.whole = True
        try:
            return frozenset(r for r in self.roots(t, q) if r.op == 'sym' and r.args[0] in self.arr[q])
        finally:
            self.whole = False

    def loopinit(self, t):
        for L in getattr(self.curit, 'loopsmade', ()):
            if L.id == t.args[0] and isinstance(t.args[1], str):
                return L.init.get(t.args[1], NONE)
        return NONE

    def origin(self, r, params):
        if r.op == 'sym' and r.args[0] in params:
            return ('param', r.args[0])
        if r.op == 'default':
            return ('default', str(r.args[-1]) if r.args else '')
        if r.op == 'attr':
            b = r.args[0]
            while b.op in ('attr', 'sel', 'view'):
                b = b.args[0]
            if b.op == 'sym' and b.args[0] in params:
                return ('param', b.args[0])
            return ('attr', r.args[1])
        return None

    # -------------------------------------------------------------- calls
    def applied(self, it, quals, bound, q, st, node):
        """effects of a call with the given bindings; the term of its result"""
        outs = []
        self.curit = it
        for c in quals:
            s = self.sum.get(c)
            if s is None:
                continue
            b = bound(c)
            if b is None:
                continue
            for p, why in s['mut'].items():
                if p in b:
                    self.note(it, b[p], '%s %s' % (c.rsplit('.', 1)[-1], why if '->' not in why else why), q, node, via=c)
            if s['retpos']:
                outs.append([frozenset().union(*[self.roots(b[p], q) for p in ps if p in b]) for ps in s['retpos']])
            else:
                outs.append(frozenset().union(*[self.roots(b[p], q) for p in s['ret'] if p in b]) if s['ret'] else frozenset())
        return outs

    def note(self, it, ref, how, q, node, via=None):
        for r in self.roots(ref, q):
            self.cur.append((r, getattr(node, 'lineno', 0), how))

    def result(self, it, qual, outs):
        fr = it.fresh('ret', qual)
        if not outs:
            return fr
        o = outs[0]
        if isinstance(o, list):
            return mk('tuple', *[mk('alias', it.fresh('ret', qual), *sorted(x, key=str)) if x else it.fresh('ret', qual) for x in o])
        allr = frozenset().union(*[x for x in outs if not isinstance(x, list)])
        return mk('alias', fr, *sorted(allr, key=str)) if allr else fr

    # -------------------------------------------------------------- one function
    def one(self, q):
        f = self.prog.funcs[q]
        params = [p for p in f.params() + [x.arg for x in f.node.args.kwonlyargs] if p not in ('self', 'cls')]
        self.cur = []
        ret = {}
        for c in self.quals:
            if c == q:
                continue

            def h(it, b, c=c):
                # the default value of a parameter that is not given
                outs = self.applied(it, [c], lambda _: b, q, it.callstate, it.callnode)
                return self.result(it, c, outs)
            ret[c] = h
        hooks = {}
        for name, qs in self.bymeth.items():
            if name in PURE_METHODS or name in MUT_METHODS or name.startswith('__'):
                continue

            def m(it, recv, args, vals, kv, st, node, qs=qs, name=name):
                if recv.op in ('class', 'module', 'bound', 'func'):
                    return None

                def bound(c):
                    g = self.prog.funcs[c]
                    b, err = it.bind(g, [recv] + list(args) if not g.static else list(args), dict(kv), st, node, quiet=True)
                    return None if err else b
                outs = self.applied(it, qs, bound, q, st, node)
                return self.result(it, '.' + name, outs)
            hooks['.' + name] = m
        before = (self.sum[q]['mut'], self.sum[q]['ret'], self.sum[q]['retpos'])
        mut, rets, pos = {}, frozenset(), None
        for mode in ('array', 'any'):
            self.cur = []
            try:
                it = analyse(self.prog, q, freshops=True, boundary=set(self.quals) - {q}, returns=ret, hooks=hooks, arrays=[p for p in params if p in self.arr[q]] if mode == 'array' else ())
            except (AnalysisError, RecursionError) as e:
                self.errors[q] = str(e)
                return False
            cur = list(self.cur)
            self.curit = it
            for e in it.events:
                if e.kind in ('store', 'mutate'):
                    for r in self.roots(e.d['base'], q):
                        cur.append((r, e.node.lineno if e.node is not None else 0, 'is written in place'))
                elif e.kind == 'augname':
                    # a name that is not used as an array itself is one if it stands for (part of) something that is
                    for r in self.roots(e.d['base'], q) if e.d['name'] in self.arr[q] else self.direct(e.d['base'], q):
                        cur.append((r, e.node.lineno, 'is updated in place'))
                elif e.kind == 'call' and e.d.get('kw') and 'out' in e.d['kw']:
                    for r in self.roots(e.d['kw']['out'], q):
                        cur.append((r, e.node.lineno, 'is the output array of a call'))
            for r, line, how in cur:
                o = self.origin(r, params)
                if o is None:
                    continue
                self.writes.setdefault(q, []).append((o, line, how))
                if o[0] == 'param':
                    mut.setdefault(o[1], 'line %d' % line)
                if o[0] == 'attr':
                    self.attrmut.setdefault(o[1], []).append((q, line))
            if True:
                for k, v in it.state.heap.items() if it.state is not None else ():
                    if k[0] == 'a':
                        for r in self.roots(v, q):
                            o = self.origin(r, params)
                            if o and o[0] == 'param':
                                self.attrheld.setdefault(k[2], []).append((q, o[1]))
            def als(t):
                return frozenset(o[1] for r in self.roots(t, q) for o in [self.origin(r, params)] if o and o[0] == 'param')
            r = it.result
            if r is not None:
                if r.op == 'tuple':
                    n = [als(x) for x in r.args]
                    pos = [a | b for a, b in zip(pos, n)] if pos and len(pos) == len(n) else n
                else:
                    rets = rets | als(r)
        self.sum[q] = dict(mut=mut, ret=rets, retpos=pos)
        return (set(mut), rets, pos) != (set(before[0]), before[1], before[2])
