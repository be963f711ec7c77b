"""OpenCL C sources, parsed by clang and translated statement by statement to Python syntax trees, so that the value-flow analysis
reads device kernels and host code with the same rules.  Vector lanes are one representative lane; pointer loads become subscripts."""
import ast, json, subprocess
from .program import Module, Func, AnalysisError

INT = {'char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'unsigned long', 'unsigned int', 'unsigned char', 'unsigned short', 'bool', 'size_t', 'unsigned long int', 'long int'}
WIDTH = {'char': 1, 'uchar': 1, 'unsigned char': 1, 'short': 2, 'ushort': 2, 'unsigned short': 2, 'half': 2, 'int': 4, 'uint': 4, 'unsigned int': 4, 'float': 4, 'long': 8, 'ulong': 8, 'unsigned long': 8, 'double': 8, 'bool': 1}


def width(nd):
    """how many elements the subscript of a node (a load, or a statement that stores) reads or writes from its index on"""
    if isinstance(nd, ast.Assign):
        nd = nd.targets[0]
    elif isinstance(nd, ast.AugAssign):
        nd = nd.target
    return getattr(nd, 'lanes', 1)


class Unsupported(Exception):
    pass


def basetype(q):
    """('float', lanes, pointer levels, address space) of a type spelling"""
    space = None
    for s in ('__global', '__local', '__constant', '__private', '__generic'):
        if s in q:
            if s != '__private' or space is None:
                space = s if space is None else space
            q = q.replace(s, ' ')
    ptr = q.count('*')
    dims = []
    while '[' in q:
        i = q.rindex('[')
        d = q[i + 1:q.rindex(']')]
        dims.append(int(d) if d.isdigit() else None)
        q = q[:i]
    w = [x for x in q.replace('*', ' ').split() if x not in ('const', 'volatile', 'restrict')]
    t = ' '.join(w)
    lanes = 1
    if w and w[-1][-1:].isdigit():
        b = w[-1].rstrip('0123456789')
        if b in WIDTH:
            lanes = int(w[-1][len(b):])
            t = b
    t = {'unsigned long': 'ulong', 'unsigned int': 'uint', 'unsigned char': 'uchar', 'unsigned short': 'ushort', 'unsigned': 'uint'}.get(t, t)
    return t, lanes, ptr, space, dims[::-1]


class Kernel:
    def __init__(self, name, params, iskernel, privates, line, func, calls):
        self.name, self.params, self.iskernel, self.privates, self.line, self.func, self.calls = name, params, iskernel, privates, line, func, calls


class CLFile:
    def __init__(self, prog, rel):
        self.rel = rel
        src = prog.read(rel)
        p = subprocess.run(['clang', '-x', 'cl', '-cl-std=CL2.0', '-Xclang', '-finclude-default-header', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w', '-'],
                           input=src, capture_output=True, text=True)
        if not p.stdout.strip():
            raise AnalysisError('clang cannot read %s: %s' % (rel, p.stderr[:200]))
        if p.returncode:
            raise AnalysisError('%s does not compile: %s' % (rel, p.stderr.strip().splitlines()[0][:200]))
        tu = json.loads(p.stdout)
        self.last = 0
        self.lines(tu)
        stem = rel.rsplit('/', 1)[-1][:-3]
        self.name = 'cl.' + stem
        self.functions = {}
        self.errors = {}
        tree = ast.Module(body=[], type_ignores=[])
        tree.body.append(ast.Import(names=[ast.alias(name='numpy', asname=None)]))
        meta = []
        for n in tu.get('inner', []):
            if n.get('kind') != 'FunctionDecl':
                continue
            ins = [c for c in n.get('inner', []) if c.get('kind')]
            body = [c for c in ins if c['kind'] == 'CompoundStmt']
            if not body:
                continue
            T = Translate()
            line = n['loc'].get('line', 0)
            params = [(c.get('name', '_'), basetype(c['type']['qualType']) + (c['type']['qualType'],)) for c in ins if c['kind'] == 'ParmVarDecl']
            try:
                stmts = T.stmts(body[0])
            except Unsupported as e:
                self.errors[n['name']] = str(e)
                stmts = []
            f = ast.FunctionDef(name=n['name'], args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p[0]) for p in params], kwonlyargs=[], kw_defaults=[], defaults=[], vararg=None, kwarg=None),
                                body=stmts or [ast.Pass()], decorator_list=[], returns=None, type_comment=None, lineno=line)
            f.end_lineno = body[0]['range']['end'].get('line', line)
            tree.body.append(f)
            meta.append((n['name'], params, any(c['kind'] == 'OpenCLKernelAttr' for c in ins), T.private, line, T.calls))
        fix(tree)
        if self.name not in prog.modules:
            prog.add(Module(self.name, rel, tree, src, False))
        for name, params, isk, priv, line, calls in meta:
            self.functions[name] = Kernel(name, params, isk, priv, line, prog.funcs[self.name + '.' + name], calls)
        self.kernels = {k: v for k, v in self.functions.items() if v.iskernel}

    def lines(self, o):
        st = [o]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if 'offset' in x:
                    if 'line' in x:
                        self.last = x['line']
                    else:
                        x['line'] = self.last
                st.extend(v for v in reversed(list(x.values())) if isinstance(v, (dict, list)))
            else:
                st.extend(v for v in reversed(x) if isinstance(v, (dict, list)))


def fix(tree):
    def go(n, l):
        l = getattr(n, 'lineno', None) or l
        if isinstance(n, (ast.expr, ast.stmt, ast.arg, ast.keyword, ast.excepthandler, ast.alias)):
            if not hasattr(n, 'lineno'):
                n.lineno = l
            if getattr(n, 'end_lineno', None) is None:
                n.end_lineno = n.lineno
            n.col_offset = getattr(n, 'col_offset', 0)
            n.end_col_offset = 0
        for c in ast.iter_child_nodes(n):
            go(c, l)
    go(tree, 1)


def nm(x, ctx=None):
    return ast.Name(id=x, ctx=ctx or ast.Load())


def call(f, *a):
    return ast.Call(func=f if isinstance(f, ast.AST) else nm(f), args=list(a), keywords=[])


def npf(x):
    return ast.Attribute(value=nm('numpy'), attr=x, ctx=ast.Load())


def num(v):
    return ast.Constant(value=v, kind=None)


BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '%': ast.Mod, '<<': ast.LShift, '>>': ast.RShift, '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor}
CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq}
MATH = {'sqrt': 'sqrt', 'exp': 'exp', 'log': 'log', 'fabs': 'abs', 'abs': 'abs', 'floor': 'floor', 'ceil': 'ceil', 'native_exp': 'exp', 'native_sqrt': 'sqrt', 'half_exp': 'exp'}


class Translate:
    def __init__(self):
        self.private = []
        self.calls = set()

    @staticmethod
    def ty(n):
        return basetype(n.get('type', {}).get('qualType', ''))

    def isint(self, n):
        t = self.ty(n)
        return t[0] in INT and t[2] == 0

    def kids(self, n):
        return [c for c in n.get('inner', []) if c.get('kind')]

    # ------------------------------------------------------------ expressions
    def e(self, n):
        k = n['kind']
        if k in ('ParenExpr', 'ImplicitCastExpr', 'ConstantExpr', 'ExprWithCleanups'):
            return self.e(self.kids(n)[0])
        if k == 'CStyleCastExpr':
            return self.e(self.kids(n)[0])
        if k == 'DeclRefExpr':
            return nm(n['referencedDecl']['name'])
        if k == 'IntegerLiteral':
            return num(int(n['value']))
        if k == 'FloatingLiteral':
            return num(float(n['value']))
        if k == 'CharacterLiteral':
            return num(n['value'])
        if k == 'StringLiteral':
            return num(str(n.get('value', '')))
        if k == 'ArraySubscriptExpr':
            a, b = self.kids(n)
            return ast.Subscript(value=self.e(a), slice=self.e(b), ctx=ast.Load())
        if k == 'ExtVectorElementExpr':
            return ast.Attribute(value=self.e(self.kids(n)[0]), attr=n.get('name', 's0'), ctx=ast.Load())
        if k in ('InitListExpr', 'CompoundLiteralExpr', 'ParenListExpr'):
            xs = self.kids(n)
            if len(xs) == 1:
                return self.e(xs[0])
            return ast.Tuple(elts=[self.e(x) for x in xs], ctx=ast.Load())
        if k == 'UnaryOperator':
            o = n['opcode']
            s = self.kids(n)[0]
            if o == '-':
                return ast.UnaryOp(op=ast.USub(), operand=self.e(s))
            if o == '+':
                return self.e(s)
            if o == '!':
                return ast.UnaryOp(op=ast.Not(), operand=self.e(s))
            if o == '*':
                return self.deref(s)
            if o == '&':
                t = s
                while t['kind'] == 'ParenExpr':
                    t = self.kids(t)[0]
                if t['kind'] == 'ArraySubscriptExpr':
                    a, b = self.kids(t)
                    return call('_addr', self.e(a), self.e(b))
                return self.e(s)
            raise Unsupported('operator %s in an expression' % o)
        if k == 'BinaryOperator':
            o = n['opcode']
            a, b = self.kids(n)
            if o in ('&&', '||'):
                return ast.BoolOp(op=ast.And() if o == '&&' else ast.Or(), values=[self.e(a), self.e(b)])
            if o in CMP:
                return ast.Compare(left=self.e(a), ops=[CMP[o]()], comparators=[self.e(b)])
            if o == '/':
                return ast.BinOp(left=self.e(a), op=ast.FloorDiv() if self.isint(n) else ast.Div(), right=self.e(b))
            if o in BIN:
                return ast.BinOp(left=self.e(a), op=BIN[o](), right=self.e(b))
            raise Unsupported('operator %s' % o)
        if k == 'ConditionalOperator':
            c, a, b = self.kids(n)
            return ast.IfExp(test=self.e(c), body=self.e(a), orelse=self.e(b))
        if k == 'CallExpr':
            f, *a = self.kids(n)
            while f['kind'] != 'DeclRefExpr':
                f = self.kids(f)[0]
            name = f['referencedDecl']['name']
            xs = [self.e(x) for x in a]
            if name == 'select':
                return ast.IfExp(test=xs[2], body=xs[1], orelse=xs[0])
            if name.startswith('convert_') or name.startswith('as_'):
                return xs[0]
            if name in MATH:
                return call(npf(MATH[name]), *xs)
            self.calls.add(name)
            return call(name, *xs)
        raise Unsupported(k)

    def deref(self, s):
        n = self.ty(s)[1]                # lanes of what is read or written
        while s['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
            s = self.kids(s)[0]
        m = self.ty(s)[1]                # lanes of the elements of the array behind it
        w = n // m if m and n > m else 1
        if s['kind'] == 'BinaryOperator' and s['opcode'] == '+':
            a, b = self.kids(s)
            # the pointer may be buried in a sum: (p + i) + j
            if self.ty(a)[2]:
                base, off = self.ptr(a)
                off = self.e(b) if off is None else ast.BinOp(left=off, op=ast.Add(), right=self.e(b))
                return self.wide(ast.Subscript(value=base, slice=off, ctx=ast.Load()), w)
            base, off = self.ptr(b)
            off = self.e(a) if off is None else ast.BinOp(left=off, op=ast.Add(), right=self.e(a))
            return self.wide(ast.Subscript(value=base, slice=off, ctx=ast.Load()), w)
        return self.wide(ast.Subscript(value=self.e(s), slice=num(0), ctx=ast.Load()), w)

    @staticmethod
    def wide(x, w):
        x.lanes = w
        return x

    def ptr(self, s):
        while s['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
            s = self.kids(s)[0]
        if s['kind'] == 'BinaryOperator' and s['opcode'] == '+':
            a, b = self.kids(s)
            if self.ty(a)[2]:
                base, off = self.ptr(a)
                return base, (self.e(b) if off is None else ast.BinOp(left=off, op=ast.Add(), right=self.e(b)))
        return self.e(s), None

    # ------------------------------------------------------------ statements
    def at(self, n, s):
        l = n.get('range', {}).get('begin', {}).get('line')
        for x in s:
            x.lineno = l or 0
            x.end_lineno = n.get('range', {}).get('end', {}).get('line') or l or 0
        return s

    def lhs(self, n):
        t = self.e(n)
        t.ctx = ast.Store()
        return t

    def stmts(self, n):
        k = n.get('kind')
        if k is None or k == 'NullStmt':
            return []
        if k == 'CompoundStmt':
            out = []
            for c in self.kids(n):
                out += self.stmts(c)
            return out
        return self.at(n, self.stmt(n, k))

    def stmt(self, n, k):
        if k == 'DeclStmt':
            out = []
            for v in self.kids(n):
                if v['kind'] != 'VarDecl':
                    continue
                t = self.ty(v)
                init = self.kids(v)
                if t[4] and not init:
                    self.private.append((v['name'], t, n.get('range', {}).get('begin', {}).get('line', 0)))
                    out.append(ast.Assign(targets=[nm(v['name'], ast.Store())], value=call(npf('empty'), ast.Tuple(elts=[num(d) for d in t[4]], ctx=ast.Load())), type_comment=None))
                elif init and v.get('init'):
                    out.append(ast.Assign(targets=[nm(v['name'], ast.Store())], value=self.e(init[0]), type_comment=None))
            return out
        if k in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
            return self.stmt(self.kids(n)[0], self.kids(n)[0]['kind'])
        if k == 'BinaryOperator' and n['opcode'] == '=':
            a, b = self.kids(n)
            if b['kind'] == 'BinaryOperator' and b['opcode'] == '=':
                raise Unsupported('chained assignment')
            return [ast.Assign(targets=[self.lhs(a)], value=self.e(b), type_comment=None)]
        if k == 'BinaryOperator' and n['opcode'] == ',':
            a, b = self.kids(n)
            return self.stmts(a) + self.stmts(b)
        if k == 'CompoundAssignOperator':
            a, b = self.kids(n)
            o = n['opcode'][:-1]
            op = ast.FloorDiv() if o == '/' and self.isint(n) and self.isint(b) else BIN[o]()
            return [ast.AugAssign(target=self.lhs(a), op=op, value=self.e(b))]
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            return [ast.AugAssign(target=self.lhs(self.kids(n)[0]), op=ast.Add() if n['opcode'] == '++' else ast.Sub(), value=num(1))]
        if k == 'CallExpr':
            return [ast.Expr(value=self.e(n))]
        if k == 'ReturnStmt':
            x = self.kids(n)
            return [ast.Return(value=self.e(x[0]) if x else None)]
        if k == 'BreakStmt':
            return [ast.Break()]
        if k == 'ContinueStmt':
            return [ast.Continue()]
        if k == 'IfStmt':
            x = self.kids(n)
            return [ast.If(test=self.e(x[0]), body=self.stmts(x[1]) or [ast.Pass()], orelse=self.stmts(x[2]) if len(x) > 2 else [])]
        if k == 'ForStmt':
            return self.loop(n)
        if k == 'WhileStmt':
            x = self.kids(n)
            return [ast.While(test=self.e(x[0]), body=self.stmts(x[1]) or [ast.Pass()], orelse=[])]
        raise Unsupported(k)

    def loop(self, n):
        init, _, cond, inc, body = n['inner']
        var = start = None
        pre = []
        if init.get('kind') == 'DeclStmt':
            v = self.kids(init)[0]
            if v.get('init'):
                var, start = v['name'], self.e(self.kids(v)[0])
        elif init.get('kind') == 'BinaryOperator' and init['opcode'] == '=':
            a, b = self.kids(init)
            if a['kind'] == 'DeclRefExpr':
                var, start = a['referencedDecl']['name'], self.e(b)
        step = None
        i2 = inc
        while i2.get('kind') == 'ParenExpr':
            i2 = self.kids(i2)[0]
        if i2.get('kind') == 'UnaryOperator' and i2['opcode'] in ('++', '--'):
            step = 1 if i2['opcode'] == '++' else -1
        elif i2.get('kind') == 'CompoundAssignOperator' and i2['opcode'] == '+=':
            b = self.kids(i2)[1]
            b = self.e(b)
            step = b.value if isinstance(b, ast.Constant) and isinstance(b.value, int) else None
        c = cond
        while c.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
            c = self.kids(c)[0]
        if var and step == 1 and c.get('kind') == 'BinaryOperator' and c['opcode'] in ('<', '<=', '!='):
            a, b = self.kids(c)
            a2 = a
            while a2['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
                a2 = self.kids(a2)[0]
            if a2['kind'] == 'DeclRefExpr' and a2['referencedDecl']['name'] == var:
                stop = self.e(b)
                if c['opcode'] == '<=':
                    stop = ast.BinOp(left=stop, op=ast.Add(), right=num(1))
                return [ast.For(target=nm(var, ast.Store()), iter=call('range', start, stop), body=self.stmts(body) or [ast.Pass()], orelse=[], type_comment=None)]
        b = self.stmts(body)
        if any(isinstance(x, ast.Continue) for s in b for x in ast.walk(s)):
            raise Unsupported('for loop with continue')
        pre = self.stmts(init)
        return pre + [ast.While(test=self.e(cond) if cond.get('kind') else num(True), body=b + self.stmts(inc) or [ast.Pass()], orelse=[])]


_cache = {}


def load(prog, rel):
    k = (id(prog), rel)
    if k not in _cache:
        _cache[k] = (prog, CLFile(prog, rel))
    return _cache[k][1]


def workitem(it, f, args, vals, kw, st, node):
    """a 'dynamic' hook: work-item functions are symbols, an address of an element is the array from there on"""
    from .term import sym, is_const, cval, mk
    n = f.args[0] if f.op == 'undef' else None
    short = {'get_global_id': 'gid', 'get_global_size': 'gsz', 'get_local_id': 'lid', 'get_group_id': 'grp', 'get_local_size': 'lsz'}.get(n)
    if short and len(vals) == 1 and is_const(vals[0]):
        return sym('%s%d' % (short, cval(vals[0])))
    return None
