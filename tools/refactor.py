#!/usr/bin/env python3
"""Robustness of the obligations: tools/refactor.py WORD [max variants per kind and function] [kinds]
Applies behaviour-preserving rewrites to each target function (in a scratch directory of links), runs every obligation on it and
prints the rewrites that raise an alarm or leave an obligation undecided."""
import ast, copy, os, random, re, shutil, sys, tempfile, warnings
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(60000)
warnings.simplefilter('ignore')
from concurrent.futures import ProcessPoolExecutor
from sa import checker, frontend
from sa.frontend import AnalysisError

PURE_CALLS = {'len', 'int', 'float', 'range', 'abs', 'min', 'max', 'zip', 'enumerate', 'list', 'tuple', 'isinstance', 'str', 'sum'}


def find(tree, name, cls):
    for n in ast.walk(tree):
        if cls and isinstance(n, ast.ClassDef) and n.name == cls:
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and m.name == name:
                    return m, n
        if not cls and isinstance(n, ast.FunctionDef) and n.name == name and n in tree.body:
            return n, None
    return None, None


def names(node, ctx=None):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx)):
            out.add(n.id)
    return out


def blocks(fn):
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def pure(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in PURE_CALLS:
                continue
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'np' and f.attr != 'random':
                continue
            return False
        if isinstance(n, (ast.Yield, ast.Await, ast.NamedExpr)):
            return False
    return True


def scalarish(e):
    return not any(isinstance(n, (ast.List, ast.JoinedStr, ast.Tuple, ast.ListComp)) or
                   isinstance(n, ast.Constant) and isinstance(n.value, str) for n in ast.walk(e)) and \
        not any(w in ast.unparse(e).lower() for w in ('path', 'folder', 'name', 'file', 'str(', 'list', '_txt', 'shape'))


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def parse1(s):
    return ast.parse(s).body


# every kind: generator of (description, function that edits the tree in place)
def k_rename(fn, cls, tree):
    if any(isinstance(n, ast.Name) and n.id == 'locals' for n in ast.walk(fn)):
        return
    loc = names(fn, ast.Store) - set(params(fn))
    glob = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    loc -= glob
    if not loc:
        return

    def do():
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + '_loc'
            elif isinstance(n, ast.ExceptHandler) and n.name in loc:
                n.name += '_loc'
    yield 'rename locals', do


def k_temp(fn, cls, tree):
    for b in blocks(fn):
        for s in list(b):
            v = getattr(s, 'value', None)
            if not isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) or v is None:
                continue
            if isinstance(s, ast.AugAssign):
                def do(b=b, s=s):
                    if not pure(s.value):
                        return
                    b.insert(b.index(s), ast.Assign(targets=[ast.Name('tmp_v', ast.Store())], value=s.value, lineno=s.lineno))
                    s.value = ast.Name('tmp_v', ast.Load())
                yield 'temp for augmented value', do
            elif isinstance(v, ast.BinOp):
                def do(b=b, s=s, v=v):
                    b.insert(b.index(s), ast.Assign(targets=[ast.Name('tmp_l', ast.Store())], value=v.left, lineno=s.lineno))
                    v.left = ast.Name('tmp_l', ast.Load())
                yield 'temp for left operand', do
            elif isinstance(v, ast.Call) and v.args and not any(isinstance(x, ast.Starred) for x in v.args):
                def do(b=b, s=s, v=v):
                    i = b.index(s)
                    for j, x in enumerate(v.args):
                        b.insert(i, ast.Assign(targets=[ast.Name('tmp_a%d' % j, ast.Store())], value=x, lineno=s.lineno))
                        i += 1
                        v.args[j] = ast.Name('tmp_a%d' % j, ast.Load())
                yield 'temps for arguments', do
            elif isinstance(s, ast.Return):
                def do(b=b, s=s):
                    b.insert(b.index(s), ast.Assign(targets=[ast.Name('tmp_r', ast.Store())], value=s.value, lineno=s.lineno))
                    s.value = ast.Name('tmp_r', ast.Load())
                yield 'temp for return value', do


def k_invert(fn, cls, tree):
    for n in ast.walk(fn):
        if isinstance(n, ast.If):
            def do(n=n):
                t = n.test
                n.test = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
                n.body, n.orelse = (n.orelse or [ast.Pass()]), n.body
            yield 'invert if line %d' % n.lineno, do


def k_cond(fn, cls, tree):
    for b in blocks(fn):
        for s in list(b):
            if isinstance(s, ast.If):
                def do(b=b, s=s):
                    b.insert(b.index(s), ast.Assign(targets=[ast.Name('cond_v', ast.Store())], value=s.test, lineno=s.lineno))
                    s.test = ast.Name('cond_v', ast.Load())
                if any(s in getattr(p, 'orelse', []) and len(p.orelse) == 1 for p in ast.walk(fn) if isinstance(p, ast.If)):
                    pass
                yield 'condition in a variable line %d' % s.lineno, do


def k_nest(fn, cls, tree):
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            def do(n=n):
                v = n.test.values
                rest = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
                n.body = [ast.If(test=rest, body=n.body, orelse=[])]
                n.test = v[0]
            yield 'nest and', do
        if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            def do(n=n):
                i = n.body[0]
                n.test = ast.BoolOp(ast.And(), [n.test, i.test])
                n.body = i.body
            yield 'join nested ifs', do


def k_comm(fn, cls, tree):
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Add)) and pure(n) and scalarish(n):
            def do(n=n):
                n.left, n.right = n.right, n.left
            yield 'commute line %d' % n.lineno, do


def k_assoc(fn, cls, tree):
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div) and pure(n) and scalarish(n) and isinstance(n.left, ast.BinOp) and \
                isinstance(n.left.op, ast.Mult):
            def do(n=n):
                l = n.left
                n.op = ast.Mult()
                n.left, n.right = l.left, ast.BinOp(l.right, ast.Div(), n.right)
            yield 'a*b/c to a*(b/c) line %d' % n.lineno, do
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) and pure(n) and scalarish(n):
            def do(n=n):
                n.op = ast.Add()
                n.left, n.right = ast.UnaryOp(ast.USub(), n.right), n.left
            yield 'a-b to -b+a line %d' % n.lineno, do
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, (ast.Add, ast.Sub)) \
                and pure(n) and scalarish(n):
            def do(n=n):
                l, r = n.left, n.right
                n.op = l.op
                n.left, n.right = ast.BinOp(l.left, ast.Mult(), copy.deepcopy(r)), ast.BinOp(l.right, ast.Mult(), r)
            yield 'distribute line %d' % n.lineno, do


def k_pow(fn, cls, tree):
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and pure(n.left):
            def do(n=n):
                n.op = ast.Mult()
                n.right = copy.deepcopy(n.left)
            yield 'square as product', do


def k_aug(fn, cls, tree):
    for b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Subscript) and pure(s.target):
                def do(b=b, i=i, s=s):
                    t = copy.deepcopy(s.target)
                    t.ctx = ast.Load()
                    b[i] = ast.Assign(targets=[s.target], value=ast.BinOp(t, s.op, s.value), lineno=s.lineno)
                yield 'x[i] += v spelled out', do
            if isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant) and isinstance(s.target, (ast.Name, ast.Attribute)):
                def do(b=b, i=i, s=s):
                    t = copy.deepcopy(s.target)
                    t.ctx = ast.Load()
                    b[i] = ast.Assign(targets=[s.target], value=ast.BinOp(t, s.op, s.value), lineno=s.lineno)
                yield 'n += 1 spelled out', do


def k_tern(fn, cls, tree):
    for b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
                def do(b=b, i=i, s=s):
                    v = s.value
                    b[i] = ast.If(test=v.test, body=[ast.Assign(targets=s.targets, value=v.body, lineno=s.lineno)],
                                  orelse=[ast.Assign(targets=copy.deepcopy(s.targets), value=v.orelse, lineno=s.lineno)])
                yield 'conditional expression to if', do
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and \
                    isinstance(s.orelse[0], ast.Assign) and ast.unparse(s.body[0].targets[0]) == ast.unparse(s.orelse[0].targets[0]):
                def do(b=b, i=i, s=s):
                    b[i] = ast.Assign(targets=s.body[0].targets, value=ast.IfExp(s.test, s.body[0].value, s.orelse[0].value), lineno=s.lineno)
                yield 'if to conditional expression', do


def k_loop(fn, cls, tree):
    for b in blocks(fn):
        for i, s in enumerate(b):
            if not isinstance(s, ast.For) or s.orelse:
                continue
            it = s.iter
            if isinstance(s.target, ast.Name) and isinstance(it, (ast.Name, ast.Attribute)) and 'list' in ast.unparse(it):
                def do(s=s, it=it):
                    t = s.target
                    s.body.insert(0, ast.Assign(targets=[t], value=ast.Subscript(it, ast.Name('i_it', ast.Load()), ast.Load()), lineno=s.lineno))
                    s.target = ast.Name('i_it', ast.Store())
                    s.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [it], [])], [])
                yield 'loop over list by index line %d' % s.lineno, do

                def do(s=s, it=it):
                    s.target = ast.Tuple([ast.Name('i_it', ast.Store()), s.target], ast.Store())
                    s.iter = ast.Call(ast.Name('enumerate', ast.Load()), [it], [])
                yield 'loop with enumerate line %d' % s.lineno, do
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and isinstance(s.target, ast.Tuple):
                def do(s=s, it=it):
                    a, v = s.target.elts
                    s.body.insert(0, ast.Assign(targets=[v], value=ast.Subscript(it.args[0], ast.Name(a.id, ast.Load()), ast.Load()), lineno=s.lineno))
                    s.target = a
                    s.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [it.args[0]], [])], [])
                yield 'enumerate to range line %d' % s.lineno, do
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'zip' and isinstance(s.target, ast.Tuple) and \
                    all(isinstance(x, (ast.Name, ast.Attribute)) for x in it.args):
                def do(s=s, it=it):
                    for v, a in zip(s.target.elts, it.args):
                        s.body.insert(0, ast.Assign(targets=[v], value=ast.Subscript(a, ast.Name('i_it', ast.Load()), ast.Load()), lineno=s.lineno))
                    s.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [it.args[0]], [])], [])
                    s.target = ast.Name('i_it', ast.Store())
                yield 'zip to range line %d' % s.lineno, do
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1 and \
                    isinstance(s.target, ast.Name) and not any(isinstance(x, (ast.Continue,)) for x in ast.walk(s)):
                def do(b=b, i=i, s=s, it=it):
                    w = ast.While(test=ast.Compare(ast.Name('i_w', ast.Load()), [ast.Lt()], [it.args[0]]),
                                  body=[ast.Assign(targets=[s.target], value=ast.Name('i_w', ast.Load()), lineno=s.lineno)] + s.body +
                                  [ast.AugAssign(ast.Name('i_w', ast.Store()), ast.Add(), ast.Constant(1))], orelse=[])
                    b[i:i + 1] = [ast.Assign(targets=[ast.Name('i_w', ast.Store())], value=ast.Constant(0), lineno=s.lineno), w]
                if pure(it) and not (names(it) & names(s, ast.Store)):
                    yield 'for range to while line %d' % s.lineno, do


def k_comp(fn, cls, tree):
    for b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
                def do(b=b, i=i, s=s):
                    g = s.value.generators[0]
                    t = copy.deepcopy(s.targets[0])
                    t.ctx = ast.Load()
                    body = [ast.Expr(ast.Call(ast.Attribute(t, 'append', ast.Load()), [s.value.elt], []))]
                    for c in g.ifs:
                        body = [ast.If(test=c, body=body, orelse=[])]
                    b[i:i + 1] = [ast.Assign(targets=s.targets, value=ast.List([], ast.Load()), lineno=s.lineno),
                                  ast.For(target=g.target, iter=g.iter, body=body, orelse=[], lineno=s.lineno)]
                yield 'comprehension to loop line %d' % s.lineno, do
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and i + 1 < len(b) and isinstance(b[i + 1], ast.For):
                f = b[i + 1]
                x = f.body[0]
                ifs = []
                if len(f.body) == 1 and isinstance(x, ast.If) and len(x.body) == 1 and not x.orelse:
                    ifs, x = [x.test], x.body[0]
                if len(f.body) == 1 and isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and \
                        x.value.func.attr == 'append' and ast.unparse(x.value.func.value) == ast.unparse(s.targets[0]):
                    def do(b=b, i=i, s=s, f=f, x=x, ifs=ifs):
                        s.value = ast.ListComp(x.value.args[0], [ast.comprehension(f.target, f.iter, ifs, 0)])
                        del b[i + 1]
                    yield 'append loop to comprehension line %d' % s.lineno, do


def k_noop(fn, cls, tree):
    for b in blocks(fn):
        for i in range(len(b) + 1):
            if b is fn.body and i == 0 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                continue
            if i == len(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                continue

            def do(b=b, i=i):
                b.insert(i, ast.Assign(targets=[ast.Name('_nothing', ast.Store())], value=ast.Constant(0), lineno=1))
            yield 'no-op statement', do


def reads_writes(s):
    r, w, ok = set(), set(), True
    for n in ast.walk(s):
        if isinstance(n, ast.Name):
            (r if isinstance(n.ctx, ast.Load) else w).add(n.id)
    return r, w


def k_reorder(fn, cls, tree):
    for b in blocks(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Name, ast.Attribute)) and pure(x.value) for x in (s, t)):
                rs, ws = reads_writes(s)
                rt, wt = reads_writes(t)
                if ws & (rt | wt) or wt & rs:
                    continue
                ts, tt = ast.unparse(s.targets[0]), ast.unparse(t.targets[0])
                if isinstance(s.targets[0], ast.Attribute) and (ts in ast.unparse(t)) or isinstance(t.targets[0], ast.Attribute) and (tt in ast.unparse(s)):
                    continue

                def do(b=b, i=i):
                    b[i], b[i + 1] = b[i + 1], b[i]
                yield 'swap statements line %d' % s.lineno, do


def k_early(fn, cls, tree):
    if any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(fn)):
        return
    s = fn.body[-1]
    if isinstance(s, ast.If) and not s.orelse:
        def do():
            fn.body[-1:] = [ast.If(test=ast.UnaryOp(ast.Not(), s.test), body=[ast.Return(None)], orelse=[])] + s.body
        yield 'early return', do
    for b in blocks(fn):
        pass
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            def do(n=n):
                x = n.body[-1]
                n.body[-1:] = [ast.If(test=ast.UnaryOp(ast.Not(), x.test), body=[ast.Continue()], orelse=[])] + x.body
            yield 'continue instead of if', do


def k_kwargs(fn, cls, tree, proj=None):
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and len(n.args) >= 1 and not any(isinstance(x, ast.Starred) for x in n.args):
            sig = PROJ.common_signature(n.func.attr)
            if sig and len(n.args) <= len(sig) and n.func.attr not in ('append', 'get', 'update', 'copy', 'sum'):
                def do(n=n, sig=sig):
                    n.keywords = [ast.keyword(k, v) for k, v in zip(sig, n.args)] + n.keywords
                    n.args = []
                yield 'keyword arguments for %s' % n.func.attr, do


def k_attr(fn, cls, tree):
    for b in blocks(fn):
        for s in list(b):
            if not isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return)):
                continue
            seen = set()
            for n in ast.walk(s):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                    if any(isinstance(c, ast.Call) and c.func is n for c in ast.walk(s)) or n.attr in seen:
                        continue
                    if any(isinstance(c, ast.Attribute) and isinstance(c.ctx, ast.Store) and c.attr == n.attr for c in ast.walk(s)):
                        continue
                    if any(isinstance(c, (ast.IfExp, ast.Lambda, ast.ListComp, ast.BoolOp)) for c in ast.walk(s)) or not all(
                            pure(c) or c is getattr(s, 'value', None) for c in ast.walk(s) if isinstance(c, ast.Call)):
                        continue
                    seen.add(n.attr)

                    def do(b=b, s=s, a=n.attr):
                        for p in ast.walk(s):
                            for f, v in ast.iter_fields(p):
                                def rep(x):
                                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr == a:
                                        return ast.Name('self_' + a, ast.Load())
                                    return x
                                if isinstance(v, list):
                                    setattr(p, f, [rep(x) for x in v])
                                elif isinstance(v, ast.AST):
                                    setattr(p, f, rep(v))
                        b.insert(b.index(s), parse1('self_%s = self.%s' % (a, a))[0])
                    yield 'self.%s in a local line %d' % (n.attr, s.lineno), do


def k_sum(fn, cls, tree):
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np' and \
                n.func.attr in ('sum', 'any', 'all', 'max', 'min') and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], (ast.Name, ast.Attribute, ast.Subscript, ast.BinOp)):
            def do(n=n):
                n.func = ast.Attribute(n.args[0], n.func.attr, ast.Load())
                n.args = []
            yield 'np.%s as a method line %d' % (n.func.attr, n.lineno), do
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('any', 'all') and not n.args and not n.keywords:
            def do(n=n):
                n.args = [n.func.value]
                n.func = ast.Attribute(ast.Name('np', ast.Load()), n.func.attr, ast.Load())
            yield '.any() as np.any line %d' % n.lineno, do


def k_where(fn, cls, tree):
    for n in ast.walk(fn):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name) and n.slice.id.startswith('flag') and isinstance(n.ctx, ast.Load):
            def do(n=n):
                n.slice = ast.parse('np.where(%s)[0]' % n.slice.id, mode='eval').body
            yield 'mask as indices (read) line %d' % n.lineno, do


def k_slice(fn, cls, tree):
    for n in ast.walk(fn):
        if isinstance(n, ast.Slice):
            if n.lower is None and n.upper is not None and n.step is None and not (isinstance(n.upper, ast.UnaryOp)):
                def do(n=n):
                    n.lower = ast.Constant(0)
                yield 'x[:n] as x[0:n]', do


def k_fstr(fn, cls, tree):
    for p in ast.walk(fn):
        for f, v in ast.iter_fields(p):
            if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mod) and isinstance(v.left, ast.Constant) and isinstance(v.left.value, str):
                parts = re.split(r'(%d|%s)', v.left.value)
                if '%' in ''.join(x for x in parts if x not in ('%d', '%s')):
                    continue
                args = v.right.elts if isinstance(v.right, ast.Tuple) else [v.right]
                if sum(x in ('%d', '%s') for x in parts) != len(args):
                    continue

                def do(p=p, f=f, parts=parts, args=args):
                    a = iter(args)
                    setattr(p, f, ast.JoinedStr([ast.FormattedValue(next(a), -1, None) if x in ('%d', '%s') else ast.Constant(x)
                                                 for x in parts if x]))
                yield 'f-string line %d' % v.lineno, do


def k_rand(fn, cls, tree):
    if any(isinstance(n, ast.Name) and n.id in ('rand', 'randn') and isinstance(n.ctx, ast.Load) for n in ast.walk(fn)):
        def do():
            for n in ast.walk(fn):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('rand', 'randn'):
                    n.func = ast.parse('np.random.' + n.func.id, mode='eval').body
        yield 'np.random.rand', do


def k_extract(fn, cls, tree):
    """a block of statements becomes a helper (method of the class or module function)"""
    if any(isinstance(n, (ast.Global, ast.Nonlocal, ast.Yield)) for n in ast.walk(fn)):
        return
    P = params(fn)
    loc = names(fn, ast.Store) | set(P)
    imported = {(a.asname or a.name).split('.')[0] for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    for b in blocks(fn):
        for i in range(len(b)):
            for j in range(i + 1, min(len(b), i + 6) + 1):
                blk = b[i:j]
                if b is fn.body and i == 0 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                    continue
                if len(blk) == 1 and not isinstance(blk[0], (ast.If, ast.For, ast.While, ast.With, ast.Assign)):
                    continue
                if any(isinstance(n, (ast.Return, ast.Import, ast.ImportFrom, ast.Delete, ast.FunctionDef, ast.Lambda)) for s in blk for n in ast.walk(s)):
                    continue
                if any(isinstance(n, (ast.Break, ast.Continue)) for s in blk for n in ast.walk(s)):
                    continue
                m = ast.Module(body=blk, type_ignores=[])
                if names(m, ast.Load) & imported:
                    continue
                w = names(m, ast.Store)
                inner = {id(n) for s in blk for n in ast.walk(s)}
                other = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and id(n) not in inner and isinstance(n.ctx, ast.Load)}
                in_loop = any(isinstance(p, (ast.For, ast.While)) and any(x is blk[0] for x in ast.walk(p)) for p in ast.walk(fn))
                reads = names(m, ast.Load) & loc
                # definitely assigned written names only: top level assignments of the block
                top = set()
                for s in blk:
                    if isinstance(s, ast.Assign):
                        top |= names(s, ast.Store)
                outs = w & (other | (reads if in_loop else set()))
                defd = set()
                for s in fn.body:
                    if any(x is blk[0] for x in ast.walk(s)):
                        break
                    if isinstance(s, (ast.Assign,)):
                        defd |= names(s, ast.Store)
                if not outs <= top | defd | set(P):
                    continue
                pre = defd | set(P)
                local_before = {n.id for s in b[:i] for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and isinstance(s, ast.Assign)}
                ins = (reads | (outs - top))
                first = set()
                ok = True
                for v in sorted(ins):
                    if v in pre or v in local_before or v in ('self',):
                        first.add(v)
                        continue
                    # defined inside the block before use?
                    if v in top and not any(isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load) for n in ast.walk(blk[0])):
                        continue
                    # loop variables of enclosing loops
                    if any(isinstance(p, ast.For) and v in names(p.target) and any(x is blk[0] for x in ast.walk(p)) for p in ast.walk(fn)):
                        first.add(v)
                        continue
                    if v in w and v not in other and v not in top:
                        continue
                    ok = False
                if not ok:
                    continue

                def do(b=b, i=i, j=j, blk=blk, ins=sorted(first - {'self'}), outs=sorted(outs), me='self' in P or 'self' in reads):
                    nm = '_extracted_helper'
                    ret = []
                    if outs:
                        ret = [ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()) if len(outs) > 1 else ast.Name(outs[0], ast.Load()))]
                    meth = cls is not None and me
                    h = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in (['self'] if meth else []) + ins],
                                        kwonlyargs=[], kw_defaults=[], defaults=[]), body=blk + ret, decorator_list=[], lineno=1, type_params=[])
                    fe = ast.Attribute(ast.Name('self', ast.Load()), nm, ast.Load()) if meth else ast.Name(nm, ast.Load())
                    call = ast.Call(fe, [ast.Name(x, ast.Load()) for x in ins], [])
                    if outs:
                        t = ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store()) if len(outs) > 1 else ast.Name(outs[0], ast.Store())
                        st = ast.Assign(targets=[t], value=call, lineno=blk[0].lineno)
                    else:
                        st = ast.Expr(call)
                    b[i:j] = [st]
                    if meth:
                        cls.body.insert(cls.body.index(fn), h)
                    else:
                        tree.body.insert([k for k, x in enumerate(tree.body) if x is fn or x is cls][0], h)
                yield 'extract lines %d-%d' % (blk[0].lineno, blk[-1].end_lineno), do


def k_unpack(fn, cls, tree):
    for b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and \
                    all(isinstance(x, (ast.Name, ast.Attribute)) for x in s.targets[0].elts):
                def do(b=b, i=i, s=s):
                    b[i:i + 1] = [ast.Assign(targets=[ast.Name('res_t', ast.Store())], value=s.value, lineno=s.lineno)] + [
                        ast.Assign(targets=[x], value=ast.Subscript(ast.Name('res_t', ast.Load()), ast.Constant(k), ast.Load()), lineno=s.lineno)
                        for k, x in enumerate(s.targets[0].elts)]
                yield 'unpack by index line %d' % s.lineno, do


def k_demorgan(fn, cls, tree):
    for p in ast.walk(fn):
        if isinstance(p, (ast.If, ast.While, ast.IfExp)) and isinstance(p.test, ast.BoolOp):
            def do(p=p):
                t = p.test
                inv = ast.Or() if isinstance(t.op, ast.And) else ast.And()
                p.test = ast.UnaryOp(ast.Not(), ast.BoolOp(inv, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
            yield 'de Morgan', do
        if isinstance(p, ast.Compare) and len(p.ops) == 1 and isinstance(p.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            def do(p=p):
                p.left, p.comparators = p.comparators[0], [p.left]
                p.ops = [{ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(p.ops[0])]()]
            if pure(p):
                yield 'mirror comparison', do


def k_chain(fn, cls, tree):
    """elif chain to else: if (already the same tree); x = y = v split"""
    for b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and any(isinstance(x, (ast.Return, ast.Raise, ast.Continue, ast.Break)) for x in s.body[-1:]):
                def do(b=b, i=i, s=s):
                    rest = s.orelse
                    s.orelse = []
                    b[i + 1:i + 1] = rest
                yield 'else after return dropped line %d' % s.lineno, do


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('k_')}
PROJ = None


def variants(src, name, cls, kind):
    tree = ast.parse(src)
    fn, c = find(tree, name, cls)
    if fn is None:
        return 0
    return sum(1 for _ in KINDS[kind](fn, c, tree))


def apply(src, name, cls, kind, k):
    tree = ast.parse(src)
    fn, c = find(tree, name, cls)
    for n, (d, do) in enumerate(KINDS[kind](fn, c, tree)):
        if n == k:
            do()
            ast.fix_missing_locations(tree)
            r = ast.unparse(tree)
            if 'np.' in r and not any(isinstance(x, ast.Import) and any(a.asname == 'np' for a in x.names) for x in tree.body):
                r = 'import numpy as np\n' + r if '__future__' not in r else r
            return r, d
    return None


BASE = None


def job(a):
    target, kind, k = a
    global PROJ, BASE
    if PROJ is None:
        PROJ = checker.load_project()
        BASE = checker.baseline_attrs()
    f = PROJ.func(target)
    m = f.module
    try:
        r = apply(m.src, f.node.name, f.cls.name if f.cls else None, kind, k)
        if r is None:
            return None
        src, desc = r
        ast.parse(src)
    except Exception as e:
        return target, kind, k, 'ERR %r' % e, None
    if src == ast.unparse(ast.parse(m.src)):
        return None
    d = tempfile.mkdtemp(prefix='rf')
    try:
        for x in os.listdir(frontend.REPO):
            if x.endswith(('.py', '.f', '.pyx', '.c')):
                os.symlink(os.path.join(frontend.REPO, x), os.path.join(d, x))
        p = os.path.join(d, os.path.basename(m.path))
        os.remove(p)
        open(p, 'w').write(src)
        keep = os.environ.get('KEEP')
        proj = checker.load_project(d)
        checker.LIMIT = 200
        bad = []
        for o in checker.obligations(proj):
            if o.target == target or o.target.startswith(m.name + '.') and os.environ.get('MODULE'):
                try:
                    fs, info = checker.check_obligation(proj, o, BASE)
                    if fs:
                        bad.append('%d findings: %s' % (len(fs), str(fs[0])[:260]))
                except (AnalysisError, checker.Timeout) as e:
                    bad.append('undecided ' + str(e)[:100])
                except Exception as e:
                    bad.append('CRASH %r' % e)
        if bad and keep:
            open(os.path.join(keep, '%s-%s-%d.py' % (target, kind, k)), 'w').write(src)
        return target, kind, k, desc, bad
    finally:
        shutil.rmtree(d)


def main():
    global PROJ
    word, nm = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 6
    kinds = sys.argv[3].split(',') if len(sys.argv) > 3 else sorted(KINDS)
    rng = random.Random(int(os.environ.get('SEED', '1')))
    PROJ = checker.load_project()
    jobs = []
    done = set()
    for o in checker.obligations(PROJ):
        if word != '.' and word not in o.target or o.target in done:
            continue
        done.add(o.target)
        try:
            f = PROJ.func(o.target)
        except AnalysisError:
            continue
        if f.lang != 'py':
            continue
        for kd in kinds:
            n = variants(f.module.src, f.node.name, f.cls.name if f.cls else None, kd)
            jobs += [(o.target, kd, k) for k in (rng.sample(range(n), nm) if n > nm else range(n))]
    print(len(jobs), 'variants of', len(done), 'functions', flush=True)
    tot = {}
    with ProcessPoolExecutor(int(os.environ.get('J', '6'))) as ex:
        for r in ex.map(job, jobs, chunksize=4):
            if r is None:
                continue
            t = tot.setdefault(r[1], [0, 0])
            t[0] += 1
            if r[4] is None or r[4]:
                t[1] += 1
                print(r[0], '|', r[1], r[2], '|', r[3], '|', (r[4] or ['?'])[0][:300], flush=True)
    print({k: '%d/%d' % (v[1], v[0]) for k, v in tot.items()})


if __name__ == '__main__':
    main()
