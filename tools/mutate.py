#!/usr/bin/env python3
"""Sensitivity of the obligations: tools/mutate.py WORD [mutants per function] [seed]
Mutates each target function in memory (one syntax-tree or text change), runs its obligations, prints the survivors."""
import ast, copy, os, random, re, signal, sys, warnings
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(60000)
warnings.simplefilter('ignore')
from concurrent.futures import ProcessPoolExecutor
from sa import checker
from sa.frontend import Module, AnalysisError

SW = {'x': 'y', 'y': 'z', 'z': 'x'}


def swapname(n):
    m = re.match(r'^(v?)([xyz])(_.*|n1?|1|_int|)$', n)
    if m and len(n) < 9:
        return m.group(1) + SW[m.group(2)] + m.group(3)
    return None


def sites(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                out.append((n, 'op'))
        elif isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            out.append((n, 'cmp'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) :
            out.append((n, 'const'))
        elif isinstance(n, (ast.If, ast.IfExp)):
            out.append((n, 'neg'))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and swapname(n.attr):
            out.append((n, 'attr'))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and swapname(n.id):
            out.append((n, 'name'))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and ast.unparse(n.args[0]) != ast.unparse(n.args[1]):
            out.append((n, 'argswap'))
        if isinstance(n, ast.Call) and len(n.keywords) >= 2 and ast.unparse(n.keywords[-1].value) != ast.unparse(n.keywords[-2].value):
            out.append((n, 'kwswap'))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            out.append((n, 'nocopy'))
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and isinstance(n.targets[0], (ast.Name, ast.Attribute)):
            out.append((n, 'inplace'))
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if i + 1 < len(b) and all(isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.For)) for x in b[i:i + 2]):
                        out.append((s, 'swapnext'))
                    if isinstance(s, (ast.Assign, ast.AugAssign)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) \
                            and not (isinstance(s.value.func, ast.Name) and s.value.func.id == 'print'):
                        out.append((s, 'del'))
    return out


def in_print(fn):
    bad = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('print',) or isinstance(n, ast.Raise):
            for c in ast.walk(n):
                bad.add(id(c))
    return bad


def mutate_py(src, name, cls, k):
    """k-th mutant: (new source, description) or None"""
    tree = ast.parse(src)
    fn = None
    for n in ast.walk(tree):
        if cls and isinstance(n, ast.ClassDef) and n.name == cls:
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and m.name == name:
                    fn = m
        if not cls and isinstance(n, ast.FunctionDef) and n.name == name and n in tree.body:
            fn = n
    if fn is None:
        return None
    bad = in_print(fn)
    want = os.environ.get('KINDS')
    ss = [s for s in sites(fn) if id(s[0]) not in bad and (not want or s[1] in want.split(','))]
    if k >= len(ss):
        return None
    n, kind = ss[k]
    before = ast.unparse(n)
    line = n.lineno
    if kind == 'op':
        n.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}[type(n.op)]()
    elif kind == 'cmp':
        n.ops[0] = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                    ast.Is: ast.IsNot, ast.IsNot: ast.Is}[type(n.ops[0])]()
    elif kind == 'const':
        n.value = (not n.value) if isinstance(n.value, bool) else n.value + 1
    elif kind == 'argswap':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == 'kwswap':
        n.keywords[-1].value, n.keywords[-2].value = n.keywords[-2].value, n.keywords[-1].value
    elif kind == 'neg':
        n.test = ast.UnaryOp(ast.Not(), n.test)
        before = 'if ' + ast.unparse(n.test)
    elif kind == 'nocopy':
        r = n.func.value
        n.func = ast.Name('__id', ast.Load())
        n.args = [r]
    elif kind == 'inplace':
        n.targets = [ast.Subscript(n.targets[0], ast.Slice(), ast.Store())]
    elif kind == 'swapnext':
        for p in ast.walk(fn):
            for f in ('body', 'orelse'):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    i = b.index(n)
                    b[i], b[i + 1] = b[i + 1], b[i]
                    break
        before = 'swap ' + before.split('\n')[0]
    elif kind == 'attr':
        n.attr = swapname(n.attr)
    elif kind == 'name':
        n.id = swapname(n.id)
    elif kind == 'del':
        for p in ast.walk(fn):
            for f in ('body', 'orelse'):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.copy_location(ast.Pass(), n)
    if kind == 'nocopy':
        class N(ast.NodeTransformer):
            def visit_Call(self, c):
                self.generic_visit(c)
                return c.args[0] if isinstance(c.func, ast.Name) and c.func.id == '__id' else c
        tree = N().visit(tree)
        n = n.args[0]
    ast.fix_missing_locations(tree)
    after = '' if kind == 'del' else ast.unparse(n) if kind != 'neg' else 'negated'
    return ast.unparse(tree), '%s line %d: %s  ->  %s' % (kind, line, before[:110], after[:110])


TX = [(r'(?<=[\w)\]])\s*\+\s*(?=[\w(])', '-'), (r'(?<=[\w)\]])\s*-\s*(?=[\w(])', '+'), (r'(?<!\*)\*(?!\*)', '/'), (r'<(?![=-])', '<='), (r'>(?!=)', '>='),
      (r'\bn?x(n1p?|n|p?)\b', 'yn1p'), (r'(?<![\w.])1\b', '2'), (r'\.and\.', '.or.'), (r'\b2\.', '3.')]


def mutate_text(src, k, fort=False):
    lines = src.split('\n')
    n = 0
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or fort and l[0] in 'Cc*!' or s.startswith(('!', '//', 'Cf2py', '#', '/*', '*', 'cdef extern', 'implicit', 'integer', 'real', 'subroutine',
                '@', 'cimport', 'import', 'ctypedef', 'double', 'int ', 'C', 'DIMENSION', 'PARAMETER', 'IMPLICIT')):
            continue
        for pat, rep in TX:
            for m in re.finditer(pat, l):
                if n == k:
                    lines[i] = l[:m.start()] + rep + l[m.end():]
                    return '\n'.join(lines), 'text line %d: %s -> %s' % (i + 1, s[:110], lines[i].strip()[:110])
                n += 1
    return None


BASE = None


def job(a):
    target, name, k = a
    global BASE
    if BASE is None:
        BASE = checker.load_project()
    p = BASE
    o = [x for x in checker.obligations(p) if x.target == target and x.name == name][0]
    f = p.func(target)
    m = f.module
    try:
        if m.lang == 'py' if hasattr(m, 'lang') else True:
            r = mutate_py(m.src, f.node.name, f.cls.name if getattr(f, 'cls', None) else None, k)
        else:
            r = mutate_text(open(m.path).read(), k, m.lang == 'f77')
    except Exception as e:
        return (target, k, 'ERR %r' % e, None)
    if r is None:
        return None
    src, desc = r
    checker.LIMIT = 100
    try:
        p2 = copy.copy(p)
        p2.modules = dict(p.modules)
        p2.kernels = dict(p.kernels)
        p2._signatures = None
        if getattr(m, 'lang', 'py') == 'py':
            p2.modules[m.name] = Module(m.name, m.path, src, ast.parse(src))
        else:
            import tempfile
            d = tempfile.mkdtemp()
            path = os.path.join(d, os.path.basename(m.path))
            open(path, 'w').write(src)
            from sa import fortran, cfront, pyx
            try:
                p2.modules[m.name] = {'f77': fortran, 'c': cfront, 'pyx': pyx}[m.lang].load(path)
            finally:
                os.remove(path)
                os.rmdir(d)
        fs, info = checker.check_obligation(p2, o, checker.baseline_attrs())
        res = 'killed' if fs else 'SURVIVED'
    except (AnalysisError, checker.Timeout) as e:
        res = 'undecided ' + str(e)[:80]
    except SyntaxError:
        return None
    except TimeoutError:
        res = 'timeout'
    except Exception as e:
        res = 'CRASH %r' % e
    return (target, k, desc, res)


def main():
    word, nm = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 15
    rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    p = checker.load_project()
    todo = []
    for o in checker.obligations(p):
        if word in o.target:
            ks = list(range(nm)) if nm >= 1000 else rng.sample(range(400), 400)
            todo.append((o.target, o.name, ks))
    with ProcessPoolExecutor(int(os.environ.get("J", "5"))) as ex:
        jobs = []
        for t, n, ks in todo:
            f = p.func(t)
            if getattr(f.module, 'lang', 'py') == 'py':
                tree = ast.parse(f.module.src)
                cnt = 0
                while cnt < 3000 and mutate_py(f.module.src, f.node.name, f.cls.name if getattr(f, 'cls', None) else None, cnt):
                    cnt += 50
                hi = cnt
            else:
                hi = 100
            sel = [k for k in range(hi)]
            rng.shuffle(sel)
            jobs += [ex.submit(job, (t, n, k)) for k in sel[:nm * 2 if hi > nm else nm]]
        tot = {}
        for j in jobs:
            r = j.result()
            if r is None:
                continue
            key = (r[3] or r[2]).split()[0]
            tot[key] = tot.get(key, 0) + 1
            if r[3] != 'killed':
                print(r[0], '|', r[2], '|', r[3])
        print(tot)


main()
