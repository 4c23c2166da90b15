"""Source loading: Python modules, plus Fortran-77 / C / Cython kernels lowered to Python syntax trees."""
import ast
import os
import re

REPO = os.environ.get('SA_REPO', '/repo')


class AnalysisError(Exception):
    """the analysis could not find or understand what it has to judge (neither pass nor violation)"""


def bound_flags(fn):
    """`try: x / except NameError: ...` says `if x was not set yet`: spelled out with a flag set wherever x is set"""
    names = {}

    def wanted(n):
        return isinstance(n, ast.Try) and len(n.body) == 1 and isinstance(n.body[0], ast.Expr) and \
            isinstance(n.body[0].value, ast.Name) and len(n.handlers) == 1 and not n.finalbody and \
            isinstance(n.handlers[0].type, ast.Name) and n.handlers[0].type.id in ('NameError', 'UnboundLocalError')
    for n in ast.walk(fn):
        if wanted(n):
            names[n.body[0].value.id] = '$set_' + n.body[0].value.id
    own = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    names = {k: v for k, v in names.items() if k in own}
    if not names:
        return

    def flag(n, x, v):
        r = ast.Assign([ast.Name(names[x], ast.Store())], ast.Constant(v))
        return ast.fix_missing_locations(ast.copy_location(r, n))

    def block(body):
        out = []
        for n in body:
            for f in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(n, f, None), list) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                    setattr(n, f, block(getattr(n, f)))
            for h in getattr(n, 'handlers', ()):
                h.body = block(h.body)
            if wanted(n) and n.body[0].value.id in names:
                out.append(ast.copy_location(ast.If(ast.UnaryOp(ast.Not(), ast.Name(names[n.body[0].value.id], ast.Load())),
                                                    n.handlers[0].body, n.orelse), n))
                ast.fix_missing_locations(out[-1])
                continue
            out.append(n)
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                for x in {y.id for z in tg for y in ast.walk(z) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}:
                    if x in names:
                        out.append(flag(n, x, True))
            elif isinstance(n, (ast.For, ast.With)):
                tg = [n.target] if isinstance(n, ast.For) else [i.optional_vars for i in n.items if i.optional_vars]
                for x in {y.id for z in tg for y in ast.walk(z) if isinstance(y, ast.Name)}:
                    if x in names:
                        n.body.insert(0, flag(n, x, True))
            elif isinstance(n, ast.Delete):
                for z in n.targets:
                    if isinstance(z, ast.Name) and z.id in names:
                        out.append(flag(n, z.id, False))
        return out
    fn.body = [flag(fn.body[0], x, False) for x in sorted(names)] + block(fn.body)


class Func:
    def __init__(self, name, node, module, cls=None, lang='py'):
        self.name = name
        if isinstance(node, ast.FunctionDef):
            bound_flags(node)
        self.node = node
        self.module = module
        self.cls = cls
        self.lang = lang
        self.inout = {}

    @property
    def qual(self):
        return '%s.%s%s' % (self.module.name, self.cls.name + '.' if self.cls else '', self.name)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def kind(self):
        """'static', 'class', 'property' or '' (by decorator)"""
        for d in getattr(self.node, 'decorator_list', ()):
            if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
                return d.id.replace('method', '')
        return ''

    @property
    def me(self):
        """the name under which a method gets its own object"""
        return self.params[0] if self.cls and self.kind in ('', 'property') and self.params else None

    def __repr__(self):
        return '<Func %s>' % self.qual


class Class:
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.methods = {}
        self.attrs = {}
        self.bases = []

    def mro(self, project, seen=None):
        out = [self]
        for b in self.bases:
            r = project.resolve_class(self.module, b)
            if r is not None and r not in out:
                for c in r.mro(project):
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, project, name):
        for c in self.mro(project):
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_attr(self, project, name):
        for c in self.mro(project):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def __repr__(self):
        return '<Class %s.%s>' % (self.module.name, self.name)


class Module:
    def __init__(self, name, path, src, tree, lang='py'):
        self.name = name
        self.path = path
        self.src = src
        self.tree = tree
        self.lang = lang
        self.funcs = {}
        self.classes = {}
        self.imports = {}     # local name -> ('mod', modname) | ('from', modname, name)
        self.assigns = {}     # module level name -> list of value nodes
        self._index()

    def _index(self):
        self._index_body(self.tree.body)

    def _index_body(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = Func(n.name, n, self, lang=self.lang)
            elif isinstance(n, ast.ClassDef):
                c = Class(n.name, n, self)
                c.bases = [b for b in n.bases]
                for m in n.body:
                    if isinstance(m, ast.FunctionDef):
                        c.methods[m.name] = Func(m.name, m, self, c)
                    elif isinstance(m, ast.Assign):
                        for t in m.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = m.value
                                if isinstance(m.value, ast.Name) and m.value.id in c.methods:
                                    c.methods[t.id] = c.methods[m.value.id]
                    elif isinstance(m, ast.AnnAssign) and isinstance(m.target, ast.Name) and m.value:
                        c.attrs[m.target.id] = m.value
                self.classes[n.name] = c
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.add_import(n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(n.value)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.assigns.setdefault(e.id, []).append(
                                    ast.Subscript(value=n.value, slice=ast.Constant(value=i), ctx=ast.Load()))
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value:
                self.assigns.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.Try):
                self._index_body(n.body)
                for h in n.handlers:
                    pass
            elif isinstance(n, ast.If):
                self._index_body(n.body)
                self._index_body(n.orelse)

    def add_import(self, n, table=None):
        tb = self.imports if table is None else table
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    tb[a.asname] = ('mod', a.name)
                else:
                    tb[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
        else:
            base = n.module or ''
            if n.level:
                base = '.' + base
            for a in n.names:
                tb[a.asname or a.name] = ('from', base, a.name)
        return tb


class Project:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        for f in sorted(os.listdir(self.root)):
            p = os.path.join(self.root, f)
            if f.endswith('.py') and os.path.isfile(p):
                self.load(f[:-3], p)
        # compiled kernels
        self.kernels = {}
        for f in sorted(os.listdir(self.root)):
            p = os.path.join(self.root, f)
            if f.endswith('.f'):
                from . import fortran
                m = fortran.load(p)
                self.modules.setdefault('f77:' + f[:-2], m)
                for fn in m.funcs.values():
                    self.kernels[fn.name] = fn
            elif f.endswith('.c') and f == 'boris_c_function.c':
                from . import cfront
                m = cfront.load(p)
                self.modules['c:' + f[:-2]] = m
            elif f.endswith('.pyx'):
                from . import pyx
                self.modules['pyx:' + f[:-4]] = pyx.load(p)

    def load(self, name, path):
        with open(path, encoding='utf-8', errors='replace') as fh:
            src = fh.read()
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisError('cannot parse %s: %s' % (path, e))
        self.modules[name] = Module(name, path, src, tree)

    def common_signature(self, name, nargs, kwargs):
        """parameter names (without self) shared by all repository methods of that name accepting the call, or None"""
        s = self.signatures(name)
        if s is None:
            return None
        ok = set(p for p, nd in s if nargs <= len(p) and all(x in p[nargs:] for x in kwargs)
                 and all(x in kwargs for x in p[nargs:len(p) - nd]))
        return next(iter(ok)) if len(ok) == 1 else None

    def signatures(self, name):
        """[(parameter names, number of defaults)] of the repository methods of that name, None when one has a variable list"""
        c = getattr(self, '_signatures', None)
        if c is None:
            c = self._signatures = {}
            for mn, m in self.modules.items():
                if mn.startswith('spec_'):
                    continue
                for k in m.classes.values():
                    for fname, f in k.methods.items():
                        a = f.node.args
                        sig = None if a.vararg or a.kwarg or a.kwonlyargs else (tuple(f.params[1:]), len(a.defaults))
                        c.setdefault(fname, set()).add(sig)
        s = c.get(name)
        return None if not s or None in s else sorted(s)

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisError('module %s not found in %s' % (name, self.root))
        return m

    def func(self, qual):
        """module.func or module.Class.method (inherited methods resolved)"""
        parts = qual.split('.')
        m = self.module(parts[0])
        if len(parts) == 2:
            if parts[1] in m.funcs:
                return m.funcs[parts[1]]
            r = self.resolve_name(m, parts[1])
            if isinstance(r, Func):
                return r
        elif len(parts) == 3 and parts[1] in m.classes:
            f = m.classes[parts[1]].lookup(self, parts[2])
            if f is not None:
                return f
        raise AnalysisError('function %s not found' % qual)

    def cls(self, qual):
        a, b = qual.split('.')
        m = self.module(a)
        if b not in m.classes:
            raise AnalysisError('class %s not found' % qual)
        return m.classes[b]

    def has(self, qual):
        try:
            self.func(qual)
            return True
        except AnalysisError:
            return False

    # repo-internal module name for an import base, or None
    def internal(self, base):
        b = base
        if b.startswith('.'):
            b = b.lstrip('.')
            return b
        if b.startswith('PyECLOUD'):
            return b[len('PyECLOUD'):].lstrip('.')
        return None

    F2PY = {'rhocompute': 'f77:compute_rho', 'int_field_for': 'f77:interp_field_for', 'hist_for': 'f77:compute_hist',
            'seg_impact': 'f77:update_seg_impact', 'errffor': 'f77:errfff', 'boris_step': 'f77:boris_step',
            'vectsum': 'f77:vectsum', 'boris_cython': 'pyx:boris_cython',
            'geom_impact_poly_cython': 'pyx:geom_impact_poly_cython'}

    def resolve_import(self, entry):
        """-> Module | Func | Class | ('ext', dotted)"""
        if entry[0] == 'mod':
            i = self.internal(entry[1])
            if i is not None:
                return self._intmod(i, entry[1])
            return ('ext', entry[1])
        _, base, name = entry
        i = self.internal(base)
        if i is None:
            if base in self.modules:
                i = base
            else:
                return ('ext', base + '.' + name)
        if i == '':
            return self._intmod(name, name)
        m = self._intmod(i, i)
        if isinstance(m, Module):
            r = self.resolve_name(m, name)
            if r is not None:
                return r
        return ('ext', i + '.' + name)

    def _intmod(self, i, orig):
        if i in self.modules:
            return self.modules[i]
        if i in self.F2PY and self.F2PY[i] in self.modules:
            return self.modules[self.F2PY[i]]
        return ('ext', orig)

    def resolve_name(self, module, name):
        if name in module.funcs:
            return module.funcs[name]
        if name in module.classes:
            return module.classes[name]
        if name in module.imports:
            return self.resolve_import(module.imports[name])
        return None

    def resolve_class(self, module, node):
        if isinstance(node, ast.Name):
            r = self.resolve_name(module, node.id)
            return r if isinstance(r, Class) else None
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
            r = self.resolve_name(module, node.value.id)
            if isinstance(r, Module):
                r2 = r.classes.get(node.attr)
                return r2
        return None
