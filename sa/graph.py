"""Helpers for structural rules: project functions, resolved dotted names, call graph by name."""
import ast

SCRIPTS = {'000_run_simulation', '001_reload_state_and_run', '002_change_version_number', '003_change_preamble',
           'h000_find_and_modify_preamble', 'setup', 'proc_video3', 'main', 'mystyle'}


def functions(project):
    """{qualified name: Func} of the package (specifications excluded)"""
    c = getattr(project, '_all_functions', None)
    if c is None:
        c = project._all_functions = {}
        for mn, m in project.modules.items():
            if mn.startswith('spec_') or mn in SCRIPTS:
                continue
            for f in m.funcs.values():
                c[f.qual] = f
            for k in m.classes.values():
                for f in k.methods.values():
                    c[f.qual] = f
    return c


def tables(f):
    """import table visible inside a function (its own imports included)"""
    t = getattr(f, '_imports', None)
    if t is None:
        t = dict(f.module.imports)
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                f.module.add_import(n, t)
        f._imports = t
    return t


def dotted(n, table):
    """'numpy.random.rand' for an expression naming an imported object, else None"""
    if isinstance(n, ast.Name):
        e = table.get(n.id)
        if e is None:
            return None
        return e[1] if e[0] == 'mod' else e[1] + '.' + e[2]
    if isinstance(n, ast.Attribute):
        b = dotted(n.value, table)
        return b + '.' + n.attr if b else None
    return None


def call_graph(project):
    """{qualified name: {qualified name of a possible callee: line}}; methods are matched by name"""
    c = getattr(project, '_call_graph', None)
    if c is not None:
        return c
    fs = functions(project)
    byname, inits = {}, {}
    for q, f in fs.items():
        byname.setdefault(f.name, []).append(q)
        if f.cls and f.name == '__init__':
            inits.setdefault(f.cls.name, []).append(q)
    c = {}
    for q, f in fs.items():
        out = {}
        tb = tables(f)
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(getattr(n, 'ctx', None), ast.Load):
                nm = n.attr if isinstance(n, ast.Attribute) else n.id
                if nm in f.params and isinstance(n, ast.Name):
                    continue
                if nm not in byname and nm not in inits:
                    continue
                d = dotted(n, tb)
                if d and not d.startswith(('.', 'PyECLOUD')):
                    continue
                if isinstance(n, ast.Name):
                    r = project.resolve_name(f.module, nm)
                    t = getattr(r, 'qual', None)
                    if t in fs:
                        out.setdefault(t, n.lineno)
                    for t in inits.get(nm, ()):
                        out.setdefault(t, n.lineno)
                    continue
                if isinstance(n.value, ast.Name) and f.me and n.value.id == f.me:
                    own = f.cls.lookup(project, nm)
                    cand = [t for t in byname.get(nm, ()) if fs[t].cls is not None and
                            (f.cls in fs[t].cls.mro(project) or fs[t].cls in f.cls.mro(project))]
                    if own is not None:
                        for t in cand:
                            out.setdefault(t, n.lineno)
                        continue
                for t in list(byname.get(nm, ())) + inits.get(nm, []):
                    if fs[t].cls is not None or d or fs[t].lang != 'py':
                        out.setdefault(t, n.lineno)
        c[q] = out
    project._call_graph = c
    return c


def reach(project, targets):
    """{qualified name: next qualified name on a call path to one of the targets}"""
    g = call_graph(project)
    back = {}
    for q, o in g.items():
        for t in o:
            back.setdefault(t, []).append(q)
    nxt = {t: None for t in targets}
    work = list(targets)
    while work:
        t = work.pop(0)
        for q in sorted(back.get(t, ())):
            if q not in nxt:
                nxt[q] = t
                work.append(q)
    return nxt


def path(nxt, q):
    out = [q]
    while nxt[out[-1]] is not None:
        out.append(nxt[out[-1]])
    return out


def where(f, n=None):
    line = getattr(n, 'lineno', None) or f.node.lineno
    return '%s:%s' % (f.module.path, line)
