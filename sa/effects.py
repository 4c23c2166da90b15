"""Syntactic read/write sets of a method on its own object (used for calls that are kept uninterpreted)."""
import ast

SAFE_CALLS = {'len', 'int', 'float', 'sum', 'abs', 'range', 'print', 'isinstance', 'min', 'max', 'zip', 'enumerate', 'list',
              'tuple', 'str', 'hasattr', 'type', 'bool', 'sorted', 'any', 'all', 'round'}
READ_METHODS = {'copy', 'sum', 'min', 'max', 'any', 'all', 'astype', 'squeeze', 'flatten', 'ravel', 'mean', 'take', 'cumsum', 'dot',
                'keys', 'values', 'items', 'get', 'index', 'count', 'startswith', 'endswith', 'split', 'join', 'format'}


def self_attr(n, self_name):
    """attribute X when n is self.X or self.X[..] or self.X.shape ..., else None"""
    while isinstance(n, (ast.Subscript, ast.Attribute)):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == self_name:
            return n.attr
        n = n.value
    return None


def family(project, cls):
    """the class, its bases and all repository classes derived from it"""
    out = list(cls.mro(project))
    for m in project.modules.values():
        if m.name.startswith('spec_'):
            continue
        for k in m.classes.values():
            if k not in out and cls in k.mro(project):
                out.append(k)
    return out


def passed(project, p, x, parents):
    """attributes written when the object itself is an argument of a call (None: unknown)"""
    from . import purity
    kw = None
    if isinstance(p, ast.keyword):
        kw, p = p.arg, parents.get(p)
    if not isinstance(p, ast.Call) or (kw is None and x not in p.args):
        return None
    f = p.func
    name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
    if name is None:
        return None
    return purity.fields_of(project, name, None if kw else p.args.index(x), kw)


def unwritten(project, f, i, kw=None):
    """no repository function of the called name writes this argument"""
    from . import purity
    name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
    e = purity.by_name(project, name) if name is not None else None
    return e is not None and (kw not in e[2] if kw is not None else i not in e[3])


def effects_of(project, func):
    """(reads, writes) attribute names of self, or None when they cannot be bounded"""
    cache = project.__dict__.setdefault('_effects', {})
    if func in cache:
        return cache[func]
    reads, writes = set(), set()
    seen = set()
    work = [func]
    fam = family(project, func.cls) if func.cls is not None else []
    ok = True
    while work and ok:
        f = work.pop()
        if f in seen:
            continue
        seen.add(f)
        if f.lang != 'py' or f.cls is None or not f.params:
            ok = False
            break
        sn = f.params[0]
        parents = {}
        for x in ast.walk(f.node):
            for c in ast.iter_child_nodes(x):
                parents[c] = x
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and x.id == sn and isinstance(x.ctx, ast.Load):
                p = parents.get(x)
                if not (isinstance(p, ast.Attribute) and p.value is x):
                    w = passed(project, p, x, parents)
                    if w is not None:
                        writes |= w
                        reads.add('*')
                        continue
                    ok = False
                    break
                a = p.attr
                q = parents.get(p)
                if isinstance(q, ast.Call) and q.func is p:
                    ms = [k.methods[a] for k in fam if a in k.methods]
                    work.extend(ms)
                    if not ms:
                        reads.add(a)
                    continue
                if isinstance(p.ctx, (ast.Store, ast.Del)):
                    writes.add(a)
                    if isinstance(q, ast.AugAssign):
                        reads.add(a)
                    continue
                reads.add(a)
                # follow the access path upwards: stores through it and calls that may modify it
                y, inside = p, q
                while isinstance(inside, (ast.Subscript, ast.Attribute)) and inside.value is y:
                    y, inside = inside, parents.get(inside)
                if isinstance(getattr(y, 'ctx', None), (ast.Store, ast.Del)):
                    writes.add(a)
                elif isinstance(inside, ast.Call):
                    if inside.func is y:
                        if isinstance(y, ast.Attribute) and y is not p and y.attr not in READ_METHODS:
                            writes.add(a)
                    else:
                        fn_ = inside.func
                        base = fn_
                        while isinstance(base, ast.Attribute):
                            base = base.value
                        if isinstance(fn_, ast.Name) and fn_.id in SAFE_CALLS:
                            pass
                        elif isinstance(base, ast.Name) and base.id in ('np', 'numpy', 'random', 'math', 'sio', 'os'):
                            pass
                        elif not (inside.args.count(y) and unwritten(project, fn_, inside.args.index(y))):
                            writes.add(a)
                elif isinstance(inside, ast.keyword) and isinstance(parents.get(inside), ast.Call) \
                        and unwritten(project, parents[inside].func, None, inside.arg):
                    pass
                elif isinstance(inside, (ast.Assign, ast.keyword, ast.Return, ast.Tuple, ast.List, ast.withitem)) and y is p:
                    # an alias escapes; a later in-place store through it would not be seen
                    writes.add(a)
    r = (frozenset(reads), frozenset(writes)) if ok else None
    cache[func] = r
    return r
