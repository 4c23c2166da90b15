"""What a repository function may modify: for every function name, the parameters (and the random generator) that some
implementation of that name may write.  Used for calls that are kept uninterpreted."""
import ast

READ = {'copy', 'sum', 'min', 'max', 'any', 'all', 'astype', 'squeeze', 'flatten', 'ravel', 'mean', 'take', 'cumsum', 'dot',
        'keys', 'values', 'items', 'get', 'index', 'count', 'startswith', 'endswith', 'split', 'join', 'format', 'strip',
        'replace', 'lower', 'upper', 'std', 'reshape', 'tolist', 'transpose', 'round', 'rstrip', 'lstrip', 'find', 'item',
        'write', 'close', 'flush', 'nonzero', 'argmin', 'argmax', 'searchsorted', 'gather', 'gather_phi', 'Get_size', 'Get_rank', 'tobytes', 'isdigit'}
MUTATE = {"add", 'append', 'extend', 'sort', 'fill', 'update', 'pop', 'setdefault', 'put', 'resize', 'insert', 'remove', 'clear'}
BUILTIN = {'len', 'int', 'float', 'sum', 'abs', 'range', 'print', 'isinstance', 'min', 'max', 'zip', 'enumerate', 'list',
           'tuple', 'str', 'hasattr', 'type', 'bool', 'sorted', 'any', 'all', 'round', 'getattr', 'ValueError', 'open', 'set',
           'dict', 'reversed', 'iter', 'super', 'repr', 'object', 'map', 'filter', 'divmod', 'pow', 'complex', 'Exception'}
MODULES = {'np', 'numpy', 'math', 'sio', 'os', 'time', 'scipy', 'sys', 'subprocess', 'copy', 'shutil', 'types', 'pickle', 'sps',
           'ssl', 'special', 'integrate', 'constants', 'warnings', 'plt', 'pl', 'mlm', 'mlo', 'glob', 'random'}
RNG_NAMES = {'rand', 'randn', 'random', 'normal', 'choice', 'uniform', 'lognormal', 'poisson', 'shuffle', 'randint', 'binomial',
             'multinomial', 'permutation', 'exponential'}


# modifies only counters that nothing else reads (its own obligations check them)
ASSUMED_PURE = {'impact_point_and_normal'}


class Summary:
    def __init__(self, func):
        self.func = func
        self.params = list(func.params)
        self.method = func.cls is not None and not any(
            isinstance(d, ast.Name) and d.id == 'staticmethod' for d in func.node.decorator_list)
        self.facts = None
        self.fields = set()      # (parameter, attribute of it or None), '$rng'

    @property
    def writes(self):
        return {x if isinstance(x, str) else x[0] for x in self.fields}

    def inner(self, p):
        return [x[1] for x in self.fields if not isinstance(x, str) and x[0] == p]

    def position(self, i):
        """parameter bound by the i-th positional argument of a call (receiver excluded)"""
        j = i + 1 if self.method else i
        return self.params[j] if j < len(self.params) else None


def first_field(n):
    """X for an expression n = name.X... (None: the object itself or an element of it)"""
    f = None
    while isinstance(n, (ast.Attribute, ast.Subscript, ast.Starred)):
        f = n.attr if isinstance(n, ast.Attribute) else None
        n = n.value
    return f


def base_name(n):
    while isinstance(n, (ast.Attribute, ast.Subscript, ast.Starred)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def summaries(project):
    """{name: [Summary]}"""
    cache = project.__dict__.get('_purity')
    if cache is not None:
        return cache
    out, todo = {}, []
    classes = {}
    for m in project.modules.values():
        if m.name.startswith('spec_'):
            continue
        for k in m.classes.values():
            classes.setdefault(k.name, []).append(k)
            for f in k.methods.values():
                if f.lang == 'py':
                    todo.append(Summary(f))
        for f in m.funcs.values():
            if f.lang == 'py':
                todo.append(Summary(f))
    for sm in todo:
        out.setdefault(sm.func.name, []).append(sm)
    arrays = subscripted(project)
    out['$compiled'] = compiled(project)
    changed = True
    while changed:
        changed = False
        for sm in todo:
            w = scan(sm, out, arrays, classes)
            if not w <= sm.fields:
                sm.fields |= w
                changed = True
    project._purity = out
    return out


def subscripted(project):
    names = set()
    for m in project.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                names.add(n.value.id)
    return names


def compiled(project):
    """attribute names that only ever hold functions of compiled extension modules (no random numbers, no objects)"""
    names, bad = set(), set()
    ext = set()
    for m in project.modules.values():
        for f in m.funcs.values():
            if f.lang != 'py':
                ext.add(f.name)
    for m in project.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        v = n.value
                        if isinstance(v, ast.Attribute) and v.attr in ext:
                            names.add(t.attr)
                        else:
                            bad.add(t.attr)
    return names - bad


def object_names(project):
    """names (of variables and attributes) through which attributes or methods of a repository object are used"""
    r = project.__dict__.get('_object_names')
    if r is None:
        r = set()
        plain = READ | MUTATE | {'shape', 'size', 'T', 'dtype', 'ndim', 'real', 'imag', 'flat', 'write', 'close', 'readlines', 'read'}
        for m in project.modules.values():
            if m.name.startswith('spec_'):
                continue
            mods = set(MODULES)
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        mods.add((a.asname or a.name).split('.')[0])
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and n.attr not in plain:
                    v = n.value
                    if isinstance(v, ast.Subscript):
                        v = v.value
                    if isinstance(v, ast.Name) and v.id not in mods:
                        r.add(v.id)
                    elif isinstance(v, ast.Attribute):
                        r.add(v.attr)
        r -= {'self'}
        project._object_names = r
    return r


def scan(sm, table, arrays, classes):
    if sm.facts is None:
        sm.facts = facts(sm, arrays)
    alias, direct, calls = sm.facts
    w = set(direct)

    def hit(e, inner=(None,)):
        b = base_name(e)
        if b in alias:
            fld = first_field(e)
            w.update((q, g or fld or i) for q, g in alias[b] for i in inner)
    for n in calls:
        call(n, sm, table, alias, w, hit, classes)
    return w


def facts(sm, arrays):
    """(local aliases, parts of parameters stored to, calls)"""
    nodes = list(ast.walk(sm.func.node))
    calls = []
    alias = {p: {(p, None)} for p in sm.params}
    # local names that may be (parts of) parameters
    for _ in range(3):
        for n in nodes:
            pairs = []
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                        pairs += zip(t.elts, n.value.elts)
                    else:
                        pairs.append((t, n.value))
            elif isinstance(n, (ast.For, ast.comprehension)):
                it = n.iter
                its = it.args if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) \
                    and it.func.id in ('zip', 'enumerate', 'reversed', 'list', 'sorted') else [it]
                tg = n.target.elts if isinstance(n.target, ast.Tuple) else [n.target]
                for t in tg:
                    for x in its:
                        pairs.append((t, x))
            for t, v in pairs:
                if not isinstance(t, ast.Name):
                    continue
                for v in ([v.body, v.orelse] if isinstance(v, ast.IfExp) else [v]):
                    if isinstance(v, (ast.Name, ast.Attribute, ast.Subscript)):
                        b = base_name(v)
                        if b in alias:
                            fld = first_field(v)
                            alias.setdefault(t.id, set())
                            alias[t.id] = alias[t.id] | {(q, g or fld) for q, g in alias[b]}
    w = set()

    def hit(e, inner=(None,)):
        b = base_name(e)
        if b in alias:
            fld = first_field(e)
            w.update((q, g or fld or i) for q, g in alias[b] for i in inner)

    def target(t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                target(x)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            hit(t)
    for n in nodes:
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Name):
                if n.target.id in arrays and n.target.id in sm.params:
                    hit(n.target)
            else:
                target(n.target)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.For, ast.withitem)):
            t = n.target if isinstance(n, ast.For) else n.optional_vars
            if t is not None:
                target(t)
        elif isinstance(n, ast.Call):
            calls.append(n)
    return alias, w, calls


def call(n, sm, table, alias, w, hit, classes):
    f = n.func
    args = [(i, None, a) for i, a in enumerate(n.args)] + [(None, k.arg, k.value) for k in n.keywords]
    if isinstance(f, ast.Attribute):
        m, recv = f.attr, f.value
        b = base_name(recv)
        if b in MODULES and b not in alias:
            if m in RNG_NAMES and ('random' in ast.dump(recv)):
                w.add('$rng')
            return
        if m in table:
            apply(table[m], recv, args, w, hit)
            return
        if m in READ:
            return
        if m in MUTATE:
            hit(recv)
            return
        if isinstance(recv, ast.Name) and b not in alias:
            return                       # function of an imported module, or local object
        if b in alias and b == sm.params[0] and sm.method and isinstance(recv, ast.Name):
            # stored function of the object itself
            if m in table['$compiled']:
                return
            w.add('$rng')
            for _, _, a in args:
                if isinstance(a, ast.Name):
                    hit(a)
            return
        hit(recv)
        for _, _, a in args:
            if isinstance(a, (ast.Name, ast.Attribute, ast.Subscript)):
                hit(a)
    elif isinstance(f, ast.Name):
        if f.id in RNG_NAMES:
            w.add('$rng')
        elif f.id in ('setattr', 'delattr') and n.args:
            hit(n.args[0])
        elif f.id in BUILTIN or f.id in classes:
            for k in classes.get(f.id, ()):
                i = [s for s in table.get('__init__', ()) if s.func.cls is k]
                apply(i, None, args, w, hit)
        elif f.id in table:
            apply([s for s in table[f.id] if not s.method] or table[f.id], None, args, w, hit)


def apply(cands, recv, args, w, hit):
    for s in cands:
        if '$rng' in s.writes:
            w.add('$rng')
        if s.method and recv is not None and s.params and s.params[0] in s.writes:
            hit(recv, s.inner(s.params[0]))
        for i, kw, a in args:
            if not isinstance(a, (ast.Name, ast.Attribute, ast.Subscript)):
                continue
            if kw is None and i is None:
                continue
            p = kw if kw is not None else s.position(i)
            if p is not None and p in s.writes:
                hit(a, s.inner(p))


def by_name(project, name):
    """(known, receiver written, uses the random generator, written parameter names, written positions)"""
    c = summaries(project).get(name)
    if c is None or name == '$compiled':
        return None
    if name in ASSUMED_PURE:
        return False, False, set(), set()
    recv = any(s.method and s.params and s.params[0] in s.writes for s in c)
    rng = any('$rng' in s.writes for s in c)
    pars, pos = set(), set()
    for s in c:
        off = 1 if s.method else 0
        for i, p in enumerate(s.params[off:]):
            if p in s.writes:
                pars.add(p)
                pos.add(i)
    return recv, rng, pars, pos



def fields_of(project, name, i=None, kw=None):
    """attributes that some function of this name may set on (or modify inside) one argument; None: unknown"""
    c = summaries(project).get(name)
    if not c or name == '$compiled':
        return None
    out = set()
    for s in c:
        p = kw if kw is not None else s.position(i)
        if p is None or p not in s.params:
            return None
        for f in s.inner(p):
            if f is None:
                return None
            out.add(f)
    return out


def int_names(project):
    """attribute names that only ever hold integers: a greatest fixed point over all assignments of the repository"""
    r = getattr(project, '_int_names', None)
    if r is not None:
        return r
    assigned, bad, local = {}, set(), {}

    def targets(t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                yield from targets(x)
        elif isinstance(t, ast.Starred):
            yield from targets(t.value)
        else:
            yield t

    def bind(t, v, fn):
        for x in targets(t):
            if isinstance(x, ast.Attribute):
                if x is t and v is not None:
                    assigned.setdefault(x.attr, []).append((v, fn))
                else:
                    bad.add(x.attr)
            elif isinstance(x, ast.Name):
                local.setdefault((fn, x.id), []).append(v if x is t else None)

    def walk(n, fn):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Assign):
                for t in c.targets:
                    bind(t, c.value, fn)
            elif isinstance(c, ast.AugAssign):
                bind(c.target, ast.BinOp(c.target, c.op, c.value), fn)
            elif isinstance(c, (ast.For, ast.comprehension)):
                bind(c.target, None, fn)
            elif isinstance(c, ast.With):
                for i in c.items:
                    if i.optional_vars is not None:
                        bind(i.optional_vars, None, fn)
            elif isinstance(c, ast.NamedExpr):
                bind(c.target, c.value, fn)
            elif isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'setattr' and len(c.args) > 1 \
                    and isinstance(c.args[1], ast.Constant):
                bad.add(c.args[1].value)
            if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                a = c.args
                for p in a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
                    local.setdefault((c, p.arg), []).append(None)
                walk(c, c)
            else:
                walk(c, fn)
    for m in project.modules.values():
        if m.tree is not None and not m.name.startswith('spec_'):
            walk(m.tree, m.tree)
    good = set(assigned) - bad
    ints = {k for k, v in local.items() if None not in v}

    def is_int(v, fn):
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, (ast.USub, ast.UAdd)):
            return is_int(v.operand, fn)
        if isinstance(v, ast.Constant):
            return type(v.value) is int or v.value is None      # (not set yet: cannot be formatted as a number)
        if isinstance(v, ast.BinOp):
            return isinstance(v.op, (ast.Add, ast.Sub, ast.Mult)) and is_int(v.left, fn) and is_int(v.right, fn)
        if isinstance(v, ast.Call):
            return isinstance(v.func, ast.Name) and v.func.id in ('int', 'len')
        if isinstance(v, ast.Attribute):
            return v.attr in good
        if isinstance(v, ast.Subscript):
            # (an index, by the interface of PyHEADTAIL)
            return isinstance(v.slice, ast.Constant) and v.slice.value == 'i_bunch'
        if isinstance(v, ast.Name):
            return (fn, v.id) in ints
        return False
    cand, cl = good, ints
    good, ints = set(), set()
    while True:
        n = len(good) + len(ints)
        for k in cand - good:
            good.add(k)
            if not all(is_int(v, fn) for v, fn in assigned[k]) or all(
                    (isinstance(v, ast.Attribute) and v.attr == k) or (isinstance(v, ast.Constant) and v.value is None)
                    for v, fn in assigned[k]):
                good.discard(k)
        for k in cl - ints:
            ints.add(k)
            if not all(is_int(v, k[0]) for v in local[k]):
                ints.discard(k)
        if len(good) + len(ints) == n:
            break
    project._int_names = good
    return good
