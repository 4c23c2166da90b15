"""P16/P22: the table of input options: what is accepted where, with which default, and that options read are declared."""
import ast
import json
import os

from sa import graph
from sa.checker import Finding
from sa.frontend import AnalysisError

MOD = 'default_input_parameters'
COMBINED = 'combined_simulations_secondaryEmission_machine_parameters'
CLOUD = 'additional_cloud_parameters'
BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'options.json')


class Lit(str):
    """a value that is not a container: its canonical source text"""


def table(project):
    c = getattr(project, '_option_table', None)
    if c is None:
        env = {}
        m = project.module(MOD)
        execute(m.tree.body, env, m)
        c = project._option_table = env.get('parameters_dict')
        if not isinstance(c, dict):
            raise AnalysisError('parameters_dict is not a table that can be evaluated')
    return c


def execute(body, env, m):
    for n in body:
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Pass)):
            continue
        if isinstance(n, ast.FunctionDef):
            env[n.name] = n
        elif isinstance(n, ast.Assign):
            v = value(n.value, env, m)
            for t in n.targets:
                store(t, v, env, m)
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            store(n.target, value(n.value, env, m), env, m)
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.BitOr):
            o, v = value(n.target, env, m), value(n.value, env, m)
            o.update(v)
        elif isinstance(n, ast.Expr):
            if not isinstance(n.value, ast.Constant):
                value(n.value, env, m)
        elif isinstance(n, ast.For) and not n.orelse:
            for x in list(value(n.iter, env, m)):
                store(n.target, x, env, m)
                execute(n.body, env, m)
        elif isinstance(n, ast.Delete):
            pass
        else:
            raise AnalysisError('%s:%d: option table built in a way that is not evaluated' % (m.path, n.lineno))


def store(t, v, env, m):
    if isinstance(t, ast.Name):
        env[t.id] = v
    elif isinstance(t, ast.Subscript):
        value(t.value, env, m)[value(t.slice, env, m)] = v
    elif isinstance(t, ast.Tuple):
        for a, b in zip(t.elts, v):
            store(a, b, env, m)
    else:
        raise AnalysisError('option table: unsupported assignment')


def value(n, env, m):
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.Name):
        if n.id in env:
            return env[n.id]
        e = m.imports.get(n.id)
        if e and e[0] == 'from':
            return Lit(e[1] + '.' + e[2])
        raise AnalysisError('option table: unknown name %s' % n.id)
    if isinstance(n, ast.Dict):
        out = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                out.update(value(v, env, m))
            else:
                out[value(k, env, m)] = value(v, env, m)
        return out
    if isinstance(n, ast.Set):
        return {value(x, env, m) for x in n.elts}
    if isinstance(n, ast.Tuple):
        return tuple(value(x, env, m) for x in n.elts)
    if isinstance(n, ast.List):
        return [value(x, env, m) for x in n.elts]
    if isinstance(n, ast.Subscript):
        return value(n.value, env, m)[value(n.slice, env, m)]
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = value(n.operand, env, m)
        return Lit('-' + v) if isinstance(v, Lit) else -v
    if isinstance(n, ast.BinOp):
        a, b = value(n.left, env, m), value(n.right, env, m)
        if not isinstance(a, Lit) and not isinstance(b, Lit):
            if isinstance(n.op, ast.BitOr):
                return dict(a, **b) if isinstance(a, dict) else a | b
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Div):
                return a / b
            if isinstance(n.op, ast.Sub):
                return a - b
        return Lit('(%s %s %s)' % (a, type(n.op).__name__, b))
    if isinstance(n, ast.Attribute):
        d = graph.dotted(n, m.imports)
        if d:
            return Lit(d)
    if isinstance(n, ast.Call):
        f = n.func
        if isinstance(f, ast.Name) and f.id in ('set', 'dict', 'list', 'tuple', 'frozenset', 'sorted'):
            a = [value(x, env, m) for x in n.args]
            kw = {k.arg: value(k.value, env, m) for k in n.keywords}
            g = {'set': set, 'dict': dict, 'list': list, 'tuple': tuple, 'frozenset': set, 'sorted': sorted}[f.id]
            return g(*a, **kw)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == 'dict' and f.attr == 'fromkeys':
                return dict.fromkeys(*[value(x, env, m) for x in n.args])
            o = value(f.value, env, m)
            a = [value(x, env, m) for x in n.args]
            kw = {k.arg: value(k.value, env, m) for k in n.keywords}
            if f.attr in ('update', 'add', 'setdefault', 'union', 'keys', 'items', 'values', 'copy', 'difference', 'pop', 'split',
                          'discard', 'remove', 'get') and not isinstance(o, Lit):
                return getattr(o, f.attr)(*a, **kw)
    if isinstance(n, (ast.DictComp, ast.SetComp, ast.ListComp, ast.GeneratorExp)) and len(n.generators) == 1 \
            and not n.generators[0].ifs:
        g, out = n.generators[0], []
        for x in list(value(g.iter, env, m)):
            e2 = dict(env)
            store(g.target, x, e2, m)
            out.append((value(n.key, e2, m), value(n.value, e2, m)) if isinstance(n, ast.DictComp) else value(n.elt, e2, m))
        return dict(out) if isinstance(n, ast.DictComp) else set(out) if isinstance(n, ast.SetComp) else out
    raise AnalysisError('%s:%d: option table built in a way that is not evaluated' % (m.path, getattr(n, 'lineno', 0)))


def canon(v):
    if isinstance(v, Lit):
        return '<%s>' % v
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return repr(v)
    if isinstance(v, (int, float)):
        return 'num:%r' % float(v)
    if isinstance(v, (tuple, list)):
        return '[%s]' % ', '.join(canon(x) for x in v)
    return repr(v)


def flat(t):
    """{section: {option: 'mandatory' or its default}}"""
    out = {}
    for s, d in t.items():
        if isinstance(d, dict):
            o = out[s] = {k: canon(v) for k, v in d.get('optional', {}).items()}
            for k in d.get('mandatory', ()):
                o[k] = 'mandatory'
        else:
            out[s] = {k: 'anywhere' for k in d}
    return out


def defaults(project):
    """documented options keep their section, their being mandatory and their default value"""
    t = flat(table(project))
    with open(BASE) as fh:
        base = json.load(fh)
    m = project.module(MOD)
    out, n = [], 0
    for s, d in sorted(base.items()):
        for k, v in sorted(d.items()):
            n += 1
            w = t.get(s, {}).get(k)
            if w is None:
                out.append(Finding('option', '%s: %s' % (s, k), m.path, 'option is no longer accepted'))
            elif w != v and not (s == CLOUD and 'mandatory' not in (v, w)):
                out.append(Finding('option', '%s: %s' % (s, k), m.path, 'default changed from %s to %s' % (v, w)))
    comb = set(t.get(COMBINED, ()))
    for k in sorted(set(t.get(CLOUD, ())) - comb):
        n += 1
        out.append(Finding('option', '%s: %s inherits nothing' % (CLOUD, k), m.path,
                           'an option of a cloud that the main input does not have cannot take its value from there'))
    return out, {'compared': n, 'functions': [MOD], 'note': '%d options in %d sections' % (n, len(base))}


def reads(project):
    """option names read anywhere: attributes and string keys"""
    out = set()
    for mn, m in project.modules.items():
        if mn.startswith('spec_') or mn in graph.SCRIPTS or mn == MOD or m.lang != 'py':
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                out.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                out.add(n.value)
    return out


def options_used(project):
    """every accepted option is read by some component"""
    t, r = flat(table(project)), reads(project)
    m = project.module(MOD)
    out, n = [], 0
    where = {}
    for s, d in sorted(t.items()):
        if s != 'superparameters':
            for k in d:
                where.setdefault(k, []).append(s)
    for k in sorted(where):
        n += 1
        if k not in r:
            out.append(Finding('option', '%s is never read' % k, m.path,
                               'the option is accepted in %s but has no effect' % ', '.join(where[k])))
    return out, {'compared': n, 'functions': [MOD], 'note': '%d options' % n}


# (module, name): the sections whose options the object of that name carries
CARRIERS = {('init', 'cc'): COMBINED, ('init', 'thiscloud'): CLOUD, ('parse_beam_file', 'cc'): 'beam_beam',
            ('PyEC4PyHT', 'cc'): COMBINED, ('PyEC4PyHT', 'thisconf'): CLOUD, ('parse_cloud_file', 'default_param_obj'): COMBINED,
            ('buildup_simulation', 'cc'): COMBINED}
EXTRA = {'filen_main_outp', 'cloud_name'}


def options_declared(project):
    """options read from a configuration object are declared in the table of that object"""
    t = flat(table(project))
    out, n = [], 0
    beam = project.modules['parse_beam_file'].classes.get('beam_descr_from_fil') if 'parse_beam_file' in project.modules else None
    beam_attrs = set()
    if beam:
        for f in beam.methods.values():
            beam_attrs |= {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
    for q, f in sorted(graph.functions(project).items()):
        if f.lang != 'py':
            continue
        for x in ast.walk(f.node):
            name = key = None
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                name, key = x.value.id, x.attr
            elif isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str) and \
                    isinstance(x.ctx, ast.Load):
                b = x.value
                if (b.attr if isinstance(b, ast.Attribute) else getattr(b, 'id', None)) == 'config_dict' and \
                        f.module.name in ('PyEC4PyHT', 'buildup_simulation', 'init'):
                    n += 1
                    if x.slice.value not in t[COMBINED]:
                        out.append(Finding('option', '%s reads config_dict[%r]' % (q, x.slice.value), graph.where(f, x), 'not a declared option'))
                continue
            if name in ('b_par', 'sb_par') and f.module.name == 'init':
                n += 1
                if key not in beam_attrs:
                    out.append(Finding('option', '%s reads %s.%s' % (q, name, key), graph.where(f, x), 'not provided by the beam description'))
                continue
            s = CARRIERS.get((f.module.name, name))
            if s is None or not isinstance(x.ctx, ast.Load):
                continue
            own = {y.attr for y in ast.walk(f.node) if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and
                   isinstance(y.value, ast.Name) and y.value.id == name}
            n += 1
            if key not in t[s] and key not in own and not (s == CLOUD and key in EXTRA):
                out.append(Finding('option', '%s reads %s.%s' % (q, name, key), graph.where(f, x), 'not a declared option of %s' % s))
    return out, {'compared': n, 'functions': sorted(graph.functions(project)), 'note': '%d option reads' % n}


defaults.rule = 'rule:option-defaults'
options_used.rule = 'rule:options-used'
options_declared.rule = 'rule:options-declared'
RULES = {'P16': [defaults, options_used, options_declared], 'P22': [options_declared]}

if __name__ == '__main__':
    import sys
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
