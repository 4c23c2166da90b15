"""Obligations: value-flow comparison of repository functions with reference functions, plus structural rules."""
import ast
import os
import signal
import sys
import time
import traceback

from . import terms as tm
from .terms import mk, sym, TRUE, FALSE, NONE, ZERO
from .frontend import Project, AnalysisError, Func
from .interp import Interp, Dead, RNG, UNDEF, State

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPTH = 5
TXT = int(os.environ.get('SA_TXT', '160'))
LIMIT = int(os.environ.get('SA_LIMIT', '240'))


class Timeout(Exception):
    pass


class Finding:
    def __init__(self, rule, construct, where, text):
        self.rule, self.construct, self.where, self.text = rule, construct, where, text

    @property
    def key(self):
        return '%s|%s' % (self.rule, self.construct)

    def __str__(self):
        return '[%s] %s at %s: %s' % (self.rule, self.construct, self.where, self.text)


class Obligation:
    """one reference function: name, property ids, target and options (read from its decorator)"""

    def __init__(self, func, target, props, opts):
        self.func, self.target, self.props, self.opts = func, target, props, opts

    @property
    def name(self):
        return '%s:%s' % (self.func.module.name, self.func.name)


def load_project(root=None):
    p = Project(root)
    d = os.path.join(HERE, 'spec')
    p.specs = []
    for f in sorted(os.listdir(d)):
        if not f.endswith('.py') or f.startswith('_'):
            continue
        name = 'spec_' + f[:-3]
        p.load(name, os.path.join(d, f))
        p.specs.append(name)
    return p


def lit(node):
    return ast.literal_eval(node)


def obligations(project):
    out = []
    for name in project.specs:
        m = project.modules[name]
        for f in m.funcs.values():
            for d in f.node.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'reference':
                    target = lit(d.args[0])
                    opts = {k.arg: lit(k.value) for k in d.keywords}
                    props = opts.pop('props', '').split()
                    out.append(Obligation(f, target, props, opts))
    return out


def words(x):
    return x.split() if isinstance(x, str) else list(x or ())


DEFAULT_PURE = ()


def make_interp(project, opts):
    it = Interp(project, stop=words(opts.get('stop')), pure=words(opts.get('pure')),
                hints=dict(opts.get('hints') or {}), arrays=words(opts.get('arrays')),
                scalars=words(opts.get('scalars')))
    it.stable = words(opts.get('stable'))
    it.results = opts.get('results') or {}
    return it


def run_one(project, func, obl, names):
    opts = obl.opts
    it = make_interp(project, opts)
    args = []
    types = opts.get('types') or {}
    for i, n in enumerate(names):
        cls = types.get(n)
        if n == 'self' and cls is None:
            parts = obl.target.split('.')
            if len(parts) == 3:
                cls = project.modules[parts[0]].classes[parts[1]]
        args.append(it.obj(n, cls) if cls is not None else sym(n))
    const = opts.get('const') or {}
    for i, n in enumerate(names):
        if n in const:
            v = const[n]
            args[i] = NONE if v is None else tm.s(v) if isinstance(v, str) else tm.num(v)
    heap = {}
    for path, v in (opts.get('given') or {}).items():
        o, a = path.rsplit('.', 1)
        heap[(sym(o), a)] = NONE if v is None else tm.s(v) if isinstance(v, str) else tm.num(v)
    try:
        r = it.run(func, args, {}, heap)
        return r, it, False
    except Dead:
        return None, it, True


def default_of(it, key):
    o, f = key
    return it.default(key)


def observables(r, it, opts):
    """{label: (term, heap key)} of everything a caller can observe"""
    out = {}
    if r is None:
        return {'return': (mk('neverreturns'), None)}
    st = r.state
    seen = {}
    only = opts.get('only')
    ignore = set(words(opts.get('ignore')))
    if not opts.get('noreturn'):
        out['return'] = (it.deep(st, r.value, seen), None)
    for (o, f), v in list(st.heap.items()):
        key = (o, f)
        if o is RNG:
            if not opts.get('norng'):
                out['rng:%s' % (f,)] = (v, key)
            continue
        if o.op == 'ref':
            continue            # reachable ones are part of the values that hold them
        if f == '$shape' or (o.op == 'fn' and o.args[0] in ('rand', 'randS')):
            continue
        if f == '$state':
            out['%s.<calls>' % tm.show(o, 4)] = (it.deep(st, v, seen), key)
            continue
        if f == '*':
            if o.op == 'sym' and '.' in o.args[0]:
                b, a = o.args[0].rsplit('.', 1)
                ob = sym(b)
                out[o.args[0]] = (it.deep(st, it.load_attr(st, ob, a), seen), (ob, a))
                continue
            if o.op == 'attr':
                out[tm.show(o, 4)] = (it.deep(st, it.load_attr(st, o.args[0], o.args[1]), seen), (o.args[0], o.args[1]))
                continue
            out[tm.show(o, 4) + '[*]'] = (it.deep(st, v, seen), key)
            continue
        if o.op == 'sym':
            lab = '%s.%s' % (o.args[0], f)
        else:
            lab = tm.show(mk('attr', o, f), 4)
        out[lab] = (it.deep(st, v, seen), key)
    memo = {}
    out = {k: (it.snap(st, v, memo), key) for k, (v, key) in out.items()}
    if it.inis:
        m, memo = {}, {}
        for v, key in out.values():
            for x in tm.walk(v):
                if x.op == 'fn' and x.args[0] == 'ini':
                    m[x] = x.args[1]
        for _ in range(8):
            if not m or not any(x in m for v, key in out.values() for x in tm.walk(v)):
                break
            memo = {}
            out = {k: (tm.subst(v, m, memo), key) for k, (v, key) in out.items()}
    if only:
        keep = words(only)
        out = {k: v for k, v in out.items() if any(k == x or (x.endswith('*') and k.startswith(x[:-1])) for x in keep)}
    for k in list(out):
        if k in ignore or field(k) in ignore or (k == 'return' and 'return' in ignore):
            del out[k]
    return out


def shared(r, it, opts):
    """{heap key: existing arrays that the stored value (or an element of it) is, or is a view of}"""
    out = {}
    if r is None:
        return out
    st = r.state

    if opts.get('owned'):
        res = set()
        it.collect_shared(st, r.value, res, set())
        out[('return', '')] = res
    for (o, f), v in list(st.heap.items()):
        if o.op == 'ref' or o is RNG or f in ('$state', '$shape'):
            continue
        res = set()
        it.collect_shared(st, v, res, set())
        res = {x for x in res if '$' not in tm.show(x, 4)}
        res.discard(o if f == '*' else it.attr_term(o, f))
        res |= it.loop_shared.get((o, f), set())
        if res:
            k = (o, f)
            if f == '*' and o.op == 'sym' and '.' in o.args[0]:
                b, a = o.args[0].rsplit('.', 1)
                k = (sym(b), a)
            elif f == '*' and o.op == 'attr':
                k = (o.args[0], o.args[1])
            out[k] = out.get(k, set()) | res
    return out


def field(label):
    """attribute name of an observable label"""
    x = label
    if x.startswith('attr('):
        x = x[:-1].rsplit(', ', 1)[-1].strip("'\"")
    return x.rsplit('.', 1)[-1]


def raise_cond(it):
    out = {}
    for e in it.trace:
        if e.kind == 'raise':
            out['*'] = tm.or_(out.get('*', FALSE), e.pc)
    r = out.get('*', FALSE)
    for _ in range(4):
        # raised inside a loop: its state is named by its value before the loop
        m = {x: tm.fn('loopvar', it.muini[x]) for x in tm.walk(r) if x in it.muini}
        if not m:
            break
        r = tm.subst(r, m, {})
    return r


def known_attrs(project):
    """attribute names read anywhere in the repository (a write to any other name is not observable)"""
    k = getattr(project, '_known_attrs', None)
    if k is None:
        k = set()
        for n, m in project.modules.items():
            if n.startswith('spec_'):
                continue
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    k.add(x.attr)
                elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                    k.add(x.value)
        project._known_attrs = k
    return k


def baseline_attrs():
    p = os.path.join(HERE, 'spec', 'attrs.txt')
    if not os.path.exists(p):
        return None
    with open(p) as fh:
        return set(fh.read().split())


def diff(a, b, depth=0):
    """a small differing pair of subterms (first one in reading order)"""
    if a is b or eq(a, b):
        return None
    if depth > 60 or a.op != b.op or a.op in ('poly', 'c', 'sym', 's', 'b', 'and', 'or', 'cmp') or len(a.args) != len(b.args):
        return a, b
    return _diff_args(a.args, b.args, depth) or (a, b)


def _diff_args(p, q, depth):
    for x, y in zip(p, q):
        if isinstance(x, tm.T) and isinstance(y, tm.T):
            d = diff(x, y, depth + 1)
            if d:
                return d
        elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            d = _diff_args(x, y, depth + 1)
            if d:
                return d
        elif x != y:
            return None
    return None


def eq(a, b):
    if a is b:
        return True
    try:
        return tm.equal(a, b, tm.Ctx(6000))
    except tm.Budget:
        return False
    except RecursionError:
        return False


def where_of(it, func, label):
    name = label.rsplit('.', 1)[-1]
    locs = []
    for (o, f), l in it.wloc.items():
        if f == name or (f == '*' and tm.show(o, 3).endswith(name)):
            locs.extend(l)
    path = os.path.basename(func.module.path)
    return '%s:%s (%s)%s' % (path, getattr(func.node, 'lineno', '?'), func.qual,
                             ' written at ' + ', '.join(sorted(set(locs))[:6]) if locs else '')


class _alarm:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(*a):
            raise Timeout()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.alarm(self.s)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


def check_obligation(project, obl, base_attrs=None):
    """-> (findings, info) ; raises AnalysisError when it cannot be decided"""
    func = project.func(obl.target)
    names = obl.func.params
    if len(func.params) < len(names):
        raise AnalysisError('%s takes %d parameters, reference has %d' % (func.qual, len(func.params), len(names)))
    extra = func.params[len(names):]
    nd = len(func.node.args.defaults)
    if len(extra) > nd:
        # new mandatory parameters
        return [Finding('signature', obl.target, func.qual, 'takes new mandatory parameters %s' % extra)], {}
    out = []
    try:
        return _compare(project, obl, func, names, base_attrs, out)
    except Timeout:
        if not out:
            raise
        return out, {'compared': len(out), 'functions': [func.qual], 'note': 'stopped at the time limit'}


def defaults_differ(project, obl, func, names):
    """default values of optional parameters"""
    def table(f):
        a = f.node.args
        n = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(n[len(n) - len(a.defaults):], a.defaults))
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        return n, d
    if func.lang != 'py':
        return []
    out = []
    cn, cd = table(func)
    rn, rd = table(obl.func)
    for x, y in zip(cn, rn):
        if y in rd and x not in cd:
            out.append(Finding('default', '%s#%s' % (obl.target, x), func.qual, 'parameter %s is no longer optional' % x))
        elif y in rd:
            it = make_interp(project, obl.opts)
            try:
                a = default_value(it, func, cd[x])
                b = default_value(it, obl.func, rd[y])
            except (Dead, AnalysisError):
                continue
            if not eq(a, b):
                out.append(Finding('default', '%s#%s' % (obl.target, x), func.qual, 'default of parameter %s: expected %s, found %s' % (
                    x, ast.unparse(rd[y]), ast.unparse(cd[x]))))
    return out


def default_value(it, func, node):
    it.activate()
    st = State({}, {}, TRUE)
    return it.deep(st, it.eval_in_module(st, func.module, node))


def _compare(project, obl, func, names, base_attrs, out):
    with _alarm(LIMIT):
        ca, ita, deada = run_one(project, func, obl, names)
        cb, itb, deadb = run_one(project, obl.func, obl, names)
        oa = observables(ca, ita, obl.opts)
        ob = observables(cb, itb, obl.opts)
        known = known_attrs(project)
        ncmp = 0
        # values only count where the function returns: equality may assume that neither side raises
        fine = TRUE
        if not obl.opts.get('noraise'):
            ra, rb = raise_cond(ita), raise_cond(itb)
            if ra is not FALSE and rb is not FALSE and eq(ra, rb) and not any(
                    x.op == 'sym' and x.args[0].startswith('$') for x in tm.walk(rb)):
                fine = tm.not_(rb)
        for k in sorted(set(oa) | set(ob)):
            a, b = oa.get(k), ob.get(k)
            if b is None:
                last = field(k)
                if base_attrs is not None and a[1] is not None and a[1][1] not in ('*', '$state') and a[1][0] is not RNG \
                        and last not in base_attrs:
                    continue           # attribute unknown to the reference repository
                if a[1] is not None and a[1][1] not in ('*', '$state') and a[1][0] is not RNG and last not in known:
                    continue           # never read
            if a is None:
                a = (key_default(b[1], ca, ita), None)
            elif b is None:
                b = (key_default(a[1], cb, itb), None)
            a, b = a[0], b[0]
            if a is None or b is None:
                out.append(Finding('ref', '%s#%s' % (obl.target, k), where_of(ita, func, k),
                                   '%s %s' % (k, 'is not written / called' if a is None else 'must not be written / called here')))
                continue
            ncmp += 1
            if not eq(a, b) and (fine is TRUE or not eq(tm.ite(fine, a, UNDEF), tm.ite(fine, b, UNDEF))):
                x = Finding('ref', '%s#%s' % (obl.target, k), where_of(ita, func, k), 'value of %s differs from the reference' % k)
                out.append(x)
                d = diff(b, a) or (b, a)
                x.text += ': expected %s, found %s' % (tm.show(d[0], DEPTH)[:TXT], tm.show(d[1], DEPTH)[:TXT])
        ignore = set(words(obl.opts.get('ignore')))
        sa, sb = shared(ca, ita, obl.opts), shared(cb, itb, obl.opts)
        for k in sorted(sa, key=str):
            if k[1] not in ('', '*') and base_attrs is not None and k[1] not in base_attrs:
                continue
            if k[1] in ignore:
                continue
            new = [x for x in sa[k] - sb.get(k, set()) if isinstance(x, str) or not any(
                eq(x, y) for y in sb.get(k, ()) if not isinstance(y, str))]
            if new:
                lab = 'return' if k[0] == 'return' else tm.show(k[0], 4) + '.' + k[1]
                out.append(Finding('shared', '%s#%s' % (obl.target, lab), where_of(ita, func, lab),
                                   '%s keeps a reference to %s where the reference keeps a copy' % (
                                       lab, ', '.join(sorted(x if isinstance(x, str) else tm.show(x, 4) for x in new)))))
        out += defaults_differ(project, obl, func, names)
        if not obl.opts.get('noraise'):
            ra, rb = raise_cond(ita), raise_cond(itb)
            ncmp += 1
            if ra is not rb and not eq(ra, rb):
                out.append(Finding('raise', obl.target, where_of(ita, func, '?'),
                                   'error condition differs: expected %s, found %s' % (tm.show(rb, DEPTH)[:TXT], tm.show(ra, DEPTH)[:TXT])))
    return out, {'compared': ncmp, 'functions': sorted(ita.analysed), 'unknown': ita.unknown}


def key_default(key, r, it):
    """value of an observable in a run that never wrote it"""
    if r is None or key is None:
        return None
    st = r.state
    o, f = key
    if o is RNG:
        return ZERO
    if f in ('$state', '*'):
        return st.heap.get(key) if f == '*' and key in st.heap else (o if f == '*' else None)
    if o.op == 'ref':
        return None
    q = it.quiet
    it.quiet = 1
    try:
        v = it.load_attr(st, o, f)
    finally:
        it.quiet = q
    return it.deep(st, v)
