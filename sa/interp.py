"""Flow-sensitive value analysis of Python syntax trees (no execution).

Every expression is mapped to a term (terms.py); branches are analysed separately and joined with gates;
loops over sequences of unknown length are summarised (sums, element-wise maps, scatter-adds, or a canonical
recurrence term); calls are analysed in the callee's tree, or kept as uninterpreted function values.
Objects live on an abstract heap keyed by (object, field).
"""
import ast
import re
import builtins
import cmath
import itertools
import math
from itertools import count

from . import terms as tm
from .terms import (T, mk, num, sym, s, fn, sel, store, ite, and_, or_, not_, truth, add, sub, mul, div, power,
                    TRUE, FALSE, NONE, ZERO, ONE, FULL)
from .frontend import Func, Class, Module, AnalysisError
from . import npmodel
from .effects import effects_of, family
from . import purity

MATHNAMES = {'cmath': set(dir(cmath)), 'math': set(dir(math))}
UNDEF = mk('undef')
EMPTY_DICT = mk('dict', ())
LAM_HEIGHT = {}         # bound variable of a lam
NREF = count(1)
RNG = mk('rng')
MUTATORS = ('append', 'add', 'extend', 'insert', 'update', 'pop', 'remove', 'reverse', 'sort', 'setdefault', 'clear')
CONTAINERS = ('concat', 'maplist', 'loop', 'store', 'updated')
ELLIPSIS = mk('ellipsis')
REFOPS = ('ref', 'view', 'sym', 'attr', 'sel')


class Abort(Exception):
    pass


class Event:
    __slots__ = ('kind', 'pc', 'data', 'loc', 'loops')

    def __init__(self, kind, pc, data, loc, loops):
        self.kind, self.pc, self.data, self.loc, self.loops = kind, pc, data, loc, loops

    def __repr__(self):
        return '%s %s @%s if %s' % (self.kind, self.data, self.loc, self.pc)


DEBUG_MU = False
MODSETS = {}


class State:
    __slots__ = ('env', 'heap', 'pc')

    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc = env, heap, pc

    def fork(self, pc):
        return State(dict(self.env), dict(self.heap), pc)


class Frame:
    def __init__(self, func, module, base_pc, closure=None):
        self.func = func
        self.module = module
        self.returns = []
        self.base_pc = base_pc
        self.loops = []
        self.imports = {}
        self.closure = closure
        self.globals = set()


class Loop:
    def __init__(self, base_pc):
        self.breaks = []
        self.continues = []
        self.base_pc = base_pc


class Result:
    def __init__(self, value, state, interp):
        self.value, self.state, self.interp = value, state, interp

    def attr(self, obj, name):
        return self.interp.deep(self.state, self.interp.load_attr(self.state, obj, name))


def refname(t):
    return mk('ref', t)


def array_names(project):
    """names that are subscripted somewhere in the sources: treated as arrays / containers"""
    out = set()
    for m in project.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Subscript):
                v = n.value
                if isinstance(v, ast.Attribute):
                    out.add(v.attr)
                elif isinstance(v, ast.Name):
                    out.add(v.id)
            elif isinstance(n, (ast.For, ast.comprehension)):
                v = n.iter
                if isinstance(v, ast.Attribute):
                    out.add(v.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
                v = n.func.value
                if isinstance(v, ast.Attribute):
                    out.add(v.attr)
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                    and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id in ('np', 'numpy') \
                    and n.value.func.attr in ('zeros', 'ones', 'zeros_like', 'ones_like', 'empty', 'linspace', 'arange'):
                out.update(v.attr for v in n.targets if isinstance(v, ast.Attribute))
    return out


DICT_NAMES = frozenset('step_by_step_custom_observables pass_by_pass_custom_observables save_once_custom_observables '
                       'pbp_custom_data sbs_custom_data sey_test_deltas emit_ene_dist_test'.split())

# attributes which, where the object has them at all, are dictionaries
NOT_NONE = frozenset(['slice_info'])


def called_names(body):
    out = set()
    for b in body:
        for c in ast.walk(b):
            if isinstance(c, ast.Call):
                out.add(c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else '')
            elif isinstance(c, ast.Subscript):
                out.add('[]')
    return ' '.join(sorted(out))


class Interp:
    def __init__(self, project, stop=(), pure=(), hints=None, arrays=(), scalars=(), effects=None, maxdepth=40,
                 assume=TRUE):
        self.p = project
        self.stop = set(stop)
        self.objmods = {}
        self.pure = set(pure)
        self.hints = dict(hints or {})
        self.partof = {}
        self.loop_shared = {}
        self.mirrored = set()
        self.objnames = purity.object_names(project)
        npmodel.INT_NAMES.clear()
        npmodel.INT_NAMES.update(purity.int_names(project))
        if not hasattr(project, '_array_names'):
            project._array_names = array_names(project)
        self.arrays = (project._array_names | set(arrays)) - set(scalars)
        self.scalars = set(scalars)
        self.effects = effects or {}
        self.trace = []
        self.extlog = []
        self.frames = []
        self.maxdepth = maxdepth
        self.nref = NREF
        self.info = {}
        self.classcount = {}
        self.objs = {}
        self.wloc = {}
        self.muitem = {}
        self.stable = ()            # attributes that no call of this analysis rebinds
        self.muini = {}             # loop state variable -> its value before the loop
        self.checkers = {}
        self.loopdepth = 0
        self.exc = count(1)
        self.mucount = self.nref
        self.nopaque = {}
        self.kills = 0
        self.killlog = []
        self.modvals = {}
        self.unknown = []          # constructs not interpreted
        self.analysed = set()      # functions whose body was analysed
        self.ncalls = 0
        self.nowrap = False
        self.curnode = None
        self.quiet = 0
        self.scalar_mus = set()
        self.inis = False
        self.results = {}
        self.activate()
        tm.ARRAY_HOOK[0] = lambda t: False
        npmodel.install()

    def activate(self):
        key = (frozenset(self.arrays), frozenset(self.scalars))
        if getattr(tm, 'ACTIVE', None) != key:
            tm.clear_caches()
            tm.ACTIVE = key
        tm.SCALAR_HOOK[0] = self.scalar_hook

    def dict_named(self, t, names=DICT_NAMES):
        """an attribute that holds a dictionary by the class' documented interface (iteration runs over its keys)"""
        if t.op == 'sym':
            return t.args[0].rsplit('.', 1)[-1] in names
        if t.op in ('attr', 'attrof'):
            n = t.args[1]
            return (n.args[0] if isinstance(n, tm.T) else n) in names
        if t.op == 'fn' and t.args[0] == 'attrof':
            n = t.args[2]
            return (n.args[0] if isinstance(n, tm.T) else n) in names
        return False

    # ------------------------------------------------------------ kinds
    def scalar_hook(self, t):
        if t.op == 'sym':
            n = t.args[0]
            if n.startswith('$mu'):
                return t in self.scalar_mus
            n = n.rsplit('.', 1)[-1]
            return n not in self.arrays
        if t.op == 'attr':
            return t.args[1] not in self.arrays
        if t.op == 'fn' and t.args[0] == 'attrof' and t.args[2].op == 's':
            return t.args[2].args[0] not in self.arrays
        if t.op in ('cat', 'fmt', 'exc', 'func', 'class', 'module', 'ext'):
            return True
        return False

    def arrayish(self, t):
        """may t hold an array (element-wise level)?"""
        if t.op in ('ref', 'view'):
            return True
        if tm.is_scalar(t):
            return False
        if t.op == 'poly':
            return any(self.arrayish(a) for m, _ in t.args[0] for a, e in m)
        if t.op in ('pbase',):
            return self.arrayish(t.args[0])
        if t.op == 'ite':
            return any(self.arrayish(a) for a in t.args)
        if t.op in ('cmp', 'and', 'or', 'not', 'truth'):
            return any(self.arrayish(a) for a in t.args if isinstance(a, T))
        if t.op == 'fn' and t.args[0] in tm.ELEMWISE:
            return any(self.arrayish(a) for a in t.args[1:] if isinstance(a, T))
        if t.op == 'sel':
            i = t.args[1]
            if i.op == 'slice' or tm.is_mask(i):
                return True
            return False
        if t.op == 'fn':
            return t.args[0] in ('concat', 'arange', 'linspace', 'where', 'rand', 'map', 'store')
        return t.op in ('store', 'expand', 'sym', 'attr')

    # ------------------------------------------------------------ heap
    def alloc(self, kind, cls=None, tag=''):
        n = next(self.nref)
        if kind == 'inst':
            k = self.classcount[cls.name] = self.classcount.get(cls.name, 0) + 1
            t = mk('ref', 'inst', '%s#%d' % (cls.name, k))
            # distinct run namespaces share names so that two analyses agree on the identity
        else:
            t = mk('ref', kind, n)
        self.info[t] = {'kind': kind, 'cls': cls}
        return t

    def new_array(self, st, content, shape=None):
        r = self.alloc('arr')
        st.heap[(r, '*')] = content
        if shape is not None:
            st.heap[(r, '$shape')] = shape
        return r

    def fresh_value(self, st, v):
        """a copy of a value: not the object it was taken from"""
        if v.op in ('sym', 'attr', 'sel', 'fn') and not tm.is_scalar(v):
            return self.new_array(st, v)
        return v

    def new_list(self, st, items):
        r = self.alloc('list')
        st.heap[(r, '*')] = mk('list', *items)
        return r

    def new_dict(self, st, pairs):
        r = self.alloc('dict')
        c = mk('dict', tuple(pairs))
        st.heap[(r, '*')] = c
        return r

    def either(self, v):
        """one of several existing objects"""
        if v.op == 'ite':
            return tm.is_scalar(v.args[0]) and self.either(v.args[1]) and self.either(v.args[2])
        return v.op in ('attr', 'sym', 'none', 'undef')

    def bind_value(self, st, v):
        """value about to be bound to a name/attribute: give fresh arrays an identity"""
        if v.op in ('ref', 'view', 'sym', 'attr', 's', 'none', 'c', 'b', 'tuple', 'func', 'class', 'module', 'ext',
                    'bound', 'closure', 'extmeth', 'undef', 'cat', 'fconst', 'obj'):
            return v
        if tm.is_scalar(v):
            return v
        if v.op == 'ite' and self.has_ref(v):
            return v
        if v.op in ('sel',):
            i = v.args[1]
            if i.op != 'slice' and not tm.is_mask(i):
                return v
        if v.op == 'fn' and v.args[0] in ('ret', 'attrof', 'open', 'loop', 'out', 'seqresult'):
            return v
        if v.op == 'ite' and (not self.arrayish(v) or self.either(v)):
            return v
        return self.new_array(st, v)

    def has_ref(self, t):
        if t.op in ('ref', 'view', 'func', 'class', 'bound', 'closure'):
            return True
        if t.op == 'ite':
            return self.has_ref(t.args[1]) or self.has_ref(t.args[2])
        return False

    def deref(self, st, t):
        if t.op == 'ref':
            c = st.heap.get((t, '*'))
            return c if c is not None else t
        if t.op == 'view':
            return sel(self.deref(st, t.args[0]), t.args[1])
        if t.op == 'ite':
            a, b = self.deref(st, t.args[1]), self.deref(st, t.args[2])
            if a is t.args[1] and b is t.args[2]:
                return t
            return ite(t.args[0], a, b)
        if t.op in ('sym', 'attr', 'sel', 'fn'):
            c = st.heap.get((t, '*'))
            if c is not None:
                return c
        return t

    def deep(self, st, t, seen=None):
        """value with all array/list/dict identities replaced by their content"""
        if seen is None:
            seen = {}
        if t in seen:
            return seen[t]
        seen[t] = t
        if t.op == 'fn' and t.args[0] == 'ini':
            # initial content of an opaque object: its name is not to be replaced by its present content
            seen[t] = fn('ini', tm.rebuild(t.args[1], lambda x: self.deep(st, x, seen)))
            return seen[t]
        d = self.deref(st, t)
        if t.op == 'ref' and t.args[0] == 'arr' and d is not t:
            # numbers: names inside are initial contents, not references
            r = self.deep_value(st, d, seen)
        elif d is not t:
            r = self.deep(st, d, seen)
        elif d.op in ('ref', 'undef', 'func', 'class', 'module', 'ext', 's', 'c', 'sym', 'attr', 'bound'):
            r = d
        elif d.op == 'dict':
            if self.contains_ref(d):
                r = mk('dict', tuple(sorted(((self.deep(st, k, seen), self.deep(st, v, seen)) for k, v in d.args[0]),
                                            key=lambda kv: kv[0].id)))
            else:
                r = mk('dict', tuple(sorted(((k, self.deep(st, v, seen)) for k, v in d.args[0]), key=lambda kv: kv[0].id)))
        elif d.op in ('tuple', 'list', 'ite'):
            r = tm.rebuild(d, lambda x: self.deep(st, x, seen))
        elif self.real_ref(d):
            r = tm.rebuild(d, lambda x: self.deep(st, x, seen) if self.real_ref(x) else x)
        else:
            r = d
        seen[t] = r
        return r

    def deep_value(self, st, t, seen):
        if not self.real_ref(t):
            return t
        if t.op in ('ref', 'view'):
            return self.deep(st, t, seen)
        if t.op == 'dict':
            return self.deep(st, t, seen)
        return tm.rebuild(t, lambda x: self.deep_value(st, x, seen))

    _rr = {}

    def real_ref(self, t):
        r = self._rr.get(t)
        if r is None:
            r = t.op in ('ref', 'view')
            if not r:
                if t.op == 'dict':
                    r = any(self.real_ref(k) or self.real_ref(v) for k, v in t.args[0])
                else:
                    r = any(self.real_ref(x) for x in tm.subterms(t))
            self._rr[t] = r
        return r

    _hi = {}

    def has_inst(self, t):
        """does the term mention an object created during the run"""
        r = self._hi.get(t)
        if r is None:
            if t.op == 'ref':
                r = t.args[0] == 'inst'
            elif t.op == 'sym':
                r = t.args[0].startswith('$mu')
            elif t.op == 'dict':
                r = any(self.has_inst(k) or self.has_inst(v) for k, v in t.args[0])
            else:
                r = any(self.has_inst(x) for x in tm.subterms(t))
            self._hi[t] = r
        return r

    def snap(self, st, t, seen=None):
        """value with the objects created during the run replaced by their current content"""
        if not self.has_inst(t):
            return t
        if seen is None:
            seen = {}
        r = seen.get(t)
        if r is not None:
            return r
        if t.op == 'ref':
            cls = self.info[t].get('label') or self.info[t]['cls'].name
            seen[t] = mk('instref', s(cls))
            parts = []
            for (o, f), v in st.heap.items():
                if o is t and f != '$shape':
                    parts.append((f, self.snap(st, self.deep(st, v), seen)))
            parts.sort(key=lambda q: q[0])
            r = mk('inst', s(cls), *[mk('kw', f, v) for f, v in parts])
        elif t.op == 'sym':
            # object of an earlier iteration: what this one did to it
            seen[t] = t
            parts = [(f, self.snap(st, self.deep(st, v), seen)) for (o, f), v in st.heap.items()
                     if o is t and f not in ('$shape', '*')]
            parts.sort(key=lambda q: q[0])
            r = mk('objstate', t, *[mk('kw', f, v) for f, v in parts]) if parts else t
        elif t.op == 'dict':
            r = mk('dict', tuple(sorted(((self.snap(st, k, seen), self.snap(st, v, seen)) for k, v in t.args[0]),
                                        key=lambda kv: kv[0].id)))
        else:
            r = tm.rebuild(t, lambda x: self.snap(st, x, seen))
        seen[t] = r
        return r

    _cr = {}

    def collect_shared(self, st, v, res, seen):
        """existing arrays that the value (or an element of it) is, or is a view of"""
        if v in seen:
            return
        seen.add(v)
        if v.op == 'ref':
            if v.args[0] in ('list', 'dict'):
                self.collect_shared(st, st.heap.get((v, '*'), NONE), res, seen)
            elif v.args[0] == 'inst':
                for (o, f), x in list(st.heap.items()):
                    if o is v and f not in ('$state', '$shape'):
                        self.collect_shared(st, x, res, seen)
        elif v.op in ('list', 'tuple'):
            for x in v.args:
                self.collect_shared(st, x, res, seen)
        elif v.op == 'dict':
            for k, x in v.args[0]:
                self.collect_shared(st, x, res, seen)
        elif v.op == 'ite':
            self.collect_shared(st, v.args[1], res, seen)
            self.collect_shared(st, v.args[2], res, seen)
        elif v.op == 'view':
            self.collect_shared(st, v.args[0], res, seen)
        elif v.op == 'store' or v.op == 'fn' and v.args[0] in CONTAINERS:
            for x in v.args:
                if isinstance(x, T) and x.op not in ('sym', 'attr', 'sel'):
                    self.collect_shared(st, x, res, seen)
        elif v.op == 'fn' and v.args[0] == 'attrof':
            if v.args[-1].op == 's' and v.args[-1].args[0] in self.arrays:
                res.add(v)
        elif v.op == 'sel':
            if not tm.is_mask(v.args[1]) and not tm.is_scalar(v):
                self.collect_shared(st, v.args[0], res, seen)
        elif v.op == 'attr' and v.args[0].op == 'ite':
            self.collect_shared(st, mk('attr', v.args[0].args[1], v.args[1]), res, seen)
            self.collect_shared(st, mk('attr', v.args[0].args[2], v.args[1]), res, seen)
        elif v.op in ('sym', 'attr'):
            if not tm.is_scalar(v):
                res.add(v)

    def contains_ref(self, t):
        r = self._cr.get(t)
        if r is None:
            r = t.op in ('ref', 'view')
            if not r:
                if t.op == 'dict':
                    r = any(self.contains_ref(k) or self.contains_ref(v) for k, v in t.args[0])
                else:
                    r = any(self.contains_ref(x) for x in tm.subterms(t))
            # sym objects may have heap content: treat containers as possibly containing them
            if not r and t.op in ('tuple', 'list', 'ite'):
                r = True
            self._cr[t] = r
        return r

    def note(self, key):
        if self.curnode is not None and self.frames:
            self.wloc.setdefault(key, [])
            l = self.loc()
            if l not in self.wloc[key]:
                self.wloc[key].append(l)

    def loc(self):
        f = self.frames[-1] if self.frames else None
        return '%s:%s' % (f.module.name if f else '?', getattr(self.curnode, 'lineno', '?'))

    def funcname(self):
        f = self.frames[-1]
        return f.func.qual if f.func is not None else f.module.name

    def setcontent(self, st, t, v):
        if t.op == 'view':
            b = t.args[0]
            self.setcontent(st, b, store(self.deref(st, b), t.args[1], v))
            return
        if t.op == 'ite':
            self.setcontent(st, t.args[1], ite(t.args[0], v, self.deref(st, t.args[1])))
            self.setcontent(st, t.args[2], ite(t.args[0], self.deref(st, t.args[2]), v))
            return
        if t.op in ('none', 'undef'):
            return
        if t.op not in ('ref', 'sym', 'attr', 'sel', 'fn', 'module', 'class'):
            self.unknown.append('store into %s at %s' % (t.op, self.loc()))
            return
        if self.loopitem(t):
            d, i = t.args
            for key, c in list(st.heap.items()):
                if c is d and key[1] == '*' and key[0] is not d:
                    st.heap[key] = store(d, i, v)
                    self.note(key)
                    self.mirrored.add((t, '*'))
        st.heap[(t, '*')] = v
        self.note((t, '*'))

    def default(self, key):
        o, f = key
        if o is RNG:
            return ZERO
        if f == '*':
            return o if o.op != 'ref' else UNDEF
        if f == '$state':
            return mk('init', self.anon(o))
        if f == '$shape':
            return UNDEF
        if o.op == 'ref':
            return UNDEF
        return self.attr_term(o, f)

    def attr_term(self, o, f):
        if o.op == 'sym':
            return sym(o.args[0] + '.' + f)
        if o.op == 'module':
            return sym(o.args[0].name + '::' + f)
        return mk('attr', o, f)

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return ite(c, a, b)

    def missing(self, st, k):
        """value of a location that was not assigned on this path"""
        o, f = k
        if isinstance(f, str) and f[:1] not in ('*', '$') and o is not RNG:
            sv = st.heap.get((o, '$state'))
            if sv is not None:
                return self.attr_of_state(st, o, sv, f)
        return self.default(k)

    def merge(self, c, s1, s2, pc=None):
        """state that is s1 if c else s2"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        env = {}
        for k in list(s1.env) + [k for k in s2.env if k not in s1.env]:
            env[k] = self.merge_val(c, s1.env.get(k, UNDEF), s2.env.get(k, UNDEF))
        heap = {}
        for k in list(s1.heap) + [k for k in s2.heap if k not in s1.heap]:
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is b:
                heap[k] = a
                continue
            if a is None:
                a = self.missing(s1, k)
            if b is None:
                b = self.missing(s2, k)
            heap[k] = self.merge_val(c, a, b)
        return State(env, heap, or_(s1.pc, s2.pc) if pc is None else pc)

    def merge_list(self, states, base):
        states = [x for x in states if x is not None]
        if not states:
            return None
        r = states[-1]
        for x in reversed(states[:-1]):
            c = tm.assume(x.pc, base)
            r = self.merge(c, x, r)
        return r

    # ------------------------------------------------------------ attributes
    def class_of(self, t):
        i = self.info.get(t)
        if i and i.get('cls'):
            return i['cls']
        if t.op in ('sym', 'attr'):
            n = t.args[0].rsplit('.', 1)[-1] if t.op == 'sym' else t.args[1]
            h = self.hints.get(n)
            if h:
                return self.p.cls(h) if isinstance(h, str) else h
        if t.op == 'sel':
            b = t.args[0]
            n = None
            if b.op == 'sym':
                n = b.args[0].rsplit('.', 1)[-1]
            elif b.op == 'attr':
                n = b.args[1]
            h = self.hints.get(str(n) + '[]')
            if h:
                return self.p.cls(h) if isinstance(h, str) else h
        return None

    def load_attr(self, st, t, name):
        if t.op == 'ite':
            return self.merge_val(t.args[0], self.load_attr(st, t.args[1], name), self.load_attr(st, t.args[2], name))
        if t.op == 'module':
            m = t.args[0]
            v = st.heap.get((t, name))
            if v is not None:
                return v
            r = self.p.resolve_name(m, name)
            if r is not None:
                return self.wrap(r)
            if name in m.assigns:
                return self.module_value(st, m, name)
            v = self.star_import(m, name)
            return v if v is not None else self.attr_term(t, name)
        if t.op == 'ext':
            return npmodel.ext(t.args[0] + '.' + name)
        if t.op == 'class':
            f = t.args[0].lookup(self.p, name)
            if f is not None:
                return mk('bound', t, f) if f.kind == 'class' else mk('func', f)
            a = t.args[0].lookup_attr(self.p, name)
            if a is not None:
                return self.eval_in_module(st, a[0].module, a[1])
            return mk('attr', t, name)
        v = st.heap.get((t, name))
        if v is not None:
            return v
        if name == '__dict__':
            return mk('extmeth', t, '__dict__')
        c = self.class_of(t)
        if c is not None:
            f = c.lookup(self.p, name)
            if f is not None:
                for d in f.node.decorator_list:
                    if isinstance(d, ast.Name) and d.id == 'property':
                        return self.call_func(st, f, [t], {})
                    if isinstance(d, ast.Name) and d.id == 'staticmethod':
                        return mk('func', f)
                return mk('bound', mk('class', c) if f.kind == 'class' else t, f)
            a = c.lookup_attr(self.p, name)
            if a is not None:
                return self.eval_in_module(st, a[0].module, a[1])
        if t.op == 'ref' and t.args[0] == 'inst' and not self.is_open(t):
            v = st.heap.get((t, '$state'))
            if v is None:
                self.event('missing-attr', st, (c.name if c else '?', name))
        if name in npmodel.METHODS and not (t.op == 'ref' and t.args[0] == 'inst') \
                and name not in ('shape', 'T', 'real', 'imag', 'size', 'ndim', 'flat', 'dtype'):
            return mk('extmeth', t, name)
        if name in ('shape', 'T', 'real', 'imag', 'size', 'ndim') and not (t.op == 'ref' and t.args[0] == 'inst'):
            if self.arrayish(t) or t.op in ('ref', 'view', 'store', 'poly', 'fn', 'list', 'sel'):
                return npmodel.array_attr(self, st, t, name)
        if name in self.stable:
            return self.attr_term(t, name)
        sv = st.heap.get((t, '$state'))
        if sv is not None:
            if name in self.objnames and c is None:
                return self.attr_term(t, name)
            return self.attr_of_state(st, t, sv, name)
        if name not in self.objnames:
            sv = self.outer_state(st, t)
            if sv is not None:
                self.partof[sv] = t
                return fn('attrof', sv, s(name))
        return self.attr_term(t, name)

    @staticmethod
    def holder(t):
        """(object, part) of which t is a part, or None"""
        if t.op == 'attr':
            return t.args[0], s(t.args[1])
        if t.op == 'sel':
            return t.args[0], t.args[1]
        if t.op == 'sym' and '.' in t.args[0]:
            a, b = t.args[0].rsplit('.', 1)
            return sym(a), s(b)
        return None

    def outer_state(self, st, t):
        """state of t after calls that were made on an object holding it (None: unchanged)"""
        h = self.holder(t)
        if h is None:
            return None
        o, part = h
        sv = st.heap.get((o, '$state'))
        if sv is not None:
            if part.op == 's':
                mods = self.objmods.get(o)
                if mods is not None and part.args[0] not in mods:
                    return None
                r = self.attr_of_state(st, o, sv, part.args[0])
                return None if r is t or not (r.op == 'fn' and r.args[0] == 'attrof') else r
            return fn('attrof', sv, part)
        sv = self.outer_state(st, o)
        return None if sv is None else fn('attrof', sv, part)

    def cur_state(self, st, o):
        """state of an object: its calls, else those of the objects that hold it, else None"""
        sv = st.heap.get((o, '$state'))
        return sv if sv is not None else self.outer_state(st, o)

    def nested(self, o, x):
        """path of x inside o (None when x is not a part of o)"""
        path = ''
        while x is not o:
            h = self.holder(x)
            if h is None:
                return None
            x, part = h
            path = '.%s%s' % (part.args[0] if part.op == 's' else tm.show(part, 4), path)
        return path

    def with_reachable(self, st, v, cur):
        """cur and what has been changed so far in the objects that v leads to (a call that writes all of them out)"""
        tops = {y for y in tm.walk(v) if y.op in ('sym', 'attr', 'sel') and not (y.op == 'sym' and y.args[0].startswith('$'))}
        out = {}
        for q, x in st.heap.items():
            if not isinstance(q[0], T) or q[1] in ('$shape', '$state'):
                continue
            x0 = q[0]
            while x0 not in tops and self.holder(x0):
                x0 = self.holder(x0)[0]
            if x0 in tops:
                d = self.deep(st, x)
                if d is not self.default(q):
                    out[tm.show(self.anon(q[0]), 12) + '.' + q[1]] = d
        if not out:
            return cur
        return mk('with', cur, *[mk('kw', f, self.snap(st, d)) for f, d in sorted(out.items(), key=lambda z: z[0])])

    def attr_of_state(self, st, t, sv, name):
        """attribute of an object whose history contains uninterpreted calls"""
        mods = self.objmods.get(t)
        if mods is not None and name not in mods and not (t.op == 'ref' and t.args[0] == 'inst'):
            return self.attr_term(t, name)
        if sv.op == 'ite':
            return self.merge_val(sv.args[0], self.attr_of_state(st, t, sv.args[1], name),
                                  self.attr_of_state(st, t, sv.args[2], name))
        if sv.op == 'after':
            w = MODSETS.get((sv.args[0], sv.args[1]))
            if w is not None and name not in w:
                return self.attr_of_state(st, t, sv.args[0].args[4].args[sv.args[1]], name)
        elif sv.op == 'with':
            for x in sv.args[1:]:
                if x.args[0] == name:
                    return x.args[1]
            return self.attr_of_state(st, t, sv.args[0], name)
        elif sv.op == 'init':
            return self.attr_term(t, name)
        return fn('attrof', sv, s(name))

    def is_open(self, t):
        i = self.info.get(t)
        return bool(i and i.get('open'))

    def store_attr(self, st, t, name, v):
        if t.op == 'ite':
            a, b = t.args[1], t.args[2]
            if b.op not in ('none', 'undef'):
                old = self.load_attr(st, b, name)
                self.store_attr(st, b, name, self.merge_val(t.args[0], old, v))
            if a.op not in ('none', 'undef'):
                old = self.load_attr(st, a, name)
                self.store_attr(st, a, name, self.merge_val(t.args[0], v, old))
            return
        v = self.bind_value(st, v)
        st.heap[(t, name)] = v
        self.note((t, name))
        self.event('setattr', st, (t, name, v))

    def wrap(self, r):
        if isinstance(r, Func):
            return mk('func', r)
        if isinstance(r, Class):
            return mk('class', r)
        if isinstance(r, Module):
            return mk('module', r)
        if isinstance(r, tuple) and r[0] == 'ext':
            return npmodel.ext(r[1])
        return r

    def module_value(self, st, m, name):
        key = (m.name, name)
        if key not in self.modvals:
            self.modvals[key] = sym(m.name + '::' + name)
            vals = m.assigns[name]
            if len(vals) == 1 and not self.module_mutates(m, name):
                try:
                    self.modvals[key] = self.eval_in_module(st, m, vals[0])
                except Abort:
                    pass
        return self.modvals[key]

    def module_mutates(self, m, name):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global) and name in n.names:
                return True
        return False

    def eval_in_module(self, st, m, node):
        f = Frame(None, m, st.pc)
        env = st.env
        st.env = {}
        self.frames.append(f)
        cn = self.curnode
        try:
            v = self.eval(st, node)
            v = self.deep(st, v)
        finally:
            self.frames.pop()
            st.env = env
            self.curnode = cn
        return v

    # ------------------------------------------------------------ events
    def event(self, kind, st, data):
        if self.quiet:
            return
        self.trace.append(Event(kind, st.pc, data, self.funcname() + ':' + str(getattr(self.curnode, 'lineno', '?'))
                                if self.frames else '?', self.loopdepth))

    # ------------------------------------------------------------ entry
    def run(self, func, args, kwargs=None, heap=None, pc=TRUE):
        self.activate()
        st = State({}, dict(heap or {}), pc)
        kwargs = dict(kwargs or {})
        a = getattr(func.node, 'args', None)
        if isinstance(a, ast.arguments) and a.kwarg and '**' not in kwargs:
            kwargs['**'] = sym(a.kwarg.arg)      # any further keyword arguments
        v = self.call_func(st, func, args, kwargs, force=True)
        return Result(v, st, self)

    def obj(self, name, cls=None):
        t = sym(name)
        if cls is not None:
            self.info[t] = {'kind': 'sym', 'cls': self.p.cls(cls) if isinstance(cls, str) else cls}
        return t

    # ------------------------------------------------------------ calls
    def call_func(self, st, func, args, kwargs, force=False, closure=None):
        """analyse the callee's body; state is updated in place; returns the value"""
        depth = sum(1 for f in self.frames if f.func is func)
        if not force and (func.qual in self.stop or func.name in self.stop or depth > 1
                          or len(self.frames) > self.maxdepth or func.lang == 'f77'):
            return self.opaque(st, func, args, kwargs)
        frame = Frame(func, func.module, st.pc, closure)
        env = self.bind_args(st, func, args, kwargs)
        if env is None:
            return self.opaque(st, func, args, kwargs)
        self.analysed.add(func.qual)
        self.ncalls += 1
        saved = st.env
        cn = self.curnode
        st.env = env
        self.frames.append(frame)
        base = st.pc
        saveloops = self.loopdepth
        kills = self.kills
        nlog = len(self.killlog)
        try:
            if isinstance(func.node, ast.Lambda):
                v = self.eval(st, func.node.body)
                out = st
            else:
                inner = State(st.env, st.heap, st.pc)
                end = self.exec_block(inner, func.node.body)
                outs = list(frame.returns)
                if end is not None:
                    outs.append((end, NONE))
                if not outs:
                    # never returns normally
                    self.frames.pop()
                    st.env = saved
                    self.curnode = cn
                    frame = None
                    st.pc = FALSE
                    raise Dead()
                v = outs[-1][1]
                r = outs[-1][0]
                alive = kills == self.kills
                for (x, val) in reversed(outs[:-1]):
                    c = tm.assume(x.pc, base)
                    v = self.merge_val(c, val, v)
                    r = self.merge(c, x, r, base if alive else None)
                old = st.heap
                st.heap = r.heap
                if alive:
                    r.pc = base
                st.pc = r.pc if r.pc is not FALSE else base
                if st.pc is not base and len(outs) > 1:
                    # some paths ended in an exception: what is left is only compared where it returns
                    log = self.killlog[nlog:]
                    if log and all(p is not None and d == self.loopdepth for p, d in log):
                        st.pc = and_(base, *[not_(tm.assume(p, base)) for p, d in log])
                    v = tm.assume(v, st.pc)
                    for k, x in list(st.heap.items()):
                        if old.get(k) is not x:
                            st.heap[k] = tm.assume(x, st.pc)
        finally:
            if frame is not None:
                self.frames.pop()
            st.env = saved
            self.curnode = cn
            self.loopdepth = saveloops
        return v

    def fill_absent(self, st, func, kwargs):
        """keyword arguments that are given on some paths only take the default value on the others"""
        if not any(has_absent(v) for v in kwargs.values()):
            return kwargs
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        names += [x.arg for x in a.kwonlyargs]
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        out = {}
        for k, v in kwargs.items():
            if has_absent(v) and k in names:
                if k in defaults:
                    d = self.eval_default(st, func, defaults[k])
                else:
                    self.event('callerror', st, (func.qual, 'missing argument %s' % k))
                    d = UNDEF
                v = fill(v, d)
            elif has_absent(v) and not a.kwarg:
                # not accepted: fails on the paths that give it
                c = given(v)
                if tm.assume(c, st.pc) is FALSE:
                    continue
                self.event('callerror', st.fork(and_(st.pc, c)), (func.qual, 'unexpected keyword argument %s' % k))
                continue
            out[k] = v
        return out

    def bind_args(self, st, func, args, kwargs):
        kwargs = self.fill_absent(st, func, kwargs)
        a = func.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        err = None
        rest = []
        for i, v in enumerate(args):
            if v.op == 'star':
                # unknown star-args: bind remaining positionals to selections
                for j, nme in enumerate(names[i:]):
                    if nme not in kwargs:
                        env[nme] = sel(v.args[0], num(j))
                break
            if i < len(names):
                env[names[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            err = 'too many positional arguments'
        if a.vararg:
            env[a.vararg.arg] = mk('tuple', *rest)
        kwn = set(names) | {x.arg for x in a.kwonlyargs}
        extra = []
        unknown_kw = kwargs.get('**')
        for k, v in kwargs.items():
            if k == '**':
                continue
            if k in kwn:
                if k in env:
                    err = 'multiple values for argument %s' % k
                env[k] = v
            else:
                extra.append((s(k), v))
        if a.kwarg:
            env[a.kwarg.arg] = unknown_kw if unknown_kw is not None and not extra else self.new_dict(st, extra)
        elif extra:
            err = 'unexpected keyword argument %s' % ', '.join(k.args[0] for k, v in extra)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(x.arg)
            if d is not None:
                defaults[x.arg] = d
        for n in names:
            if n not in env:
                if unknown_kw is not None:
                    env[n] = sel(unknown_kw, s(n))
                elif n in defaults:
                    env[n] = self.eval_default(st, func, defaults[n])
                else:
                    err = 'missing argument %s' % n
        if err:
            self.event('callerror', st, (func.qual, err))
            self.unknown.append('call of %s: %s (%s)' % (func.qual, err, self.loc()))
            return None
        return env

    def eval_default(self, st, func, node):
        return self.eval_in_module(st, func.module, node)

    def function_value(self, st, recv, name, f):
        """f when recv.name cannot be a method (the class is known and has none of that name): a stored function"""
        c = self.class_of(recv) if recv is not None else None
        if c is None:
            return None
        for k in family(self.p, c):
            if name in k.methods:
                return None
        return f if f.op in ('sym', 'attr') else self.attr_term(recv, name)

    def opaque(self, st, func, args, kwargs, recv=None, name=None, funval=None):
        """call kept uninterpreted"""
        if isinstance(func, Func):
            name = func.name
            cl = func.cls
            kwargs = self.fill_absent(st, func, kwargs) if func.lang == 'py' else kwargs
            a = [x for x in args]
            if func.lang == 'f77':
                return self.kernel(st, func, a, kwargs)
            if cl is not None and a and recv is None and not self.is_static(func):
                recv, a = a[0], a[1:]
            # positional form
            order = func.params[1:] if cl is not None and not self.is_static(func) else func.params
            dn = dict(zip(order, a))
            if len(a) <= len(order):
                dn.update({k: v for k, v in kwargs.items()})
                args2 = []
                nd = func.node.args.defaults
                dd = dict(zip(func.params[len(func.params) - len(nd):], nd))
                for o in order:
                    if o in dn:
                        args2.append(dn.pop(o))
                    elif o in dd:
                        args2.append(self.eval_default(st, func, dd[o]))
                    else:
                        args2.append(UNDEF)
                a, kwargs = args2, dn
        else:
            a, kwargs = self.by_common_signature(name, recv, args, kwargs)
        vals = [self.snap(st, self.deep(st, x)) for x in a]
        kv = tuple(sorted((k, self.snap(st, self.deep(st, v))) for k, v in kwargs.items()))
        kvt = tuple(mk('kw', k, v) for k, v in kv)
        self.event('call', st, (name, recv, tuple(vals), kv, func if isinstance(func, Func) else None))
        eff = purity.by_name(self.p, name)
        rv = recv if recv is not None else NONE
        modelled = isinstance(func, Func)
        pure = name in self.pure
        if not pure and not modelled and recv is not None:
            pure = not any(eff[:3]) if eff is not None else name in purity.READ
        if pure:
            states = [st.heap[(rv, '$state')]] if (rv, '$state') in st.heap else []
            if not modelled:
                states = [x for x in [self.cur_state(st, rv)] if x is not None]
                for x in list(a) + [kwargs[k] for k in sorted(kwargs)]:
                    states += self.read_state(st, x)
            r = fn('ret', s(name), self.snap(st, self.deep(st, rv)), mk('tuple', *vals), mk('tuple', *kvt),
                   mk('tuple', *[self.snap(st, x) for x in states]))
            return mk('truth', r) if name in MASK_RESULTS else r
        rw = None
        if modelled and func.cls is not None and recv is not None:
            rw = effects_of(self.p, func)
        # history-dependent: every mutable object involved is read and written
        roots = []
        cand = [rv] + list(a)
        for x in cand:
            if self.is_object(st, x) and x not in roots:
                roots.append(x)
        if recv is not None and not modelled and self.stateful(rv) and rv not in roots:
            if eff is None or eff[0] or eff[1]:
                roots.insert(0, rv)
        more = [(i, None, x) for i, x in enumerate(a)] + [(None, k, kwargs[k]) for k in sorted(kwargs) if k != '**']
        reads = []
        for i, k, x in more:
            w = recv is not None or modelled
            if eff is not None:
                w = (i in eff[3]) if k is None else (k in eff[2])
            d = self.deref(st, x) if x.op == 'ref' and x.args[0] != 'inst' else x
            for y in (d.args if d.op in ('list', 'tuple') else (x,)):
                if y in roots or not isinstance(y, T):
                    continue
                if w and (self.objectlike(st, y) or (
                        eff is not None and modelled and ((y.op == 'ref' and y.args[0] in ('dict', 'list')) or
                                                          (y.op == 'fn' and y.args[0] == 'ret')))):
                    roots.append(y)
                elif not w:
                    reads += self.read_state(st, y)
        if not modelled and funval is not None:
            roots.append(funval)
            rv = funval
        pre = []
        for o in roots:
            fields = sorted(((k[1], k) for k in st.heap if k[0] is o and k[1] != '$state'), key=lambda q: q[0])
            inplace = sorted(((self.owned(o, k[0]), k) for k in st.heap if k[1] == '*' and self.owned(o, k[0])),
                             key=lambda q: q[0])
            cur = st.heap.get((o, '$state'), mk('init', self.anon(o)))
            if (o, '$state') not in st.heap:
                sv = self.outer_state(st, o)
                if sv is not None:
                    cur = sv
            inner = []
            if o.op != 'ref' and (rw is None or o is not recv):
                for q in st.heap:
                    if q[0] is not o and isinstance(q[0], T) and q[0].op in ('sym', 'attr', 'sel') and q[1] != '$shape' \
                            and not (q[1] == '*' and self.owned(o, q[0])):
                        np_ = self.nested(o, q[0])
                        if np_:
                            inner.append(('%s.%s' % (np_, q[1]), q))
                inner.sort(key=lambda q: q[0])
            if rw is not None and o is recv:
                touched = rw[0] | rw[1]
                if '*' in touched:
                    touched = touched | {x[1][1] for x in fields} | {x[0] for x in inplace}
                fields = [x for x in fields if x[1][1] == '*' or x[0] in touched]
                inplace = [x for x in inplace if x[0] in touched]
            if inner:
                cur = mk('with', cur, *[mk('kw', f, self.snap(st, self.deep(st, st.heap[q]))) for f, q in inner])
                for f, q in inner:
                    del st.heap[q]
            if fields or inplace:
                fv = tuple(mk('kw', f, self.deep(st, st.heap[k])) for f, k in fields)
                fv += tuple(mk('kw', f + '[*]', self.deep(st, st.heap[k])) for f, k in inplace)
                cur = mk('with', cur, *[self.snap(st, x) for x in fv])
                if o.op != 'ref' or o.args[0] == 'inst':
                    for f, k in fields:
                        if k[1] != '*' and (rw is None or o is not recv or f in rw[1]):
                            del st.heap[k]
                    for f, k in inplace:
                        if rw is None or o is not recv or f in rw[1]:
                            del st.heap[k]
            pre.append(self.snap(st, cur))
        callt = mk('call', s(name), rv if not self.is_object(st, rv) else mk('objref', self.anon(rv)),
                   mk('tuple', *vals), mk('tuple', *kvt), mk('tuple', *pre))
        for i, o in enumerate(roots):
            if rw is not None and o is recv:
                MODSETS[(callt, i)] = rw[1]
            elif o is funval:
                MODSETS[(callt, i)] = frozenset()
            w = MODSETS.get((callt, i))
            old = self.objmods.get(o, frozenset())
            self.objmods[o] = None if w is None or old is None else old | w
            st.heap[(o, '$state')] = mk('after', callt, i)
            if o.op == 'ref' and o.args[0] in ('arr', 'list', 'dict'):
                st.heap[(o, '*')] = fn('content', mk('after', callt, i))
        if not roots:
            # world-ordered external call without objects, or a call that only checks its arguments
            if name in npmodel.IMPURE_EXT or (modelled and func.lang == 'py' and self.checks_only(func)):
                w = mk('world')
                cur = st.heap.get((w, '$state'), mk('init', w))
                callt = mk('call', s(name), rv, mk('tuple', *vals), mk('tuple', *kvt), mk('tuple', cur))
                st.heap[(w, '$state')] = mk('after', callt, 0)
        r = fn('ret', callt)
        kinds = self.results.get(name)
        if kinds:
            return mk('tuple', *[mk('truth', sel(r, num(i))) if c == 'm' else sel(r, num(i)) for i, c in enumerate(kinds)])
        return r

    def stateful(self, x):
        """a receiver whose calls have to be kept in order"""
        if x.op in ('sym', 'attr', 'sel'):
            return True
        if x.op == 'ref':
            return x.args[0] == 'inst'
        return x.op == 'fn' and x.args[0] in ('ret', 'attrof')

    def checks_only(self, func):
        """raises an error and returns nothing"""
        r = self.checkers.get(func)
        if r is None:
            ns = list(ast.walk(func.node))
            r = self.checkers[func] = any(isinstance(n, ast.Raise) for n in ns) and \
                not any(isinstance(n, (ast.Yield, ast.Return)) and n.value is not None for n in ns)
        return r

    def objectlike(self, st, x):
        if self.is_object(st, x):
            return True
        if x.op not in ('sym', 'attr', 'sel', 'fn'):
            return False
        if x.op == 'fn':
            return x.args[0] == 'attrof' and x.args[2].op == 's' and x.args[2].args[0] in self.objnames
        h = x
        if x.op == 'sel':
            h = x.args[0]
        n = h.args[0].rsplit('.', 1)[-1] if h.op == 'sym' else h.args[1] if h.op == 'attr' else None
        return n in self.objnames

    def read_state(self, st, x):
        """what is known about the state of an object that a call only reads"""
        if not self.objectlike(st, x) or x.op == 'ref':
            return []
        out = []
        sv = self.cur_state(st, x)
        if sv is not None:
            out.append(sv)
        fs = []
        for q in st.heap:
            if isinstance(q[0], T) and q[1] not in ('$shape', '$state') and q[0].op in ('sym', 'attr', 'sel'):
                p = '' if q[0] is x else self.nested(x, q[0])
                if p is not None:
                    fs.append(('%s.%s' % (p, q[1]), q))
        fs.sort(key=lambda q: q[0])
        if fs:
            out.append(mk('tuple', *[mk('kw', f, self.deep(st, st.heap[q])) for f, q in fs]))
        return out

    def by_common_signature(self, name, recv, args, kwargs):
        """positional form of a call of an unknown method when all methods of that name in the repository
        take the same parameters"""
        if recv is None or not isinstance(name, str) or any(not isinstance(x, T) for x in args):
            return args, kwargs
        star = [j for j, a in enumerate(args) if a.op == 'star']
        if star:
            if len(star) > 1:
                return args, kwargs
            sigs = self.p.signatures(name)
            if not sigs or len(sigs) > 1:
                return args, kwargs
            sig, nd = sigs[0]
            j = star[0]
            named = [i for i, x in enumerate(sig) if i >= j and x in kwargs]
            end = min(named) if named else len(sig) - nd
            n = end - (len(args) - 1)
            if n < 0:
                return args, kwargs
            args = list(args[:j]) + [self.unpack(None, args[j].args[0], i, n) for i in range(n)] + list(args[j + 1:])
        sig = self.p.common_signature(name, len(args), kwargs)
        if sig is None:
            return args, kwargs
        args, kwargs = list(args), dict(kwargs)
        while len(args) < len(sig) and sig[len(args)] in kwargs:
            args.append(kwargs.pop(sig[len(args)]))
        return args, kwargs

    def anon(self, o):
        """objects created during the run are told apart by their content, not by a name"""
        if o.op == 'ref' and o.args[0] in ('dict', 'list', 'arr'):
            return mk('newref', s(o.args[0]))
        return mk('instref', s(self.info[o].get('label') or self.info[o]['cls'].name)) if o.op == 'ref' and o.args[0] == 'inst' else o

    @staticmethod
    def owned(o, x):
        """attribute name when x is the initial value of an attribute of o"""
        if x.op == 'attr' and x.args[0] is o:
            return x.args[1]
        if x.op == 'sym' and o.op == 'sym' and x.args[0].startswith(o.args[0] + '.'):
            f = x.args[0][len(o.args[0]) + 1:]
            return f if '.' not in f else None
        return None

    def is_static(self, f):
        return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.node.decorator_list)

    def is_object(self, st, x):
        if x.op == 'ref':
            return x.args[0] == 'inst'
        if x.op in ('sym', 'attr', 'sel'):
            if self.class_of(x) is not None:
                return True
            n = x.args[0].rsplit('.', 1)[-1] if x.op == 'sym' else (x.args[1] if x.op == 'attr' else None)
            return n in self.hints
        return False

    def kernel(self, st, func, args, kwargs):
        from .fortran import f2py_signature
        pos, opt, outs = f2py_signature(func)
        order = pos + opt
        bound = {}
        for i, v in enumerate(args):
            if i < len(order):
                bound[order[i]] = v
            else:
                self.event('callerror', st, (func.qual, 'too many positional arguments'))
        for k, v in kwargs.items():
            if k in order:
                bound[k] = v
            else:
                self.event('callerror', st, (func.qual, 'unexpected keyword %s' % k))
        miss = [p for p in pos if p not in bound]
        if miss:
            self.event('callerror', st, (func.qual, 'missing %s' % miss))
        vals = tuple(mk('kw', p, self.deep(st, bound[p])) for p in pos if p in bound)
        callt = fn('kernel', s(func.name), *vals)
        self.event('call', st, (func.name, None, tuple(v.args[1] for v in vals), (), func))
        for a, i in func.inout.items():
            if i in ('inout', 'inplace') and a in bound:
                self.setcontent(st, bound[a], fn('out', callt, s(a)))
        res = [fn('out', callt, s(o)) for o in outs]
        if len(res) == 1:
            return res[0]
        return mk('tuple', *res)

    def construct(self, st, cls, args, kwargs):
        if cls.name in self.stop or '%s.%s' % (cls.module.name, cls.name) in self.stop:
            vals = [self.snap(st, self.deep(st, tm.assume(x, st.pc))) for x in args]
            init = cls.lookup(self.p, '__init__')
            if init is not None:
                kwargs = self.fill_absent(st, init, kwargs)
            kv = dict(kwargs)
            if init is not None:
                names = init.params[1:]
                for i, v in enumerate(args):
                    if i < len(names):
                        kv[names[i]] = v
                nd = init.node.args.defaults
                for n, d in zip(names[len(names) - len(nd):], nd):
                    if n not in kv and '**' not in kv:
                        kv[n] = self.eval_default(st, init, d)
                self.check_sig(st, init, args, kwargs)
                if len(args) <= len(names):
                    vals = []
            kvt = tuple(sorted((k, self.snap(st, self.deep(st, tm.assume(v, st.pc)))) for k, v in kv.items()))
            t = self.alloc('inst', cls)
            self.info[t]['open'] = True
            self.event('new', st, (cls.name, t, tuple(vals), kvt))
            callt = mk('new', s(cls.name), mk('tuple', *vals), mk('tuple', *[mk('kw', k, v) for k, v in kvt]))
            st.heap[(t, '$state')] = callt
            return t
        t = self.alloc('inst', cls)
        init = cls.lookup(self.p, '__init__')
        if init is not None:
            self.call_func(st, init, [t] + list(args), kwargs)
        for b in cls.mro(self.p):
            for bn in b.bases:
                if self.p.resolve_class(b.module, bn) is None and not (isinstance(bn, ast.Name) and bn.id == 'object'):
                    self.info[t]['open'] = True
        return t

    def copy_object(self, st, o):
        k = self.classcount['$copy'] = self.classcount.get('$copy', 0) + 1
        t = mk('ref', 'inst', '$copy#%d' % k)
        self.info[t] = {'kind': 'inst', 'cls': self.class_of(o), 'open': True, 'label': 'copy'}
        st.heap[(t, '$state')] = fn('copyof', st.heap.get((o, '$state')) or self.default((o, '$state')))
        return t

    def check_sig(self, st, func, args, kwargs):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args][1:]
        if len(args) > len(names) and not a.vararg:
            self.event('callerror', st, (func.qual, 'too many positional arguments'))
        for k in kwargs:
            if k != '**' and k not in names and not a.kwarg and k not in [x.arg for x in a.kwonlyargs]:
                self.event('callerror', st, (func.qual, 'unexpected keyword argument %s' % k))
        req = names[:len(names) - len(a.defaults)]
        for i, n in enumerate(req):
            if i >= len(args) and n not in kwargs and '**' not in kwargs:
                self.event('callerror', st, (func.qual, 'missing argument %s' % n))

    def call(self, st, f, args, kwargs):
        if f.op == 'func':
            return self.call_func(st, f.args[0], args, kwargs)
        if f.op == 'bound':
            return self.call_func(st, f.args[1], [f.args[0]] + list(args), kwargs)
        if f.op == 'class':
            return self.construct(st, f.args[0], args, kwargs)
        if f.op == 'closure':
            func, frame_env, cl = self.objs[f.args[0]]
            return self.call_func(st, func, args, kwargs, closure=frame_env)
        if f.op == 'ext':
            if f.args[0].startswith('os.'):
                self.extlog.append(f.args[0])
            return npmodel.call_ext(self, st, f.args[0], args, kwargs)
        if f.op == 'extmeth':
            return npmodel.call_method(self, st, f.args[0], f.args[1], args, kwargs)
        if f.op == 'ite':
            c = f.args[0]
            s1 = st.fork(and_(st.pc, c))
            s2 = st.fork(and_(st.pc, not_(c)))
            v1 = v2 = None
            if f.args[1].op not in ('none', 'undef'):
                try:
                    v1 = self.call(s1, f.args[1], args, kwargs)
                except Dead:
                    v1 = None
            if f.args[2].op not in ('none', 'undef'):
                try:
                    v2 = self.call(s2, f.args[2], args, kwargs)
                except Dead:
                    v2 = None
            if v1 is None and v2 is None:
                raise Dead()
            if v1 is None or v2 is None:
                x, v = (s1, v1) if v2 is None else (s2, v2)
                st.heap = x.heap
                return v
            m = self.merge(c, s1, s2)
            st.heap = m.heap
            return self.merge_val(c, v1, v2)
        if f.op == 'sym':
            nm = f.args[0]
            recv, name = (nm.rsplit('.', 1) + [None])[:2] if '.' in nm else (None, nm)
            fv = self.function_value(st, sym(recv), name, f) if recv else None
            if fv is not None:
                return self.opaque(st, None, args, kwargs, name=name, funval=fv)
            return self.opaque(st, None, args, kwargs, recv=sym(recv) if recv else None, name=name or nm)
        if f.op == 'attr':
            fv = self.function_value(st, f.args[0], f.args[1], f)
            if fv is not None:
                return self.opaque(st, None, args, kwargs, name=f.args[1], funval=fv)
            return self.opaque(st, None, args, kwargs, recv=f.args[0], name=f.args[1])
        if f.op == 'fn' and f.args[0] == 'attrof':
            recv = f.args[1]
            o = self.obj_of_state(st, recv)
            return self.opaque(st, None, args, kwargs, recv=o if o is not None else recv, name=f.args[2].args[0])
        return self.opaque(st, None, args, kwargs, recv=f, name='__call__')

    def obj_of_state(self, st, state):
        for (o, k), v in st.heap.items():
            if k == '$state' and v is state:
                return o
        return self.partof.get(state)

    # ------------------------------------------------------------ statements
    def exec_block(self, st, body):
        for n in body:
            if st is None:
                return None
            st = self.exec(st, n)
            if st is not None and st.pc is FALSE:
                return None
        return st

    def exec(self, st, n):
        self.curnode = n
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            self.unknown.append('statement %s at %s' % (type(n).__name__, self.loc()))
            return st
        try:
            return m(st, n)
        except Dead:
            self.kills += 1
            self.killlog.append((None, -1))
            return None

    def x_Pass(self, st, n):
        return st
    x_Global = x_Nonlocal = x_Pass

    def x_Global(self, st, n):
        self.frames[-1].globals.update(n.names)
        return st

    def x_Expr(self, st, n):
        if isinstance(n.value, ast.Constant):
            return st
        self.eval(st, n.value)
        return st

    def x_Import(self, st, n):
        tb = self.frames[-1].module.add_import(n, {})
        for k, e in tb.items():
            st.env[k] = self.wrap(self.p.resolve_import(e))
        return st
    x_ImportFrom = x_Import

    def x_FunctionDef(self, st, n):
        f = Func(n.name, n, self.frames[-1].module)
        i = len(self.objs)
        self.objs[i] = (f, st.env, None)
        st.env[n.name] = mk('closure', i)
        return st

    def x_ClassDef(self, st, n):
        c = Class(n.name, n, self.frames[-1].module)
        c.bases = n.bases
        for m in n.body:
            if isinstance(m, ast.FunctionDef):
                c.methods[m.name] = Func(m.name, m, self.frames[-1].module, c)
        st.env[n.name] = mk('class', c)
        return st

    def x_Return(self, st, n):
        v = self.eval(st, n.value) if n.value is not None else NONE
        f = self.frames[-1]
        if f.loops:
            # leave through the enclosing loops
            f.loops[-1].breaks.append((st, v))
        else:
            f.returns.append((st, v))
        return None

    def x_Raise(self, st, n):
        name = '?'
        e = n.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        self.event('raise', st, name)
        self.kills += 1
        self.killlog.append((st.pc, self.loopdepth))
        return None

    def x_Assert(self, st, n):
        c = truth(self.val(st, n.test))
        c = tm.assume(c, st.pc)
        if c is not TRUE:
            save = st.pc
            st.pc = and_(save, not_(c))
            self.event('raise', st, 'AssertionError')
            self.kills += 1
            self.killlog.append((st.pc, self.loopdepth))
            st.pc = and_(save, c)
        return st

    def x_Delete(self, st, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(st, t.value)
                st.heap.pop((o, t.attr), None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(st, t.value)
                i = self.index(st, t.slice)
                self.setcontent(st, o, fn('del', self.deref(st, o), i))
        return st

    def x_Assign(self, st, n):
        v = self.eval(st, n.value)
        for t in n.targets:
            self.assign(st, t, v)
        return st

    def x_AnnAssign(self, st, n):
        if n.value is not None:
            self.assign(st, n.target, self.eval(st, n.value))
        return st

    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            if t.id in self.frames[-1].globals:
                st.heap[(mk('module', self.frames[-1].module), t.id)] = v
                return
            st.env[t.id] = self.bind_value(st, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(st, t.value)
            self.store_attr(st, o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(st, t.value)
            i = self.index(st, t.slice)
            if not self.storable(o) or self.loopitem(o) and isinstance(t.value, ast.Subscript):
                d = self.store_content(st, self.deref(st, o), i, v)
                if isinstance(t.value, (ast.Name, ast.Attribute)) and o.op not in ('dict', 'list'):
                    self.assign(st, t.value, self.new_array(st, d))
                elif isinstance(t.value, ast.Subscript):
                    self.assign(st, t.value, d)
                else:
                    self.unknown.append('store into %s at %s' % (o.op, self.loc()))
                return
            self.store_item(st, o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            k = len(t.elts)
            star = [j for j, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            d = v if v.op == 'tuple' else self.deref(st, v)
            if star:
                if d.op in ('tuple', 'list'):
                    els = list(d.args)
                    a, b = star[0], k - star[0] - 1
                    mid = els[a:len(els) - b]
                    for e, x in zip(t.elts[:a], els[:a]):
                        self.assign(st, e, x)
                    self.assign(st, t.elts[a].value, self.new_list(st, mid))
                    for e, x in zip(t.elts[a + 1:], els[len(els) - b:] if b else []):
                        self.assign(st, e, x)
                return
            if d.op == 'ite':
                els = [self.unpack(st, d, j, k) for j in range(k)]
            elif d.op in ('tuple', 'list'):
                if len(d.args) != k:
                    self.event('unpackerror', st, (len(d.args), k))
                    self.unknown.append('unpacking %d values into %d names at %s' % (len(d.args), k, self.loc()))
                els = list(d.args) + [UNDEF] * (k - len(d.args))
            else:
                els = [self.unpack(st, d, j, k) for j in range(k)]
            for e, x in zip(t.elts, els):
                self.assign(st, e, x)
        elif isinstance(t, ast.Starred):
            self.assign(st, t.value, v)

    def unpack(self, st, d, j, k):
        if d.op == 'ite':
            return self.merge_val(d.args[0], self.unpack(st, self.deref(st, d.args[1]), j, k),
                                  self.unpack(st, self.deref(st, d.args[2]), j, k))
        if d.op in ('tuple', 'list') and j < len(d.args):
            return d.args[j]
        if d.op in ('none', 'undef'):
            return UNDEF
        if d.op == 'sel' and d.args[1].op == 'slice':
            b = tm.slice_bounds(d.args[1])
            if b and b[0].op == 'c' and b[0].args[0] >= 0 and b[0].args[0].denominator == 1 and (b[1] is None or b[1].op == 'none' or
                    b[1].op == 'c' and b[1].args[0] == b[0].args[0] + k):
                return sel(d.args[0], add(b[0], num(j)))
        return sel(d, num(j))

    def x_AugAssign(self, st, n):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.eval(st, ast.Name(id=t.id, ctx=ast.Load(), lineno=n.lineno, col_offset=0))
            d = self.deref(st, cur)
            v = self.binop(st, n.op, d, self.val(st, n.value), cur)
            if (cur.op in ('ref', 'view') or (cur.op in ('sym', 'attr', 'sel') and self.arrayish(d))) \
                    and not (cur.op == 'sym' and cur.args[0].startswith('$mu')):
                self.setcontent(st, cur, v)
            else:
                self.assign(st, t, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(st, t.value)
            cur = self.load_attr(st, o, t.attr)
            d = self.deref(st, cur)
            v = self.binop(st, n.op, d, self.val(st, n.value), cur)
            if (cur.op in ('ref', 'view') or (cur.op in ('sym', 'attr', 'sel') and self.arrayish(d))) \
                    and not (cur.op == 'sym' and cur.args[0].startswith('$mu')):
                self.setcontent(st, cur, v)
                self.event('setattr', st, (o, t.attr, v))
                self.note((o, t.attr))
            else:
                self.store_attr(st, o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(st, t.value)
            i = self.index(st, t.slice)
            cur = self.load_item(st, o, i)
            d = self.deref(st, cur)
            v = self.binop(st, n.op, d, self.val(st, n.value), cur)
            self.store_item(st, o, i, v)
        return st

    def loopitem(self, o):
        """an item of a container whose content is known only as the result of a loop: changed by changing the container"""
        if o.op != 'sel' or self.class_of(o) is not None:
            return False
        return any(x.op == 'sym' and x.args[0].startswith('$mu') or x.op == 'fn' and x.args[0] in ('loop', 'dictof') for x in tm.walk(o.args[0]))

    def storable(self, o):
        if o.op == 'ite':
            return self.storable(o.args[1]) and self.storable(o.args[2])
        return o.op in ('ref', 'view', 'sym', 'attr', 'sel', 'fn', 'extmeth', 'none', 'undef', 'module', 'class')

    def store_item(self, st, o, i, v):
        if o.op == 'extmeth' and o.args[1] == '__dict__':
            self.store_attr(st, o.args[0], i.args[0] if i.op == 's' else '[?]', v)
            return
        d = self.deref(st, o)
        if o.op == 'ite':
            o1, o2 = o.args[1], o.args[2]
            self.setcontent(st, o, self.store_content(st, d, i, v)) if False else None
            c = o.args[0]
            for x, cc in ((o1, c), (o2, not_(c))):
                if x.op in ('none', 'undef'):
                    continue
                dx = self.deref(st, x)
                self.setcontent(st, x, ite(cc, self.store_content(st, dx, i, v), dx))
            return
        new = self.store_content(st, d, i, v)
        self.setcontent(st, o, new)
        self.event('setitem', st, (o, i, v))

    def store_content(self, st, d, i, v):
        if d.op == 'dict':
            vv = self.bind_value(st, v)
            if i.op in ('s', 'c', 'none', 'tuple'):
                pairs = [(k, x) for k, x in d.args[0] if k is not i]
                return mk('dict', tuple(pairs + [(i, vv)]))
            return store(d, i, vv)
        if d.op == 'list':
            if i.op == 'c':
                k = int(i.args[0])
                if -len(d.args) <= k < len(d.args):
                    els = list(d.args)
                    els[k] = self.bind_value(st, v)
                    return mk('list', *els)
            return store(d, i, self.bind_value(st, v))
        if d.op == 'ite' and i.op in ('s', 'c', 'none', 'tuple') and d.args[1].op == d.args[2].op == 'dict':
            a, b = self.store_content(st, d.args[1], i, v), self.store_content(st, d.args[2], i, v)
            return self.merge_val(d.args[0], a, b)
        if i.op == 's':
            return store(d, i, self.bind_value(st, v))
        return store(d, i, self.deep(st, v))

    def by_key(self, st, d, i, default=None):
        """{'a': x, 'b': y}[i] as a choice between the values"""
        if not 0 < len(d.args[0]) <= 8 or not all(k.op == 's' for k, x in d.args[0]) or i.op not in ('sym', 'attr', 'sel', 'fn', 'ite'):
            return None
        cs = [tm.assume(tm.compare('is', i, k), st.pc) for k, x in d.args[0]]
        r = default
        if r is None:
            c = tm.or_(*cs)
            c = tm.assume(c, st.pc)
            if c is FALSE:
                return None
            if c is not TRUE:
                save = st.pc
                st.pc = and_(save, not_(c))
                self.event('raise', st, 'KeyError')
                self.kills += 1
                self.killlog.append((st.pc, self.loopdepth))
                st.pc = and_(save, c)
        for c, (k, x) in reversed(list(zip(cs, d.args[0]))):
            r = x if r is None else self.merge_val(c, x, r)
        return r

    def load_item(self, st, o, i):
        if o.op == 'extmeth' and o.args[1] == '__dict__':
            return self.load_attr(st, o.args[0], i.args[0]) if i.op == 's' else fn('getattr', o.args[0], i)
        if o.op == 'ite' and self.has_ref(o):
            return self.merge_val(o.args[0], self.load_item(st, o.args[1], i), self.load_item(st, o.args[2], i))
        if o.op == 'undef' or o.op == 'none':
            return UNDEF
        d = self.deref(st, o)
        return self.load_content(st, o, d, i)

    def load_content(self, st, o, d, i):
        if d in self.muitem and self.muitem[d][0] is i:
            k, o, d = self.muitem[d]
        if d.op == 'dict':
            for k, x in d.args[0]:
                if k is i:
                    return x
            if i.op in ('s', 'c') and all(k.op in ('s', 'c') for k, x in d.args[0]):
                return fn('keyerror', i)
            r = self.by_key(st, d, i)
            return sel(d, i) if r is None else r
        if d.op in ('list', 'tuple'):
            if i.op == 'c' and i.args[0].denominator == 1:
                k = int(i.args[0])
                if -len(d.args) <= k < len(d.args):
                    return d.args[k]
                return UNDEF
            b = tm.slice_bounds(i)
            if b and (b[0].op == 'c') and (b[1] is NONE or b[1].op == 'c'):
                lo = int(b[0].args[0])
                hi = None if b[1] is NONE else int(b[1].args[0])
                items = d.args[lo:hi]
                return self.new_list(st, items) if d.op == 'list' else mk('tuple', *items)
            if i.op == 'slice' and i.args[2].op == 'c' and i.args[2].args[0] == -1 and i.args[0] is NONE and i.args[1] is NONE:
                items = tuple(reversed(d.args))
                return self.new_list(st, items) if d.op == 'list' else mk('tuple', *items)
        if d.op == 'ite' and not self.is_basic(i) and i.op != 'c' and i.op != 's' and not tm.is_scalar(i) and \
                not any(x.op in ('list', 'tuple', 'dict') for x in leaves(d)):
            return sel(d, i)
        if d.op == 'ite':
            return self.merge_val(d.args[0], self.load_content(st, o, d.args[1], i), self.load_content(st, o, d.args[2], i))
        if d.op == 'fn' and d.args[0] == 'maplist' and i.op == 'sym' and i.args[0].startswith('$k'):
            r = self.item_of(d, i)
            if r is not None:
                return r
        if d.op in ('cat', 's') and i.op in ('c', 'slice'):
            if d.op == 's' and i.op == 'c':
                try:
                    return s(d.args[0][int(i.args[0])])
                except IndexError:
                    return UNDEF
            if d.op == 's' and i.op == 'slice' and all(x.op in ('c', 'none') for x in i.args):
                q = [None if x is NONE else int(x.args[0]) for x in i.args]
                return s(d.args[0][slice(*q)])
            return mk('strsel', d, i)
        if self.is_basic(i) and o.op in ('ref', 'view', 'sym', 'attr', 'sel') and d.op not in ('list', 'tuple', 'dict'):
            if d.op == 'sel' and False:
                pass
            return mk('view', o, i)
        return sel(d, i)

    def is_basic(self, i):
        if i.op == 'slice':
            return True
        if i.op == 'tuple':
            return any(x.op == 'slice' for x in i.args) and all(x.op in ('slice', 'none', 'ellipsis') or
                                                               tm.is_scalar(x) for x in i.args)
        return False

    def x_If(self, st, n):
        if isinstance(n.test, ast.Name) and n.test.id == '__debug__':
            return st
        c = truth(self.val(st, n.test))
        c = tm.assume(c, st.pc)
        if c is TRUE:
            return self.exec_block(st, n.body)
        if c is FALSE:
            return self.exec_block(st, n.orelse)
        return self.branch(st, c, lambda x: self.exec_block(x, n.body), lambda x: self.exec_block(x, n.orelse))

    def branch(self, st, c, f1, f2):
        p1, p2 = and_(st.pc, c), and_(st.pc, not_(c))
        if p1 is FALSE:
            return f2(st)
        if p2 is FALSE:
            return f1(st)
        s1, s2 = st.fork(p1), st.fork(p2)
        r1 = f1(s1)
        r2 = f2(s2)
        if r1 is not None and r2 is not None and r1.pc is p1 and r2.pc is p2:
            return self.merge(c, r1, r2, st.pc)
        return self.merge(c, r1, r2)

    def x_With(self, st, n):
        for it in n.items:
            v = self.eval(st, it.context_expr)
            if it.optional_vars is not None:
                self.assign(st, it.optional_vars, v)
        return self.exec_block(st, n.body)

    def x_Try(self, st, n):
        entry = st.fork(st.pc)
        base = st.pc
        k = len(self.trace)
        self.killlog.append((None, -1))
        outer = self.extlog
        self.extlog = []
        names = ','.join(ast.unparse(h.type) if h.type is not None else '' for h in n.handlers)
        self.event('try', st, names)
        r = self.exec_block(st, n.body)
        if r is not None and n.orelse:
            r = self.exec_block(r, n.orelse)
        skip = {'ImportError', 'ModuleNotFoundError'}
        log = self.extlog
        for h in n.handlers:
            tn = ast.unparse(h.type) if h.type is not None else ''
            if tn in skip:
                continue
            c = self.exc_cond(st, n, tn, k, log)
            hs = entry.fork(and_(base, c))
            if h.name:
                hs.env[h.name] = mk('exc', tn)
            hr = self.exec_block(hs, h.body)
            if r is not None:
                r.pc = and_(r.pc, not_(c))
            r = self.merge(c, hr, r)
        if n.finalbody and r is not None:
            r = self.exec_block(r, n.finalbody)
        self.extlog = outer + log + self.extlog
        return r

    def exc_cond(self, st, n, tn, k, log):
        # the guarded call identifies the exception condition
        calls = [e for e in self.trace[k:] if e.kind in ('call', 'new')]
        return truth(mk('excoccurs', tn, calls[0].data[0] if calls else ' '.join(sorted(set(log))) or called_names(n.body)))
    x_TryStar = x_Try

    def x_Break(self, st, n):
        self.frames[-1].loops[-1].breaks.append((st, None))
        return None

    def x_Continue(self, st, n):
        self.frames[-1].loops[-1].continues.append(st)
        return None

    # ------------------------------------------------------------ loops
    def iteration(self, st, it):
        """-> ('list', [items]) or ('sym', n, elem(k))"""
        d = self.deref(st, it)
        if d.op in ('list', 'tuple'):
            return ('list', list(d.args))
        if d.op == 'dict':
            return ('list', [k for k, v in d.args[0]])
        if d.op == 's':
            return ('list', [s(ch) for ch in d.args[0]])
        if d.op == 'iter':
            kind = d.args[0]
            if kind == 'range':
                a, b, c = d.args[1:]
                if a.op == b.op == c.op == 'c':
                    r = range(int(a.args[0]), int(b.args[0]), int(c.args[0]))
                    if len(r) <= 80:
                        return ('list', [num(x) for x in r])
                if c is ONE:
                    n = sub(b, a)
                elif c.op == 'c' and c.args[0] == -1:
                    n = sub(a, b)
                else:
                    n = fn('ceil', div(sub(b, a), c))
                return ('sym', n, lambda k: add(a, mul(c, k)))
            if kind == 'enumerate':
                r = self.iteration(st, d.args[1])
                a = d.args[2]
                if r[0] == 'list':
                    return ('list', [mk('tuple', add(a, num(i)), x) for i, x in enumerate(r[1])])
                return ('sym', r[1], lambda k: mk('tuple', add(a, k), r[2](k)))
            if kind == 'zip':
                rs = [self.iteration(st, x) for x in d.args[1:]]
                fin = [r for r in rs if r[0] == 'list']
                if fin:
                    m = min(len(r[1]) for r in fin)
                    return ('list', [mk('tuple', *[r[1][i] if r[0] == 'list' else r[2](num(i)) for r in rs])
                                     for i in range(m)])
                if not rs:
                    return ('list', [])
                return ('sym', rs[0][1], lambda k: mk('tuple', *[r[2](k) for r in rs]))
            if kind == 'reversed':
                r = self.iteration(st, d.args[1])
                if r[0] == 'list':
                    return ('list', r[1][::-1])
                return ('sym', r[1], lambda k: r[2](sub(sub(r[1], ONE), k)))
            if kind == 'items':
                dd = self.deref(st, d.args[1])
                if dd.op == 'dict':
                    return ('list', [mk('tuple', k, v) for k, v in dd.args[0]])
            if kind in ('keys', 'set'):
                dd = self.deref(st, d.args[1])
                if dd.op == 'dict':
                    return ('list', [k for k, v in dd.args[0]])
                if dd.op in ('list', 'tuple'):
                    return ('list', list(dict.fromkeys(dd.args)))
            if kind == 'values':
                dd = self.deref(st, d.args[1])
                if dd.op == 'dict':
                    return ('list', [v for k, v in dd.args[0]])
            src = self.deep(st, d.args[1])
            n = fn('len', src)
            if kind == 'items':
                kk = fn('keysof', src)
                return ('sym', n, lambda k: mk('tuple', sel(kk, k), sel(src, sel(kk, k))))
            if kind in ('keys',):
                return ('sym', n, lambda k: sel(fn('keysof', src), k))
            if kind == 'values':
                return ('sym', n, lambda k: sel(src, sel(fn('keysof', src), k)))
            return ('sym', n, lambda k: sel(fn(kind, src), k))
        if d.op == 'fn' and d.args[0] == 'keysof':
            return ('sym', fn('len', d.args[1]), lambda k: sel(d, k))
        if self.dict_named(d):
            src = self.deep(st, d)
            return ('sym', fn('len', src), lambda k: sel(fn('keysof', src), k))
        if d.op == 'fn' and self.item_of(d, ZERO) is not None:
            return ('sym', d.args[2], lambda k: self.item_of(d, k))
        base = it if it.op in REFOPS and d.op not in ('poly',) else d
        n = npmodel.length(self, st, it, d)
        if n.op == 'c' and 0 <= n.args[0] <= 40:
            return ('list', [self.load_item(st, it, num(i)) for i in range(int(n.args[0]))])
        return ('sym', n, lambda k: self.load_item(st, it, k))

    def split_iter(self, st, d):
        """range(c ? 3 : 4) -> c ? range(3) : range(4), and the same for enumerate(c ? [..] : [..])"""
        if d.op == 'iter' and d.args[0] in ('range', 'enumerate'):
            for j in range(1, len(d.args)):
                a = self.deref(st, d.args[j])
                if a.op == 'ite' and (all(x.op == 'c' for x in leaves(a)) if d.args[0] == 'range' else
                                      all(self.deref(st, x).op in ('list', 'tuple') for x in leaves(a))):
                    alt = [mk('iter', *(d.args[:j] + (x,) + d.args[j + 1:])) for x in a.args[1:]]
                    return mk('ite', a.args[0], *alt)
        return d

    def x_For(self, st, n):
        it = self.eval(st, n.iter)
        d = self.split_iter(st, self.deref(st, it))
        if d.op == 'ite':
            it = d
        if d.op == 'ite':
            # iterate over alternatives
            c = tm.assume(d.args[0], st.pc)
            if c is TRUE or c is FALSE:
                return self.for_over(st, n, d.args[1] if c is TRUE else d.args[2])
            alt = [self.deref(st, x) for x in d.args[1:]]
            if all(a.op in ('list', 'tuple', 'ite', 'iter', 'dict') for a in alt):
                return self.branch(st, c, lambda x: self.for_over(x, n, d.args[1]),
                                   lambda x: self.for_over(x, n, d.args[2]))
        return self.for_over(st, n, it)

    def for_over(self, st, n, it):
        d = self.split_iter(st, self.deref(st, it))
        if d.op == 'ite':
            c = tm.assume(d.args[0], st.pc)
            if c is TRUE:
                return self.for_over(st, n, d.args[1])
            if c is FALSE:
                return self.for_over(st, n, d.args[2])
            alt = [self.deref(st, x) for x in d.args[1:]]
            if all(a.op in ('list', 'tuple', 'ite', 'iter', 'dict') for a in alt):
                return self.branch(st, c, lambda x: self.for_over(x, n, d.args[1]),
                                   lambda x: self.for_over(x, n, d.args[2]))
        if d.op == 'fn' and d.args[0] == 'concat' and d.args[1].op == 'list' and not n.orelse \
                and all(x.op in ('sym', 'attr', 'sel', 's', 'c') for x in d.args[1].args) and not any(
                isinstance(x, (ast.Break, ast.Return)) for y in n.body for x in ast.walk(y)):
            # [a, b] + rest: first a and b, then the rest
            st = self.for_over(st, n, d.args[1])
            return None if st is None else self.for_over(st, n, d.args[2] if len(d.args) == 3 else fn('concat', *d.args[2:]))
        r = self.iteration(st, it)
        if r[0] == 'list':
            fr = self.frames[-1]
            base = st.pc
            loop = Loop(base)
            fr.loops.append(loop)
            cur = st
            for x in r[1]:
                if cur is None:
                    break
                self.curnode = n
                loop.continues = []
                b0 = cur.pc
                self.assign(cur, n.target, x)
                end = self.exec_block(cur, n.body)
                cur = self.merge_list(loop.continues + [end], b0)
            fr.loops.pop()
            if cur is not None and n.orelse:
                cur = self.exec_block(cur, n.orelse)
            return self.leave_loop(loop, cur, base)
        _, cnt, elem = r
        return self.counted(st, n, cnt, elem)

    def counted(self, st, n, cnt, elem):
        if cnt.op == 'ite':
            c = tm.assume(cnt.args[0], st.pc)
            if c is TRUE or c is FALSE:
                return self.counted(st, n, cnt.args[1] if c is TRUE else cnt.args[2], elem)
            if cnt.args[1] is ZERO or cnt.args[2] is ZERO:
                def over(x, cn, cond):
                    if cn is ZERO:
                        return self.exec_block(x, n.orelse) if n.orelse else x
                    return self.counted(x, n, cn, lambda k: tm.assume(elem(k), cond))
                return self.branch(st, c, lambda x: over(x, cnt.args[1], c), lambda x: over(x, cnt.args[2], not_(c)))
        return self.sym_loop(st, n, cnt, elem)

    def leave_loop(self, loop, cur, base):
        fr = self.frames[-1]
        brk = []
        for (x, v) in loop.breaks:
            if v is None:
                brk.append(x)
            elif fr.loops:
                fr.loops[-1].breaks.append((x, v))
            else:
                fr.returns.append((x, v))
        return self.merge_list(brk + [cur], base)

    def x_While(self, st, n):
        if isinstance(n.test, ast.Constant) and n.test.value and not n.orelse:
            r = rotated(n)
            if r is not None:
                st = self.exec_block(st, r[0])
                return None if st is None or not r[1] else self.exec_block(st, r[1])
        ind = self.induction(st, n)
        return self.sym_loop(st, n, None, None, ind)

    def induction(self, st, n):
        return None

    def sym_loop(self, st, n, cnt, elem, ind=None):
        """summarise a loop of unknown length.  cnt None: while loop"""
        fr = self.frames[-1]
        is_for = cnt is not None
        depth = self.loopdepth
        k = sym('$k%d' % depth)
        base = st.pc
        entry = st.fork(base)
        if is_for:
            cnt_z = tm.assume(cnt, base)
            if cnt_z is ZERO:
                return self.exec_block(st, n.orelse) if n.orelse else st
        mus = {}       # location -> mu symbol
        self.loopdepth += 1
        ntrace = len(self.trace)
        nunk = len(self.unknown)
        mark = next(self.nref)

        def fresh(t):
            return t.op == 'ref' and t in self.info and (
                (t.args[0] != 'inst' and t.args[1] >= mark) or self.info[t].get('mark', 0) >= mark)

        def initial(loc):
            if loc[0] == 'env':
                v = entry.env.get(loc[1], UNDEF)
                return self.deref(entry, v) if v.op in ('ref', 'view', 'sym', 'attr', 'ite') else v
            v = entry.heap.get(loc[1])
            return v if v is not None else self.default(loc[1])

        cc = dict(self.classcount)
        for attempt in range(12):
            del self.trace[ntrace:]
            del self.unknown[nunk:]
            self.classcount = dict(cc)
            body = entry.fork(base)
            for loc, mu in mus.items():
                if loc[0] == 'env':
                    body.env[loc[1]] = mu
                else:
                    body.heap[loc[1]] = mu
            loop = Loop(base)
            fr.loops.append(loop)
            b0 = body.pc
            cond = TRUE
            try:
                if is_for:
                    ee = elem(k)
                    self.assign(body, n.target, ee)
                else:
                    self.curnode = n
                    cond = tm.assume(truth(self.val(body, n.test)), base)
                    if cond is FALSE and not mus:
                        fr.loops.pop()
                        self.loopdepth = depth
                        return st
                    body.pc = and_(b0, cond)
                    b0 = body.pc
                condstate_env = None
                end = self.exec_block(body, n.body) if body.pc is not FALSE else None
            finally:
                fr.loops.pop()
            nxt = self.merge_list(loop.continues + [end], b0)
            # break: state after the body with the flag set; later iterations do not happen
            brk_states = [x for x, v in loop.breaks if v is None]
            ret_states = [(x, v) for x, v in loop.breaks if v is not None]
            out = nxt
            flags = []
            valued = any(v is not NONE for x, v in ret_states)
            if brk_states or ret_states:
                allb = []
                for x in brk_states:
                    y = State(dict(x.env), dict(x.heap), x.pc)
                    y.env['$brk'] = TRUE
                    allb.append(y)
                for x, v in ret_states:
                    y = State(dict(x.env), dict(x.heap), x.pc)
                    y.env['$brk'] = TRUE
                    y.env['$ret'] = TRUE
                    if valued:
                        y.env['$retval'] = v
                    allb.append(y)
                if out is not None:
                    out = out.fork(out.pc)
                    out.env['$brk'] = FALSE
                    out.env['$ret'] = FALSE
                    if valued:
                        out.env.setdefault('$retval', NONE)
                for y in allb:
                    y.env.setdefault('$ret', FALSE)
                    if valued:
                        y.env.setdefault('$retval', NONE)
                out = self.merge_list(allb + [out], b0)
            if out is None:
                # every path leaves by exception
                break
            changed = {}
            for nm, v in out.env.items():
                if nm.startswith('$') and nm not in ('$brk', '$ret', '$retval'):
                    continue
                loc = ('env', nm)
                v0 = body_entry(entry, mus, loc, self)
                if v is not v0:
                    changed[loc] = True
            elems = {}
            for key, v in out.heap.items():
                if fresh(key[0]):
                    continue
                loc = ('heap', key)
                v0 = mus.get(loc)
                if v0 is None and is_for and key[1] not in ('*', '$state', '$shape') and key[0].op == 'sel' and key[0].args[1] is k \
                        and not {'$brk', '$ret'} & set(out.env):
                    # an attribute of the loop's own element: other iterations set it for other elements
                    d = self.deep(out, v)
                    if v.op != 'ref' and not any(x.op == 'sym' and str(x.args[0]).startswith('$mu') for x in tm.walk(d)):
                        elems[key] = v
                        continue
                if v0 is None:
                    if key in self.mirrored:
                        continue
                    if key not in entry.heap and self.loopcarried(key[0], mark):
                        self.unknown.append('store through a loop-carried reference (%s %s) in the loop at %s'
                                            % (key[1], tm.show(key[0],5), self.loc()))
                        continue
                    v0 = entry.heap.get(key)
                    if v0 is None:
                        v0 = self.default(key)
                if v is not v0:
                    changed[loc] = True
            new = [l for l in changed if l not in mus]
            if not new:
                # containers whose item k is replaced in iteration k only: item k is still the initial one
                own = []
                for loc, mu in mus.items():
                    if loc[0] == 'heap' and loc[1][1] == '*' and mu not in self.muitem and is_for:
                        i = own_item(out.heap.get(loc[1], UNDEF), mu, k)
                        if i is not None:
                            own.append((loc, mu, i))
                if own:
                    for loc, mu, i in own:
                        self.muitem[mu] = (i, loc[1][0], initial(loc))
                    for loc in [l for l in mus if l[0] == 'heap' and l[1][1] != '*' and l[1][0].op == 'sel' and l[1][0].args[1] is k]:
                        del mus[loc]
                    continue
                break
            for l in new:
                m = sym('$mu%d' % next(self.mucount))
                mus[l] = m
                if l[0] == 'env':
                    ini, fin = entry.env.get(l[1], UNDEF), out.env.get(l[1], UNDEF)
                else:
                    ini, fin = entry.heap.get(l[1]), out.heap.get(l[1], UNDEF)
                    if ini is None:
                        ini = self.default(l[1])
                if DEBUG_MU: print('MU', m, l, tm.show(ini,4), tm.show(fin,4))
                self.muini[m] = self.deep(entry, ini)
                tm.MU_HASH[m] = hash(('mu', tm.shash(ini, {})))
                ini_, fin_ = (self.deref(entry, x) if x.op in REFOPS else x for x in (ini, fin))
                fin_ = self.deref(out, fin) if fin.op in REFOPS else fin
                if all(tm.is_bool(x) and not tm.is_scalar(x) for x in (ini_, fin_)):
                    npmodel.BOOL_MUS.add(m)
                if not (l[0] == 'heap' and l[1][1] in ('*', '$state')) and \
                        all(x is UNDEF or tm.is_scalar(x) for x in (ini, fin)) and \
                        not all(x is UNDEF or x.op in ('ref', 'none') for x in (ini, fin)):
                    self.scalar_mus.add(m)
        else:
            raise AnalysisError('loop at %s does not stabilise' % self.loc())
        self.loopdepth = depth
        if out is None:
            # zero-trip only
            return self.exec_block(st, n.orelse) if n.orelse else st
        # step functions as values
        step = {}
        for loc, mu in mus.items():
            if loc[0] == 'env':
                v = out.env.get(loc[1], UNDEF)
            else:
                v = out.heap.get(loc[1], UNDEF)
            step[loc] = self.deep(out, v)
            if loc[0] == 'heap' and loc[1][1] != '$state' and (loc[1][0].op != 'ref'):
                res = set()
                self.collect_shared(out, v, res, set())
                res.discard(mu)
                names = {re.sub(r'\$mu\d+', '$mu', re.sub(r'\$k\d+', '$k', tm.show(x, 4))) for x in res if x not in mus.values()}
                if names:
                    self.loop_shared[loc[1]] = self.loop_shared.get(loc[1], set()) | names
        # under a broken loop the state no longer changes
        final = self.summarise(step, mus, initial, k, cnt, cond, n, has_break='$brk' in out.env)
        res = st
        res.heap.update(elems)
        objs = {loc[1][0]: fn('ini', loc[1][0]) for loc in mus
                if loc[0] == 'heap' and loc[1][1] == '*' and loc[1][0].op in ('fn', 'sel')}
        if objs:
            # an opaque result changed in place: in the value of the loop its name means the initial content
            memo = {}
            self.inis = True
            final = {l: tm.subst(v, objs, memo) if isinstance(v, T) and v not in objs else v for l, v in final.items()}
        for loc in mus:
            v = final[loc]
            if loc[0] == 'env':
                if loc[1] in ('$brk', '$ret', '$retval'):
                    continue
                res.env[loc[1]] = self.bind_value(res, v)
            else:
                if loc[1][1] == '*' and cnt is not None and v.op == 'ite':
                    sh = st.heap.get((loc[1][0], '$shape'))
                    if sh is cnt or sh is not None and sh.op == 'tuple' and sh.args == (cnt,):
                        # every element was set
                        w = tm.assume(v, tm.cmp0('>', sub(cnt, tm.IOTA)))
                        if w.op == 'expand' and (tm.slice_bounds(w.args[1]) or (None,) * 2) == (ZERO, cnt):
                            v = w.args[0]
                res.heap[loc[1]] = v
                self.note(loc[1]) if loc[1] not in self.wloc else None
        for key in out.heap:
            if fresh(key[0]) and key[1] != '*' and key not in res.heap and False:
                res.heap[key] = out.heap[key]
        if n.orelse:
            r2 = self.exec_block(res, n.orelse)
            if r2 is None:
                return None
            res = r2
        if ('env', '$ret') in final and final[('env', '$ret')] is not FALSE:
            c = truth(final[('env', '$ret')])
            rs = res.fork(and_(res.pc, c))
            v = final.get(('env', '$retval'), NONE)
            if fr.loops:
                fr.loops[-1].breaks.append((rs, v))
            else:
                fr.returns.append((rs, v))
            res.pc = and_(res.pc, not_(c))
        return res

    def loopcarried(self, o, mark):
        if o.op in ('sym', 'module') and not (o.op == 'sym' and o.args[0].startswith('$mu')):
            return False
        for x in tm.walk(o):
            if x.op == 'sym' and x.args[0].startswith('$mu') and int(x.args[0][3:]) >= mark:
                return True
            if x.op == 'ref' and x.args[0] != 'inst' and x.args[1] >= mark:
                return True
        return False

    def derived(self, step, mus, init, cond, k):
        """loop variables that are the same function of other loop variables before and after every iteration"""
        out = []
        step = dict(step)
        live = list(mus)
        progress = True
        while progress:
            progress = False
            for l in live:
                f = step[l]
                if init[l] is UNDEF or f is UNDEF or f is mus[l] or l[1] in ('$brk', '$ret', '$retval'):
                    continue
                inside = set(tm.walk(f))
                back = {}
                for u in live:
                    fu = step[u]
                    if u != l and init[u] is not UNDEF and fu in inside and (fu is not f) and fu.op not in ('c', 's', 'none', 'b', 'sym') \
                            and fu is not mus[u]:
                        back[fu] = mus[u]
                names = set(mus[u] for u in live)
                # counters: i + 1 after the iteration, hence f(i + 1) is g(i) one iteration later
                shift = {}
                for u in live:
                    if u != l and init[u] is not UNDEF and mus[u] in inside:
                        d = sub(step[u], mus[u]) if step[u].op == 'poly' else ZERO
                        if d.op == 'c' and d is not ZERO:
                            shift[mus[u]] = sub(mus[u], d)
                g = None
                for c in (back, shift):
                    g = tm.subst(f, c) if c else f
                    if g is f:
                        g = None
                        continue
                    used = [x for x in tm.walk(g) if x in names]
                    if not used or mus[l] in used or self.kdep(g, k) or any(x.op == 'fn' and x.args[0] == 'rand' for x in tm.walk(g)) \
                            or tm.subst(g, {mus[u]: init[u] for u in live if u != l and init[u] is not UNDEF}) is not init[l] \
                            or tm.subst(g, {mus[u]: step[u] for u in live if u != l}) is not f:
                        g = None
                        continue
                    break
                if g is None:
                    continue
                live.remove(l)
                m = {mus[l]: g}
                step = {u: tm.subst(step[u], m) for u in live}
                cond = tm.subst(cond, m)
                out.append((l, g))
                progress = True
                break
        return out, {l: mus[l] for l in live}, step, cond

    def summarise(self, step, mus, initial, k, cnt, cond, node, has_break=False):
        init = {l: initial(l) for l in mus}
        for l in (('env', '$brk'), ('env', '$ret')):
            if l in init:
                init[l] = FALSE
        # slots that never change
        const = {}
        again = True
        while again:
            again = False
            for l in list(mus):
                v = init[l]
                if v.op == 'undef' or any(x is m for x in tm.walk(v) for m in mus.values()):
                    continue
                if all(x is v or x is mus[l] for x in leaves(step[l])):
                    m = mus[l]
                    const[l] = v
                    mus = {a: b for a, b in mus.items() if a != l}
                    step = {a: tm.subst(b, {m: v}) for a, b in step.items() if a != l}
                    cond = tm.subst(cond, {m: v})
                    again = True
        flags = {m for l, m in mus.items() if init[l].op == 'b'}
        changed = True
        while changed:
            changed = False
            for l, m in mus.items():
                if m in flags and not all(tm.is_bool(x) or x in flags for x in leaves(step[l])):
                    flags.discard(m)
                    changed = True
        if flags:
            ren = {m: mk('truth', m) for m in flags}
            step = {l: truth(tm.subst(v, ren)) if mus[l] in flags else tm.subst(v, ren) for l, v in step.items()}
            cond = tm.subst(cond, ren)
        last = {}
        if cnt is not None and not has_break:
            # variables set in every iteration from what the iteration makes of the others: their final value
            # follows from the final values of these
            uses = {l: set(tm.walk(v)) for l, v in step.items()}
            inv = lambda w: not any(x is k or x in vals for x in w)
            vals = set(mus.values())
            fin = {m: sym('$fin' + m.args[0]) for m in vals}
            for l, m in mus.items():
                x, c = step[l], TRUE
                while x.op == 'ite' and inv(tm.walk(x.args[0])) and m in x.args[1:]:
                    c = and_(c, x.args[0] if x.args[2] is m else not_(x.args[0]))
                    x = x.args[1] if x.args[2] is m else x.args[2]
                if x.op in ('sym', 'c', 's') or tm.is_scalar(x) or any(m in w for u, w in uses.items() if u != l) or \
                        any(y is m for y in tm.walk(x)) or any(y is m for y in tm.walk(cond)):
                    continue
                to = {step[u]: fin[mus[u]] for u in mus if u != l and step[u] is not x and mus[u] in uses[u]}
                g = tm.subst(x, to)
                w = list(tm.walk(g))
                if (any(y in w for y in to.values()) or c is not TRUE) and inv(w):
                    last[l] = (c, g)
            if last:
                fins = {fin[mus[u]]: u for u in mus}
                mus = {l: m for l, m in mus.items() if l not in last}
                step = {l: v for l, v in step.items() if l not in last}
        allmus = mus
        elim, mus, step, cond = self.derived(step, mus, init, cond, k)
        final = self.summarise_(step, mus, init, k, cnt, cond, node, has_break)
        for l, g in reversed(elim):
            final[l] = tm.subst(g, {allmus[u]: final[u] for u in final})
        for l in final:
            if l in allmus and allmus[l] in flags and isinstance(final[l], T):
                final[l] = truth(final[l])
        for l, (c, g) in last.items():
            g = tm.subst(g, {f: final[u] for f, u in fins.items() if u in final and isinstance(final[u], T)})
            final[l] = g if init[l] is UNDEF else ite(and_(c, tm.compare('>', cnt, ZERO)), g, init[l])
        final.update(const)
        return final

    def summarise_(self, step, mus, init, k, cnt, cond, node, has_break=False):
        inv = {m: l for l, m in mus.items()}
        memo = {}
        allmu = set(inv)

        def mudeps(t):
            r = memo.get(t)
            if r is None:
                r = frozenset(x for x in tm.walk(t) if x in allmu)
                memo[t] = r
            return r
        final = {}
        at = {}        # mu -> value at iteration k (before the body)
        is_for = cnt is not None and not has_break
        if cnt is None:
            # while i < N: ... i += 1
            brk = step.get(('env', '$brk'))
            going = step
            if has_break and brk is not None:
                goes = not_(truth(brk))
                going = {l: tm.assume(v, goes) for l, v in step.items()}
            ii = self.find_induction(going, mus, init, cond, mudeps)
            if ii is not None:
                loc, c, n_ = ii
                cnt = n_
                at[mus[loc]] = add(init[loc], mul(c, k))
                if has_break:
                    cond = TRUE
                else:
                    is_for = True
                    final[loc] = add(init[loc], mul(c, n_))
        if is_for:
            progress = True
            todo = [l for l in mus if l not in final]
            while progress and todo:
                progress = False
                for l in list(todo):
                    f = tm.subst(step[l], at) if at else step[l]
                    r = self.closed_form(f, mus[l], init[l], k, cnt, mudeps)
                    if r is not None:
                        at[mus[l]], final[l] = r
                        todo.remove(l)
                        progress = True
        else:
            todo = list(mus)
        if todo:
            fs = {l: (tm.subst(step[l], at) if at else step[l]) for l in todo}
            cd = tm.subst(cond, at) if at else cond
            shared = {}
            for l in todo:
                final[l] = self.recurrence(l, fs, mus, init, k, cnt, cd, mudeps, has_break, shared)
        return final

    def find_induction(self, step, mus, init, cond, mudeps):
        for l, m in mus.items():
            f = step[l]
            d = sub(f, m)
            if d.op != 'c' or d is ZERO:
                continue
            c = cond
            pos = True
            if c.op == 'not':
                c, pos = c.args[0], False
            if c.op != 'cmp' or c.args[0] not in ('>', '>='):
                continue
            p = c.args[1]
            # p = a*m + rest
            rest = tm.subst(p, {m: ZERO})
            co = sub(p, rest)
            q = div(co, m)
            if q.op != 'c' or mudeps(rest):
                continue
            # keep going while (a*m + rest) OP 0  (or its negation)
            a = q.args[0] if pos else -q.args[0]
            rest = rest if pos else tm.neg(rest)
            strict = (c.args[0] == '>') == pos
            # a*m + rest > 0 (strict) or >= 0
            if d.args[0] * a >= 0:
                continue
            # number of iterations with integer steps
            gap = div(add(mul(num(a), init[l]), rest), num(-a * d.args[0]))
            if abs(d.args[0]) == 1 and abs(a) == 1:
                n = gap if strict else add(gap, ONE)
            else:
                n = fn('ceil', gap) if strict else add(fn('floor', gap), ONE)
            return l, d, n
        return None

    def kdep(self, t, k):
        return any(x is k for x in tm.walk(t))

    def closed_form(self, f, mu, init, k, n, mudeps):
        """(value before iteration k, final value) or None"""
        dp = mudeps(f)
        if not dp:
            if not self.kdep(f, k):
                at = ite(tm.cmp0('>', k), f, init) if init is not UNDEF else f
                fin = f if init is UNDEF else ite(self.positive(n), f, init)
                return at, fin
            prev = tm.subst(f, {k: sub(k, ONE)})
            last = tm.subst(f, {k: sub(n, ONE)})
            at = prev if init is UNDEF else ite(tm.cmp0('>', k), prev, init)
            return at, (last if init is UNDEF else ite(self.positive(n), last, init))
        if dp != frozenset([mu]):
            return None
        if f is mu:
            return init, init
        # accumulation
        g = self.additive(f, mu)
        if g is not None and not mudeps(g):
            if not self.kdep(g, k):
                return add(init, mul(k, g)), add(init, mul(n, g))
            return (add(init, self.sumterm(k, k, g, upto=True)), add(init, self.sumterm(k, n, g)))
        # list append
        g = self.appended(f, mu)
        if g is not None and not mudeps(g):
            return None if init is UNDEF else (
                fn('concat', init, fn('maplist', self.bind(k, g), k)),
                fn('concat', init, fn('maplist', self.bind(k, g), n)))
        # dictionary filled from scratch
        if init is EMPTY_DICT:
            g = self.keyed(f, mu)
            if g is not None and not mudeps(g):
                return tuple(fn('dictof', fn('maplist', self.bind(k, g), x)) for x in (k, n))
        # element-wise store
        r = self.store_form(f, mu, init, k, n, mudeps)
        if r is not None:
            return r
        # logical accumulation
        if tm.is_bool(f):
            if f.op == 'or' and any(x.op == 'truth' and x.args[0] is mu for x in f.args):
                rest = or_(*[x for x in f.args if not (x.op == 'truth' and x.args[0] is mu)])
                if not mudeps(rest):
                    b = self.bind(k, rest)
                    return (or_(truth(init), truth(fn('anyof', b, k))), or_(truth(init), self.anyterm(k, n, rest)))
        return None

    def anyterm(self, k, n, c):
        """whether c(k) holds for a k in [0, n)"""
        if not self.kdep(c, k):
            return and_(c, self.positive(n))
        lv = self.lift(c, k, ZERO, n)
        if lv is not None:
            return tm.cmp0('>', fn('sum', truth(lv)))
        return truth(fn('anyof', self.bind(k, c), n))

    def positive(self, n):
        if n.op == 'fn' and n.args[0] == 'len':
            return tm.cmp0('>', n)
        return tm.cmp0('>', n)

    def appended(self, f, mu):
        """g with f == the list mu followed by the list g"""
        if f is mu:
            return mk('list')
        if f.op == 'fn' and f.args[0] == 'concat' and len(f.args) == 3:
            g = self.appended(f.args[1], mu)
            if g is not None:
                return fn('concat', g, f.args[2])
        if f.op == 'ite':
            a, b = self.appended(f.args[1], mu), self.appended(f.args[2], mu)
            if a is not None and b is not None:
                return ite(f.args[0], a, b)
        return None

    def keyed(self, f, mu):
        """list of (key, value) with f == the dictionary mu with these items set"""
        if f is mu:
            return mk('list')
        if f.op == 'store' and f.args[0] is mu:
            return mk('list', mk('tuple', f.args[1], f.args[2]))
        if f.op == 'ite':
            a, b = self.keyed(f.args[1], mu), self.keyed(f.args[2], mu)
            if a is not None and b is not None:
                return ite(f.args[0], a, b)
        return None

    def additive(self, f, mu):
        """g with f == mu + g"""
        if f.op == 'ite':
            a, b = self.additive(f.args[1], mu), self.additive(f.args[2], mu)
            if a is None or b is None:
                return None
            return ite(f.args[0], a, b)
        g = sub(f, mu)
        if any(x is mu for x in tm.walk(g)):
            return None
        return g

    def height(self, t):
        h = 0
        for x in tm.walk(t):
            if x.op == 'bv':
                h = max(h, x.args[0])
        return h

    def bind(self, k, body):
        """close over the loop index: canonical bound variable"""
        h = self.height(body) + 1
        r = mk('lam', tm.subst(body, {k: mk('bv', h)}))
        LAM_HEIGHT[r] = h
        return r

    @staticmethod
    def item_of(lst, k):
        """item k of a list made by a comprehension without conditions, else None"""
        if lst.op == 'fn' and lst.args[0] == 'maplist' and lst.args[1] in LAM_HEIGHT:
            b = lst.args[1].args[0]
            if b.op == 'list' and len(b.args) == 1:
                return tm.subst(b.args[0], {mk('bv', LAM_HEIGHT[lst.args[1]]): k})
        return None

    def sumterm(self, k, n, g, upto=False):
        if n.op == 'ite' and (n.args[1] is ZERO or n.args[2] is ZERO):
            return ite(n.args[0], *[ZERO if x is ZERO else self.sumterm(k, x, tm.assume(g, c), upto)
                                    for x, c in ((n.args[1], n.args[0]), (n.args[2], not_(n.args[0])))])
        # distribute over additive terms, pull out k-free factors
        if g.op == 'poly' and len(g.args[0]) > 1:
            return add(*[self.sumterm(k, n, tm.from_poly({m: c})) for m, c in g.args[0]])
        co = ONE
        if g.op == 'poly':
            (m, c), = g.args[0]
            co = mk('c', c)
            rest = []
            for a, e in m:
                if self.kdep(a, k):
                    rest.append((a, e))
                else:
                    co = mul(co, power(a, e))
            g = tm.from_poly({tuple(rest): tm.Fraction(1)})
        if not self.kdep(g, k):
            return mul(mul(co, g), n)
        if not upto:
            lv = self.lift(g, k, ZERO, n)
            if lv is not None:
                return mul(co, fn('sum', lv))
        return mul(co, fn('sumover', self.bind(k, g), n))

    def lift(self, g, k, lo, n, top=True):
        """vectorised form of an element-wise expression in k over k in [0,n): None if impossible"""
        if not self.kdep(g, k):
            return g if tm.is_scalar(g) or not self.arrayish(g) else None
        if g is k:
            return fn('arange', ZERO, n)
        if g.op == 'sel':
            b, i = g.args
            if self.kdep(b, k):
                return None
            c = sub(i, k)
            if not self.kdep(c, k):
                return self.vecsel(b, c, n)
            if i.op == 'tuple' and i.args[0] is k and not any(self.kdep(x, k) for x in i.args[1:]):
                return sel(b, mk('tuple', FULL if self.is_full(b, n) else tm.slice_(ZERO, n), *i.args[1:]))
            return None
        if g.op == 'poly':
            r = ZERO
            for m, c in g.args[0]:
                x = mk('c', c)
                for a, e in m:
                    y = self.lift(a, k, lo, n, False)
                    if y is None:
                        return None
                    x = mul(x, power(y, e))
                r = add(r, x)
            return r
        if g.op == 'pbase':
            return self.lift(g.args[0], k, lo, n, False)
        if g.op in ('ite', 'and', 'or', 'not', 'truth') or (g.op == 'fn' and g.args[0] in tm.ELEMWISE) or g.op == 'cmp':
            ok = [True]

            def go(x):
                y = self.lift(x, k, lo, n, False)
                if y is None:
                    ok[0] = False
                    return x
                return y
            if g.op == 'cmp' and g.args[0] == 'is':
                return None
            r = tm.rebuild(g, go)
            return r if ok[0] else None
        return None

    def is_full(self, b, n):
        return n is fn('len', b)

    def vecsel(self, b, c, n):
        if c is ZERO and self.is_full(b, n):
            return b
        return sel(b, tm.slice_(c, add(c, n)))

    def store_form(self, f, mu, init, k, n, mudeps):
        """chains of stores / scatter-adds indexed by the loop variable"""
        chain = []
        cur = f
        guard = TRUE
        if f.op == 'ite':
            # guarded store: ite(c, store(mu..), mu)
            if f.args[2] is mu:
                guard, cur = f.args[0], f.args[1]
            elif f.args[1] is mu:
                guard, cur = not_(f.args[0]), f.args[2]
            else:
                return None
            if mudeps(guard):
                return None
        while cur.op == 'store':
            chain.append((cur, cur.args[1], cur.args[2]))
            cur = cur.args[0]
        if cur is not mu or not chain:
            return None
        chain.reverse()
        if any(mudeps(i) for _, i, v in chain):
            return None
        # scatter-add?
        adds = []
        for stt, i, v in chain:
            before = stt.args[0]
            g = sub(v, sel(before, i))
            if mudeps(g):
                adds = None
                break
            adds.append((i, ite(guard, g, ZERO)))
        if adds is not None:
            kk = [a for a in adds]
            lam = tuple(sorted((self.bind(k, mk('tuple', i, g)) for i, g in kk), key=lambda t: t.id))
            direct = self.direct_index(adds[0][0], k, n) if len(adds) == 1 else None
            if direct is None:
                return (None_at(fn('scatter', init, k, *lam)), fn('scatter', init, n, *lam))
        if len(chain) == 1:
            _, i, v = chain[0]
            idx = self.direct_index(i, k, n)
            if idx is None:
                return None
            # v may read the same element of the old array
            v2 = tm.subst(v, {sel(mu, i): sel(init, i)})
            if mudeps(v2):
                return None
            v2 = ite(guard, v2, sel(init, i))
            lv = self.lift(v2, k, ZERO, n)
            if lv is None:
                lv = fn('map', self.bind(k, v2), n)
            return (None_at(store(init, self.direct_index(i, k, k), fn('map', self.bind(k, v2), k))), store(init, idx, lv))
        return None

    def direct_index(self, i, k, n):
        c = sub(i, k) if i.op not in ('tuple', 'slice') else None
        if c is not None and not self.kdep(c, k):
            return tm.slice_(c, add(c, n))
        if i.op == 'tuple':
            pos = [j for j, x in enumerate(i.args) if self.kdep(x, k)]
            if len(pos) == 1:
                c = sub(i.args[pos[0]], k) if i.args[pos[0]].op not in ('tuple', 'slice') else None
                if c is not None and not self.kdep(c, k):
                    return mk('tuple', *[tm.slice_(c, add(c, n)) if j == pos[0] else x for j, x in enumerate(i.args)])
        return None

    def recurrence(self, loc, fs, mus, init, k, n, cond, mudeps, has_break, shared):
        """canonical term for a location defined by a simultaneous recurrence"""
        inv = {m: l for l, m in mus.items()}
        order = []
        stop = ('env', '$brk')
        env = shared.get('env')
        if env is None:
            env = {mus[l]: tm.shash(init[l] if init[l] is not None else UNDEF, {}) for l in fs}
            for _ in range(3):
                memo = {}
                env = {mus[l]: hash(('mu', env[mus[l]], tm.shash(fs[l], env, memo))) for l in fs}
            shared['env'] = env
        work = [loc]
        if n is None:
            work += [inv[x] for x in mudeps(cond) if inv[x] in fs]
        if has_break and stop in fs:
            work.append(stop)
        seen = set()
        while work:
            l = work.pop()
            if l in seen:
                continue
            seen.add(l)
            work.extend(inv[x] for x in mudeps(fs[l]) if inv[x] in fs)
        if len(set(env[mus[l]] for l in seen)) < len(seen):
            # tell apart variables with the same recurrence by the way the others use them
            def used(l):
                r = shared.get(l)
                if r is None:
                    e2 = dict(env)
                    e2[mus[l]] = hash(('this', env[mus[l]]))
                    memo = {}
                    r = shared[l] = ({u: tm.shash(fs[u], e2, memo) for u in fs}, tm.shash(cond, e2, memo) if n is None else 0)
                hs, hc = r
                return hash((env[mus[l]], hs[loc], frozenset((env[mus[u]], hs[u]) for u in seen if u != l), hc))
            count = {}
            for l in seen:
                count[env[mus[l]]] = count.get(env[mus[l]], 0) + 1
            env = {mus[l]: used(l) if count[env[mus[l]]] > 1 else env[mus[l]] for l in seen}
        groups = {}
        for l in seen:
            if l != loc:
                groups.setdefault(env[mus[l]], []).append(l)
        orders = [[loc]]
        for key in sorted(groups):
            g = sorted(groups[key], key=str)
            # variables the hash cannot tell apart: every order is built, the first term ever built represents them all
            perms = list(itertools.permutations(g)) if len(g) <= 4 and len(orders) * math.factorial(len(g)) <= 48 else [g]
            orders = [o + list(q) for o in orders for q in perms]
        return min((self.loop_term(o, fs, mus, init, k, n, cond) for o in orders), key=lambda t: t.id)

    def loop_term(self, order, fs, mus, init, k, n, cond):
        ren = {mus[l]: mk('rv', i) for i, l in enumerate(order)}
        bodies = [tm.subst(fs[l], ren) for l in order]
        cd = tm.subst(cond, ren) if n is None else TRUE
        whole = mk('tuple', *(bodies + [cd]))
        h = self.height(whole) + 1
        kk = mk('bv', h)
        whole = tm.subst(whole, {k: kk})
        # rv symbols are made unique by binder height as well
        whole = tm.subst(whole, {mk('rv', i): mk('rv', i, h) for i in range(len(order))})
        inits = mk('tuple', *[init[l] if init[l] is not None else UNDEF for l in order])
        return fn('loop', n if n is not None else NONE, inits, whole, num(h))

    # ------------------------------------------------------------ expressions
    def val(self, st, n):
        """evaluated and dereferenced"""
        return self.deref(st, self.eval(st, n))

    def eval(self, st, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.unknown.append('expression %s at %s' % (type(n).__name__, self.loc()))
            return mk('opaque', ast.dump(n))
        return m(st, n)

    def e_Constant(self, st, n):
        v = n.value
        if v is None:
            return NONE
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, str):
            return s(v)
        if isinstance(v, bytes):
            return s(repr(v))
        return num(v)

    def e_Name(self, st, n):
        fr = self.frames[-1]
        if n.id in fr.globals:
            return self.load_attr(st, mk('module', fr.module), n.id)
        v = st.env.get(n.id)
        if v is not None:
            return v
        if fr.closure is not None and n.id in fr.closure:
            return fr.closure[n.id]
        m = fr.module
        gv = st.heap.get((mk('module', m), n.id))
        if gv is not None:
            return gv
        r = self.p.resolve_name(m, n.id)
        if r is not None:
            return self.wrap(r)
        if n.id in m.assigns:
            return self.module_value(st, m, n.id)
        if n.id in npmodel.BUILTINS:
            return npmodel.ext('builtins.' + n.id)
        star = self.star_import(m, n.id)
        if star is not None:
            return star
        if n.id in npmodel.PYBUILTINS or hasattr(builtins, n.id):
            return npmodel.ext('builtins.' + n.id)
        self.event('undefined', st, n.id)
        return sym('undefined:' + n.id)

    def star_import(self, m, name):
        for node in reversed(list(ast.walk(m.tree))):      # the last one wins
            if isinstance(node, ast.ImportFrom) and node.names[0].name == '*':
                base = node.module or ''
                i = self.p.internal('.' * node.level + base)
                if i is not None and i in self.p.modules:
                    mod = self.p.modules[i]
                    r = self.p.resolve_name(mod, name)
                    if r is not None:
                        return self.wrap(r)
                else:
                    v = npmodel.ext(base + '.' + name)
                    if v.op != 'ext':
                        return v
                    if base + '.' + name in npmodel.EXT or (base, name) in npmodel.STAR:
                        return v
                    if base in ('cmath', 'math') and name in MATHNAMES[base]:
                        return v
        return None

    def e_Attribute(self, st, n):
        o = self.eval(st, n.value)
        return self.load_attr(st, o, n.attr)

    def e_Tuple(self, st, n):
        return mk('tuple', *self.elts(st, n.elts))

    def elts(self, st, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.val(st, e.value)
                if v.op in ('tuple', 'list'):
                    out.extend(v.args)
                else:
                    out.append(mk('star', v))
            else:
                out.append(self.bind_value(st, self.eval(st, e)))
        return out

    def e_List(self, st, n):
        return self.new_list(st, self.elts(st, n.elts))

    def e_Set(self, st, n):
        return self.new_list(st, sorted(self.elts(st, n.elts), key=lambda x: tm.show(x, 9)))

    def e_Dict(self, st, n):
        pairs = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.val(st, v)
                if d.op == 'dict':
                    for kk, vv in d.args[0]:
                        pairs = [(a, b) for a, b in pairs if a is not kk] + [(kk, vv)]
                else:
                    pairs.append((mk('star', d), d))
                continue
            kk = self.val(st, k)
            vv = self.bind_value(st, self.eval(st, v))
            pairs = [(a, b) for a, b in pairs if a is not kk] + [(kk, vv)]
        return self.new_dict(st, pairs)

    def e_BinOp(self, st, n):
        a = self.eval(st, n.left)
        b = self.eval(st, n.right)
        da, db = self.deref(st, a), self.deref(st, b)
        r = self.binop(st, n.op, da, db, a)
        if (r.op == 'c' or tm.is_scalar(r)) and r.op != 'ref' and (
                a.op == 'view' or b.op == 'view' or self.is_arr(a) or self.is_arr(b) or self.arrayish(da) or self.arrayish(db)) \
                and not (da.op == 'list' or db.op == 'list'):
            sh = [st.heap[(x, '$shape')] for x in (a, b) if (x, '$shape') in st.heap]
            r = self.new_array(st, r, sh[0] if sh else None)      # a constant array is still an array
        elif r.op == "c" and isinstance(n.op, ast.Mult) and any(
                x.op in ('attr', 'sym', 'sel') and not tm.is_scalar(x) for x in (da, db)):
            r = self.new_array(st, r)      # 0 * x keeps the shape of x
        elif (r is da or r is db) and r.op in ('sym', 'attr', 'sel', 'fn') and not tm.is_scalar(r):
            r = self.new_array(st, r)      # 1 * x is a copy of x
        return r

    def binop(self, st, op, a, b, ref=None):
        if isinstance(op, ast.Mod) and (a.op in ('s', 'cat') or (a.op == 'ite' and npmodel.is_str(a))):
            return npmodel.format_percent(self, st, a, b)
        if isinstance(op, ast.Add):
            if npmodel.is_str(a) or npmodel.is_str(b):
                return npmodel.cat(self.deep(st, a), self.deep(st, b))
            if a.op == 'tuple' and b.op == 'tuple':
                return mk('tuple', *(a.args + b.args))
            if a.op == 'list' and b.op in ('list',):
                return self.new_list(st, a.args + b.args)
            if a.op == 'list' or b.op == 'list' or (a.op == 'fn' and a.args[0] in ('concat', 'maplist')):
                if (ref is not None and ref.op == 'ref' and ref.args[0] == 'list') or b.op == 'list' and a.op == 'list':
                    return fn('concat', a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if x.op == 'list':
                    if y.op == 'c':
                        return self.new_list(st, x.args * int(y.args[0]))
                    if len(x.args) == 1:
                        return self.new_array(st, x.args[0], y)
                    return fn('listrep', x, y)
                if x.op == 's' and y.op == 'c':
                    return s(x.args[0] * int(y.args[0]))
        a, b = self.arr(st, a), self.arr(st, b)
        if isinstance(op, ast.Add):
            return add(npmodel.numb(a), npmodel.numb(b))
        if isinstance(op, ast.Sub):
            return sub(npmodel.numb(a), npmodel.numb(b))
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(npmodel.numb(a), npmodel.numb(b))
        if isinstance(op, ast.Pow):
            return npmodel.pow_(a, b)
        if isinstance(op, ast.FloorDiv):
            return fn('floor', div(a, b))
        if isinstance(op, ast.Mod):
            return fn('mod', a, b)
        if isinstance(op, ast.BitAnd):
            return and_(a, b)
        if isinstance(op, ast.BitOr):
            return or_(a, b)
        if isinstance(op, ast.BitXor):
            a, b = truth(a), truth(b)
            return or_(and_(a, not_(b)), and_(not_(a), b))
        if isinstance(op, ast.MatMult):
            return fn('matmul', a, b)
        return fn(type(op).__name__, a, b)

    def arr(self, st, v):
        """list/tuple literal used in arithmetic -> literal array"""
        if v.op in ('list', 'tuple'):
            els = [self.deref(st, x) for x in v.args]
            return fn('arr', *[self.arr(st, x) for x in els])
        if v.op == 'ite':
            return v
        return v

    def is_arr(self, t):
        return t.op == 'ref' and t.args[0] == 'arr'

    def e_UnaryOp(self, st, n):
        o = self.eval(st, n.operand)
        v = self.deref(st, o)
        if isinstance(n.op, ast.USub):
            r = tm.neg(npmodel.numb(v))
            return self.new_array(st, r, st.heap.get((o, '$shape'))) if self.is_arr(o) and tm.is_scalar(r) else r
        if isinstance(n.op, ast.Not):
            return not_(truth(self.nonempty(st, v)))
        if isinstance(n.op, ast.Invert):
            return not_(v)
        return v

    def nonempty(self, st, v):
        if v.op in ('list', 'tuple'):
            return TRUE if v.args else FALSE
        if v.op == 'dict':
            return TRUE if v.args[0] else FALSE
        return v

    def e_BoolOp(self, st, n):
        isand = isinstance(n.op, ast.And)
        base = st.pc
        res = None
        vals = []
        for i, e in enumerate(n.values):
            v = self.eval(st, e)
            vals.append(v)
            if i < len(n.values) - 1:
                c = truth(self.nonempty(st, self.deref(st, v)))
                c = tm.assume(c, st.pc)
                if c is (FALSE if isand else TRUE):
                    break
                st.pc = and_(st.pc, c if isand else not_(c))
                if st.pc is FALSE:
                    break
        st.pc = base
        derefd = [self.deref(st, v) for v in vals]
        if all(tm.is_bool(d) for d in derefd[:-1]):
            last = derefd[-1]
            if tm.is_bool(last) or last.op in ('sym', 'attr', 'sel', 'fn', 'ite', 'c'):
                return (and_ if isand else or_)(*derefd)
        r = vals[-1]
        for v, d in reversed(list(zip(vals[:-1], derefd[:-1]))):
            c = truth(self.nonempty(st, d))
            r = ite(c, r, v) if isand else ite(c, v, r)
        return r

    def e_Compare(self, st, n):
        res = []
        left = self.eval(st, n.left)
        for op, rn in zip(n.ops, n.comparators):
            right = self.eval(st, rn)
            res.append(self.compare(st, op, left, right))
            left = right
        return and_(*res) if len(res) > 1 else res[0]

    OPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is',
           ast.IsNot: 'is not'}

    def compare(self, st, op, a, b):
        da, db = self.deref(st, a), self.deref(st, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = npmodel.contains(self, st, da, db, b)
            return not_(r) if isinstance(op, ast.NotIn) else r
        o = self.OPS[type(op)]
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.cmp_is(a, b, da, db)
            if r is not None:
                return r if isinstance(op, ast.Is) else not_(r)
        if o in ('==', '!='):
            r = self.cmp_is(a, b, da, db)
            if r is not None and (a.op == 'none' or b.op == 'none'):
                return r if o == '==' else not_(r)
            if da.op in ('list', 'tuple') and db.op in ('list', 'tuple'):
                if len(da.args) != len(db.args):
                    r = FALSE
                else:
                    r = and_(*[self.compare(st, ast.Eq(), x, y) for x, y in zip(da.args, db.args)])
                return r if o == '==' else not_(r)
        da, db = self.deep(st, da), self.deep(st, db)
        return npmodel.compare(o, da, db)

    def cmp_is(self, a, b, da, db):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if y.op == 'none':
                if x.op in ('ref', 'view', 'func', 'class', 'closure', 'bound', 'poly', 'module', 'tuple', 'c', 's', 'cat', 'store'):
                    return FALSE
                if self.dict_named(x, NOT_NONE) or from_file(x):
                    return FALSE
                if x.op == 'ite':
                    return tm.ite_b(x.args[0], self.cmp_is(x.args[1], y, x.args[1], y) if x.args[1].op != 'undef' else FALSE,
                                    self.cmp_is(x.args[2], y, x.args[2], y) if x.args[2].op != 'undef' else FALSE)
                if x.op == 'none':
                    return TRUE
                return tm.compare('is', x, y)
        if a.op == 'sel' and b.op == 'sel' and a.args[0] is b.args[0] and a.args[0].op in ('attr', 'sym') \
                and all(x.args[1].op in ('c', 'bv', 'poly', 'sym') for x in (a, b)):
            # two elements of one list are the same object when they have the same place (no object is listed twice)
            i, j = [add(x.args[1], fn('len', x.args[0])) if x.args[1].op == 'c' and x.args[1].args[0] < 0 else x.args[1] for x in (a, b)]
            return tm.compare('==', i, j)
        return None

    def e_IfExp(self, st, n):
        c = truth(self.nonempty(st, self.val(st, n.test)))
        c = tm.assume(c, st.pc)
        if c is TRUE:
            return self.eval(st, n.body)
        if c is FALSE:
            return self.eval(st, n.orelse)
        s1, s2 = st.fork(and_(st.pc, c)), st.fork(and_(st.pc, not_(c)))
        try:
            a = self.eval(s1, n.body)
        except Dead:
            a = UNDEF
        try:
            b = self.eval(s2, n.orelse)
        except Dead:
            b = UNDEF
        m = self.merge(c, s1, s2)
        st.heap = m.heap
        return self.merge_val(c, a, b)

    def index(self, st, n):
        if isinstance(n, ast.Slice):
            lo = self.val(st, n.lower) if n.lower is not None else NONE
            hi = self.val(st, n.upper) if n.upper is not None else NONE
            step = self.val(st, n.step) if n.step is not None else NONE
            if step is ONE:
                step = NONE
            return tm.slice_(lo, hi, step)
        if isinstance(n, ast.Tuple):
            return mk('tuple', *[self.index(st, e) for e in n.elts])
        v = self.val(st, n)
        v = self.deep(st, v)
        return npmodel.norm_index(v)

    def e_Subscript(self, st, n):
        o = self.eval(st, n.value)
        i = self.index(st, n.slice)
        return self.load_item(st, o, i)

    def e_Slice(self, st, n):
        return self.index(st, n)

    def e_Call(self, st, n):
        save = self.curnode
        back = None
        if hasattr(n, 'lineno'):
            self.curnode = n
        # super().__init__
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            fr = self.frames[-1]
            return mk('super', st.env.get(fr.func.params[0]) if fr.func else NONE, fr.func.cls if fr.func else None)
        if isinstance(n.func, ast.Attribute):
            o = self.eval(st, n.func.value)
            if o.op == 'super':
                cls = o.args[1]
                for c in cls.mro(self.p)[1:]:
                    if n.func.attr in c.methods:
                        f = mk('bound', o.args[0], c.methods[n.func.attr])
                        break
                else:
                    f = mk('ext', 'builtins.object.' + n.func.attr)
            else:
                if n.func.attr in MUTATORS and (o.op in ('list', 'dict') or self.loopitem(o)) \
                        and isinstance(n.func.value, (ast.Subscript, ast.Attribute, ast.Name)):
                    back = self.alloc('dict' if o.op == 'dict' else 'list')
                    st.heap[(back, '*')] = self.deref(st, o)
                    o = back
                f = self.method(st, o, n.func.attr)
        else:
            f = self.eval(st, n.func)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.val(st, a.value)
                if v.op in ('tuple', 'list'):
                    args.extend(v.args)
                else:
                    args.append(mk('star', v))
            else:
                args.append(self.eval(st, a))
        for kw in n.keywords:
            if kw.arg is None:
                d = self.val(st, kw.value)
                if d.op == 'dict':
                    for k, v in d.args[0]:
                        kwargs[k.args[0] if k.op == 's' else str(k)] = v
                else:
                    items = explode(d)
                    if items is None:
                        kwargs['**'] = d
                    else:
                        kwargs.update(items)
            else:
                kwargs[kw.arg] = self.eval(st, kw.value)
        r = self.call(st, f, args, kwargs)
        if back is not None:
            self.assign(st, n.func.value, self.deref(st, back))
        self.curnode = save
        return r

    def method(self, st, o, name):
        if o.op == 'ite' and (self.has_ref(o) or any(self.class_of(x) is not None for x in o.args[1:])):
            a, b = o.args[1], o.args[2]
            fa = self.method(st, a, name) if a.op not in ('none', 'undef') else NONE
            fb = self.method(st, b, name) if b.op not in ('none', 'undef') else NONE
            return self.merge_val(o.args[0], fa, fb)
        if name in npmodel.METHODS and o.op not in ('module', 'ext', 'class'):
            c = self.class_of(o)
            if not (o.op == 'ref' and o.args[0] == 'inst') and (c is None or c.lookup(self.p, name) is None) \
                    and (o, name) not in st.heap:
                return mk('extmeth', o, name)
        if o.op in ('sym', 'attr', 'sel') and (o, name) not in st.heap and self.class_of(o) is None and \
                self.cur_state(st, o) is not None and purity.by_name(self.p, name) is not None:
            return self.attr_term(o, name)      # a method: the calls made before do not change which one it is
        return self.load_attr(st, o, name)

    def e_Lambda(self, st, n):
        f = Func('<lambda>', n, self.frames[-1].module)
        i = len(self.objs)
        self.objs[i] = (f, st.env, None)
        return mk('closure', i)

    def e_JoinedStr(self, st, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(s(v.value))
            else:
                spec = ''
                if v.format_spec is not None:
                    spec = ''.join(x.value for x in v.format_spec.values if isinstance(x, ast.Constant))
                parts.append(npmodel.fmt(self.deep(st, self.eval(st, v.value)), spec, v.conversion))
        return npmodel.cat(*parts)

    def comp_alternatives(self, st, it, f):
        """evaluate a comprehension f(state, iterated value) over each alternative of the iterated value"""
        d = self.split_iter(st, self.deref(st, it))
        if d.op == 'ite':
            c = tm.assume(d.args[0], st.pc)
            if c is TRUE or c is FALSE:
                return self.comp_alternatives(st, d.args[1] if c is TRUE else d.args[2], f)
            if all(self.deref(st, x).op in ('list', 'tuple', 'ite', 'dict', 'iter') for x in d.args[1:]):
                s1, s2 = st.fork(and_(st.pc, c)), st.fork(and_(st.pc, not_(c)))
                a = self.comp_alternatives(s1, d.args[1], f)
                b = self.comp_alternatives(s2, d.args[2], f)
                m = self.merge(c, s1, s2)
                st.heap = m.heap
                return self.merge_val(c, a, b)
        return f(st, it)

    def e_ListComp(self, st, n):
        return self.comp_alternatives(st, self.eval(st, n.generators[0].iter), lambda x, it: self.comp(
            x, n.generators, lambda y: self.bind_value(y, self.eval(y, n.elt)), 'list', it))
    e_GeneratorExp = e_ListComp

    def e_SetComp(self, st, n):
        return self.e_ListComp(st, n)

    def e_DictComp(self, st, n):
        return self.comp_alternatives(st, self.eval(st, n.generators[0].iter), lambda x, it: self.dict_comp(x, n, it))

    def dict_comp(self, st, n, it):
        r = self.comp(st, n.generators, lambda x: mk('tuple', self.val(x, n.key), self.bind_value(x, self.eval(x, n.value))), 'list', it)
        d = self.deref(st, r)
        if d.op == 'list':
            pairs = []
            for t in d.args:
                pairs = [(a, b) for a, b in pairs if a is not t.args[0]] + [(t.args[0], t.args[1])]
            return self.new_dict(st, pairs)
        return fn('dictof', self.deep(st, d))

    def comp(self, st, gens, f, kind, it=None):
        saved = dict(st.env)
        saved_pc = st.pc
        g = gens[0]
        if it is None:
            it = self.eval(st, g.iter)
        r = self.iteration(st, it)
        if r[0] == 'list':
            out = []
            for x in r[1]:
                self.assign(st, g.target, x)
                c = TRUE
                for i in g.ifs:
                    c = and_(c, truth(self.nonempty(st, self.val(st, i))))
                    c = tm.assume(c, st.pc)
                if c is FALSE:
                    continue
                if len(gens) > 1:
                    sub_ = self.comp(st, gens[1:], f, kind)
                    d = self.deref(st, sub_)
                    if d.op == 'list' and c is TRUE:
                        out.extend(d.args)
                    else:
                        out.append(mk('star', ite(c, d, mk('list'))))
                else:
                    st.pc = and_(saved_pc, c)
                    v = f(st)
                    st.pc = saved_pc
                    out.append(v if c is TRUE else mk('optional', c, v))
            st.env = saved
            return self.new_list(st, out)
        _, n, elem = r
        k = sym('$k%d' % self.loopdepth)
        self.loopdepth += 1
        self.assign(st, g.target, elem(k))
        c = and_(*[truth(self.val(st, i)) for i in g.ifs]) if g.ifs else TRUE
        if len(gens) > 1:
            st.pc = and_(saved_pc, c)
            v = self.deep(st, self.comp(st, gens[1:], f, kind))
        else:
            st.pc = and_(saved_pc, c)
            v = mk('list', self.deep(st, f(st)))
        st.pc = saved_pc
        self.loopdepth -= 1
        st.env = saved
        rr = self.alloc('list')
        st.heap[(rr, '*')] = fn('maplist', self.bind(k, ite(c, v, mk('list'))), n)
        return rr

    def e_Starred(self, st, n):
        return mk('star', self.val(st, n.value))

    def e_NamedExpr(self, st, n):
        v = self.eval(st, n.value)
        self.assign(st, n.target, v)
        return st.env[n.target.id]


MASK_RESULTS = {'is_outside', 'is_outside_convex', 'is_outside_nonconvex'}     # one boolean per particle


class Dead(Exception):
    """control does not continue"""


ABSENT = mk('absent')


def explode(d):
    """{name: value} of a dictionary with known keys, ABSENT where a key is missing (None: keys unknown)"""
    if d.op == 'dict':
        return {k.args[0]: v for k, v in d.args[0]} if all(k.op == 's' for k, v in d.args[0]) else None
    if d.op == 'store' and len(d.args) == 3 and d.args[1].op == 's':
        r = explode(d.args[0])
        if r is not None:
            r = dict(r)
            r[d.args[1].args[0]] = d.args[2]
        return r
    if d.op == 'ite':
        a, b = explode(d.args[1]), explode(d.args[2])
        if a is None or b is None:
            return None
        return {k: ite(d.args[0], a.get(k, ABSENT), b.get(k, ABSENT)) for k in list(a) + [k for k in b if k not in a]}
    return None


def has_absent(v):
    return v is ABSENT or (v.op == 'ite' and (has_absent(v.args[1]) or has_absent(v.args[2])))


def fill(v, d):
    if v is ABSENT:
        return d
    if v.op == 'ite':
        return ite(v.args[0], fill(v.args[1], d), fill(v.args[2], d))
    return v


def given(v):
    if v is ABSENT:
        return FALSE
    if v.op == 'ite':
        return tm.or_(and_(v.args[0], given(v.args[1])), and_(not_(v.args[0]), given(v.args[2])))
    return TRUE


_rotated = {}


def rotated(n):
    """while True: A; if c: break; B   ==   A; while not c: B; A"""
    if n in _rotated:
        return _rotated[n]
    r = None
    at = [i for i, x in enumerate(n.body) if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1
          and isinstance(x.body[0], ast.Break)]
    if at:
        i = at[0]
        a, b = n.body[:i], n.body[i + 1:]
        if not any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for y in a + b for x in ast.walk(y)):
            w = ast.While(test=ast.UnaryOp(op=ast.Not(), operand=n.body[i].test), body=b + a or [ast.Pass()], orelse=[])
            ast.copy_location(w, n)
            ast.fix_missing_locations(w)
            r = (a, [w])
    _rotated[n] = r
    return r


def from_file(x):
    """an array read from a .mat file"""
    return x.op == 'sel' and x.args[1].op == 's' and x.args[0].op == 'fn' and 'scipy.io.loadmat' in str(x.args[0].args[0])


def own_item(v, mu, k):
    """the index at which alone (in every case) iteration k changes the container mu: k itself or the k-th key"""
    found = set()

    def go(v):
        if v is mu:
            return True
        if v.op == 'ite':
            return go(v.args[1]) and go(v.args[2])
        if v.op == 'store' and len(v.args) == 3:
            i = v.args[1]
            if i is k or i.op == 'sel' and i.args[1] is k and i.args[0].op == 'fn' and i.args[0].args[0] == 'keysof':
                found.add(i)
                return go(v.args[0])
        return False
    return found.pop() if go(v) and len(found) == 1 else None


def leaves(t):
    if t.op == 'ite':
        return leaves(t.args[1]) | leaves(t.args[2])
    return frozenset([t])


def None_at(t):
    return t


def body_entry(entry, mus, loc, interp):
    m = mus.get(loc)
    if m is not None:
        return m
    return entry.env.get(loc[1], UNDEF)
