"""Meaning of the builtins, numpy/scipy functions and container methods used by the analysed sources."""
import ast
import re
from fractions import Fraction

from . import terms as tm
from .terms import (T, mk, num, sym, s, fn, sel, store, ite, and_, or_, not_, truth, add, sub, mul, div, power, neg,
                    TRUE, FALSE, NONE, ZERO, ONE, FULL)

UNINIT = sym('uninitialised_memory')

CONSTS = {
    'numpy.pi': sym('pi'), 'math.pi': sym('pi'), 'scipy.pi': sym('pi'), 'scipy.constants.pi': sym('pi'),
    'numpy.inf': mk('fconst', 'inf'), 'numpy.nan': mk('fconst', 'nan'), 'math.inf': mk('fconst', 'inf'),
    'numpy.newaxis': NONE, 'numpy.e': sym('euler'), 'math.e': sym('euler'),
    'scipy.constants.c': sym('c_light'), 'scipy.constants.speed_of_light': sym('c_light'),
    'scipy.constants.e': sym('qe'), 'scipy.constants.elementary_charge': sym('qe'),
    'scipy.constants.m_e': sym('m_e'), 'scipy.constants.electron_mass': sym('m_e'),
    'scipy.constants.m_p': sym('m_p'), 'scipy.constants.proton_mass': sym('m_p'),
    'scipy.constants.epsilon_0': sym('eps0'), 'scipy.constants.mu_0': sym('mu0'), 'scipy.constants.k': sym('k_B'),
    'scipy.constants.Boltzmann': sym('k_B'),
}
# these return their argument itself, or a view of it, when it is an array already
NOCOPY = {'numpy.asarray': 'numpy.array', 'numpy.ascontiguousarray': 'numpy.array', 'numpy.asfortranarray': 'numpy.array',
          'numpy.atleast_1d': 'numpy.array', 'numpy.squeeze': 'numpy.array', 'numpy.ravel': 'numpy.array',
          'numpy.asanyarray': 'numpy.array', 'numpy.float64': 'numpy.float_', 'numpy.double': 'numpy.float_'}
ALIAS = {'numpy.absolute': 'numpy.abs', 'numpy.fabs': 'numpy.abs', 'math.fabs': 'numpy.abs',
         'math.sqrt': 'numpy.sqrt', 'libc.math.sqrt': 'numpy.sqrt', 'math.exp': 'numpy.exp', 'math.log': 'numpy.log',
         'math.sin': 'numpy.sin', 'math.cos': 'numpy.cos', 'math.tan': 'numpy.tan', 'math.floor': 'numpy.floor',
         'math.ceil': 'numpy.ceil', 'math.atan2': 'numpy.arctan2', 'math.tanh': 'numpy.tanh',
         'math.pow': 'numpy.power', 'builtins.pow': 'numpy.power',
         'numpy.around': 'numpy.round', 'numpy.round_': 'numpy.round', 'builtins.abs': 'numpy.abs',
         'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 
         
         'numpy.copy': 'numpy.array', 
         
         'builtins.float': 'numpy.float_',
         'builtins.int': 'numpy.int_', 'numpy.int64': 'numpy.int_', 'numpy.int32': 'numpy.int_',
         'builtins.bool': 'numpy.bool_', 'numpy.hstack': 'numpy.concatenate',
         'numpy.logical_not': 'numpy.invert', 'numpy.bitwise_and': 'numpy.logical_and',
         'numpy.bitwise_or': 'numpy.logical_or', 'math.isnan': 'numpy.isnan',
         'scipy.exp': 'numpy.exp', 'scipy.sqrt': 'numpy.sqrt', 'scipy.log': 'numpy.log',
         'numpy.random.random': 'numpy.random.random_sample', 'numpy.random.ranf': 'numpy.random.random_sample',
         'numpy.true_divide': 'numpy.divide', 'numpy.atan2': 'numpy.arctan2', 'math.atan': 'numpy.arctan',
         'builtins.round': 'numpy.round', 'numpy.mod': 'numpy.mod', 'numpy.remainder': 'numpy.mod',
         'numpy.nonzero': 'numpy.where', 'numpy.argwhere': 'numpy.where1', 'numpy.flatnonzero': 'numpy.where1',
         'os.path.normpath': 'os.path.normpath'}
IMPURE_EXT = {'open', 'os.remove', 'os.rename', 'os.replace', 'os.makedirs', 'os.mkdir', 'os.system', 'shutil.copy',
              'shutil.rmtree', 'shutil.move', 'shutil.copyfile', 'pickle.dump', 'scipy.io.savemat', 'subprocess.check_call',
              'subprocess.check_output', 'subprocess.call', 'os.unlink', 'os.fsync', 'h5py.File', 'numpy.save', 'numpy.savez',
              'numpy.savetxt', 'json.dump', 'numpy.random.seed', 'random.seed', 'numpy.random.set_state'}
BUILTINS = {'len', 'range', 'xrange', 'abs', 'min', 'max', 'sum', 'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set',
            'zip', 'enumerate', 'reversed', 'sorted', 'isinstance', 'hasattr', 'getattr', 'setattr', 'delattr', 'type',
            'print', 'open', 'map', 'round', 'pow', 'iter', 'next', 'filter', 'object', 'repr', 'id', 'callable', 'any',
            'all', 'vars', 'frozenset', 'complex', 'divmod', 'issubclass', 'bytes', 'ord', 'chr', 'input', 'slice', 'exec',
            'eval', 'globals', 'locals', 'compile', 'hash', 'property', 'staticmethod', 'classmethod', 'super', 'format',
            'sqrt'} - {'sqrt', 'any', 'all', 'sum', 'max', 'min', 'abs', 'round'}
PYBUILTINS = {'any', 'all', 'sum', 'max', 'min', 'abs', 'round', 'ValueError', 'RuntimeError', 'Exception', 'IOError',
              'OSError', 'AttributeError', 'KeyError', 'ImportError', 'TypeError', 'IndexError', 'NotImplementedError',
              'AssertionError', 'FileNotFoundError', 'SystemExit', 'KeyboardInterrupt', 'StopIteration', 'Warning',
              'DeprecationWarning', 'UserWarning', 'BaseException', '__file__', '__name__', 'ZeroDivisionError', 'PermissionError',
              'FileExistsError', 'NotADirectoryError', 'EOFError', 'RuntimeWarning', 'NameError', 'unicode', 'ArithmeticError',
              'FloatingPointError', 'exit', 'quit', '__import__', 'NotImplemented', 'Ellipsis', 'memoryview', 'bytearray',
              '__doc__', 'UnicodeDecodeError', 'OverflowError', 'ModuleNotFoundError', 'InterruptedError'}
STAR = set()
METHODS = {'copy', 'sum', 'mean', 'astype', 'flatten', 'ravel', 'reshape', 'tolist', 'max', 'min', 'any', 'all', 'transpose',
           'conj', 'fill', 'dot', 'squeeze', 'std', 'cumsum', 'nonzero', 'item', 'append', 'add', 'union', 'difference', 'intersection', 'extend', 'insert', 'pop', 'remove',
           'index', 'count', 'sort', 'reverse', 'keys', 'values', 'items', 'get', 'update', 'setdefault', 'format', 'join',
           'split', 'startswith', 'endswith', 'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'replace', 'iteritems', 'iterkeys',
           'itervalues', 'clip', 'round', 'argmax', 'argmin', 'has_key', 'union', 'difference', 'issubset', 'intersection',
           'repeat', 'prod', 'argsort', 'swapaxes', 'zfill', 'title', 'isdigit', 'splitlines', 'clear', 'shape', 'T', 'real',
           'imag', 'size', 'ndim', 'dtype', 'flat', 'partition', 'rsplit', 'find'}


def ext(name):
    name = re.sub(r'^np\.', 'numpy.', name)
    if name in CONSTS:
        return CONSTS[name]
    name = ALIAS.get(name, name)
    if name in CONSTS:
        return CONSTS[name]
    return mk('ext', name)


def is_str(t):
    return t.op in ('s', 'cat', 'fmt') or (t.op == 'ite' and (is_str(t.args[1]) or is_str(t.args[2])))


def cat(*parts):
    its = [i for i, p in enumerate(parts) if p.op == 'ite' and is_str(p.args[1]) and is_str(p.args[2]) and not tm.is_mask(p.args[0])]
    if its and len(its) <= 3:
        i = its[0]
        c, a, b = parts[i].args
        n = not_(c)
        return tm.ite(c, cat(*[tm.assume(p, c) for p in parts[:i]], a, *[tm.assume(p, c) for p in parts[i + 1:]]),
                      cat(*[tm.assume(p, n) for p in parts[:i]], b, *[tm.assume(p, n) for p in parts[i + 1:]]))
    out = []
    for p in parts:
        if p.op == 'cat':
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if q.op == 's' and q.args[0] == '':
                continue
            if q.op == 's' and out and out[-1].op == 's':
                out[-1] = s(out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    if not out:
        return s('')
    if len(out) == 1 and (is_str(out[0]) or out[0].op in ('sym', 'attr', 'sel', 'fn')):
        return out[0]
    return mk('cat', *out)


def fmt(v, spec, conv=None):
    if is_str(v) and spec in ('', 's'):
        return v
    if spec == 's':
        spec = ''
    if v.op == 'c' and v.args[0].denominator == 1 and spec in ('', 'd'):
        return s(str(v.args[0].numerator))
    if v.op == 'ite' and spec in ('', 'd'):
        return ite(v.args[0], fmt(v.args[1], spec), fmt(v.args[2], spec))
    if spec == 'd' and py_int(v):
        spec = ''
    if spec == '' and v.op in ('sym', 'attr', 'sel'):
        return v
    return mk('fmt', v, spec)


INT_NAMES = set()         # attributes that only ever hold integers (set by the interpreter)


def py_int(t):
    """the value is an integer object (prints without a decimal point)"""
    if t.op == 'c':
        return t.args[0].denominator == 1
    if t.op == 'fn':
        k = t.args[0]
        if k in ('int', 'len'):
            return True
        if k == 'sum':
            return tm.is_bool(t.args[1])
        if k in ('max', 'min') and len(t.args) == 2:
            return py_int_elements(t.args[1])
        if k in ('max', 'min'):
            return all(py_int(x) for x in t.args[1:])
        return False
    if t.op == 'attr':
        return t.args[1] in INT_NAMES
    if t.op == 'sym' and '.' in t.args[0]:
        return t.args[0].rsplit('.', 1)[1] in INT_NAMES
    if t.op == 'poly':
        return all(c.denominator == 1 and all(py_int(a) and e.denominator == 1 and e > 0 for a, e in m)
                   for m, c in t.args[0])
    return t.op == 'bv' or (t.op == 'sym' and t.args[0].startswith('$k'))


def py_int_elements(t):
    if t.op in ('list', 'tuple'):
        return all(py_int(x) for x in t.args)
    if t.op == 'ite':
        return py_int_elements(t.args[1]) and py_int_elements(t.args[2])
    if t.op == 'fn' and t.args[0] in ('maplist', 'map'):
        b = t.args[1].args[-1]
        return py_int_elements(b) if t.args[0] == 'maplist' else py_int(b)
    return False


def format_percent(it, st, a, b):
    if a.op == 'ite':
        return ite(a.args[0], format_percent(it, st, a.args[1], b), format_percent(it, st, a.args[2], b))
    if a.op != 's':
        return fn('format', a, it.deep(st, b))
    vals = [it.deep(st, x) for x in b.args] if b.op == 'tuple' else [it.deep(st, b)]
    parts = []
    pos = 0
    i = 0
    for m in re.finditer(r'%([-+ #0]*\d*(?:\.\d+)?[a-zA-Z%])', a.args[0]):
        parts.append(s(a.args[0][pos:m.start()]))
        pos = m.end()
        sp = m.group(1)
        if sp == '%':
            parts.append(s('%'))
            continue
        if i < len(vals):
            sp = {'s': '', 'i': 'd', 'r': 'r'}.get(sp, sp)
            parts.append(fmt(vals[i], sp))
            i += 1
    parts.append(s(a.args[0][pos:]))
    return cat(*parts)


def format_method(it, st, a, args, kwargs):
    if a.op != 's':
        return fn('format', a, *[it.deep(st, x) for x in args])
    parts = []
    pos = 0
    i = 0
    for m in re.finditer(r'\{\{|\}\}|\{([^{}:!]*)(?:!(\w))?(?::([^{}]*))?\}', a.args[0]):
        parts.append(s(a.args[0][pos:m.start()]))
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            parts.append(s(m.group(0)[0]))
            continue
        k, sp = m.group(1), m.group(3) or ''
        if k == '':
            v = args[i] if i < len(args) else NONE
            i += 1
        elif k.isdigit():
            v = args[int(k)] if int(k) < len(args) else NONE
        else:
            v = kwargs.get(k, sym('fmt:' + k))
        parts.append(fmt(it.deep(st, v), sp))
    parts.append(s(a.args[0][pos:]))
    return cat(*parts)


def numb(t):
    return t


def pow_(a, b):
    if b.op == 'c':
        return power(a, b.args[0])
    return fn('pow', a, b)


def compare(o, a, b):
    return tm.compare(o, a, b)


def contains(it, st, a, b, ref):
    if b.op == 'iter' and b.args[0] in ('keys', 'set'):
        b = it.deref(st, b.args[1])
    if b.op == 'dict':
        if a.op in ('s', 'c') and all(k.op in ('s', 'c') for k, v in b.args[0]):
            return TRUE if any(k is a for k, v in b.args[0]) else FALSE
        return or_(*[tm.compare('==', a, k) for k, v in b.args[0]]) if b.args[0] else FALSE
    if b.op in ('list', 'tuple'):
        if not b.args:
            return FALSE
        return or_(*[it.compare(st, ast.Eq(), a, x) for x in b.args if x.op not in ('star', 'optional')])
    if b.op == 's' and a.op == 's':
        return TRUE if a.args[0] in b.args[0] else FALSE
    if b.op == 'extmeth' and b.args[1] == '__dict__' and a.op == 's':
        return hasattr_(it, st, b.args[0], a)
    if b.op == 'ite':
        return tm.ite_b(b.args[0], contains(it, st, a, it.deref(st, b.args[1]), b.args[1]),
                        contains(it, st, a, it.deref(st, b.args[2]), b.args[2]))
    if b.op == 'fn' and b.args[0] in ('set', 'keysof', 'list', 'sort', 'sorted') and len(b.args) == 2:
        return contains(it, st, a, b.args[1], ref)
    if b.op == 'fn' and b.args[0] == 'maplist' and b.args[1].op == 'lam':
        e = b.args[1].args[-1]
        if e.op == 'list' and len(e.args) == 1:
            e = e.args[0]
        if e.op == 'sel' and e.args[1].op == 'bv' and e.args[0].op == 'fn' and e.args[0].args[0] in ('list', 'keysof', 'sort', 'sorted'):
            return contains(it, st, a, e.args[0], ref)
    if b.op == 'store' and b.args[1].op == 's':
        return or_(tm.compare('==', a, b.args[1]), contains(it, st, a, b.args[0], ref))
    return truth(fn('in', it.deep(st, a), it.deep(st, b)))


BOOL_MUS = set()        # loop-carried masks


def norm_index(v):
    if v in BOOL_MUS:
        return truth(v)
    if v.op == 'fn' and v.args[0] in ('where', 'widx'):
        return v.args[1]
    if v.op == 'list':
        return fn('arr', *v.args)
    if v.op == 'tuple':
        return mk('tuple', *[norm_index(x) for x in v.args])
    return v


# ------------------------------------------------------------------ lengths
@tm._memo1
def atom_len(t):
    """length of the array denoted by the pure term t"""
    if t.op in ('list', 'tuple'):
        if any(x.op in ('star', 'optional') for x in t.args):
            return mk('fn', 'len', t)
        return num(len(t.args))
    if t.op == 'dict':
        return num(len(t.args[0]))
    if t.op == 's':
        return num(len(t.args[0]))
    if t.op == 'ite' and not tm.is_mask(t.args[0]):
        return ite(t.args[0], atom_len(t.args[1]), atom_len(t.args[2]))
    if t.op == 'sel':
        b, i = t.args
        if i.op == 'slice' and i.args[2] is NONE:
            lo, hi = tm.slice_bounds(i)
            if hi is NONE:
                if lo.op == 'c' and lo.args[0] < 0:
                    return neg(lo)
                return sub(atom_len(b), lo)
            if hi.op == 'c' and hi.args[0] < 0:
                if lo.op == 'c' and lo.args[0] < 0:
                    return sub(hi, lo)
                return sub(add(atom_len(b), hi), lo)
            return sub(hi, lo)
        if tm.is_mask(i):
            return fn('sum', i)
        if i.op in ('fn', 'sym', 'sel', 'attr', 'poly') and not tm.is_scalar(i) and b.op != 'list':
            return mk('fn', 'len', t)
    if t.op == 'expand':
        return atom_len(t.args[1])
    if t.op == 'store':
        return atom_len(t.args[0])
    if t.op == 'fn':
        k = t.args[0]
        if k == 'arr':
            return num(len(t.args) - 1)
        if k in ('maplist',):
            return t.args[2] if t.args[1].args[0].op == 'list' and len(t.args[1].args[0].args) == 1 else mk('fn', 'len', t)
        if k == 'map':
            return t.args[2]
        if k == 'concat':
            return add(*[atom_len(x) for x in t.args[1:]])
        if k == 'arange' and len(t.args) == 3:
            return t.args[2]
        if k == 'widx':
            return fn('sum', t.args[1])
        if k == 'rand' and t.args[2].op not in ('tuple', 'none'):
            return t.args[2]
        if k == 'fill':
            return t.args[2] if t.args[2].op != 'tuple' else t.args[2].args[0]
        if k in ('arr', 'content', 'set', 'keysof') and k != 'arr':
            return mk('fn', 'len', t)
        if k == 'scatter':
            return atom_len(t.args[1])
        if k in tm.ELEMWISE:
            for x in t.args[1:]:
                if isinstance(x, T) and not tm.is_scalar(x):
                    return atom_len(x)
    if t.op == 'poly':
        cand = sorted({a for m, c in t.args[0] for a, e in m if not tm.is_scalar(a)}, key=lambda a: a.id)
        if cand:
            ls = [atom_len(a) for a in cand]
            # prefer the simplest description
            ls.sort(key=lambda x: (0 if x.op in ('c', 'sym', 'attr') else 1, x.id))
            return ls[0]
    if t.op == 'pbase':
        return atom_len(t.args[0])
    if t.op in ('cmp', 'and', 'or', 'not', 'truth', 'ite'):
        cand = [x for x in t.args if isinstance(x, T) and not tm.is_scalar(x)]
        if cand:
            ls = [atom_len(a) for a in cand]
            ls.sort(key=lambda x: (0 if x.op in ('c', 'sym', 'attr') else 1, x.id))
            return ls[0]
    return mk('fn', 'len', t)


def length(it, st, ref, d):
    r = ref
    if r.op == 'ref':
        sh = st.heap.get((r, '$shape'))
        if sh is not None:
            return sh.args[0] if sh.op == 'tuple' and sh.args else sh
    if r.op == 'view':
        b = r.args[0]
        i = r.args[1]
        if i.op == 'slice':
            lo, hi = tm.slice_bounds(i) or (None, None)
            if lo is not None:
                base = length(it, st, b, it.deref(st, b))
                if hi is NONE:
                    return sub(base, lo)
                if hi.op == 'c' and hi.args[0] < 0:
                    return sub(add(base, hi), lo)
                return sub(hi, lo)
    if r.op == 'ite' and it.has_ref(r):
        return ite(r.args[0], length(it, st, r.args[1], it.deref(st, r.args[1])),
                   length(it, st, r.args[2], it.deref(st, r.args[2])))
    if d.op == 'iter':
        q = it.iteration(st, d)
        return num(len(q[1])) if q[0] == 'list' else q[1]
    return fn('len', it.deep(st, d))


# ------------------------------------------------------------------ function normal forms
def _negl(t):
    """is the canonical leading coefficient negative?"""
    p = tm.to_poly(t)
    if not p:
        return False
    items = sorted(p.items(), key=lambda mc: tm._mkey(mc[0]))
    for m, c in items:
        if m:
            return c < 0
    return items[0][1] < 0


def r_abs(t):
    if t.op == 'c':
        return num(abs(t.args[0]))
    if t.op == 'fn' and t.args[0] == 'abs':
        return t
    if t.op == 'poly' and len(t.args[0]) == 1:
        (m, c), = t.args[0]
        if c != 1:
            return mul(num(abs(c)), fn('abs', tm.from_poly({m: Fraction(1)})))
        ev = [(a, e) for a, e in m if e.denominator == 1 and e % 2 == 0 or a.op == 'fn' and a.args[0] in ('abs', 'exp')
              or a.op == 'pbase' and e.denominator == 2]
        if ev:
            rest = [x for x in m if x not in ev]
            r = tm.from_poly({tuple(ev): Fraction(1)})
            return mul(r, fn('abs', tm.from_poly({tuple(rest): Fraction(1)}))) if rest else r
        if len(m) > 1:
            r = ONE
            for a, e in m:
                r = mul(r, power(fn('abs', a), e))
            return r
        return None
    if t.op == 'poly' and _negl(t):
        return fn('abs', neg(t))
    if t.op == 'fn' and t.args[0] in ('exp', 'sum') and t.args[0] == 'exp':
        return t
    if t.op == 'ite':
        return ite(t.args[0], fn('abs', t.args[1]), fn('abs', t.args[2]))
    return None


def r_exp(t):
    if t is ZERO:
        return ONE
    if t.op == 'ite':
        return ite(t.args[0], fn('exp', t.args[1]), fn('exp', t.args[2]))
    if _negl(t):
        return tm.inv(fn('exp', neg(t)))
    return None


def r_log(t):
    if t is ONE:
        return ZERO
    return None


def odd(name):
    def f(t):
        if t is ZERO:
            return ZERO
        if _negl(t):
            return neg(fn(name, neg(t)))
        return None
    return f


def even(name):
    def f(t):
        if t is ZERO:
            return ONE
        if _negl(t):
            return fn(name, neg(t))
        return None
    return f


def r_int(t):
    if t.op == 'c':
        return num(int(t.args[0]))
    if t.op == 'b':
        return ONE if t is TRUE else ZERO
    if is_int(t):
        return t
    if t.op == 'ite':
        return ite(t.args[0], fn('int', t.args[1]), fn('int', t.args[2]))
    if t.op == 'not':
        return sub(ONE, fn('int', t.args[0]))
    return None


def is_int(t):
    if t.op == 'c':
        return t.args[0].denominator == 1
    if t.op == 'fn' and t.args[0] in ('int', 'len', 'floor', 'ceil', 'round'):
        return True
    if t.op == 'fn' and t.args[0] == 'sum' and tm.is_bool(t.args[1]):
        return True
    if t.op == 'poly':
        return all(c.denominator == 1 and all(is_int(a) and e.denominator == 1 and e > 0 for a, e in m)
                   for m, c in t.args[0])
    if t.op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    if t.op == 'sym' and t.args[0] in INTSYMS:
        return True
    return False


INTSYMS = set()


def r_floor(t):
    if t.op == 'c':
        import math
        return num(math.floor(t.args[0]))
    if is_int(t):
        return t
    return None


def r_ceil(t):
    if t.op == 'c':
        import math
        return num(math.ceil(t.args[0]))
    if is_int(t):
        return t
    return None


def r_round(t, *a):
    if not a and t.op == 'c':
        return num(round(t.args[0]))
    if not a and is_int(t):
        return t
    return None


tm.MASKLEN = atom_len


def r_sum(t, *ax):
    if ax:
        return None
    if t is ZERO:
        return ZERO
    if t.op == 'tuple' or t.op == 'list' or (t.op == 'fn' and t.args[0] == 'arr'):
        els = t.args[1:] if t.op == 'fn' else t.args
        if all(x.op not in ('star', 'optional') for x in els):
            return add(*els) if els else ZERO
    if t.op == 'fn' and t.args[0] == 'maplist' and t.args[1].args[0].op == 'list' and len(t.args[1].args[0].args) == 1:
        lam = t.args[1]
        h = max(x.args[0] for x in tm.walk(lam) if x.op == 'bv') if any(x.op == 'bv' for x in tm.walk(lam)) else 1
        body = lam.args[0].args[0]
        k = sym('$ks')
        body = tm.subst(body, {mk('bv', h): k})
        return INTERP_SUM(k, t.args[2], body)
    if t.op == 'poly':
        # linear: pull scalar factors out of every monomial
        res = ZERO
        for m, c in t.args[0]:
            co = mk('c', c)
            rest = []
            for a, e in m:
                if tm.is_scalar(a):
                    co = mul(co, power(a, e))
                else:
                    rest.append((a, e))
            if not rest:
                if len(t.args[0]) == 1:
                    return None
                res = add(res, mul(co, atom_len(t)))
            else:
                res = add(res, mul(co, mk('fn', 'sum', tm.from_poly({tuple(rest): Fraction(1)}))))
        return res
    if t.op == 'ite' and tm.is_mask(t.args[0]):
        if t.args[1] is ONE and t.args[2] is ZERO:
            return mk('fn', 'sum', t.args[0])
        if t.args[1] is ZERO and t.args[2] is ONE:
            return mk('fn', 'sum', not_(t.args[0]))
        c = t.args[0]
        if t.args[2] is ZERO and not tm.is_scalar(t.args[1]):
            return fn('sum', sel(t.args[1], c))
        if t.args[1] is ZERO and not tm.is_scalar(t.args[2]):
            return fn('sum', sel(t.args[2], not_(c)))
        if t.args[2] is ZERO and tm.is_scalar(t.args[1]):
            return mul(t.args[1], mk('fn', 'sum', c))
        if t.args[1] is ZERO and tm.is_scalar(t.args[2]):
            return mul(t.args[2], mk('fn', 'sum', not_(c)))
    if t.op == 'ite' and not tm.is_mask(t.args[0]):
        return ite(t.args[0], fn('sum', t.args[1]), fn('sum', t.args[2]))
    return None


def r_len(t):
    r = atom_len(t)
    return r


def _any_item(t, f):
    """whether f holds for an element of t"""
    if t.op in ('list', 'tuple') or t.op == 'fn' and t.args[0] == 'arr':
        r = FALSE
        for x in (t.args if t.op != 'fn' else t.args[1:]):
            if x.op == 'star':
                r = or_(r, _any_item(x.args[0], f))
            elif x.op == 'optional':
                r = or_(r, and_(x.args[0], f(truth(x.args[1]))))
            else:
                r = or_(r, f(truth(x)))
        return r
    if t.op == 'ite' and not tm.is_mask(t.args[0]):
        return tm.ite_b(t.args[0], _any_item(t.args[1], f), _any_item(t.args[2], f))
    if t.op == 'fn' and t.args[0] == 'concat':
        return or_(*[_any_item(x, f) for x in t.args[1:]])
    if t.op == 'fn' and t.args[0] == 'maplist' and t.args[1].op == 'lam':
        lam = t.args[1]
        h = INTERP_HEIGHT.get(lam)
        if h is None:
            h = max([x.args[0] for x in tm.walk(lam) if x.op == 'bv'] or [1])
        k = sym('$ks')
        return INTERP_ANY(k, t.args[2], _any_item(tm.subst(lam.args[0], {mk('bv', h): k}), f))
    return tm.cmp0('>', fn('sum', f(truth(t))))


def r_any(t):
    return _any_item(t, lambda x: x)


def r_all(t):
    return not_(_any_item(t, not_))


def r_anyof(lam, n):
    return None


def r_minmax(name):
    def f(*a):
        if len(a) == 1:
            return None
        b = tuple(sorted(a, key=lambda t: t.id))
        if all(x.op == 'c' for x in b):
            return num((max if name == 'maximum' else min)(x.args[0] for x in b))
        if all(tm.plain_number(x) for x in b):
            r = b[0]
            for x in b[1:]:
                g = tm.cmp0('>', sub(r, x))
                r = ite(g, r, x) if name == 'maximum' else ite(g, x, r)
            return r
        if b == a:
            return None
        return mk('fn', name, *b)
    return f


def r_pow(a, b):
    if b.op == 'c':
        return power(a, b.args[0])
    if b.op == 'ite':
        return ite(b.args[0], fn('pow', a, b.args[1]), fn('pow', a, b.args[2]))
    return None


def r_T(t):
    if t.op == 'fn' and t.args[0] == 'T':
        return t.args[1]
    return None


def r_concat(*a):
    out = []
    arr = False
    for x in a:
        if x.op == 'fn' and x.args[0] == 'concat':
            out.extend(x.args[1:])
        elif x.op == 'list' and not x.args or x.op == 'fn' and x.args == ('arr',):
            continue
        elif x.op == 'fn' and x.args[0] == 'arr' and all(tm.is_scalar(y) for y in x.args[1:]):
            arr = True
            if out and out[-1].op == 'list':
                out[-1] = mk('list', *(out[-1].args + x.args[1:]))
            else:
                out.append(mk('list', *x.args[1:]))
        elif x.op == 'list' and out and out[-1].op == 'list':
            out[-1] = mk('list', *(out[-1].args + x.args))
        else:
            out.append(x)
    if len(out) == 1:
        return mk('fn', 'arr', *out[0].args) if arr and out[0].op == 'list' else out[0]
    if not out:
        return mk('list')
    if tuple(out) == a:
        return None
    return mk('fn', 'concat', *out)


def r_mod(a, b):
    if a.op == 'c' and b.op == 'c' and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    return None


def r_shape(t):
    return None


def r_real(t):
    return None


INTERP_SUM = None
INTERP_ANY = None
INTERP_HEIGHT = {}
_installed = [False]


def install():
    global INTERP_SUM, INTERP_ANY, INTERP_HEIGHT
    if _installed[0]:
        return
    _installed[0] = True
    R = tm.FN_REBUILD
    R.update({'abs': r_abs, 'exp': r_exp, 'log': r_log, 'sin': odd('sin'), 'tan': odd('tan'), 'tanh': odd('tanh'),
              'sinh': odd('sinh'), 'arctan': odd('arctan'), 'cos': even('cos'), 'cosh': even('cosh'), 'int': r_int,
              'floor': r_floor, 'ceil': r_ceil, 'round': r_round, 'sum': r_sum, 'len': r_len, 'any': r_any, 'all': r_all,
              'maximum': r_minmax('maximum'), 'minimum': r_minmax('minimum'), 'pow': r_pow, 'T': r_T,
              'concat': r_concat, 'mod': r_mod, 'erf': odd('erf')})
    from . import interp
    from .interp import Interp

    class _D(Interp):
        def __init__(self):
            pass

        def arrayish(self, t):
            return not tm.is_scalar(t)
    d = _D()
    INTERP_SUM = lambda k, n, g: d.sumterm(k, n, g)
    INTERP_ANY = tm.LOOP_ANY = lambda k, n, g: d.anyterm(k, n, g)
    INTERP_HEIGHT = interp.LAM_HEIGHT


def array_attr(it, st, t, name):
    d = it.deep(st, t)
    if name == 'T':
        return fn('T', d)
    if name in ('real', 'imag'):
        return fn(name, d)
    if name == 'size':
        sh = st.heap.get((t, '$shape')) if t.op == 'ref' else None
        return length(it, st, t, it.deref(st, t))
    if name == 'shape':
        sh = st.heap.get((t, '$shape')) if t.op == 'ref' else None
        if sh is not None:
            return sh if sh.op == 'tuple' else mk('tuple', sh)
        if d.op in ('sym', 'attr', 'sel') and d.op != 'sel':
            return mk('shape', d)
        return mk('tuple', length(it, st, t, it.deref(st, t)))
    return fn(name, d)


# ------------------------------------------------------------------ externals
def V(it, st, x):
    return it.arr(st, it.deep(st, x))


def rng(it, st, dist, params, size, scalar=False):
    from .interp import RNG
    params = [tm.assume(x, st.pc) for x in params]
    size = tm.assume(size, st.pc)
    if it.loopdepth:
        key = mk('tuple', s('loop'), s(dist))
    else:
        key = mk('tuple', s(dist), *params, size)
    k = (RNG, key)
    c = st.heap.get(k, ZERO)
    st.heap[k] = add(c, ONE)
    it.event('rng', st, (dist, params, size))
    if it.loopdepth:
        c = mk('tuple', s('loop'), c)
    if scalar:
        return fn('randS', s(dist), size, mk('tuple', *params), c)
    return fn('rand', s(dist), size, mk('tuple', *params), c)


def _size(it, st, x):
    if x is None or x is NONE:
        return None
    d = it.deep(st, x)
    if d.op == 'tuple' and len(d.args) == 1:
        return d.args[0]
    return d


def same_array(it, st, a):
    """is the value an array whose memory a conversion without copy would share?"""
    if a.op in ('attr', 'sym'):
        return not tm.is_scalar(a)
    return a.op == 'view' or (a.op == 'ref' and a.args[0] == 'arr')


def call_ext(it, st, name, args, kwargs):
    if name in NOCOPY:
        if len(args) == 1 and not kwargs and same_array(it, st, args[0]):
            return args[0]
        name = NOCOPY[name]
    f = EXT.get(name)
    if f is not None:
        try:
            r = f(it, st, args, kwargs)
        except (IndexError, KeyError):
            r = None
        if r is not None:
            return r
    if name.startswith('builtins.') and name[9:] in PYBUILTINS:
        return mk('exc', name[9:])
    vals = [it.deep(st, a) for a in args]
    kv = tuple(sorted((k, it.deep(st, v)) for k, v in kwargs.items()))
    short = name[9:] if name.startswith('builtins.') else name
    it.event('ext', st, (short, tuple(vals), kv))
    if short in IMPURE_EXT:
        w = mk('world')
        cur = st.heap.get((w, '$state'), mk('init', w))
        if short == 'pickle.dump' and vals:
            cur = it.with_reachable(st, vals[0], cur)
        callt = mk('call', s(short), NONE, mk('tuple', *vals), mk('tuple', *[mk('kw', k, v) for k, v in kv]), mk('tuple', cur))
        st.heap[(w, '$state')] = mk('after', callt, 0)
        return fn('ret', callt)
    if short.split('.')[-1][:1].isupper() and short.startswith('PyPIC.'):
        # an object of an external class
        return fn('ret', mk('call', s(short), NONE, mk('tuple', *vals), mk('tuple', *[mk('kw', k, v) for k, v in kv]), mk('tuple')))
    return fn('ext:' + short, *(vals + [mk('kw', k, v) for k, v in kv]))


def e1(name):
    def f(it, st, a, k):
        return fn(name, V(it, st, a[0]))
    return f


def _sqrt(it, st, a, k):
    return tm.sqrt(V(it, st, a[0]))


def _array(it, st, a, k):
    d = it.deep(st, a[0])
    if k.get('dtype') is not None and k['dtype'].op == 'ext' and k['dtype'].args[0] == 'numpy.int_':
        return fn('int', it.arr(st, d))
    if a[0].op == 'ref' and (a[0], '$shape') in st.heap:
        return it.new_array(st, it.arr(st, d), st.heap[(a[0], '$shape')])
    v = it.arr(st, d)
    if a[0].op in ('attr', 'sym') and same_array(it, st, a[0]):
        return it.new_array(st, v)
    return v


def _deepcopy(it, st, a, k):
    o = a[0]
    if o.op in ('attr', 'sym') and it.deref(st, o) is o and o.args[-1].rsplit('.', 1)[-1] not in it.arrays:
        # an object of its own in the same state
        t = it.copy_object(st, o)
        if t is not None:
            return t
    d = it.deref(st, o)
    if d.op == 'dict':
        return it.new_dict(st, d.args[0])
    if d.op == 'list':
        return it.new_list(st, d.args)
    return _array(it, st, a, k)


def _float(it, st, a, k):
    if not a:
        return ZERO
    d = V(it, st, a[0])
    if d.op == 's':
        try:
            return num(float(d.args[0]))
        except ValueError:
            return None
    return d


def _int(it, st, a, k):
    if not a:
        return ZERO
    return fn('int', V(it, st, a[0]))


def _bool(it, st, a, k):
    return truth(it.nonempty(st, it.deep(st, a[0]))) if a else FALSE


def _zeros(val):
    def f(it, st, a, k):
        sh = it.deep(st, a[0] if a else k['shape'])
        if sh.op == 'list':
            sh = mk('tuple', *sh.args)
        if sh.op == 'tuple' and len(sh.args) == 1:
            sh = sh.args[0]
        dt = k.get('dtype') or (a[1] if len(a) > 1 else None)
        v = val
        if dt is not None and dt.op == 'ext' and dt.args[0] == 'numpy.bool_':
            v = FALSE if val is ZERO else TRUE
        return it.new_array(st, v, sh)
    return f


def _zeros_like(val):
    def f(it, st, a, k):
        r = a[0]
        sh = st.heap.get((r, '$shape')) if r.op == 'ref' else None
        if sh is None:
            sh = length(it, st, r, it.deref(st, r))
        v = val
        dt = k.get('dtype') or (a[1] if len(a) > 1 else None)
        if dt is not None and dt.op == 'ext' and dt.args[0] == 'numpy.bool_':
            v = FALSE if val is ZERO else TRUE
        return it.new_array(st, v, sh)
    return f


def _full(it, st, a, k):
    return it.new_array(st, V(it, st, a[1]), it.deep(st, a[0]))


def _sum(it, st, a, k):
    ax = k.get('axis') or (a[1] if len(a) > 1 else None)
    v = V(it, st, a[0])
    if a[0].op == 'ref' and tm.is_scalar(v) and (a[0], '$shape') in st.heap:
        sh = st.heap[(a[0], '$shape')]
        if sh.op != 'tuple':
            return mul(v, sh)
    if ax is not None and ax is not NONE:
        return fn('sum', v, it.deep(st, ax))
    return fn('sum', v)


def _red(name):
    def f(it, st, a, k):
        if len(a) > 1 and 'axis' not in k and name in ('max', 'min'):
            return fn('maximum' if name == 'max' else 'minimum', *[V(it, st, x) for x in a])
        ax = k.get('axis')
        v = V(it, st, a[0])
        if ax is not None and ax is not NONE:
            return fn(name, v, it.deep(st, ax))
        if name in ('max', 'min') and v.op == 'fn' and v.args[0] == 'arr' and len(v.args) > 2:
            return fn('maximum' if name == 'max' else 'minimum', *v.args[1:])
        return fn(name, v)
    return f


def _where(it, st, a, k):
    if len(a) == 1:
        return mk('tuple', fn('widx', truth(V(it, st, a[0]))))
    return ite(truth(V(it, st, a[0])), V(it, st, a[1]), V(it, st, a[2]))


def _where1(it, st, a, k):
    return fn('widx', truth(V(it, st, a[0])))


def _logical(f_):
    def f(it, st, a, k):
        return f_(*[truth(V(it, st, x)) for x in a])
    return f


def _len(it, st, a, k):
    return length(it, st, a[0], it.deref(st, a[0]))


def _range(it, st, a, k):
    v = [it.deref(st, x) for x in a]
    if len(v) == 1:
        v = [ZERO, v[0], ONE]
    elif len(v) == 2:
        v = v + [ONE]
    return mk('iter', 'range', *v)


def _iter(kind):
    def f(it, st, a, k):
        return mk('iter', kind, *a)
    return f


def _enumerate(it, st, a, k):
    return mk('iter', 'enumerate', a[0], it.deref(st, k.get('start', a[1] if len(a) > 1 else ZERO)))


def _list(it, st, a, k):
    if not a:
        return it.new_list(st, [])
    d = it.deref(st, a[0])
    if d.op in ('list', 'tuple', 'dict', 'iter'):
        r = it.iteration(st, a[0])
        if r[0] == 'list':
            return it.new_list(st, r[1])
        kk = sym('$kl')
        q = it.alloc('list')
        e = it.deep(st, r[2](kk))
        if e.op == 'sel' and e.args[1] is kk and r[1].op == 'fn' and r[1].args[0] == 'len' \
                and (r[1].args[1] is e.args[0] or e.args[0].op == 'fn' and e.args[0].args[0] == 'keysof'
                     and e.args[0].args[1] is r[1].args[1]):
            st.heap[(q, '*')] = e.args[0]       # all the elements, in order
            return q
        st.heap[(q, '*')] = fn('maplist', it.bind(kk, mk('list', it.deep(st, r[2](kk)))), r[1])
        return q
    q = it.alloc('list')
    st.heap[(q, '*')] = d
    return q


def _tuple(it, st, a, k):
    if not a:
        return mk('tuple')
    d = it.deref(st, a[0])
    if d.op in ('list', 'tuple', 'dict', 'iter'):
        r = it.iteration(st, a[0])
        if r[0] == 'list':
            return mk('tuple', *r[1])
    return d


def _dict(it, st, a, k):
    pairs = []
    if a:
        d = it.deref(st, a[0])
        if d.op == 'dict':
            pairs = list(d.args[0])
        else:
            q = it.alloc('dict')
            st.heap[(q, '*')] = d
            return q
    for kk, v in k.items():
        if kk != '**':
            pairs = [(x, y) for x, y in pairs if x is not s(kk)] + [(s(kk), v)]
    return it.new_dict(st, pairs)


def _set(it, st, a, k):
    if not a:
        return it.new_list(st, [])
    r = None
    d = it.deref(st, a[0])
    if d.op in ('list', 'tuple', 'dict', 'iter'):
        r = it.iteration(st, a[0])
        if r[0] == 'list' and all(x.op in ('s', 'c') for x in r[1]):
            return it.new_list(st, sorted(set(r[1]), key=lambda t: str(t.args[0])))
    return fn('set', it.deep(st, d) if d.op != 'iter' else it.deep(st, it.deref(st, d.args[1])))


def _sorted(it, st, a, k):
    d = it.deref(st, a[0])
    if d.op in ('list', 'tuple', 'dict', 'iter'):
        r = it.iteration(st, a[0])
        if r[0] == 'list' and all(x.op == 's' for x in r[1]):
            return it.new_list(st, sorted(r[1], key=lambda t: t.args[0]))
    if k:
        return fn('sortedby', it.deep(st, d), *[mk('kw', x, it.deep(st, v)) for x, v in sorted(k.items())])
    return fn('sort', it.deep(st, d))


def hasattr_(it, st, o, name):
    if name.op != 's':
        return truth(fn('hasattr', o, name))
    if o.op == 'ite':
        return tm.ite_b(o.args[0], hasattr_(it, st, o.args[1], name), hasattr_(it, st, o.args[2], name))
    n = name.args[0]
    if (o, n) in st.heap:
        v = st.heap[(o, n)]
        return TRUE
    c = it.class_of(o)
    if c is not None and (c.lookup(it.p, n) is not None or c.lookup_attr(it.p, n) is not None):
        return TRUE
    if o.op == 'ref' and o.args[0] == 'inst' and not it.is_open(o) and (o, '$state') not in st.heap:
        return FALSE
    if o.op in ('none', 'c', 's'):
        return FALSE
    return truth(fn('hasattr', o, name))


def _hasattr(it, st, a, k):
    return hasattr_(it, st, a[0], it.deref(st, a[1]))


def _getattr(it, st, a, k):
    n = it.deref(st, a[1])
    if n.op == 'ite':
        return ite(n.args[0], _getattr(it, st, [a[0], n.args[1]] + a[2:], k), _getattr(it, st, [a[0], n.args[2]] + a[2:], k))
    if n.op == 's':
        if len(a) > 2:
            h = hasattr_(it, st, a[0], n)
            if h is FALSE:
                return a[2]
            if h is TRUE:
                return it.load_attr(st, a[0], n.args[0])
            return it.merge_val(h, it.load_attr(st, a[0], n.args[0]), a[2])
        return it.load_attr(st, a[0], n.args[0])
    return fn('getattr', a[0], it.deep(st, n))


def _setattr(it, st, a, k):
    n = it.deref(st, a[1])
    if n.op == 's':
        it.store_attr(st, a[0], n.args[0], a[2])
        return NONE
    it.event('setattr', st, (a[0], '[?]', it.deep(st, a[2])))
    d = it.deref(st, a[0]) if False else st.heap.get((a[0], '[?]'), mk('init', a[0]))
    st.heap[(a[0], '[?]')] = store(d, it.deep(st, n), it.deep(st, a[2]))
    return NONE


def _isinstance(it, st, a, k):
    o = a[0]
    if o.op == 'none':
        return FALSE
    if a[1].op == 'ext' and o.op in ('c', 's', 'b', 'cat'):
        t = a[1].args[0]
        if o.op in ('s', 'cat'):
            return TRUE if t == 'builtins.str' else FALSE
    if o.op == 'ref' and o.args[0] in ('list', 'dict') and a[1].op == 'ext':
        return TRUE if a[1].args[0] == 'builtins.' + o.args[0] else FALSE
    if a[1].op == 'tuple' and a[1].args:
        return tm.or_(*[_isinstance(it, st, [o, x], k) for x in a[1].args])
    if a[1].op == 'ext' and a[1].args[0] in ('builtins.str', 'builtins.list', 'builtins.dict', 'builtins.float', 'numpy.ndarray'):
        return tm.compare('is', fn('type', it.deep(st, o)), a[1])         # (no subclasses of these)
    return truth(fn('isinstance', it.deep(st, o), a[1]))


def _str(it, st, a, k):
    if not a:
        return s('')
    return fmt(it.deep(st, a[0]), '')


def _print(it, st, a, k):
    return NONE


def _open(it, st, a, k):
    return None


def _map(it, st, a, k):
    r = it.iteration(st, a[1])
    if a[0].op == 'extmeth' and a[0].args[1] == 'get' and r[0] != 'list':
        # every key of the sequence is in the dictionary ("fine")
        kk = sym('$km')
        v = it.deep(st, it.load_item(st, a[0].args[0], r[2](kk)))
        q = it.alloc('list')
        st.heap[(q, '*')] = fn('maplist', it.bind(kk, mk('list', v)), r[1])
        return q
    if r[0] == 'list':
        return it.new_list(st, [it.call(st, a[0], [x], {}) for x in r[1]])
    kk = sym('$km')
    v = it.deep(st, it.call(st, a[0], [r[2](kk)], {}))
    q = it.alloc('list')
    st.heap[(q, '*')] = fn('maplist', it.bind(kk, mk('list', v)), r[1])
    return q


def _concat(it, st, a, k):
    d = it.deref(st, a[0])
    if d.op in ('list', 'tuple'):
        parts = []
        for x in d.args:
            v = it.deep(st, x)
            parts.append(_wrapfill(it, st, x, it.arr(st, v) if v.op in ('list', 'tuple') else v))
        return fn('concat', *parts)
    return fn('concatall', it.deep(st, d))


def _wrapfill(it, st, ref, v):
    if tm.is_scalar(v):
        if ref.op == 'ref' and (ref, '$shape') in st.heap:
            return fn('fill', v, st.heap[(ref, '$shape')])
        return fn('arr', v)
    return v


def _diff(it, st, a, k):
    v = V(it, st, a[0])
    if len(a) > 2 or k or (len(a) == 2 and it.deref(st, a[1]) is not ONE):
        return _gen('diff')(it, st, a, k)
    if tm.is_scalar(v):
        return _gen('diff')(it, st, a[:1], k)
    return sub(sel(v, mk('slice', ONE, NONE, NONE)), sel(v, mk('slice', NONE, num(-1), NONE)))


def _hypot(it, st, a, k):
    return power(add(power(V(it, st, a[0]), Fraction(2)), power(V(it, st, a[1]), Fraction(2))), Fraction(1, 2))


def _select(it, st, a, k):
    c, v = it.deref(st, a[0]), it.deref(st, a[1])
    if c.op not in ('list', 'tuple') or v.op not in ('list', 'tuple') or len(c.args) != len(v.args):
        return None
    d = a[2] if len(a) > 2 else k.get('default')
    r = V(it, st, d) if d is not None else ZERO
    for x, y in reversed(list(zip(c.args, v.args))):
        r = ite(truth(V(it, st, x)), V(it, st, y), r)
    return r


def _append(it, st, a, k):
    parts = []
    if len(a) == 2 and not k:
        w, v = it.deep(st, a[0]), it.deep(st, a[1])
        if any(not tm.is_scalar(w) and sel(w, num(j)) is v for j in (0, -1)):
            # (an element of a one-dimensional array)
            return fn('concat', _wrapfill(it, st, a[0], it.arr(st, w) if w.op in ('list', 'tuple') else w), mk('list', v))
    for x in a[:2]:
        v = it.deep(st, x)
        parts.append(_wrapfill(it, st, x, it.arr(st, v) if v.op in ('list', 'tuple') else v))
    return fn('concat', *parts)


def _arange(it, st, a, k):
    v = [it.deref(st, x) for x in a]
    if len(v) == 1:
        return fn('arange', ZERO, v[0])
    if len(v) == 2 or v[2] is ONE:
        return fn('arange', v[0], sub(v[1], v[0]))
    return fn('aranges', *v)


def _linspace(it, st, a, k):
    v = [V(it, st, x) for x in a]
    if 'num' in k:
        v.append(V(it, st, k['num']))
    return fn('linspace', *v)


def _take(it, st, a, k):
    i = norm_index(it.deep(st, a[1]))
    return sel(it.deep(st, a[0]), i)


def _gen(name, *opts):
    def f(it, st, a, k):
        v = [V(it, st, x) for x in a]
        kv = [mk('kw', x, it.deep(st, y)) for x, y in sorted(k.items())]
        return fn(name, *(v + kv))
    return f


def _power(it, st, a, k):
    return pow_(V(it, st, a[0]), V(it, st, a[1]))


def _bin(f_):
    def f(it, st, a, k):
        return f_(V(it, st, a[0]), V(it, st, a[1]))
    return f


def _log10(it, st, a, k):
    return div(fn('log', V(it, st, a[0])), fn('log', num(10)))


def _rand(it, st, a, k):
    if not a:
        return rng(it, st, 'uniform', (), NONE, True)
    sz = [it.deep(st, x) for x in a]
    return rng(it, st, 'uniform', (), sz[0] if len(sz) == 1 else mk('tuple', *sz))


def _randn(it, st, a, k):
    if not a:
        return rng(it, st, 'normal', (), NONE, True)
    sz = [it.deep(st, x) for x in a]
    return rng(it, st, 'normal', (), sz[0] if len(sz) == 1 else mk('tuple', *sz))


def _random_sample(it, st, a, k):
    sz = _size(it, st, k.get('size', a[0] if a else None))
    return rng(it, st, 'uniform', (), sz if sz is not None else NONE, sz is None)


def _argk(it, st, a, k, i, name, default):
    if i < len(a):
        return it.deep(st, a[i])
    if name in k:
        return it.deep(st, k[name])
    return default


def _normal(it, st, a, k):
    loc, sc = _argk(it, st, a, k, 0, 'loc', ZERO), _argk(it, st, a, k, 1, 'scale', ONE)
    sz = _size(it, st, k.get('size', a[2] if len(a) > 2 else None))
    for p in (loc, sc):
        if sz is None and not tm.is_scalar(p) and it.arrayish(p):
            sz = length(it, st, p, p)
    r = rng(it, st, 'normal', (), sz if sz is not None else NONE, sz is None)
    return add(loc, mul(sc, r))


def _uniform(it, st, a, k):
    lo, hi = _argk(it, st, a, k, 0, 'low', ZERO), _argk(it, st, a, k, 1, 'high', ONE)
    sz = _size(it, st, k.get('size', a[2] if len(a) > 2 else None))
    for p in (lo, hi):
        if sz is None and not tm.is_scalar(p) and it.arrayish(p):
            sz = length(it, st, p, p)
    r = rng(it, st, 'uniform', (), sz if sz is not None else NONE, sz is None)
    return add(lo, mul(sub(hi, lo), r))


def _dist(name, np_):
    names = {'lognormal': ['mean', 'sigma'], 'poisson': ['lam'], 'exponential': ['scale'], 'randint': ['low', 'high'],
             'multinomial': ['n', 'pvals'], 'binomial': ['n', 'p'], 'choice': ['a']}[name]

    def f(it, st, a, k):
        ps = []
        for i, n in enumerate(names):
            ps.append(_argk(it, st, a, k, i, n, NONE))
        sz = _size(it, st, k.get('size', a[np_] if len(a) > np_ else None))
        if sz is None:
            for p in ps:
                if not tm.is_scalar(p) and it.arrayish(p):
                    sz = length(it, st, p, p)          # one value per element of the parameter
                    break
        return rng(it, st, name, tuple(ps), sz if sz is not None else NONE, sz is None)
    return f


def _slice(it, st, a, k):
    v = [it.deep(st, x) for x in a]
    if len(v) == 1:
        v = [NONE] + v
    return tm.slice_(*(v + [NONE] * (3 - len(v))))


def _type(it, st, a, k):
    o = a[0]
    if o.op in ('s', 'cat'):
        return mk('ext', 'builtins.str')
    if o.op == 'ref' and o.args[0] in ('list', 'dict'):
        return mk('ext', 'builtins.' + o.args[0])
    return fn('type', it.deep(st, a[0]))


def _clip(it, st, a, k):
    return fn('clip', *[V(it, st, x) for x in a])


def _modf(it, st, a, k):
    v = V(it, st, a[0])
    return mk('tuple', sub(v, fn('int', v)), fn('int', v))


def _allclose(name):
    return _gen(name)


def _vars(it, st, a, k):
    return mk('extmeth', a[0], '__dict__')


def _complex(it, st, a, k):
    return add(V(it, st, a[0]), mul(sym('1j'), V(it, st, a[1]) if len(a) > 1 else ZERO))


def _exit(it, st, a, k):
    from .interp import Dead
    it.event('raise', st, 'SystemExit')
    raise Dead()


EXT = {
    'numpy.abs': e1('abs'), 'numpy.exp': e1('exp'), 'numpy.log': e1('log'), 'numpy.sin': e1('sin'), 'numpy.cos': e1('cos'),
    'numpy.tan': e1('tan'), 'numpy.tanh': e1('tanh'), 'numpy.sinh': e1('sinh'), 'numpy.cosh': e1('cosh'),
    'numpy.arctan': e1('arctan'), 'numpy.arccos': e1('arccos'), 'numpy.arcsin': e1('arcsin'), 'numpy.floor': e1('floor'),
    'numpy.ceil': e1('ceil'), 'numpy.isnan': lambda it, st, a, k: truth(fn('isnan', V(it, st, a[0]))), 'numpy.sign': e1('sign'), 'numpy.real': e1('real'),
    'numpy.imag': e1('imag'), 'numpy.conj': e1('conj'), 'numpy.sqrt': _sqrt, 'numpy.array': _array, 'copy.copy': _deepcopy, 'copy.deepcopy': _deepcopy, 'numpy.float_': _float,
    'numpy.int_': _int, 'numpy.bool_': _bool, 'numpy.zeros': _zeros(ZERO), 'numpy.ones': _zeros(ONE), 'numpy.empty': _zeros(UNINIT),
    'numpy.zeros_like': _zeros_like(ZERO), 'numpy.ones_like': _zeros_like(ONE), 'numpy.empty_like': _zeros_like(UNINIT),
    'numpy.full': _full, 'numpy.sum': _sum, 'builtins.sum': _sum, 'numpy.mean': _red('mean'), 'numpy.std': _red('std'),
    'numpy.max': _red('max'), 'numpy.min': _red('min'), 'builtins.max': _red('max'), 'builtins.min': _red('min'),
    'numpy.any': lambda it, st, a, k: fn('any', V(it, st, a[0])), 'numpy.all': lambda it, st, a, k: fn('all', V(it, st, a[0])),
    'builtins.any': lambda it, st, a, k: fn('any', V(it, st, a[0])), 'builtins.all': lambda it, st, a, k: fn('all', V(it, st, a[0])),
    'numpy.count_nonzero': lambda it, st, a, k: fn('sum', truth(V(it, st, a[0]))),
    'numpy.where': _where, 'numpy.where1': _where1, 'numpy.logical_and': _logical(and_), 'numpy.logical_or': _logical(or_),
    'numpy.invert': _logical(lambda x: not_(x)), 'builtins.len': _len, 'builtins.range': _range, 'builtins.xrange': _range,
    'builtins.zip': _iter('zip'), 'builtins.reversed': _iter('reversed'), 'builtins.enumerate': _enumerate,
    'builtins.list': _list, 'builtins.tuple': _tuple, 'builtins.dict': _dict, 'builtins.set': _set, 'builtins.frozenset': _set,
    'builtins.sorted': _sorted, 'builtins.hasattr': _hasattr, 'builtins.getattr': _getattr, 'builtins.setattr': _setattr,
    'builtins.isinstance': _isinstance, 'builtins.str': _str, 'builtins.repr': _str, 'builtins.print': _print,
    'builtins.map': _map, 'numpy.concatenate': _concat, 'numpy.append': _append, 'numpy.arange': _arange,
    'numpy.linspace': _linspace, 'numpy.take': _take, 'numpy.repeat': _gen('repeat'), 'numpy.cumsum': _gen('cumsum'),
    'numpy.diff': _diff, 'numpy.hypot': _hypot, 'math.hypot': _hypot, 'numpy.select': _select, 'numpy.interp': _gen('interp'), 'numpy.arctan2': _gen('arctan2'), 'numpy.round': _gen('round'),
    'numpy.mod': _gen('mod'), 'numpy.power': _power, 'numpy.add': _bin(add), 'numpy.subtract': _bin(sub),
    'numpy.multiply': _bin(mul), 'numpy.divide': _bin(div), 'numpy.log10': _log10, 'numpy.maximum': _gen('maximum'),
    'numpy.minimum': _gen('minimum'), 'numpy.square': lambda it, st, a, k: power(V(it, st, a[0]), Fraction(2)),
    'numpy.random.rand': _rand, 'numpy.random.randn': _randn, 'numpy.random.random_sample': _random_sample,
    'numpy.random.normal': _normal, 'numpy.random.uniform': _uniform, 'numpy.random.lognormal': _dist('lognormal', 2),
    'numpy.random.poisson': _dist('poisson', 1), 'numpy.random.exponential': _dist('exponential', 1),
    'numpy.random.randint': _dist('randint', 2), 'numpy.random.choice': _dist('choice', 1),
    'numpy.random.multinomial': _dist('multinomial', 2), 'numpy.random.binomial': _dist('binomial', 2),
    'builtins.type': _type, 'builtins.slice': _slice, 'numpy.clip': _clip, 'numpy.modf': _modf, 'math.modf': _modf, 'builtins.vars': _vars,
    'builtins.complex': _complex, 'math.factorial': _gen('factorial'), 'sys.exit': _exit, 'builtins.exit': _exit,
    'scipy.special.erf': e1('erf'), 'scipy.special.erfinv': e1('erfinv'), 'scipy.special.gamma': e1('gamma'),
    'scipy.special.gammainc': _gen('gammainc'), 'scipy.special.gammaincinv': _gen('gammaincinv'),
    'scipy.special.binom': _gen('binom'), 'scipy.special.wofz': _gen('wofz'), 'numpy.float': _float, 'numpy.prod': _gen('prod'),
    'numpy.meshgrid': _gen('meshgrid'), 'numpy.sort': _gen('sort'), 'numpy.transpose': lambda it, st, a, k: fn('T', V(it, st, a[0])),
    'numpy.dot': _gen('dot'), 'numpy.cross': _gen('cross'), 'numpy.isclose': lambda it, st, a, k: truth(fn('isclose', *[V(it, st, x) for x in a])),
}
for _n in EXT:
    if _n.startswith('numpy.') and _n.count('.') == 1:
        STAR.add(('numpy', _n[6:]))


# ------------------------------------------------------------------ methods
def call_method(it, st, recv, name, args, kwargs):
    if recv.op == 'ite' and it.has_ref(recv):
        f = ite(recv.args[0], mk('extmeth', recv.args[1], name), mk('extmeth', recv.args[2], name))
        if recv.args[1].op not in ('none', 'undef') and recv.args[2].op not in ('none', 'undef'):
            c = recv.args[0]
            s1 = st.fork(and_(st.pc, c))
            s2 = st.fork(and_(st.pc, not_(c)))
            v1 = call_method(it, s1, recv.args[1], name, args, kwargs)
            v2 = call_method(it, s2, recv.args[2], name, args, kwargs)
            m = it.merge(c, s1, s2)
            st.heap = m.heap
            return it.merge_val(c, v1, v2)
    if recv.op == 'extmeth' and recv.args[1] == '__dict__':
        o = recv.args[0]
        if name == 'update' and args:
            d = it.deref(st, args[0])
            if d.op == 'dict':
                for kk, v in d.args[0]:
                    if kk.op == 's':
                        it.store_attr(st, o, kk.args[0], v)
                return NONE
            st.heap[(o, '[?]')] = fn('updated', st.heap.get((o, '[?]'), mk('init', o)), it.deep(st, d))
            return NONE
        if name in ('keys', 'items', 'values', 'copy'):
            if o.op == 'ref':
                pairs = [(s(k[1]), v) for k, v in st.heap.items() if k[0] is o and not k[1].startswith('$') and k[1] != '*']
                d = it.new_dict(st, pairs)
                return d if name == 'copy' else mk('iter', name, d)
            return fn('dictof', o, s(name))
        if name == 'get':
            return it.load_attr(st, o, it.deref(st, args[0]).args[0])
    d = it.deref(st, recv)
    if name in ('iteritems', 'iterkeys', 'itervalues'):
        name = name[4:]
    a = args
    # strings
    if is_str(d) or name in ('format', 'join', 'split', 'startswith', 'endswith', 'strip', 'rstrip', 'lstrip', 'lower', 'upper',
                             'replace', 'zfill', 'title', 'isdigit', 'splitlines', 'rsplit', 'partition', 'find'):
        if d.op == 'ite' and name != 'format' and d.args[1].op == 's' and d.args[2].op == 's':
            return ite(d.args[0], call_method(it, st, d.args[1], name, args, kwargs),
                       call_method(it, st, d.args[2], name, args, kwargs))
        if name == 'format':
            return format_method(it, st, d, a, kwargs)
        vals = [it.deep(st, x) for x in a]
        if d.op == 's' and all(x.op == 's' for x in vals):
            try:
                v = getattr(d.args[0], name)(*[x.args[0] for x in vals])
            except Exception:
                v = None
            if isinstance(v, str):
                return s(v)
            if isinstance(v, bool):
                return TRUE if v else FALSE
            if isinstance(v, (list, tuple)):
                return it.new_list(st, [s(x) for x in v])
            if isinstance(v, int):
                return num(v)
        if name == 'join' and vals:
            if vals[0].op in ('list', 'tuple'):
                parts = []
                for i, x in enumerate(vals[0].args):
                    if i:
                        parts.append(d)
                    parts.append(x)
                return cat(*parts)
        if name in ('startswith', 'endswith'):
            if d.op == 'cat' and vals and vals[0].op == 's':
                e = d.args[0] if name == 'startswith' else d.args[-1]
                if e.op == 's' and len(e.args[0]) >= len(vals[0].args[0]):
                    return TRUE if getattr(e.args[0], name)(vals[0].args[0]) else FALSE
            return truth(fn('str.' + name, d, *vals))
        return fn('str.' + name, d, *vals)
    # dictionaries
    if name in ('keys', 'values', 'items'):
        return mk('iter', name, recv)
    if name == 'get':
        if d.op == 'dict':
            k = it.deref(st, a[0])
            for x, v in d.args[0]:
                if x is k:
                    return v
            if k.op in ('s', 'c') and all(x.op in ('s', 'c') for x, v in d.args[0]):
                return a[1] if len(a) > 1 else NONE
            r = it.by_key(st, d, k, a[1] if len(a) > 1 else NONE)
            if r is not None:
                return r
        k = it.deep(st, a[0])
        c = contains(it, st, k, d, recv)
        return ite(c, it.load_item(st, recv, k), a[1] if len(a) > 1 else NONE)
    if name == 'update':
        src = it.deref(st, a[0]) if a else mk('dict', tuple((s(k), v) for k, v in kwargs.items()))
        if d.op == 'dict' and src.op == 'dict':
            pairs = list(d.args[0])
            for k, v in src.args[0]:
                pairs = [(x, y) for x, y in pairs if x is not k] + [(k, v)]
            it.setcontent(st, recv, mk('dict', tuple(pairs)))
        elif src.op == 'dict':
            for k, v in src.args[0]:
                it.store_item(st, recv, k, v)
        else:
            it.setcontent(st, recv, fn('updated', d, it.deep(st, src)))
        return NONE
    if name == 'has_key':
        return contains(it, st, it.deep(st, a[0]), d, recv)
    if name in ('union', 'difference', 'intersection'):
        return fn('ext:set.' + name, it.deep(st, recv), *[it.deep(st, x) for x in a])
    if name == 'setdefault' and d.op == 'dict':
        k = it.deref(st, a[0])
        for x, v in d.args[0]:
            if x is k:
                return v
        it.store_item(st, recv, k, a[1])
        return it.load_item(st, recv, k)
    # lists
    if name in ('append', 'add'):
        v = it.bind_value(st, a[0])
        if d.op == 'list':
            it.setcontent(st, recv, mk('list', *(d.args + (v,))))
        else:
            it.setcontent(st, recv, fn('concat', d, mk('list', v)))
        it.event('append', st, (recv, v))
        return NONE
    if name == 'extend':
        x = it.deref(st, a[0])
        r = it.iteration(st, a[0]) if x.op in ('list', 'tuple', 'iter') else ('?',)
        if d.op == 'list' and r[0] == 'list':
            it.setcontent(st, recv, mk('list', *(d.args + tuple(r[1]))))
        else:
            it.setcontent(st, recv, fn('concat', d, it.deep(st, x)))
        return NONE
    if name == 'insert' and d.op == 'list':
        i = it.deref(st, a[0])
        if i.op == 'c':
            l = list(d.args)
            l.insert(int(i.args[0]), it.bind_value(st, a[1]))
            it.setcontent(st, recv, mk('list', *l))
            return NONE
    if name == 'pop':
        i = it.deref(st, a[0]) if a else num(-1)
        if d.op == 'list' and i.op == 'c' and d.args:
            l = list(d.args)
            try:
                v = l.pop(int(i.args[0]))
            except IndexError:
                return mk('undef')
            it.setcontent(st, recv, mk('list', *l))
            return v
        if d.op == 'dict':
            for k, v in d.args[0]:
                if k is i:
                    it.setcontent(st, recv, mk('dict', tuple(x for x in d.args[0] if x[0] is not i)))
                    return v
            if len(a) > 1:
                return a[1]
        v = sel(d, i)
        it.setcontent(st, recv, fn('del', d, i))
        return v
    if name == 'remove' and d.op == 'list':
        x = it.deref(st, a[0])
        l = list(d.args)
        if x in l:
            l.remove(x)
            it.setcontent(st, recv, mk('list', *l))
            return NONE
    if name == 'reverse':
        if d.op == 'list':
            it.setcontent(st, recv, mk('list', *reversed(d.args)))
        else:
            it.setcontent(st, recv, sel(d, tm.slice_(NONE, NONE, num(-1))))
        return NONE
    if name in ('sort', 'insert', 'remove', 'clear'):
        it.setcontent(st, recv, fn('list.' + name, it.deep(st, d), *[it.deep(st, x) for x in a]))
        return NONE
    if name == 'index' and d.op in ('list', 'tuple'):
        x = it.deref(st, a[0])
        if x in d.args:
            return num(d.args.index(x))
    # arrays
    if name == 'copy':
        if recv.op == 'ref' and recv.args[0] == 'inst':
            return it.opaque(st, None, args, kwargs, recv=recv, name=name)
        if d.op == 'dict':
            return it.new_dict(st, d.args[0])
        if d.op == 'list':
            return it.new_list(st, d.args)
        r = it.new_array(st, it.deep(st, d))
        if recv.op == 'ref' and (recv, '$shape') in st.heap:
            st.heap[(r, '$shape')] = st.heap[(recv, '$shape')]
        return r
    if name in ('ravel', 'squeeze') and same_array(it, st, recv):
        return recv
    if name in ('flatten', 'ravel', 'squeeze', 'tolist'):
        return it.fresh_value(st, it.deep(st, d))
    if name == 'sum':
        return _sum(it, st, [recv] + a, kwargs)
    if name in ('mean', 'std', 'max', 'min'):
        return _red(name)(it, st, [recv], dict(kwargs, **({'axis': a[0]} if a else {})))
    if name in ('any', 'all'):
        return fn(name, V(it, st, recv))
    if name == 'astype':
        t = a[0] if a else kwargs.get('dtype')
        dv = it.deep(st, d)
        if t.op == 'ext' and t.args[0] == 'numpy.int_' or (t.op == 's' and t.args[0].startswith('int')):
            return fn('int', dv)
        if t.op == 'ext' and t.args[0] == 'numpy.bool_':
            return truth(dv)
        return it.fresh_value(st, dv)
    if name in ('transpose',):
        return fn('T', it.deep(st, d))
    if name == 'conj':
        return fn('conj', it.deep(st, d))
    if name == 'fill':
        it.setcontent(st, recv, it.deep(st, a[0]))
        return NONE
    if name == 'nonzero':
        return mk('tuple', fn('widx', truth(it.deep(st, d))))
    if name == 'item' and not a:
        return it.deep(st, d)
    if name in ('difference', 'union', 'issubset', 'intersection'):
        return fn('set.' + name, it.deep(st, d), *[it.deep(st, x) for x in a])
    if name in ('round', 'clip', 'cumsum', 'prod', 'argmax', 'argmin', 'dot', 'reshape', 'repeat', 'argsort', 'swapaxes', 'count', 'index'):
        return fn(name, it.deep(st, d), *[V(it, st, x) for x in a])
    return it.opaque(st, None, args, kwargs, recv=recv, name=name)
