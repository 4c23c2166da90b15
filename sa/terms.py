"""Hash-consed value terms with a canonical arithmetic normal form.

A term stands for the value an expression of the analysed source may take.
Arithmetic is kept as a sum of monomials with rational coefficients and
rational exponents over opaque atoms (symbols, selections, function values...),
so that two ways of writing the same formula give the same term.
Boolean terms are kept in negation normal form over canonical comparisons.
Conditional values are gated terms ite(c, a, b).
Nothing here evaluates program code on concrete inputs.
"""
import math
import random
from fractions import Fraction
from itertools import count

_intern = {}
_ids = count(1)


class T:
    __slots__ = ('op', 'args', 'id', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


CACHES = []


def _memo1(f):
    """memo table over hash-consed arguments"""
    cache = {}
    CACHES.append(cache)

    def g(*a):
        r = cache.get(a)
        if r is None and a not in cache:
            r = cache[a] = f(*a)
        return r
    g.__name__ = f.__name__
    return g


def clear_caches():
    for c in CACHES:
        c.clear()
    _assume_cache.clear()


def mk(op, *args):
    key = (op, args)
    t = _intern.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = next(_ids)
        _intern[key] = t
    return t


# ---------------------------------------------------------------- constants
def num(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, Fraction):
        return mk('c', v)
    if isinstance(v, int):
        return mk('c', Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return mk('fconst', repr(v))
        return mk('c', Fraction(repr(v)))
    if isinstance(v, complex):
        if v.real == 0:
            return mul(num(v.imag), mk('sym', '1j'))
        return add(num(v.real), mul(num(v.imag), mk('sym', '1j')))
    raise TypeError(v)


TRUE = mk('b', True)
FALSE = mk('b', False)
NONE = mk('none')
ZERO = num(0)
ONE = num(1)
HALF = num(Fraction(1, 2))


def s(x):
    return mk('s', x)


def sym(name):
    return mk('sym', name)


def is_const(t):
    return t.op == 'c'


def cval(t):
    return t.args[0]


def is_bool(t):
    return t.op in ('b', 'cmp', 'not', 'and', 'or', 'truth')


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    if t.op == 'c':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args[0])
    if t.op == 'b':
        return {(): Fraction(1)} if t.args[0] else {}
    return {((t, Fraction(1)),): Fraction(1)}


MASKLEN = None


def _complement(p):
    """N - sum(m) counts the other elements of a mask m of length N; sum(m) + sum(not m) counts all"""
    for m, c in p.items():
        if len(m) != 1 or m[0][1] != 1:
            continue
        a = m[0][0]
        if a.op != 'fn' or a.args[0] != 'sum' or len(a.args) != 2 or a.args[1].op not in ('cmp', 'not', 'and', 'or'):
            continue
        w = a.args[1]
        l = to_poly(MASKLEN(w))
        if not any(l):
            continue
        o = ((mk('fn', 'sum', not_(w)), Fraction(1)),)
        q = dict(p)
        del q[m]
        if q.get(o) == c:
            del q[o]
            for k, v in l.items():
                q[k] = q.get(k, 0) + c * v
            return q
        if all(p.get(k) == -c * v for k, v in l.items()):
            for k in l:
                q.pop(k, None)
            q[o] = q.get(o, 0) - c
            return q
    return None


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) > 1:
        q = _complement(p)
        if q is not None:
            return from_poly(q)
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return mk('c', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: _mkey(mc[0])))
    return mk('poly', items)


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    r = [(a, e) for a, e in d.items() if e != 0]
    r.sort(key=lambda ae: ae[0].id)
    return tuple(r)


def add(*ts):
    r = {}
    for t in ts:
        for m, c in to_poly(t).items():
            r[m] = r.get(m, 0) + c
    return from_poly(r)


def neg(t):
    return from_poly({m: -c for m, c in to_poly(t).items()})


@_memo1
def sub(a, b):
    return add(a, neg(b))


@_memo1
def mul(a, b):
    if a is ONE:
        return b if not is_bool(b) else b
    if b is ONE:
        return a
    if is_bool(a) and is_bool(b):
        return and_(a, b)
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) > 1 and len(pb) > 1 and len(pa) * len(pb) > 4000:
        return _fix({_mono_mul(((pbase(a), Fraction(1)),), ((pbase(b), Fraction(1)),)): Fraction(1)})
    # cancel a polynomial factor against its reciprocal
    if len(pa) > 1:
        r = _cancel(pa, a, pb)
        if r is not None:
            return r
    if len(pb) > 1:
        r = _cancel(pb, b, pa)
        if r is not None:
            return r
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return _fix(r)


def _fix(p):
    """expand pbase atoms whose exponent became a positive integer"""
    bad = None
    for m in p:
        for a, e in m:
            if a.op == 'pbase' and e >= 1:
                bad = True
    if not bad:
        return from_poly(p)
    res = {}
    for m, c in p.items():
        rest = []
        exp = []
        for a, e in m:
            if a.op == 'pbase' and e >= 1:
                k = int(e)
                if len(to_poly(a.args[0])) ** k > 600:
                    rest.append((a, e))
                    continue
                for _ in range(k):
                    exp.append(a.args[0])
                if e - k != 0:
                    rest.append((a, e - k))
            else:
                rest.append((a, e))
        t = from_poly({tuple(rest): c})
        for x in exp:
            t = mul(t, x)
        for mm, cc in to_poly(t).items():
            res[mm] = res.get(mm, 0) + cc
    return from_poly(res)


def _content(p):
    """split a polynomial into (leading coefficient, common monomial, primitive part)"""
    items = sorted(p.items(), key=lambda mc: _mkey(mc[0]))
    lead = items[0][1]
    common = None
    for m, _ in items:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(common[a], d[a]) for a in common if a in d and
                      (common[a] > 0) == (d[a] > 0)}
            # for negative exponents use the max (closest to zero)
            for a in list(common):
                if common[a] < 0:
                    common[a] = max(x.get(a, 0) for x in [dict(mm) for mm, _ in items])
                    if common[a] >= 0:
                        del common[a]
    cm = tuple(sorted(((a, e) for a, e in (common or {}).items() if e != 0), key=lambda ae: ae[0].id))
    inv = tuple((a, -e) for a, e in cm)
    prim = {}
    for m, c in items:
        prim[_mono_mul(m, inv)] = c / lead
    # normalise leading coefficient after dividing out (ordering may change)
    it2 = sorted(prim.items(), key=lambda mc: _mkey(mc[0]))
    l2 = it2[0][1]
    if l2 != 1:
        prim = {m: c / l2 for m, c in it2}
        lead = lead * l2
    return lead, cm, prim


def pbase(t):
    return mk('pbase', t)


def _cancel(pp, tt, other):
    """multi-term pp times other: if other has prim(pp)^-k in every monomial, cancel one power"""
    lead, cm, prim = _content(pp)
    base = from_poly(prim)
    if base.op != 'poly':
        return None
    pb = pbase(base)
    if not other:
        return None
    for m in other:
        d = dict(m)
        if d.get(pb, 0) >= 0:
            return None
    r = {}
    f = _mono_mul(cm, ((pb, Fraction(1)),))
    for m, c in other.items():
        mm = _mono_mul(m, f)
        r[mm] = r.get(mm, 0) + c * lead
    return _fix(r)


def inv(t):
    return power(t, Fraction(-1))


def div(a, b):
    if a is b and not is_const(b):
        return ONE
    return mul(a, inv(b))


def power(t, e):
    """t ** e with e a Fraction"""
    if e == 0:
        return ONE
    if e == 1:
        return t
    p = to_poly(t)
    if not p:
        return ZERO if e > 0 else mk('fconst', 'inf')
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            return _fix({tuple((a, x * e) for a, x in m): c ** int(e)})
        # fractional power: pull out an exact root of the coefficient
        r = _root(c, e)
        even = [1 for a, x in m if x.denominator == 1 and x.numerator % 2 == 0]
        if r is not None and not even:
            return _fix({tuple((a, x * e) for a, x in m): r})
        if c > 0 and not even:
            return mul(power(pbase(mk('c', c)), e) if r is None else mk('c', r),
                       from_poly({tuple((a, x * e) for a, x in m): Fraction(1)}))
        if c > 0 and len(m) == 1 and m[0][1] == 2 and e == Fraction(1, 2) and r is not None:
            return mul(mk('c', r), fn('abs', m[0][0]))
        return from_poly({((pbase(t), e),): Fraction(1)})
    if e.denominator == 1 and e > 0:
        if len(p) ** int(e) <= 600:
            r = t
            for _ in range(int(e) - 1):
                r = mul(r, t)
            return r
        return from_poly({((pbase(t), e),): Fraction(1)})
    if e.denominator == 1:
        lead, cm, prim = _content(p)
        base = from_poly(prim)
        res = from_poly({tuple((a, x * e) for a, x in cm): lead ** int(e)})
        if base.op != 'poly':
            return mul(res, power(base, e))
        return _fix({_mono_mul(m, ((pbase(base), e),)): c for m, c in to_poly(res).items()})
    # fractional power of a sum: keep positive rational content outside if it has an exact root
    lead, cm, prim = _content(p)
    if lead < 0:
        lead = -lead
        prim = {m: -c for m, c in prim.items()}
    base = from_poly({_mono_mul(m, cm): c for m, c in prim.items()})
    r = _root(lead, e)
    if r is None:
        return from_poly({((pbase(mk('c', lead)), e), (pbase(base), e)) if pbase(mk('c', lead)).id < pbase(base).id
                          else ((pbase(base), e), (pbase(mk('c', lead)), e)): Fraction(1)})
    return from_poly({((pbase(base), e),): r})


def _iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 2 ** 900 else None
    if r is None:
        return None
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** k == n:
            return x
    return None


def _root(c, e):
    if c <= 0:
        return None
    k = e.denominator
    a, b = _iroot(c.numerator, k), _iroot(c.denominator, k)
    if a is None or b is None:
        return None
    return Fraction(a, b) ** e.numerator


def sqrt(t):
    return power(t, Fraction(1, 2))


# ---------------------------------------------------------------- booleans
@_memo1
def truth(t):
    """condition meaning of a value"""
    if is_bool(t):
        return t
    if t.op == 'c':
        return TRUE if t.args[0] != 0 else FALSE
    if t.op == 'none':
        return FALSE
    if t.op == 's':
        return TRUE if t.args[0] else FALSE
    if t.op in ('tuple', 'list'):
        return TRUE if t.args else FALSE
    if t.op == 'dict':
        return TRUE if t.args[0] else FALSE
    if t.op == 'fn' and t.args[0] in ('maplist', 'dictof', 'keysof'):
        return cmp0('>', fn('len', t))
    if t.op == 'ite':
        return ite_b(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == 'fn' and t.args[0] == 'bool':
        return truth(t.args[1])
    if t.op == 'poly':
        return cmp0('!=', t)
    if t.op == 'cat':
        # a text is true when one of its parts is not empty
        r = FALSE
        for x in t.args:
            if x.op in ('s', 'ite'):
                r = or_(r, truth(x))
        if r is TRUE:
            return r
        if all(x.op in ('s', 'ite') for x in t.args):
            return r
    return mk('truth', t)


def _intscale(pp):
    """factor that makes the coefficients coprime integers"""
    g, l = 0, 1
    for c in pp.values():
        g = math.gcd(g, c.numerator)
        l = l * c.denominator // math.gcd(l, c.denominator)
    return Fraction(g, l)


@_memo1
def is_count(p):
    """a number that is never negative"""
    if p.op == 'fn':
        return p.args[0] == 'len' or (p.args[0] == 'sum' and len(p.args) == 2 and is_bool(p.args[1]))
    return (p.op == 'attr' and p.args[1] == 'N_mp') if len(p.args) > 1 else False


def cmp0(op, p):
    """comparison of p with zero; op in > >= == !="""
    if p.op == 'c':
        v = p.args[0]
        return TRUE if {'>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[op] else FALSE
    if p.op == 'fconst':
        if p.args[0] == 'inf':
            return TRUE if op in ('>', '>=', '!=') else FALSE
    if op in ('==', '!=') and is_count(p):
        return not_(cmp0('>', p)) if op == '==' else cmp0('>', p)
    pp = to_poly(p)
    for m in pp:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].args[0] == 'arange' and m[0][0].args[1] is ZERO \
                and m[0][0].args[2].op == 'fn' and m[0][0].args[2].args[0] == 'len':
            # (a condition on the positions of an array)
            return cmp0(op, add(sub(p, from_poly({m: pp[m]})), from_poly({((IOTA, Fraction(1)),): pp[m]})))
    if not any(pp):
        v = pp.get((), 0)
        return TRUE if {'>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[op] else FALSE
    if len(pp) <= 2:
        # a truth value compared with a constant
        ms = [m for m in pp if m]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and is_bool(ms[0][0][0]):
            k, z = pp[ms[0]], pp.get((), 0)
            t = {'>': (k + z > 0, z > 0), '>=': (k + z >= 0, z >= 0), '==': (k + z == 0, z == 0), '!=': (k + z != 0, z != 0)}[op]
            return (TRUE if t[0] else FALSE) if t[0] == t[1] else (ms[0][0][0] if t[0] else not_(ms[0][0][0]))
    items = sorted(pp.items(), key=lambda mc: _mkey(mc[0]))
    # nonconstant leading term
    lead = None
    for m, c in items:
        if m:
            lead = c
            break
    sc = _intscale(pp) if len(pp) > 1 else abs(lead)
    if op in ('==', '!='):
        if lead < 0:
            sc = -sc
        q = from_poly({m: c / sc for m, c in pp.items()})
        if op == '==':
            return mk('cmp', '==', q)
        return mk('not', mk('cmp', '==', q))
    q = from_poly({m: c / sc for m, c in pp.items()})
    if lead > 0:
        return mk('cmp', op, q)
    # express through the positive-lead polynomial: -q' > 0  <=>  not (q' >= 0)
    qn = neg(q)
    if op == '>':
        return mk('not', mk('cmp', '>=', qn))
    return mk('not', mk('cmp', '>', qn))


def _isnumlike(t):
    return t.op not in ('s', 'none', 'tuple')


def compare(op, a, b):
    if op in ('is', '=='):
        if a is b:
            return TRUE
    if op in ('is not', '!='):
        if a is b:
            return FALSE
    consts = ('s', 'none', 'tuple', 'b')
    if op in ('==', 'is', '!=', 'is not'):
        sa, sb = a.op in ('s', 'none'), b.op in ('s', 'none')
        if a.op == 'ite' and not is_const(a):
            return ite_b(a.args[0], compare(op, a.args[1], b), compare(op, a.args[2], b))
        if b.op == 'ite':
            return ite_b(b.args[0], compare(op, a, b.args[1]), compare(op, a, b.args[2]))
        if sa and sb:
            r = a is b
            return TRUE if r == (op in ('==', 'is')) else FALSE
        if (sa and b.op in ('c', 'poly', 'b', 'tuple')) or (sb and a.op in ('c', 'poly', 'b', 'tuple')):
            return FALSE if op in ('==', 'is') else TRUE
        if sa or sb or op in ('is', 'is not') and (a.op != 'b' and b.op != 'b') or 'tuple' in (a.op, b.op) or 'ext' in (a.op, b.op):
            x, y = (a, b) if a.id < b.id else (b, a)
            c = mk('cmp', 'is', x, y)
            return c if op in ('==', 'is') else not_(c)
        if a.op == 'b' or b.op == 'b':
            o, k = (b, a) if a.op == 'b' else (a, b)
            c = truth(o)
            if not k.args[0]:
                c = not_(c)
            return c if op in ('==', 'is') else not_(c)
        if is_bool(a) and is_bool(b):
            c = ite_b(a, b, not_(b))
            return c if op in ('==', 'is') else not_(c)
        return cmp0('==' if op in ('==', 'is') else '!=', sub(a, b))
    if op == '<':
        return cmp0('>', sub(b, a))
    if op == '>':
        return cmp0('>', sub(a, b))
    if op == '<=':
        return cmp0('>=', sub(b, a))
    if op == '>=':
        return cmp0('>=', sub(a, b))
    raise ValueError(op)


@_memo1
def not_(t):
    t = truth(t)
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'and':
        return or_(*[not_(x) for x in t.args])
    if t.op == 'or':
        return and_(*[not_(x) for x in t.args])
    if t.op == 'cmp' and t.args[0] in ('>', '>='):
        return mk('not', t)
    return mk('not', t)


@_memo1
def _impl(a, b):
    """does literal a imply literal b (cheap)?"""
    if a is b:
        return True
    # >p implies >=p ; not >=p implies not >p; ==p implies >=p and not >p
    if a.op == 'cmp' and b.op == 'cmp' and len(a.args) == 2 and len(b.args) == 2 and a.args[1] is b.args[1]:
        return (a.args[0], b.args[0]) in (('>', '>='), ('==', '>='))
    if a.op == 'not' and b.op == 'not':
        x, y = a.args[0], b.args[0]
        if x.op == 'cmp' and y.op == 'cmp' and len(x.args) == 2 and len(y.args) == 2 and x.args[1] is y.args[1]:
            return (x.args[0], y.args[0]) in (('>=', '>'), ('>=', '=='))
    if a.op == 'cmp' and b.op == 'not' and b.args[0].op == 'cmp':
        y = b.args[0]
        if len(a.args) == 2 and len(y.args) == 2 and a.args[1] is y.args[1]:
            return (a.args[0], y.args[0]) in (('>', '=='), ('==', '>'))
    # bounds that differ by a constant
    la, lb = _lin(a), _lin(b)
    if la and lb and la[0] is lb[0]:
        # la: (base, 'lo'/'hi', const, strict)
        _, ka, ca, sa = la
        _, kb, cb, sb = lb
        if ka == kb == 'lo':
            return ca > cb or (ca == cb and (sa or not sb))
        if ka == kb == 'hi':
            return ca < cb or (ca == cb and (sa or not sb))
    # an element of a mask is set: some element is set
    m = _anyof(b)
    if m is not None and m is a:
        return True
    if a.op == 'not':
        m = _anyof(a.args[0])
        if m is not None and not_(m) is b:
            return True
    # x == "a" implies not (x == "b")
    if a.op == 'cmp' and a.args[0] == 'is' and b.op == 'not' and b.args[0].op == 'cmp' and b.args[0].args[0] == 'is':
        xa, xb = set(a.args[1:]), set(b.args[0].args[1:])
        com = xa & xb
        if len(com) == 1:
            ra, rb = (xa - com), (xb - com)
            if ra and rb:
                ra, rb = ra.pop(), rb.pop()
                if ra.op in ('s', 'none', 'c') and rb.op in ('s', 'none', 'c') and ra is not rb:
                    return True
    if a.op == 'cmp' and a.args[0] == '==' and b.op == 'not' and b.args[0].op == 'cmp' and b.args[0].args[0] == '==':
        d = sub(a.args[1], b.args[0].args[1])
        if d.op == 'c' and d.args[0] != 0:
            return True
    return False


def _anyof(t):
    """the mask m of a condition sum(m) > 0 / any(m)"""
    if t.op == 'cmp' and t.args[0] == '>' and len(t.args) == 2:
        t = t.args[1]
        if t.op == 'fn' and t.args[0] == 'sum' and len(t.args) == 2 and t.args[1].op in ('cmp', 'not', 'and', 'or'):
            return t.args[1]
    elif t.op == 'fn' and t.args[0] == 'any' and len(t.args) == 2:
        return t.args[1]
    return None


@_memo1
def _lin(l):
    """literal over (nonconstant base + const): return (base, kind, bound, strict)"""
    n = False
    if l.op == 'not':
        n = True
        l = l.args[0]
    if l.op != 'cmp' or l.args[0] not in ('>', '>=') or len(l.args) != 2:
        return None
    p = to_poly(l.args[1])
    k = p.pop((), Fraction(0))
    if not p:
        return None
    base = from_poly(p)
    strict = (l.args[0] == '>')
    if not n:
        return (base, 'lo', -k, strict)       # base > -k
    return (base, 'hi', -k, not strict)       # not(base >= -k) -> base < -k


@_memo1
def and_(*ts):
    lits = []
    for t in ts:
        t = truth(t)
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == 'and':
            lits.extend(t.args)
        else:
            lits.append(t)
    out = []
    for l in lits:
        if l not in out:
            out.append(l)
    ss = set(out)
    for l in out:
        if not_(l) in ss:
            return FALSE
    # drop implied, detect contradictions
    if len(out) <= 40:
        keep = []
        for l in out:
            if any(k is not l and _impl(k, l) and not (_impl(l, k) and k.id > l.id) for k in out):
                continue
            keep.append(l)
        for i, a in enumerate(keep):
            na = not_(a)
            for b in keep:
                if b is not a and _impl(b, na):
                    return FALSE
        out = keep
        # unit resolution in disjunctions
        changed = True
        while changed:
            changed = False
            for l in list(out):
                if l.op == 'or':
                    others = [k for k in out if k is not l]
                    ds = []
                    sat = False
                    for d in l.args:
                        if any(_impl(k, d) for k in others):
                            sat = True
                            break
                        nd = not_(d)
                        if any(_impl(k, nd) for k in others):
                            continue
                        ds.append(d)
                    if sat:
                        out.remove(l)
                        changed = True
                    elif len(ds) != len(l.args):
                        out.remove(l)
                        return and_(*(out + [or_(*ds)]))
        # operands of one comparison gated by another
        for l in out:
            if l.op == 'cmp' and gated(l):
                others = tuple(k for k in out if k is not l)
                lm = 0
                for k in others:
                    lm |= own_mask(k)
                r = _assume(l, others, {}, lm)
                if r is not l:
                    return and_(*(others + (r,)))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('and', *out)


@_memo1
def gated(t):
    """does a gate occur in t outside of opaque operations?"""
    return t.op == 'ite' or not is_barrier(t) and any(gated(x) for x in subterms(t))


@_memo1
def or_(*ts):
    lits = []
    for t in ts:
        t = truth(t)
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        if t.op == 'or':
            lits.extend(t.args)
        else:
            lits.append(t)
    out = []
    for l in lits:
        if l not in out:
            out.append(l)
    ss = set(out)
    for l in out:
        if not_(l) in ss:
            return TRUE
    if len(out) <= 40:
        keep = []
        for l in out:
            if any(k is not l and _impl(l, k) and not (_impl(k, l) and k.id > l.id) for k in out):
                continue
            keep.append(l)
        for a in keep:
            na = not_(a)
            for b in keep:
                if b is not a and _impl(na, b):
                    return TRUE
        out = keep
        # (a and b) or (a and not b) -> a ; a or (not a and b) -> a or b
        for i, x in enumerate(out):
            if x.op == 'and':
                for y in out:
                    if y is x:
                        continue
                    ny = not_(y)
                    if ny in x.args:
                        rest = [z for z in x.args if z is not ny]
                        return or_(*([o for o in out if o is not x] + [and_(*rest)]))
                    if y.op == 'and' and len(y.args) == len(x.args):
                        dx = [z for z in x.args if z not in y.args]
                        dy = [z for z in y.args if z not in x.args]
                        if len(dx) == 1 and len(dy) == 1 and dx[0] is not_(dy[0]):
                            rest = [z for z in x.args if z is not dx[0]]
                            return or_(*([o for o in out if o is not x and o is not y] + [and_(*rest)]))
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('or', *out)


def ite_b(c, a, b):
    c = truth(c)
    a, b = truth(a), truth(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return or_(and_(c, a), and_(not_(c), b))


def literals(c):
    """conjuncts of a condition"""
    if c is TRUE:
        return ()
    if c.op == 'and':
        return c.args
    return (c,)


# ---------------------------------------------------------------- gated values
@_memo1
def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return ite_b(c, a, b)
    if a.op == 'store' and b.op == 'store' and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
        return store(a.args[0], a.args[1], ite(c, a.args[2], b.args[2]))
    a = assume(a, c)
    b = assume(b, not_(c))
    if a is b:
        return a
    for l in literals(c):
        m = _anyof(l)
        if m is not None and assume(a, not_(m)) is assume(b, not_(m)):
            return ite(and_(*[x for x in literals(c) if x is not l]), a, b)
    if c.op == 'cmp' and c.args[0] == 'is' and len(c.args) == 3:
        for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
            if y.op == 's' and x.op in ('sel', 'bv', 'sym') and x is not a:
                a = named(a, x, y)
        if (a is c.args[1] and b is c.args[2]) or (a is c.args[2] and b is c.args[1]):
            return b                      # x == v ? v : x
    if c.op == 'not' or (c.op == 'or' and all(x.op == 'not' for x in c.args)):
        c, a, b = not_(c), b, a
    elif c.op in ('or', 'and'):
        n = not_(c)
        if n.id < c.id and not (n.op == 'not' or (n.op == 'or' and all(x.op == 'not' for x in n.args))):
            c, a, b = n, b, a
    if c.op == 'cmp' and c.args[0] == '>' and a.op == 'fn':
        # n > 0 ? head + [f(k) for k in range(n)] : head
        last = a.args[-1] if a.args[0] == 'concat' else a
        if last.op == 'fn' and last.args[0] == 'maplist' and last.args[2] is c.args[1] and last.args[2].op == 'fn' \
                and last.args[2].args[0] == 'len':
            head = fn('concat', *a.args[1:-1]) if a.args[0] == 'concat' else mk('list')
            if head is b or (a.args[0] == 'concat' and len(a.args) == 3 and a.args[1] is b):
                return a
    if c.op == 'cmp' and c.args[0] == '>=' and len(c.args) == 2 and plain_number(a) and plain_number(b):
        # x >= y ? x : y  ==  x > y ? x : y
        q = cmp0('>=', sub(a, b))
        if q.op == 'not':
            q = q.args[0]
        if q is c or (q.op == 'cmp' and q.args[1:] == c.args[1:] and q.args[0] in ('>', '>=')):
            return ite(mk('cmp', '>', c.args[1]), a, b)
    if a.op in ('poly', 'attr', 'fn', 'sym', 'rv') and b.op in ('poly', 'attr', 'fn', 'sym', 'rv') and (a.op == 'poly' or b.op == 'poly') \
            and not is_mask(c):
        k = to_poly(sub(a, b))
        if all(not m or (len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].args[0] == 'int' and is_bool(m[0][0].args[1]))
               for m in k):
            # n + (c ? 1 : 0)
            if len(k) == 2 and () in k and all(v == -k[()] for m, v in k.items() if m):
                # n + (c ? 1 - int(p) : 0)
                p = [m[0][0].args[1] for m in k if m][0]
                return add(b, mul(num(k[()]), int_of(and_(c, not_(p)))))
            if len(k) == 1:
                return add(b, *[mul(num(v), int_of(and_(c, m[0][0].args[1]) if m else c)) for m, v in k.items()])
    # merge ite(c1, ite(c2, x, y), y) -> ite(c1&c2, x, y)
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == 'ite' and a.args[1] is b:
        return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == 'ite' and b.args[2] is a:
        return ite(or_(c, not_(b.args[0])), a, b.args[1])
    return mk('ite', c, a, b)


def int_of(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == 'not':
        return sub(ONE, fn('int', c.args[0]))
    return fn('int', c)


def plain_number(t):
    return t.op in ('poly', 'c', 'sym', 'attr', 'sel', 'fn', 'rv', 'ite', 'bv')


_has_ite_cache = {}


def has_cond(t):
    r = _has_ite_cache.get(t)
    if r is None:
        r = t.op in ('ite', 'cmp', 'not', 'and', 'or', 'truth')
        if not r:
            for x in subterms(t):
                if has_cond(x):
                    r = True
                    break
        _has_ite_cache[t] = r
    return r


def subterms(t):
    """direct children that are terms"""
    if t.op == 'poly':
        for m, c in t.args[0]:
            for a, e in m:
                yield a
        return
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    yield b
                elif isinstance(b, tuple):      # items of a dictionary
                    for c in b:
                        if isinstance(c, T):
                            yield c


def walk(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(subterms(x))


_assume_cache = {}


_cmask = {}
_ckeys = {}


def _ckey(k):
    n = _ckeys.get(k)
    if n is None:
        n = _ckeys[k] = 1 << len(_ckeys)
    return n


def cmask(t):
    """bit set of the comparison subjects occurring in t (literals with disjoint sets cannot decide each other)"""
    r = _cmask.get(t)
    if r is not None:
        return r
    r = 0
    op = t.op
    if op == 'cmp':
        if t.args[0] == 'is':
            for x in t.args[1:]:
                if x.op not in ('s', 'none', 'c', 'b'):
                    r |= _ckey(x)
        else:
            for x in t.args[1:]:
                q = to_poly(x)
                if () in q:
                    q = dict(q)
                    q.pop((), None)
                r |= _ckey(from_poly(q))
    elif op == 'truth':
        r = _ckey(t)
    for x in subterms(t):
        r |= cmask(x)
    if op in ('not', 'and', 'or') and not r:
        r = _ckey(t)
    _cmask[t] = r
    return r


def assume(t, cond, past=False):
    """simplify t knowing cond holds (past: in the arguments of past effects too)"""
    if cond is TRUE or not has_cond(t) or not (cmask(t) & own_mask(cond)):
        return t
    key = (t, cond, past)
    r = _assume_cache.get(key)
    if r is None:
        lits = literals(cond)
        r = _assume(t, lits, {}, own_mask(cond), past)
        _assume_cache[key] = r
    return r


_omask = {}


def own_mask(c):
    """comparison subjects of a condition itself (not those inside its operands)"""
    r = _omask.get(c)
    if r is None:
        if c.op in ('not', 'and', 'or'):
            r = 0
            for x in c.args:
                r |= own_mask(x)
        elif c.op == 'cmp':
            r = 0
            if c.args[0] == 'is':
                for x in c.args[1:]:
                    if x.op not in ('s', 'none', 'c', 'b'):
                        r |= _ckey(x)
            else:
                for x in c.args[1:]:
                    q = to_poly(x)
                    if () in q:
                        q = dict(q)
                        q.pop((), None)
                    r |= _ckey(from_poly(q))
        else:
            r = _ckey(c) if c.op == 'truth' else cmask(c)
        _omask[c] = r
    return r


def _lit_val(t, lits):
    for l in lits:
        if _impl(l, t):
            return TRUE
        n = not_(t)
        if _impl(l, n):
            return FALSE
    return None


def _assume(t, lits, memo, lm, past=False):
    if not (cmask(t) & lm):
        return t
    if t in memo:
        return memo[t]
    r = t
    if not past and t.op == 'call' and len(t.args) > 4 and t.args[4].args:
        memo[t] = t
        return t                  # a past effect: its arguments are not rewritten
    if t.op in ('cmp', 'truth'):
        v = _lit_val(t, lits)
        if v is not None:
            r = v
        else:
            r = rebuild(t, lambda x: _assume(x, lits, memo, lm, past))
    elif t.op == 'not':
        r = not_(_assume(t.args[0], lits, memo, lm, past))
    elif t.op in ('and', 'or'):
        v = None
        for l in lits:
            if l is t:
                v = TRUE
            elif l.op in ('and', 'or', 'not') and not_(l) is t:
                v = FALSE
        if v is None:
            f = and_ if t.op == 'and' else or_
            r = f(*[_assume(x, lits, memo, lm, past) for x in t.args])
            if r.op == 'and':
                r = _resolve(r, lits)
            elif r.op == 'or' and any(l.op == 'or' for l in lits):
                r = not_(_resolve(not_(r), lits))
        else:
            r = v
    elif t.op == 'ite':
        c = _assume(t.args[0], lits, memo, lm, past)
        if c.op not in ('b',) and any(l.op == 'or' and own_mask(l) & own_mask(c) for l in lits):
            # the alternatives of a disjunction are decided branch by branch
            bs = []
            for cc, x in ((c, t.args[1]), (not_(c), t.args[2])):
                cond = and_(cc, *lits)
                l2 = literals(cond)
                if cond is FALSE:
                    bs.append(None)
                elif set(l2) - set(lits) == set(literals(cc)):
                    bs.append(_assume(x, lits, memo, lm, past))
                else:
                    bs.append(assume(x, cond, past))
            if bs[0] is None or bs[1] is None:
                r = bs[0] if bs[1] is None else bs[1]
            else:
                r = ite(c, bs[0], bs[1])
            memo[t] = r
            return r
        if c is TRUE:
            r = _assume(t.args[1], lits, memo, lm, past)
        elif c is FALSE:
            r = _assume(t.args[2], lits, memo, lm, past)
        else:
            r = ite(c, _assume(t.args[1], lits, memo, lm, past), _assume(t.args[2], lits, memo, lm, past))
    elif has_cond(t):
        if is_barrier(t):
            sl = tuple(l for l in lits if is_scalar(l))
            if sl == tuple(lits):
                r = rebuild(t, lambda x: _assume(x, lits, memo, lm, past))
            elif sl:
                m2 = {}
                r = rebuild(t, lambda x: _assume(x, sl, m2, lm, past))
        else:
            r = rebuild(t, lambda x: _assume(x, lits, memo, lm, past))
    memo[t] = r
    return r


def _resolve(t, lits):
    """drop the conjuncts that follow from the others and a known disjunction"""
    for l in lits:
        if l.op != 'or' or t.op != 'and':
            continue
        for k in t.args:
            if k in l.args and all(d is k or any(o is not k and _impl(o, not_(d)) for o in t.args) for d in l.args):
                t = and_(*[o for o in t.args if o is not k])
                break
            if k.op == 'or' and set(l.args) <= set(k.args):
                t = and_(*[o for o in t.args if o is not k])
                break
    return t


def is_barrier(t):
    """do conditions on array elements lose their meaning below this node?"""
    if t.op in ('poly', 'pbase', 'ite', 'cmp', 'not', 'and', 'or', 'truth', 'tuple', 'list'):
        return False
    if t.op == 'fn' and t.args[0] in ELEMWISE:
        return False
    return True


@_memo1
def max_bound(t):
    return max((x.args[-1] for x in walk(t) if x.op in ('bv', 'rv')), default=0)


@_memo1
def min_bound(t):
    return min((x.args[-1] for x in walk(t) if x.op in ('bv', 'rv')), default=0)


LOOP_ANY = None
UNDEFINED = mk('undef')


def searched(n, inits, whole, h):
    """a loop that ends at the first position with a property: whether there is one, and a value that depends on that only"""
    m = len(inits.args)
    rv = {x.args[0] for x in walk(whole) if x.op == 'rv' and x.args[1:] == (h,)}
    if n.op == 'none' or rv - {0} or m > 2:
        return None
    b = m - 1
    c = whole.args[b]
    if inits.args[b] is not FALSE or not is_bool(c) or any(x.op == 'rv' and x.args[1:] == (h,) for x in walk(c)):
        return None
    k, bv = sym('$kf'), mk('bv', h)
    f = whole.args[0]
    if m == 2 and f is not c:
        if assume(f, not_(c)) is not mk('rv', 0, h) and inits.args[0] is not UNDEFINED:
            return None
        v = assume(f, c)
        if any(x is bv or x.op == 'rv' and x.args[1:] == (h,) for x in walk(v)) or max_bound(v) >= h:
            return None
        return ite(LOOP_ANY(k, n, subst(c, {bv: k})), v, inits.args[0])
    if m == 1 and any(x.op == 'rv' and x.args[1:] == (h,) for x in walk(f)):
        return None
    return LOOP_ANY(k, n, subst(c, {bv: k}))


def r_loop(n, inits, whole, h):
    """a variable a recurrence never changes keeps its initial value"""
    if h.op != 'c' or whole.op != 'tuple' or inits.op != 'tuple' or len(whole.args) != len(inits.args) + 1:
        return None
    h = h.args[0]
    m = len(inits.args)
    r = searched(n, inits, whole, h)
    if r is not None:
        return r
    if whole.args[0] is mk('rv', 0, h):
        return inits.args[0]
    same = {j for j in range(1, m) if whole.args[j] is mk('rv', j, h) and max_bound(inits.args[j]) < h}
    if not same:
        return None
    keep = [j for j in range(m) if j not in same]
    ren = {mk('rv', j, h): inits.args[j] for j in same}
    ren.update({mk('rv', j, h): mk('rv', i, h) for i, j in enumerate(keep)})
    bodies = [subst(whole.args[j], ren) for j in keep + [m]]
    reach, work = set(), [0] + [i for i, j in enumerate(keep) if inits.args[j].op == 'b']
    if n.op == 'none':
        work += [x.args[0] for x in walk(bodies[-1]) if x.op == 'rv' and x.args[1] == h]
    while work:
        i = work.pop()
        if i not in reach:
            reach.add(i)
            work += [x.args[0] for x in walk(bodies[i]) if x.op == 'rv' and x.args[1] == h]
    order = sorted(reach)
    ren = {mk('rv', i, h): mk('rv', k, h) for k, i in enumerate(order)}
    return mk('fn', 'loop', n, mk('tuple', *[inits.args[keep[i]] for i in order]),
              mk('tuple', *[subst(bodies[i], ren) for i in order + [len(keep)]]), mk('c', Fraction(h)))


FN_REBUILD = {'loop': r_loop}


@_memo1
def fn(name, *args):
    f = FN_REBUILD.get(name)
    if f is not None:
        r = f(*args)
        if r is not None:
            return r
    return mk('fn', name, *args)


def rebuild(t, f):
    """rebuild t with children mapped through f"""
    op = t.op
    if op in ('c', 'b', 's', 'none', 'sym', 'fconst'):
        return t
    if op == 'poly':
        res = {}
        changed = False
        parts = []
        for m, c in t.args[0]:
            nm = []
            ch = False
            for a, e in m:
                na = f(a)
                if na is not a:
                    ch = True
                nm.append((na, e))
            if ch:
                changed = True
                x = mk('c', c)
                for a, e in nm:
                    x = mul(x, power(a, e))
                parts.append(x)
            else:
                res[m] = c
        if not changed:
            return t
        return add(from_poly(res), *parts)
    if op == 'pbase':
        na = f(t.args[0])
        if na is t.args[0]:
            return t
        return na
    if op == 'cmp':
        na = [f(x) for x in t.args[1:]]
        if all(x is y for x, y in zip(na, t.args[1:])):
            return t
        if t.args[0] == 'is':
            return compare('==', na[0], na[1])
        return cmp0(t.args[0], na[0])
    if op in ('not', 'and', 'or', 'truth', 'ite'):
        na = [f(x) for x in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            return t
        return not_(*na) if op == 'not' else and_(*na) if op == 'and' else or_(*na) if op == 'or' \
            else truth(*na) if op == 'truth' else ite(*na)
    if op == 'fn':
        na = [f(x) if isinstance(x, T) else x for x in t.args[1:]]
        if all(x is y for x, y in zip(na, t.args[1:])):
            return t
        return fn(t.args[0], *na)
    if op == 'sel':
        a, i = f(t.args[0]), f(t.args[1])
        if a is t.args[0] and i is t.args[1]:
            return t
        return sel(a, i)
    if op == 'store':
        na = [f(x) for x in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            return t
        return store(*na)
    def arg(x):
        return f(x) if isinstance(x, T) else tuple(map(arg, x)) if isinstance(x, tuple) else x
    na = tuple(map(arg, t.args))
    if na == t.args:
        return t
    return mk(op, *na)


def subst(t, mapping, memo=None):
    """replace atoms (by identity) and renormalise"""
    if memo is None:
        memo = {}

    def go(x):
        if x in mapping:
            return mapping[x]
        if x in memo:
            return memo[x]
        r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def named(a, x, y):
    """a where x is the string y"""
    w = list(walk(a))
    if x not in w or any(t.op in ('store', 'undef') for t in w):
        return a
    return subst(a, {x: y})


# ---------------------------------------------------------------- arrays
ELEMWISE = {'exp', 'log', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'arctan2', 'arctan', 'arcsin', 'arccos',
            'abs', 'floor', 'ceil', 'round', 'int', 'isnan', 'pow', 'sign', 'real', 'imag', 'conj', 'mod',
            'erf', 'erfinv', 'gammainc', 'gammaincinv', 'bool', 'fdiv', 'minimum', 'maximum', 'clip', 'float',
            'logical_xor', 'gamma', 'dint'}

SCALAR_HOOK = [lambda t: False]
ARRAY_HOOK = [lambda t: False]


@_memo1
def is_scalar(t):
    if t.op == 'iota':
        return False
    if t.op in ('c', 'b', 's', 'none', 'fconst', 'ext'):
        return True
    if t.op == 'poly':
        return all(is_scalar(a) for m, _ in t.args[0] for a, e in m)
    if t.op == 'pbase':
        return is_scalar(t.args[0])
    if t.op == 'fn':
        if t.args[0] in ('len', 'sum', 'max', 'min', 'any', 'all', 'mean', 'std', 'randS', 'size', 'type', 'in', 'hasattr', 'isinstance', 'callable',
                         'startswith', 'endswith'):
            return True
        if t.args[0] in ELEMWISE or t.args[0] == 'ini':
            return all(is_scalar(x) for x in t.args[1:])
    if t.op in ('cmp',):
        return t.args[0] == 'is' or all(is_scalar(x) for x in t.args[1:])
    if t.op in ('and', 'or', 'not', 'truth'):
        return all(is_scalar(x) for x in t.args)
    if t.op == 'ite':
        return all(is_scalar(x) for x in t.args)
    return SCALAR_HOOK[0](t)


@_memo1
def is_mask(t):
    """boolean, array-valued index"""
    if is_bool(t):
        return t.op != 'b' and not is_scalar(t)
    if t.op == 'fn' and t.args[0] == 'bool':
        return True
    return False


def slice_(lo, hi, step=NONE):
    if lo is ZERO:
        lo = NONE
    return mk('slice', lo, hi, step)


FULL = mk('slice', NONE, NONE, NONE)


IOTA = mk('iota')


def region(idx):
    """slice with unit step and non-negative bounds as a condition on the element position"""
    if idx.op != 'slice' or idx.args[2] is not NONE:
        return None
    lo, hi = idx.args[0], idx.args[1]
    cs = []
    for b in (lo, hi):
        if b is not NONE:
            if not isinstance(b, T) or b.op in ('s', 'slice', 'tuple'):
                return None
            if b.op == 'c' and b.args[0] < 0:
                return None
            if b.op == 'poly' and len(b.args[0]) == 1 and b.args[0][0][1] < 0:
                return None
    if lo is not NONE and lo is not ZERO:
        cs.append(cmp0('>=', sub(IOTA, lo)))
    if hi is not NONE:
        cs.append(cmp0('>', sub(hi, IOTA)))
    return and_(*cs)


@_memo1
def region_slice(c):
    """inverse of region()"""
    lo = hi = NONE
    for l in literals(c):
        n = l.op == 'not'
        x = l.args[0] if n else l
        if x.op != 'cmp' or len(x.args) != 2 or x.args[0] not in ('>', '>='):
            return None
        p = to_poly(x.args[1])
        co = p.get(((IOTA, Fraction(1)),))
        if co is None or abs(co) != 1:
            return None
        q = dict(p)
        del q[((IOTA, Fraction(1)),)]
        rest = from_poly(q)
        if any(y is IOTA for y in walk(rest)):
            return None
        strict = (x.args[0] == '>') != n
        up = (co > 0) != n          # iota > / >= bound
        # co*iota + rest OP 0
        bound = neg(rest) if co > 0 else rest
        if up:
            if lo is not NONE:
                return None
            lo = add(bound, ONE) if strict else bound
        else:
            if hi is not NONE:
                return None
            hi = bound if strict else add(bound, ONE)
    return slice_(lo, hi)


@_memo1
def sel(t, idx):
    if idx.op == 'tuple' and len(idx.args) > 1 and idx.args[-1] is FULL and not any(x.op == 'ellipsis' for x in idx.args):
        # trailing full slices add nothing
        k = len(idx.args)
        while k > 1 and idx.args[k - 1] is FULL:
            k -= 1
        return sel(t, idx.args[0] if k == 1 else mk('tuple', *idx.args[:k]))
    if idx is FULL or idx.op == 'ellipsis':
        return t
    if t is IOTA:
        b = slice_bounds(idx)
        if b and not (b[0].op == 'c' and b[0].args[0] < 0):
            return add(IOTA, b[0])
        return mk('sel', t, idx)
    if is_bool(idx) and idx.op in ('cmp', 'not', 'and'):
        rs = region_slice(idx)
        if rs is not None:
            return sel(t, rs)
    if idx.op == 'slice' and has_cond(t) and t.op in ('ite', 'cmp', 'and', 'or', 'not', 'truth', 'poly', 'pbase', 'fn'):
        rg = region(idx)
        if rg is not None:
            t = assume(t, rg)
    if t.op == 'sel' and t.args[1].op == 'slice' and is_mask(idx):
        rg = region(t.args[1])
        if rg is not None:
            w = unsel(idx, t.args[1])
            if not any(x.op == 'expand' for x in walk(w)):
                return sel(t.args[0], and_(rg, w))
    if idx.op == 's' and t.op != 'ite':
        return mk('sel', t, idx)
    if t.op == 'sel' and t.args[1].op == 'slice' and (idx.op == 'bv' or idx.op == 'sym' and idx.args[0].startswith('$k')):
        # (a position in a loop over the slice)
        b = slice_bounds(t.args[1])
        if b and not (b[0].op == 'c' and b[0].args[0] < 0):
            return sel(t.args[0], add(b[0], idx))
    if is_scalar(t) and not (t.op in ('s',)):
        return t
    if t.op == 'poly':
        r = ZERO
        for m, c in t.args[0]:
            x = mk('c', c)
            for a, e in m:
                x = mul(x, power(sel(a, idx), e))
            r = add(r, x)
        return r
    if t.op == 'pbase':
        return sel(t.args[0], idx)
    if t.op == 'fn' and t.args[0] in ELEMWISE:
        return fn(t.args[0], *[sel(x, idx) for x in t.args[1:]])
    if is_mask(idx) and has_cond(t) and t.op in ('ite', 'cmp', 'and', 'or', 'not', 'truth'):
        t2 = assume(t, idx)
        if t2 is not t:
            return sel(t2, idx)
    if t.op == 'ite':
        return ite(sel(t.args[0], idx), sel(t.args[1], idx), sel(t.args[2], idx))
    if t.op == 'cmp':
        if t.args[0] == 'is':
            return mk('sel', t, idx)
        return cmp0(t.args[0], sel(t.args[1], idx))
    if t.op == 'not':
        return not_(sel(t.args[0], idx))
    if t.op == 'and':
        return and_(*[sel(x, idx) for x in t.args])
    if t.op == 'or':
        return or_(*[sel(x, idx) for x in t.args])
    if t.op == 'truth':
        return truth(sel(t.args[0], idx))
    if t.op == 'expand' and t.args[1] is idx:
        return t.args[0]
    if t.op == 'fn' and t.args[0] == 'arr':      # literal array
        if idx.op == 'c' and idx.args[0].denominator == 1:
            i = int(idx.args[0])
            els = t.args[1:]
            if -len(els) <= i < len(els):
                return els[i]
    if t.op == 'tuple' and idx.op == 'c':
        i = int(idx.args[0])
        if -len(t.args) <= i < len(t.args):
            return t.args[i]
    if t.op == 'store':
        a, i, v = t.args
        if i is idx:
            return v
        if disjoint(i, idx):
            return sel(a, idx)
        if contains(i, idx):
            # idx inside i : v sub-selected with shifted bounds
            if is_scalar(v):
                return v
            sh = shift(idx, i)
            if sh is not None:
                return sel(v, sh)
    if t.op == 'sel' and t.args[1].op == 'slice' and idx.op == 'slice':
        c = compose(t.args[1], idx)
        if c is not None:
            return sel(t.args[0], c)
    return mk('sel', t, idx)


def _b(x, default):
    return default if x is NONE else x


def slice_bounds(i):
    if i.op != 'slice' or i.args[2] is not NONE:
        return None
    lo = _b(i.args[0], ZERO)
    hi = i.args[1]
    return lo, hi


def disjoint(i, j):
    bi, bj = slice_bounds(i), slice_bounds(j)
    if bi and bj:
        if bi[1] is not NONE and bi[1] is bj[0]:
            return True
        if bj[1] is not NONE and bj[1] is bi[0]:
            return True
    if i.op == 'c' and j.op == 'c' and i is not j:
        return True
    if i.op == 's' and j.op == 's' and i is not j:
        return True
    if i.op == 'tuple' and j.op == 'tuple' and len(i.args) == len(j.args):
        return any(disjoint(a, b) for a, b in zip(i.args, j.args))
    if i.op not in ('slice', 'tuple') and j.op not in ('slice', 'tuple') and not is_mask(i) and not is_mask(j):
        d = sub(i, j)
        if d.op == 'c' and d.args[0] != 0 and is_scalar(i) and is_scalar(j):
            return True
    return False


def contains(outer, inner):
    bo, bi = slice_bounds(outer), slice_bounds(inner)
    if bo and bi:
        lo_ok = bo[0] is bi[0] or bo[0] is ZERO
        hi_ok = bo[1] is bi[1] or bo[1] is NONE
        return lo_ok and hi_ok
    return False


def shift(inner, outer):
    bo, bi = slice_bounds(outer), slice_bounds(inner)
    lo = sub(bi[0], bo[0])
    hi = NONE if bi[1] is NONE else sub(bi[1], bo[0])
    if bi[1] is bo[1]:
        hi = NONE
    return slice_(lo, hi)


def compose(outer, inner):
    """index of base for base[outer][inner]"""
    bo, bi = slice_bounds(outer), slice_bounds(inner)
    if not bo or not bi:
        return None
    neglo = bi[0].op == 'c' and bi[0].args[0] < 0
    neghi = bi[1] is not NONE and bi[1].op == 'c' and bi[1].args[0] < 0
    if neglo or neghi:
        return None
    lo = add(bo[0], bi[0])
    if bi[1] is NONE:
        hi = bo[1]
    elif bo[1] is NONE:
        hi = add(bo[0], bi[1])
    elif bi[1] is sub(bo[1], bo[0]):
        hi = bo[1]
    else:
        return None
    return slice_(lo, hi)


def unsel(v, m):
    """value w (full index space) such that w[m] == v"""
    if is_scalar(v):
        return v
    if v.op == 'poly':
        r = ZERO
        for mo, c in v.args[0]:
            x = mk('c', c)
            for a, e in mo:
                x = mul(x, power(unsel(a, m), e))
            r = add(r, x)
        return r
    if v.op == 'pbase':
        return unsel(v.args[0], m)
    if v.op == 'fn' and v.args[0] in ELEMWISE:
        return fn(v.args[0], *[unsel(x, m) for x in v.args[1:]])
    if v.op == 'ite':
        return ite(unsel(v.args[0], m), unsel(v.args[1], m), unsel(v.args[2], m))
    if v.op == 'cmp' and v.args[0] != 'is':
        return cmp0(v.args[0], unsel(v.args[1], m))
    if v.op == 'not':
        return not_(unsel(v.args[0], m))
    if v.op == 'and':
        return and_(*[unsel(x, m) for x in v.args])
    if v.op == 'or':
        return or_(*[unsel(x, m) for x in v.args])
    if v.op == 'truth':
        return truth(unsel(v.args[0], m))
    if v.op == 'sel' and v.args[1] is m:
        return v.args[0]
    if v is IOTA:
        b = slice_bounds(m)
        if b:
            return sub(IOTA, b[0])
    if v.op == 'sel' and v.args[1].op == 'slice' and m.op == 'slice':
        # x[a:b] placed at [c:d] with equal lower bounds
        b1, b2 = slice_bounds(v.args[1]), slice_bounds(m)
        if b1 and b2 and b1[0] is b2[0]:
            return v.args[0]
    return mk('expand', v, m)


@_memo1
def store(a, idx, v):
    """content of array a after a[idx] = v"""
    if idx is FULL or idx.op == 'ellipsis':
        return v
    if is_mask(idx):
        return ite(idx, unsel(v, idx), a)
    if is_bool(idx) and idx.op == 'b':
        return v if idx is TRUE else a
    if v is sel(a, idx):
        return a
    rg = region(idx)
    if rg is not None:
        return ite(rg, unsel(v, idx), a)
    if a.op == 'store':
        if a.args[1] is idx:
            return store(a.args[0], idx, v)
        # canonical order of independent stores
        if disjoint(a.args[1], idx) and idx.id < a.args[1].id:
            return store(store(a.args[0], idx, v), a.args[1], a.args[2])
    return mk('store', a, idx, v)


# ---------------------------------------------------------------- equality
def clear_denominators(t):
    """multiply through by the negative powers of polynomial atoms and symbols"""
    for _ in range(60):
        p = to_poly(t)
        worst = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    worst[a] = min(worst.get(a, 0), e)
        if not worst:
            return t
        # clear the plain atoms first, then polynomial bases
        a = sorted(worst, key=lambda x: (x.op == 'pbase', x.id))[0]
        k = worst[a]
        base = a
        r = {}
        for m, c in p.items():
            mm = _mono_mul(m, ((a, -k),))
            r[mm] = r.get(mm, 0) + c
        t = _fix(r)
    return t


PRIME = (1 << 61) - 1


class _NoRoot(Exception):
    pass


def _exponents(t, out):
    for m in to_poly(t):
        for a, e in m:
            out.add((a.op in ('pbase', 'c'), e.denominator if isinstance(e, Fraction) else 1))
            if a.op == 'pbase' and a not in out:
                out.add(a)
                _exponents(a.args[0], out)


def _eval(t, rng, vals, big):
    """value of a polynomial over atoms modulo PRIME at a random point (identity testing)"""
    tot = 0
    for m, c in to_poly(t).items():
        v = c.numerator % PRIME * pow(c.denominator, -1, PRIME)
        for a, e in m:
            e = Fraction(e)
            if a.op in ('pbase', 'c'):
                b = vals.get(a)
                if b is None:
                    b = _eval(a.args[0], rng, vals, big) if a.op == 'pbase' else \
                        a.args[0].numerator * pow(a.args[0].denominator, -1, PRIME) % PRIME
                    if b == 0:
                        raise _NoRoot()
                    vals[a] = b
                k = e.numerator
                if e.denominator == 2:
                    r = pow(b, (PRIME + 1) // 4, PRIME)      # the root that is itself a square
                    if r * r % PRIME != b:
                        raise _NoRoot()
                    b = r
                v = v * pow(b, k, PRIME) % PRIME
            else:
                b = vals.get(a)
                if b is None:
                    b = vals[a] = rng.randrange(2, PRIME)
                v = v * pow(b, int(e * big), PRIME) % PRIME
        tot += v
    return tot % PRIME


def is_zero(t):
    """whether a value is identically zero over its atoms"""
    if t is ZERO:
        return True
    ex = set()
    _exponents(t, ex)
    big = 4
    for x in ex:
        if isinstance(x, tuple):
            pb, den = x
            if pb and den > 2:
                return clear_denominators(t) is ZERO
            big = big * den // math.gcd(big, den)
    rng = random.Random(20)
    good = 0
    for _ in range(120):
        try:
            if _eval(t, rng, {}, big):
                return False
        except (_NoRoot, ValueError):
            continue
        good += 1
        if good == 2:
            return True
    return clear_denominators(t) is ZERO


def conds_of(t):
    """gating conditions occurring in t (outermost ites reachable through arithmetic first)"""
    out = []
    seen = set()
    stack = [(t, False, 0)]
    while stack:
        x, under, h = stack.pop()
        if (x, under, h) in seen or not has_cond(x):
            continue
        seen.add((x, under, h))
        if x.op == 'ite':
            for l in atoms_of_cond(x.args[0]):
                # a condition on a variable bound inside t is not one case for the whole of t
                if l not in out and (not under or is_scalar(l)) and not (h and 0 < min_bound(l) <= h):
                    out.append(l)
        u = under or is_barrier(x)
        if x.op == 'lam':
            h = max(h, max_bound(x))
        elif x.op == 'fn' and x.args[0] == 'loop' and x.args[4].op == 'c':
            h = max(h, int(x.args[4].args[0]))
        for y in subterms(x):
            stack.append((y, u, h))
    return out


def atoms_of_cond(c):
    if c.op == 'not':
        yield from atoms_of_cond(c.args[0])
    elif c.op in ('and', 'or'):
        for x in c.args:
            yield from atoms_of_cond(x)
    elif c.op in ('cmp', 'truth'):
        yield c


class Budget(Exception):
    pass


class Ctx:
    """work limit and results of one equality decision"""

    def __init__(self, n):
        self.n = n
        self.memo = {}


def equal(a, b, budget=None):
    """decide equality of two value terms under the ring, gating and congruence axioms"""
    if a is b:
        return True
    if budget is None:
        budget = Ctx(4000)
    elif not isinstance(budget, Ctx):
        budget = Ctx(budget[0])
    k = (a, b) if a.id < b.id else (b, a)
    r = budget.memo.get(k)
    if r is None:
        r = budget.memo[k] = _equal(a, b, budget)
    return r


NONNUM = ('s', 'none', 'tuple', 'slice', 'store', 'b', 'dict', 'call', 'after', 'with', 'kw', 'objref', 'init')


def _equal(a, b, budget):
    budget.n -= 1
    if budget.n < 0:
        raise Budget()
    if is_bool(a) and is_bool(b) and a.op != 'b' and b.op != 'b':
        return equal_bool(a, b, budget)
    if a.op == 'tuple' and b.op == 'tuple':
        return len(a.args) == len(b.args) and all(equal(x, y, budget) for x, y in zip(a.args, b.args))
    if a.op == 'tuple' and b.op == 'ite' or a.op == 'ite' and b.op == 'tuple':
        # a tuple against alternatives, one of which is the result of an opaque call: item by item
        t, q = (a, b) if a.op == 'tuple' else (b, a)
        its = [ite_items(q, len(t.args), i) for i in range(len(t.args))]
        return all(x is not None and equal(x, y, budget) for x, y in zip(its, t.args))
    if a.op == 'slice' and b.op == 'slice':
        return all(equal(x, y, budget) for x, y in zip(a.args, b.args))
    if a.op == 'ite' and b.op == 'ite':
        if a.args[0] is b.args[0]:
            if equal(a.args[1], b.args[1], budget) and equal(a.args[2], b.args[2], budget):
                return True
        else:
            ca, cb = a.args[0], b.args[0]
            if ca.op == cb.op and equal(ca, cb, budget) and equal(a.args[1], b.args[1], budget) \
                    and equal(a.args[2], b.args[2], budget):
                return True
    elif a.op == b.op and a.op not in ('poly', 'c') and congruent(a, b, budget):
        return True
    # case split on conditions
    cs = conds_of(a)
    for c in conds_of(b):
        if c not in cs:
            cs.append(c)
    if cs:
        # conditions that do not depend on other conditions first
        c = next((x for x in cs if not any(has_cond(y) for y in subterms(x))), cs[0])
        n = not_(c)
        a1, b1, a2, b2 = assume(a, c, True), assume(b, c, True), assume(a, n, True), assume(b, n, True)
        if not (a1 is a and b1 is b) and not (a2 is a and b2 is b):
            return equal(a1, b1, budget) and equal(a2, b2, budget)
    if a.op in NONNUM or b.op in NONNUM:
        return False
    d = sub(a, b)
    if is_zero(d):
        return True
    # congruence closure over atoms
    ats = sorted({x for m in to_poly(d) for x, e in m}, key=lambda t: t.id)
    mp = {}
    for i, x in enumerate(ats):
        if x in mp:
            continue
        for y in ats[i + 1:]:
            if y in mp or y.op != x.op or x.op in ('sym', 'c'):
                continue
            if congruent(x, y, budget):
                mp[y] = x
    if mp:
        return is_zero(subst(d, mp))
    return False


def ite_items(q, n, i):
    if q.op == 'ite':
        x, y = ite_items(q.args[1], n, i), ite_items(q.args[2], n, i)
        return None if x is None or y is None else ite(q.args[0], x, y)
    if q.op == 'tuple':
        return q.args[i] if len(q.args) == n else None
    if q.op == 'fn' and q.args[0] in ('ret', 'attrof'):
        return sel(q, mk('c', Fraction(i)))
    return None


def congruent(x, y, budget):
    if x is y:
        return True
    if x.op != y.op:
        return False
    if x.op in ('sym', 'c', 's', 'b', 'none', 'fconst', 'poly'):
        return False
    if x.op == 'fn' and x.args[0] == 'loop' == y.args[0]:
        return _cong_loop(x, y, budget)
    return _cong_args(x.args, y.args, budget)


def _marks(t):
    return frozenset(x.args[0] if x.op in ('fn', 'sym', 's') else x.op for x in walk(t) if x.op not in ('rv', 'bv', 'poly', 'c'))


def _renumber(t, h, m, new):
    ren = {mk('rv', i, h): mk('rv', i, new) for i in range(m)}
    ren[mk('bv', h)] = mk('bv', new)
    return subst(t, ren)


def _cong_loop(x, y, budget):
    """two recurrences are equal when a matching of their variables makes initial values and steps equal"""
    _, nx, ix, bx, hx = x.args
    _, ny, iy, by, hy = y.args
    m = len(ix.args)
    if len(iy.args) != m or not equal(nx, ny, budget):
        return False
    if hx is not hy:
        # the numbering of the bound variables is not part of the meaning
        new = 1000 + max((z.args[-1] for t in (bx, by) for z in walk(t) if z.op in ('bv', 'rv')), default=0)
        bx, by = _renumber(bx, hx.args[0], m, new), _renumber(by, hy.args[0], m, new)
        h = new
    else:
        h = hx.args[0]
    if equal(bx, by, budget) and equal(ix, iy, budget):
        return True
    if m < 3 or m > 12:
        return False
    mx, my = [_marks(b) for b in bx.args], [_marks(b) for b in by.args]
    cand = [[0]]
    for i in range(1, m):
        c = [j for j in range(1, m) if equal(ix.args[i], iy.args[j], budget)]
        c.sort(key=lambda j: (-len(mx[i] & my[j]) / (1 + len(mx[i] | my[j])), abs(i - j)))
        if not c:
            return False
        cand.append(c)
    tries = [0]

    def search(i, used, perm):
        if i == m:
            tries[0] += 1
            back = {mk('rv', j, h): mk('rv', k, h) for k, j in enumerate(perm)}
            ys = [subst(by.args[j], back) for j in perm] + [subst(by.args[m], back)]
            return all(equal(p, q, budget) for p, q in zip(bx.args, ys))
        for j in cand[i]:
            if j not in used:
                if search(i + 1, used | {j}, perm + [j]):
                    return True
                if tries[0] > 30:
                    return False
        return False
    return search(1, {0}, [0])


def _cong_args(p, q, budget):
    if len(p) != len(q):
        return False
    for u, v in zip(p, q):           # cheap refutation first
        if isinstance(u, (str, int)) and u != v:
            return False
    for u, v in zip(p, q):
        if isinstance(u, T) and isinstance(v, T):
            if not equal(u, v, budget):
                return False
        elif isinstance(u, tuple) and isinstance(v, tuple):
            if not _cong_args(u, v, budget):
                return False
        elif u != v:
            return False
    return True


def equal_bool(a, b, budget=None):
    if budget is None:
        budget = Ctx(4000)
    a, b = truth(a), truth(b)
    if a is b:
        return True
    budget.n -= 1
    if budget.n < 0:
        raise Budget()
    cs = list(dict.fromkeys(list(atoms_of_cond(a)) + list(atoms_of_cond(b))))
    # unify congruent condition atoms
    mp = {}
    for i, x in enumerate(cs):
        for y in cs[i + 1:]:
            if y in mp or x in mp:
                continue
            if x.op == y.op and x.args[0] == y.args[0] or x.op == y.op == 'truth':
                if congruent(x, y, budget) or (x.op == 'cmp' and len(x.args) == 2 and x.args[0] == y.args[0]
                                               and equal(x.args[1], y.args[1], budget)):
                    mp[y] = x
    if mp:
        a, b = subst(a, mp), subst(b, mp)
        if a is b:
            return True
        cs = [c for c in cs if c not in mp]
    if not cs:
        return a is b
    inner = [x for x in conds_of(a) + conds_of(b) if not any(has_cond(y) for y in subterms(x)) and is_scalar(x)]
    for c in inner + cs:
        a1, b1 = assume(a, c), assume(b, c)
        n = not_(c)
        a2, b2 = assume(a, n), assume(b, n)
        if (a1, b1) == (a, b) or (a2, b2) == (a, b):
            continue
        return equal_bool(a1, b1, budget) and equal_bool(a2, b2, budget)
    return False


# ---------------------------------------------------------------- structural hash (independent of creation order)
MU_HASH = {}
CLOSED = {}
CLOSED_HASH = {}
CACHES.append(CLOSED)
CACHES.append(CLOSED_HASH)


def closed(t):
    """no loop variable inside"""
    r = CLOSED.get(t)
    if r is None:
        if t.op == 'sym':
            r = not t.args[0].startswith('$mu')
        else:
            r = all(closed(x) for x in subterms(t))
        CLOSED[t] = r
    return r


def shash(t, env, memo=None):
    if memo is None:
        memo = {}
    if closed(t):
        memo, env = CLOSED_HASH, {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in env:
        r = env[t]
    elif t.op == 'sym' and t.args[0].startswith('$mu'):
        r = MU_HASH.get(t, 7)
    elif t.op == 'poly':
        r = hash(('poly', sum(hash((c, frozenset((shash(a, env, memo), e) for a, e in m))) for m, c in t.args[0])))
    elif t.op == 'cmp' and len(t.args) == 2:
        p = t.args[1]
        n = neg(p)
        h = [shash(x, env, memo) if x.op != 'poly' else
             hash(sum(hash((c, frozenset((shash(a, env, memo), e) for a, e in m))) for m, c in x.args[0])) for x in (p, n)]
        r = hash(('cmp', min(h), max(h)))
    elif t.op == 'not':
        r = shash(t.args[0], env, memo)
    elif t.op in ('and', 'or'):
        r = hash(('andor', frozenset(shash(x, env, memo) for x in t.args)))
    elif t.op == 'ite':
        r = hash(('ite', shash(t.args[0], env, memo), frozenset(shash(x, env, memo) for x in t.args[1:])))
    elif t.op in ('ref', 'view') and t.op == 'ref' and t.args[0] != 'inst':
        r = hash(('ref', t.args[0]))
    else:
        r = hash((t.op,) + tuple(_sh_arg(a, env, memo) for a in t.args))
    memo[t] = r
    return r


def _sh_arg(a, env, memo):
    if isinstance(a, T):
        return shash(a, env, memo)
    if isinstance(a, tuple):
        return hash(tuple(_sh_arg(x, env, memo) for x in a))
    return hash(a) if not hasattr(a, 'qual') else hash(a.qual)


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if depth < 0:
        return '..'
    d = depth - 1
    op = t.op
    if op == 'c':
        f = t.args[0]
        if f.denominator == 1:
            return str(f.numerator)
        return '%g' % float(f)
    if op == 'b':
        return str(t.args[0])
    if op == 's':
        return repr(t.args[0])
    if op == 'none':
        return 'None'
    if op in ('sym', 'fconst'):
        return str(t.args[0])
    if op == 'iota':
        return '#'
    if op == 'poly':
        parts = []
        for m, c in t.args[0]:
            f = []
            if c != 1 or not m:
                f.append(show(mk('c', c)))
            for a, e in m:
                x = show(a, d)
                f.append(x if e == 1 else '%s^%s' % (x, e))
            parts.append('*'.join(f))
        return '(' + ' + '.join(parts) + ')'
    if op == 'pbase':
        return '{' + show(t.args[0], d) + '}'
    if op == 'cmp':
        if t.args[0] == 'is':
            return '(%s == %s)' % (show(t.args[1], d), show(t.args[2], d))
        return '(%s %s 0)' % (show(t.args[1], d), t.args[0])
    if op == 'not':
        return 'not ' + show(t.args[0], d)
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(show(x, d) for x in t.args) + ')'
    if op == 'truth':
        return '?' + show(t.args[0], d)
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(show(x, d) for x in t.args)
    if op == 'fn':
        return '%s(%s)' % (t.args[0], ', '.join(show(x, d) if isinstance(x, T) else repr(x) for x in t.args[1:]))
    if op == 'sel':
        return '%s[%s]' % (show(t.args[0], d), show(t.args[1], d))
    if op == 'slice':
        return ':'.join('' if x is NONE else show(x, d) for x in t.args[:2])
    if op == 'store':
        return 'store(%s, %s, %s)' % tuple(show(x, d) for x in t.args)
    return '%s(%s)' % (op, ', '.join(show(x, d) if isinstance(x, T) else repr(x) for x in t.args))
