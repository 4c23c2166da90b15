"""Cython sources -> Python syntax trees (type declarations dropped)."""
import ast
import os
import re

from .frontend import Module, AnalysisError


def strip_type(a):
    a = a.strip()
    if not a:
        return a
    if a.startswith('*'):
        return a
    d = ''
    if '=' in a:
        a, d = a.split('=', 1)
        d = '=' + d
    nm = re.findall(r'[A-Za-z_]\w*', a)
    return nm[-1] + d


def split_commas(t):
    out, d, cur = [], 0, ''
    for ch in t:
        if ch in '([{':
            d += 1
        if ch in ')]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def load(path):
    with open(path, errors='replace') as f:
        src = f.read()
    lines = src.splitlines()
    out = []
    i = 0
    while i < len(lines):
        l = lines[i]
        st = l.strip()
        ind = l[:len(l) - len(l.lstrip())]
        code = st.split('#')[0].rstrip() if not st.startswith('#') else ''
        m = re.match(r'(cpdef|cdef)\b(.*)$', code)
        if (m or code.startswith('def ')) and '(' in code and not re.match(r'cdef[^(=]*=', code):
            # function header, possibly over several lines
            j = i
            full = code
            while full.count('(') > full.count(')') and j + 1 < len(lines):
                j += 1
                full += ' ' + lines[j].split('#')[0].strip()
            if full.rstrip().endswith(':') or re.search(r'\)\s*(nogil|except[^:]*|noexcept[^:]*)*\s*:\s*$', full):
                name = re.match(r'.*?([A-Za-z_]\w*)\s*\(', full).group(1)
                a = full[full.index('(') + 1:full.rindex(')')]
                args = ', '.join(strip_type(x) for x in split_commas(a))
                out.append('%sdef %s(%s):' % (ind, name, args))
                out.extend([''] * (j - i))
                i = j + 1
                continue
        if re.match(r'(cimport|from\s+\S+\s+cimport|ctypedef|@cython)', code):
            out.append(ind + 'pass')
            i += 1
            continue
        if m:
            rest = m.group(2).strip()
            j = i
            while rest.count('(') > rest.count(')') and j + 1 < len(lines):
                j += 1
                rest += ' ' + lines[j].split('#')[0].strip()
            parts = split_commas(rest)
            asg = []
            for p in parts:
                mm = re.match(r'^(.*?[\w\]\*])\s*=(?!=)\s*(.*)$', p)
                if mm:
                    asg.append('%s = %s' % (strip_type(mm.group(1)), mm.group(2)))
            out.append(ind + ('; '.join(asg) if asg else 'pass'))
            out.extend([''] * (j - i))
            i = j + 1
            continue
        out.append(l)
        i += 1
    text = '\n'.join(out) + '\n'
    text = re.sub(r'<\s*\w+\s*\**\s*>', '', text)
    text = re.sub(r'\bxrange\b', 'range', text)
    # <T*>array.data is the storage of the array itself
    text = re.sub(r'(?<=\w)\.data\b', '', text)
    try:
        tree = ast.parse(text)
    except SyntaxError as e:
        raise AnalysisError('cannot read Cython source %s: %s' % (path, e))
    m = Module('pyx:' + os.path.basename(path)[:-4], path, src, tree, lang='pyx')
    m.pytext = text
    m.imports.setdefault('sqrt', ('from', 'math', 'sqrt'))
    m.imports['boris_c'] = ('from', 'c:boris_c_function', 'boris_c')
    return m
