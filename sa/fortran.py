"""Fixed-form Fortran 77 kernels -> Python syntax trees (1-based indices kept as written)."""
import ast
import os
import re

from .frontend import Module, AnalysisError

INTRIN = {'int': 'int', 'idint': 'int', 'dble': 'float', 'real': 'float', 'abs': 'abs', 'dabs': 'abs', 'sqrt': 'sqrt',
          'dsqrt': 'sqrt', 'exp': 'exp', 'dexp': 'exp', 'cos': 'cos', 'dcos': 'cos', 'sin': 'sin', 'dsin': 'sin',
          'max': 'max', 'min': 'min', 'floor': 'floor', 'nint': 'round', 'aint': 'int', 'mod': 'mod', 'sign': 'sign'}
OPS = [('.and.', ' and '), ('.or.', ' or '), ('.not.', ' not '), ('.lt.', '<'), ('.le.', '<='), ('.gt.', '>'),
       ('.ge.', '>='), ('.eq.', '=='), ('.ne.', '!='), ('/=', '!='), ('.true.', ' True '), ('.false.', ' False ')]


def logical_lines(src):
    """[(lineno, label, text)]"""
    out = []
    intents = []
    for no, raw in enumerate(src.splitlines(), 1):
        line = raw.rstrip()
        if line[:5].lower() == 'cf2py':
            intents.append((no, line[5:].strip()))
            continue
        if not line or line[0] in 'cC*!':
            continue
        cont = False
        body = line
        label = ''
        if '\t' in line[:6]:
            i = line.index('\t')
            label = line[:i].strip()
            body = line[i + 1:]
            if body[:1] in '123456789':
                cont = True
                body = body[1:]
        else:
            label = line[:5].strip()
            if len(line) > 5 and line[5] not in ' 0':
                cont = True
            body = line[6:]
        # strip trailing comment (no character literals containing ! in these kernels)
        q = None
        for k, ch in enumerate(body):
            if q:
                if ch == q:
                    q = None
            elif ch in '\'"':
                q = ch
            elif ch == '!':
                body = body[:k]
                break
        body = body.strip()
        if label.startswith('!'):
            continue
        if not body:
            continue
        if cont and out:
            out[-1] = (out[-1][0], out[-1][1], out[-1][2] + ' ' + body)
        else:
            for part in [p for p in body.split(';') if p.strip()]:
                out.append((no, label, part.strip()))
                label = ''
    return out, intents


class F77:
    def __init__(self, path):
        self.path = path
        with open(path, errors='replace') as f:
            self.src = f.read()
        self.lines, self.intents = logical_lines(self.src)
        self.py = []
        self.map = []
        self.subs = {}

    def emit(self, ind, text, no):
        self.py.append('    ' * ind + text)
        self.map.append(no)

    def expr(self, t):
        t = t.lower()
        t = re.sub(r'(\d)\s+(?=[\d.])', r'\1', t)
        for a, b in OPS:
            t = t.replace(a, b)
        t = re.sub(r'(?<![a-z_0-9])(\d+\.?\d*|\.\d+)d([+-]?\d+)', r'\1e\2', t)
        t = re.sub(r'(\d\.)(?![\d e])', r'\g<1>0', t)
        # array references -> brackets
        return self._arr(t)

    def _arr(self, t):
        out = ''
        i = 0
        while i < len(t):
            m = re.match(r'[a-z_][a-z_0-9]*', t[i:])
            if m and (i == 0 or not (t[i - 1].isalnum() or t[i - 1] in '_.')):
                name = m.group(0)
                j = i + len(name)
                k = j
                while k < len(t) and t[k] == ' ':
                    k += 1
                if k < len(t) and t[k] == '(' and name in self.arrays:
                    d = 0
                    e = k
                    while e < len(t):
                        if t[e] == '(':
                            d += 1
                        elif t[e] == ')':
                            d -= 1
                            if d == 0:
                                break
                        e += 1
                    out += name + '[' + self._arr(t[k + 1:e]) + ']'
                    i = e + 1
                    continue
                out += INTRIN.get(name, name) if (k < len(t) and t[k] == '(') else name
                if out.endswith(' not') or name == 'not':
                    pass
                i = j
                continue
            out += t[i]
            i += 1
        return out

    def run(self):
        # declared arrays / dims
        self.arrays = set()
        self.dims = {}
        self.types = {}
        self.implicit_int = True
        for no, label, t in self.lines:
            tl = t.lower()
            m = re.match(r'(integer|real\s*\*\s*8|real|double\s+precision|logical|dimension)\b(.*)', tl)
            if m and not re.match(r'\s*function', m.group(2)):
                ty = m.group(1).split('*')[0].strip()
                rest = m.group(2).replace('::', ' ')
                for nm, dims in re.findall(r'([a-z_]\w*)\s*(\([^)]*\))?', rest):
                    if dims:
                        self.arrays.add(nm)
                        self.dims[nm] = [d.strip() for d in dims[1:-1].split(',')]
                    self.types[nm] = 'integer' if ty == 'integer' else 'real'
        ind = 0
        labels = []
        cur = None
        pending_intents = list(self.intents)
        for no, label, t in self.lines:
            tl = t.lower().strip()
            m = re.match(r'subroutine\s+(\w+)\s*\(([^)]*)\)', tl)
            if m:
                cur = m.group(1)
                args = [a.strip() for a in m.group(2).split(',')]
                self.subs[cur] = {'args': args, 'intent': {}, 'line': no}
                self.emit(0, 'def %s(%s):' % (cur, ', '.join(args)), no)
                ind = 1
                self.emit(1, 'pass', no)
                continue
            if cur is None:
                continue
            if re.match(r'(integer|real|double|logical|dimension|implicit|character)\b', tl):
                continue
            m = re.match(r'parameter\s*\((.*)\)$', tl)
            if m:
                depth = 0
                part = ''
                for ch in m.group(1) + ',':
                    if ch == '(':
                        depth += 1
                    if ch == ')':
                        depth -= 1
                    if ch == ',' and depth == 0:
                        self.emit(ind, self.expr(part.strip()), no)
                        part = ''
                    else:
                        part += ch
                continue
            if tl in ('end', 'end subroutine', 'endsubroutine') or tl.startswith('end subroutine'):
                cur = None
                ind = 0
                continue
            m = re.match(r'do\s+(\d+)?\s*,?\s*(\w+)\s*=\s*(.*)$', tl)
            if m and '=' in tl:
                lab, v, rng = m.groups()
                parts = []
                depth = 0
                p = ''
                for ch in rng + ',':
                    if ch == '(':
                        depth += 1
                    if ch == ')':
                        depth -= 1
                    if ch == ',' and depth == 0:
                        parts.append(self.expr(p.strip()))
                        p = ''
                    else:
                        p += ch
                if len(parts) == 2:
                    self.emit(ind, 'for %s in range(%s, (%s) + 1):' % (v, parts[0], parts[1]), no)
                else:
                    st = parts[2].replace(' ', '')
                    off = '- 1' if st.startswith('-') else '+ 1'
                    self.emit(ind, 'for %s in range(%s, (%s) %s, %s):' % (v, parts[0], parts[1], off, parts[2]), no)
                ind += 1
                labels.append(lab or '')
                continue
            m = re.match(r'do\s+while\s*\((.*)\)$', tl)
            if m:
                self.emit(ind, 'while %s:' % self.expr(m.group(1)), no)
                ind += 1
                labels.append('')
                continue
            if re.match(r'end\s*do$', tl):
                ind -= 1
                labels.pop()
                continue
            if tl == 'continue':
                self.emit(ind, 'pass', no)
                while labels and label and labels[-1] == label:
                    labels.pop()
                    ind -= 1
                continue
            m = re.match(r'if\s*\((.*)\)\s*then$', tl)
            if m:
                self.emit(ind, 'if %s:' % self.expr(m.group(1)).strip(), no)
                ind += 1
                continue
            m = re.match(r'else\s*if\s*\((.*)\)\s*then$', tl)
            if m:
                self.emit(ind - 1, 'elif %s:' % self.expr(m.group(1)).strip(), no)
                continue
            if tl == 'else':
                self.emit(ind - 1, 'else:', no)
                continue
            if re.match(r'end\s*if$', tl):
                self.emit(ind, 'pass', no)
                ind -= 1
                continue
            m = re.match(r'if\s*\(', tl)
            if m:
                d = 0
                for k, ch in enumerate(tl):
                    if ch == '(':
                        d += 1
                    if ch == ')':
                        d -= 1
                        if d == 0:
                            break
                self.emit(ind, 'if %s:' % self.expr(tl[tl.index('(') + 1:k]).strip(), no)
                self.emit(ind + 1, self.stmt(tl[k + 1:].strip()), no)
                continue
            self.emit(ind, self.stmt(tl), no)
        # intents belong to the subroutine whose line precedes them
        for no, text in pending_intents:
            m = re.match(r'intent\s*\(\s*([\w ,]+)\s*\)\s*(.*)$', text.strip(), re.I)
            if not m:
                continue
            owner = None
            for s, d in self.subs.items():
                if d['line'] <= no and (owner is None or d['line'] > self.subs[owner]['line']):
                    owner = s
            if owner:
                for nm in re.findall(r'\w+', m.group(2).lower()):
                    self.subs[owner]['intent'][nm] = m.group(1).replace(' ', '').lower()

    def stmt(self, tl):
        if tl == 'return':
            return 'return'
        if tl == 'exit':
            return 'break'
        if tl == 'cycle':
            return 'continue'
        m = re.match(r'call\s+(\w+)\s*(\(.*\))?$', tl)
        if m:
            return '%s%s' % (m.group(1), self.expr(m.group(2) or '()'))
        if re.match(r'(write|print|stop)\b', tl):
            return 'pass'
        m = re.match(r'([a-z_]\w*)\s*=(?!=)(.*)$', tl)
        if m and self.types.get(m.group(1)) == 'integer' and any(
                self.types.get(w) == 'real' and w not in ('int', 'idint', 'nint')
                for w in re.findall(r'[a-z_]\w*', re.sub(r'\bi?d?int\s*\(.*', '', m.group(2)))):
            return '%s = int(%s)' % (m.group(1), self.expr(m.group(2)).strip())   # conversion by assignment
        return self.expr(tl)


def load(path):
    f = F77(path)
    f.run()
    text = '\n'.join(f.py) + '\n'
    try:
        tree = ast.parse(text)
    except SyntaxError as e:
        raise AnalysisError('cannot read Fortran source %s near line %s: %s' %
                            (path, f.map[min((e.lineno or 1) - 1, len(f.map) - 1)] if f.map else '?', e))
    for n in ast.walk(tree):
        if hasattr(n, 'lineno'):
            n.lineno = f.map[n.lineno - 1]
    for d in tree.body:
        if isinstance(d, ast.FunctionDef) and d.name in f.subs:
            sub = f.subs[d.name]
            line = sub['line']
            # local arrays exist from the start; scalar results are observable
            pre = ['%s = empty((%s,))' % (a, ', '.join(f.dims[a])) for a in sorted(f.dims) if a not in sub['args']]
            outs = [a for a in sub['args'] if a not in f.dims and sub['intent'].get(a) in ('out', 'inout', 'in,out')]
            ret = 'return (%s,)' % ', '.join(outs) if outs else None
            if ret:
                for n in ast.walk(d):
                    if isinstance(n, ast.Return) and n.value is None:
                        n.value = ast.parse(ret[7:], mode='eval').body
            extra = ast.parse('\n'.join(pre)).body
            d.body[:0] = extra
            if ret:
                r = ast.parse(ret.replace('return', 'r =')).body[0]
                extra.append(ast.Return(value=r.value, lineno=line, col_offset=0))
                d.body.append(extra[-1])
            for x in extra:
                for n in ast.walk(x):
                    if hasattr(n, 'lineno') or isinstance(n, (ast.expr, ast.stmt)):
                        n.lineno = line
                        n.col_offset = 0
    m = Module('f77:' + os.path.basename(path)[:-2], path, f.src, tree, lang='f77')
    m.f77 = f
    for w in ('sqrt', 'exp', 'log', 'cos', 'sin', 'tan', 'arctan', 'arctan2', 'arccos', 'arcsin', 'sinh', 'cosh', 'empty'):
        m.imports.setdefault(w, ('from', 'numpy', w))
    for name, fn in m.funcs.items():
        fn.inout = f.subs[name]['intent']
        fn.dims = {a: f.dims.get(a) for a in f.subs[name]['args']}
        fn.types = f.types
    return m


def f2py_signature(fn):
    """(positional parameters of the Python wrapper, output parameters)"""
    sub = fn.module.f77.subs[fn.name]
    args, intent, dims = sub['args'], sub['intent'], fn.module.f77.dims
    outs = [a for a in args if intent.get(a) == 'out']
    ins = [a for a in args if intent.get(a) != 'out']
    derivable = set()
    for a in ins:
        for d in dims.get(a, []):
            if re.fullmatch(r'[a-z_]\w*', d):
                derivable.add(d)
    return [a for a in ins if a not in derivable], [a for a in ins if a in derivable], outs
