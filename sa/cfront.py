"""C kernel (assignment / for / if subset) -> Python syntax tree."""
import ast
import os
import re

from .frontend import Module, AnalysisError

TYPES = {'int', 'double', 'float', 'void', 'const', 'long', 'unsigned', 'static', 'inline', 'restrict', 'size_t', 'char',
         'signed', 'short', 'extern', 'register', 'bool'}
TOK = re.compile(r'''(?P<num>(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?[fFlLuU]*)|(?P<id>[A-Za-z_]\w*)|
(?P<op>\+\+|--|\+=|-=|\*=|/=|==|!=|<=|>=|&&|\|\||->|[-+*/%<>=!&|?:;,.(){}\[\]^~])|(?P<ws>\s+)''', re.X)


class C:
    def __init__(self, path):
        with open(path, errors='replace') as f:
            self.src = f.read()
        self.path = path
        src = re.sub(r'/\*.*?\*/', lambda m: '\n' * m.group(0).count('\n'), self.src, flags=re.S)
        src = re.sub(r'//[^\n]*', '', src)
        macros = {}

        def define(m):
            macros[m.group(1)] = m.group(2).strip()
            return ''
        src = re.sub(r'^[ \t]*#[ \t]*define[ \t]+(\w+)[ \t]+([^\n]+)$', define, src, flags=re.M)
        src = re.sub(r'^[ \t]*#[^\n]*', '', src, flags=re.M)
        for k, v in macros.items():
            src = re.sub(r'\b%s\b' % re.escape(k), '(' + v + ')', src)
        self.toks = []
        pos = 0
        line = 1
        while pos < len(src):
            m = TOK.match(src, pos)
            if not m:
                raise AnalysisError('%s:%d: unreadable C token %r' % (path, line, src[pos:pos + 10]))
            if m.lastgroup != 'ws':
                kind = 'num' if m.group('num') else 'id' if m.group('id') else 'op'
                self.toks.append((kind, m.group(0).rstrip('fFlLuU') if kind == 'num' else m.group(0), line))
            line += m.group(0).count('\n')
            pos = m.end()
        self.i = 0
        self.py = []
        self.map = []

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else ('eof', '', 0)

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def expect(self, v):
        t = self.next()
        if t[1] != v:
            raise AnalysisError('%s:%d: expected %r, got %r' % (self.path, t[2], v, t[1]))
        return t

    def emit(self, ind, text, no):
        self.py.append('    ' * ind + text)
        self.map.append(no)

    def run(self):
        while self.peek()[0] != 'eof':
            self.function()

    def function(self):
        name = None
        while self.peek()[1] != '(':
            t = self.next()
            if t[0] == 'eof':
                return
            if t[0] == 'id':
                name = t[1]
            if t[1] == ';':
                return
        no = self.peek()[2]
        self.expect('(')
        params = []
        last = None
        while True:
            t = self.next()
            if t[1] in (',', ')'):
                if last:
                    params.append(last)
                last = None
                if t[1] == ')':
                    break
            elif t[0] == 'id' and t[1] not in TYPES:
                last = t[1]
        if self.peek()[1] == ';':
            self.next()
            return
        self.emit(0, 'def %s(%s):' % (name, ', '.join(params)), no)
        self.emit(1, 'pass', no)
        self.block(1)

    def block(self, ind):
        self.expect('{')
        while self.peek()[1] != '}':
            self.stmt(ind)
        self.expect('}')

    def body(self, ind, no):
        self.emit(ind, 'pass', no)
        if self.peek()[1] == '{':
            self.block(ind)
        else:
            self.stmt(ind)

    def until(self, *stops):
        """expression tokens up to a stop at depth 0"""
        d = 0
        out = []
        while True:
            t = self.peek()
            if t[0] == 'eof':
                raise AnalysisError('%s: unexpected end of C source' % self.path)
            if d == 0 and t[1] in stops:
                return out
            if t[1] in '([':
                d += 1
            if t[1] in ')]':
                d -= 1
            out.append(self.next())

    def expr(self, toks):
        # casts
        out = []
        i = 0
        while i < len(toks):
            if toks[i][1] == '(' and i + 1 < len(toks) and toks[i + 1][1] in TYPES:
                j = i
                while toks[j][1] != ')':
                    j += 1
                i = j + 1
                continue
            v = toks[i][1]
            v = {'&&': ' and ', '||': ' or ', '!': ' not ', 'NULL': 'None', 'fabs': 'abs'}.get(v, v)
            if v == '->':
                v = '.'
            out.append(v)
            i += 1
        # ternary at depth 0
        d = 0
        q = c = None
        for k, v in enumerate(out):
            if v in ('(', '['):
                d += 1
            elif v in (')', ']'):
                d -= 1
            elif v == '?' and d == 0 and q is None:
                q = k
            elif v == ':' and d == 0 and q is not None and c is None:
                c = k
        if q is not None and c is not None:
            return '((%s) if (%s) else (%s))' % (' '.join(out[q + 1:c]), ' '.join(out[:q]), ' '.join(out[c + 1:]))
        return ' '.join(out)

    def simple(self, toks):
        v = [t[1] for t in toks]
        if '++' in v:
            n = [x for x in v if x != '++']
            return '%s += 1' % ' '.join(n)
        if '--' in v:
            n = [x for x in v if x != '--']
            return '%s -= 1' % ' '.join(n)
        return self.expr(toks)

    def stmt(self, ind):
        t = self.peek()
        no = t[2]
        if t[1] == ';':
            self.next()
            return
        if t[1] == '{':
            self.block(ind)
            return
        if t[1] == 'for':
            self.next()
            self.expect('(')
            init = self.until(';')
            self.next()
            cond = self.until(';')
            self.next()
            step = self.until(')')
            self.next()
            init = [x for x in init if x[1] not in TYPES]
            iv = [x[1] for x in init]
            cv = [x[1] for x in cond]
            sv = [x[1] for x in step]
            up = sv in ([iv[0], '++'], ['++', iv[0]]) or sv == [iv[0], '+=', '1'] or sv == [iv[0], '=', iv[0], '+', '1']
            if len(iv) > 2 and iv[1] == '=' and cv[:1] == iv[:1] and cv[1] in ('<', '<=') and up:
                hi = self.expr(cond[2:])
                if cv[1] == '<=':
                    hi = '(%s) + 1' % hi
                self.emit(ind, 'for %s in range(%s, %s):' % (iv[0], self.expr(init[2:]), hi), no)
                self.body(ind + 1, no)
                return
            self.emit(ind, self.simple(init), no)
            self.emit(ind, 'while %s:' % self.expr(cond), no)
            self.body(ind + 1, no)
            self.emit(ind + 1, self.simple(step), no)
            return
        if t[1] == 'while':
            self.next()
            self.expect('(')
            c = self.until(')')
            self.next()
            self.emit(ind, 'while %s:' % self.expr(c), no)
            self.body(ind + 1, no)
            return
        if t[1] == 'if':
            self.next()
            self.expect('(')
            c = self.until(')')
            self.next()
            self.emit(ind, 'if %s:' % self.expr(c), no)
            self.body(ind + 1, no)
            if self.peek()[1] == 'else':
                self.next()
                self.emit(ind, 'else:', no)
                self.body(ind + 1, no)
            return
        if t[1] in ('break', 'continue'):
            self.next()
            self.expect(';')
            self.emit(ind, t[1], no)
            return
        if t[1] == 'return':
            self.next()
            e = self.until(';')
            self.next()
            self.emit(ind, 'return ' + self.expr(e), no)
            return
        toks = self.until(';')
        self.next()
        if toks[0][1] in TYPES:
            # declaration list
            rest = [x for x in toks if x[1] not in TYPES]
            part = []
            d = 0
            for x in rest + [('op', ',', no)]:
                if x[1] in '([':
                    d += 1
                if x[1] in ')]':
                    d -= 1
                if x[1] == ',' and d == 0:
                    if any(y[1] == '=' for y in part):
                        while part and part[0][1] == '*':
                            part.pop(0)
                        self.emit(ind, self.expr(part), no)
                    part = []
                else:
                    part.append(x)
            return
        self.emit(ind, self.simple(toks), no)


def load(path):
    c = C(path)
    c.run()
    text = '\n'.join(c.py) + '\n'
    try:
        tree = ast.parse(text)
    except SyntaxError as e:
        raise AnalysisError('cannot read C source %s: %s' % (path, e))
    for n in ast.walk(tree):
        if hasattr(n, 'lineno'):
            n.lineno = c.map[n.lineno - 1]
    m = Module('c:' + os.path.basename(path)[:-2], path, c.src, tree, lang='c')
    m.pytext = text
    return m
