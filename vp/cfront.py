"""Front end for the C++ table sources: a parser for the C subset they are written in, and a constant
propagation over it. Integers stay concrete (table indices, loop counters); real parameters are symbols and
real values are exact rational polynomials in them. Every path of the selector switch is visited by
propagating each index constant; nothing is compiled or executed."""
import itertools
import re
from fractions import Fraction as Fr

TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|
 (?P<num>0[xX][0-9a-fA-F]+|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?[fFlLuU]*)|
 (?P<id>[A-Za-z_]\w*(?:::[A-Za-z_]\w*)*)|(?P<str>"(?:\\.|[^"\\])*")|
 (?P<op><<=|>>=|\+\+|--|->|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|<<|>>|[-+*/%<>=!&|^~?:;,.(){}\[\]])''',
                 re.X | re.S)


class CError(Exception):
    """the source uses a construct this front end does not model"""


def preprocess(text):
    """follow the conditional directives for a plain Linux build; object-like macros are kept"""
    text = text.replace('\\\n', ' ')
    out, macros, stack = [], {}, []
    text = re.sub(r'\bstd\s*::\s*', '', text)

    def value(c):
        c = re.sub(r'defined\s*\(?\s*(\w+)\s*\)?', lambda m: '1' if m.group(1) in macros else '0', c)
        c = re.sub(r'[A-Za-z_]\w*', lambda m: (macros.get(m.group()) if isinstance(macros.get(m.group()), str) else None) or '0', c)
        c = c.replace('&&', ' and ').replace('||', ' or ').replace('!=', '<>').replace('!', ' not ').replace('<>', '!=')
        if not re.fullmatch(r'[\d\s()<>=!+*/a-z-]*', c):
            raise CError('cannot evaluate the condition of a directive: ' + c)
        try:
            return bool(eval(c, {'__builtins__': {}}))
        except Exception:
            raise CError('cannot evaluate the condition of a directive: ' + c)
    for ln in text.split('\n'):
        s = ln.strip()
        live = all(x[0] for x in stack)
        if not s.startswith('#'):
            out.append(ln if live else '')
            continue
        out.append('')
        d = re.sub(r'/\*.*?\*/|//.*$', '', s[1:]).strip()
        m = re.match(r'(\w+)\s*(.*)$', d)
        if not m:
            continue
        k, rest = m.group(1), m.group(2).strip()
        if k in ('if', 'ifdef', 'ifndef'):
            v = live and (value(rest) if k == 'if' else (rest.split()[0] in macros) == (k == 'ifdef'))
            stack.append([v, v])
        elif k == 'elif' and stack:
            v = not stack[-1][1] and all(x[0] for x in stack[:-1]) and value(rest)
            stack[-1] = [v, stack[-1][1] or v]
        elif k == 'else' and stack:
            stack[-1] = [not stack[-1][1], True]
        elif k == 'endif' and stack:
            stack.pop()
        elif k == 'define' and live:
            mm = re.match(r'(\w+)(\()?\s*(.*)$', rest)
            fm = re.match(r'(\w+)\(([\w\s,]*)\)\s*(.*)$', rest)
            if fm:
                macros[fm.group(1)] = ([x.strip() for x in fm.group(2).split(',') if x.strip()], fm.group(3).strip())
            elif mm and not mm.group(2):
                macros[mm.group(1)] = mm.group(3).strip()
        elif k == 'undef' and live:
            macros.pop(rest, None)
    return '\n'.join(out), macros


def tokens(text):
    text, macros = preprocess(text)
    out, pos, line = [], 0, 1
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise CError('line %d: cannot tokenize %r' % (line, text[pos:pos + 20]))
        if m.lastgroup:
            v = m.group()
            out.append((m.lastgroup, v, line))
        line += m.group().count('\n')
        pos = m.end()
    out = expand(out, macros, ())
    out.append(('eof', '', line))
    return out


def lex(text, line):
    return [(m.lastgroup, m.group(), line) for m in TOK.finditer(text) if m.lastgroup]


def expand(toks, macros, busy):
    if not macros:
        return toks
    out, i = [], 0
    while i < len(toks):
        k, v, line = toks[i]
        i += 1
        if k != 'id' or v not in macros or v in busy:
            out.append((k, v, line))
            continue
        body = macros[v]
        if isinstance(body, str):
            out += expand(lex(body, line), macros, busy + (v,))
            continue
        if i >= len(toks) or toks[i][1] != '(':
            out.append((k, v, line))
            continue
        args, depth, i = [[]], 1, i + 1
        while i < len(toks):
            t = toks[i]
            i += 1
            depth += (t[1] in '([{' and t[0] == 'op') - (t[1] in ')]}' and t[0] == 'op')
            if depth == 0:
                break
            if t[1] == ',' and depth == 1:
                args.append([])
            else:
                args[-1].append(t)
        if len(args) != len(body[0]) and not (args == [[]] and not body[0]):
            raise CError('line %d: macro %s takes %d arguments' % (line, v, len(body[0])))
        if '#' in body[1]:
            raise CError('line %d: macro %s pastes tokens' % (line, v))
        sub = dict(zip(body[0], args))
        new = []
        for t in lex(body[1], line):
            new += [(a, b, line) for a, b, _ in sub[t[1]]] if t[0] == 'id' and t[1] in sub else [t]
        out += expand(new, macros, busy + (v,))
    return out


TYPES = {'void', 'double', 'int', 'float', 'long', 'unsigned', 'signed', 'char', 'short', 'bool', 'size_t', 'auto'}
INTS = {'int', 'long', 'unsigned', 'signed', 'char', 'short', 'bool', 'size_t'}
QUAL = {'const', 'static', 'inline', 'extern', 'constexpr', 'volatile', 'register', '__inline', '__restrict',
        'restrict', 'noexcept'}


class Fn:
    def __init__(self, name, params, body, line, ret):
        self.name, self.params, self.body, self.line, self.ret = name, params, body, line, ret


class Parser:
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0
        self.fns, self.globals, self.protos = {}, [], {}
        self.types = {}

    def peek(self, k=0):
        return self.t[self.i + k][1]

    def line(self):
        return self.t[self.i][2]

    def kind(self, k=0):
        return self.t[self.i + k][0]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x[1]

    def want(self, s):
        if self.peek() != s:
            raise CError('line %d: expected %r, found %r' % (self.line(), s, self.peek()))
        return self.next()

    def is_type(self):
        return self.peek() in TYPES or self.peek() in QUAL or \
            (self.peek() in self.types and (self.kind(1) == 'id' or self.peek(1) in ('*', '&')))

    def typ(self):
        base, ptr, ref = [], 0, False
        while self.peek() in TYPES or self.peek() in QUAL or (self.peek() in self.types and not base):
            x = self.next()
            if x in self.types:
                base.append(self.types[x][0])
                ptr += self.types[x][1]
            elif x in TYPES:
                base.append(x)
        if not base:
            raise CError('line %d: type expected at %r' % (self.line(), self.peek()))
        while self.peek() in ('*', '&', 'const', '__restrict', 'restrict'):
            x = self.next()
            ptr += x == '*'
            ref = ref or x == '&'
        return ('int' if base[-1] in INTS and 'double' not in base else 'double' if 'double' in base else base[-1],
                ptr, ref)

    def alias(self):
        """typedef T name; using name = T;"""
        if self.next() == 'using':
            name = self.next()
            if name == 'namespace':
                self.next()
                self.want(';')
                return
            self.want('=')
            self.types[name] = self.typ()
        else:
            ty = self.typ()
            self.types[self.next()] = ty
        self.want(';')

    def enum(self):
        self.next()
        if self.peek() in ('class', 'struct'):
            raise CError('line %d: scoped enum' % self.line())
        if self.kind() == 'id':
            self.types[self.next()] = ('int', 0, False)
        self.want('{')
        ds, last = [], None
        while self.peek() != '}':
            ln, name = self.line(), self.next()
            if self.peek() == '=':
                self.next()
                e = self.ternary()
            else:
                e = ('num', 0) if last is None else ('bin', '+', last, ('num', 1))
            last = ('id', name)
            ds.append((name, ('int', 0, False), [], e))
            if self.peek() == ',':
                self.next()
        self.want('}')
        ln = self.line()
        self.want(';')
        return ('decl', ds, ln)

    def unit(self):
        while self.kind() != 'eof':
            if self.peek() == ';':
                self.next()
                continue
            if self.peek() == 'extern' and self.kind(1) == 'str':
                self.next(), self.next()
                if self.peek() == '{':
                    self.next()
                continue
            if self.peek() == 'namespace':
                self.next()
                if self.kind() == 'id':
                    self.next()
                self.want('{')
                continue
            if self.peek() == '}':
                self.next()
                continue
            if self.peek() in ('typedef', 'using'):
                self.alias()
                continue
            if self.peek() == 'enum':
                self.globals.append(self.enum())
                continue
            if self.peek() == 'static_assert':
                while self.next() != ';':
                    pass
                continue
            ln = self.line()
            ty = self.typ()
            name = self.next()
            if self.peek() == '(':
                self.next()
                params = []
                while self.peek() != ')':
                    if self.peek() == 'void' and self.peek(1) == ')':
                        self.next()
                        break
                    pt = self.typ()
                    pn = self.next() if self.kind() == 'id' else None
                    while self.peek() == '[':
                        while self.next() != ']':
                            pass
                        pt = (pt[0], 1, False)
                    params.append((pt, pn))
                    if self.peek() == ',':
                        self.next()
                self.want(')')
                while self.peek() in QUAL:
                    self.next()
                if self.peek() == ';':
                    self.next()
                    self.protos[name] = Fn(name, params, None, ln, ty)
                    continue
                self.fns[name] = Fn(name, params, self.block(), ln, ty)
            else:
                self.globals.append(self.declrest(ty, name))
        return self

    def block(self):
        self.want('{')
        out = []
        while self.peek() != '}':
            out.append(self.stmt())
        self.want('}')
        return ('block', out)

    def declrest(self, ty, name):
        ds, ln = [], self.line()
        while True:
            dims = []
            while self.peek() == '[':
                self.next()
                dims.append(None if self.peek() == ']' else self.expr())
                self.want(']')
            init = None
            if self.peek() == '=':
                self.next()
                init = self.init()
            elif self.peek() == '{':
                init = self.init()
                if not dims and len(init[1]) <= 1 and ty[0] not in ('array',):
                    init = init[1][0] if init[1] else ('num', 0)
            elif self.peek() == '(' and not dims:
                self.next()
                init = self.expr()
                self.want(')')
            ds.append((name, ty, dims, init))
            if self.peek() == ',':
                self.next()
                while self.peek() == '*':
                    self.next()
                    ty = (ty[0], 1, False)
                name = self.next()
                continue
            self.want(';')
            return ('decl', ds, ln)

    def init(self):
        if self.peek() == '{':
            self.next()
            xs = []
            while self.peek() != '}':
                xs.append(self.init())
                if self.peek() == ',':
                    self.next()
            self.want('}')
            return ('list', xs)
        return self.assign()

    def stmt(self):
        p, ln = self.peek(), self.line()
        if p == '{':
            return self.block()
        if p == ';':
            self.next()
            return ('nop',)
        if p == 'switch':
            self.next()
            self.want('(')
            e = self.expr()
            self.want(')')
            body = self.block()[1]
            labels, default = {}, None
            for k, s in enumerate(body):
                if s[0] == 'case':
                    labels.setdefault('list', []).append((s[1], k))
                elif s[0] == 'default':
                    default = k
            return ['switch', e, body, labels.get('list', []), default, None, ln]
        if p == 'case':
            self.next()
            e = self.ternary()
            self.want(':')
            return ('case', e)
        if p == 'default':
            self.next()
            self.want(':')
            return ('default',)
        if p == 'return':
            self.next()
            e = None if self.peek() == ';' else self.expr()
            self.want(';')
            return ('return', e, ln)
        if p in ('break', 'continue'):
            self.next()
            self.want(';')
            return (p,)
        if p == 'if':
            self.next()
            self.want('(')
            e = self.expr()
            self.want(')')
            a = self.stmt()
            b = None
            if self.peek() == 'else':
                self.next()
                b = self.stmt()
            return ('if', e, a, b, ln)
        if p == 'while':
            self.next()
            self.want('(')
            e = self.expr()
            self.want(')')
            return ('for', ('nop',), e, None, self.stmt(), ln)
        if p == 'do':
            self.next()
            b = self.stmt()
            self.want('while')
            self.want('(')
            e = self.expr()
            self.want(')')
            self.want(';')
            return ('do', b, e, ln)
        if p == 'for':
            self.next()
            self.want('(')
            at = self.i
            if self.is_type():
                ty = self.typ()
                if self.kind() == 'id' and self.peek(1) == ':':
                    name = self.next()
                    self.next()
                    e = self.expr()
                    self.want(')')
                    return ('each', ty, name, e, self.stmt(), ln)
                self.i = at
            init = self.simple()
            cond = None if self.peek() == ';' else self.expr()
            self.want(';')
            step = None if self.peek() == ')' else self.expr()
            self.want(')')
            return ('for', init, cond, step, self.stmt(), ln)
        return self.simple()

    def simple(self):
        if self.peek() == ';':
            self.next()
            return ('nop',)
        if self.peek() in ('typedef', 'using'):
            self.alias()
            return ('nop',)
        if self.peek() == 'enum':
            return self.enum()
        if self.is_type():
            ty = self.typ()
            if self.kind() != 'id':
                raise CError('line %d: declaration of %r' % (self.line(), self.peek()))
            return self.declrest(ty, self.next())
        ln = self.line()
        e = self.expr()
        self.want(';')
        return ('expr', e, ln)

    def expr(self):
        e = self.assign()
        while self.peek() == ',':
            self.next()
            e = ('comma', e, self.assign())
        return e

    def assign(self):
        e = self.ternary()
        if self.peek() in ('=', '+=', '-=', '*=', '/=', '%='):
            ln = self.line()
            op = self.next()
            return ('assign', op, e, self.assign(), ln)
        return e

    def ternary(self):
        c = self.binary(0)
        if self.peek() == '?':
            self.next()
            a = self.assign()
            self.want(':')
            return ('cond', c, a, self.ternary())
        return c

    PREC = [('||',), ('&&',), ('|',), ('^',), ('&',), ('==', '!='), ('<', '>', '<=', '>='), ('<<', '>>'),
            ('+', '-'), ('*', '/', '%')]

    def binary(self, k):
        if k == len(self.PREC):
            return self.unary()
        e = self.binary(k + 1)
        while self.kind() == 'op' and self.peek() in self.PREC[k]:
            op = self.next()
            e = ('bin', op, e, self.binary(k + 1))
        return e

    def unary(self):
        p = self.peek()
        if self.kind() == 'op' and p in ('-', '+', '!', '~', '*', '&'):
            self.next()
            return ('un', p, self.unary())
        if p in ('++', '--'):
            self.next()
            e = self.unary()
            return ('assign', p[0] + '=', e, ('num', 1), self.line())
        if p == '(' and (self.peek(1) in TYPES or self.peek(1) in QUAL):
            self.next()
            ty = self.typ()
            self.want(')')
            return ('cast', ty, self.unary())
        if p in ('static_cast', 'const_cast', 'reinterpret_cast'):
            self.next()
            self.want('<')
            ty = self.typ()
            self.want('>')
            self.want('(')
            e = self.expr()
            self.want(')')
            return ('cast', ty, e)
        if p == 'sizeof':
            size = {'double': 8, 'float': 4, 'int': 4, 'long': 8, 'char': 1, 'size_t': 8}
            if self.peek(1) == '(' and self.peek(2) in size and self.peek(3) == ')':
                self.next(), self.next()
                n = size[self.next()]
                self.next()
                return ('num', n)
            if self.peek(1) in ('*', '(') or self.kind(1) == 'id':
                ln = self.line()
                self.next()
                return ('sizeof', self.unary(), ln)
            raise CError('line %d: sizeof' % self.line())
        return self.postfix()

    def closure(self):
        """[captures](parameters) { body }"""
        ln = self.line()
        self.next()
        cap = []
        while self.peek() != ']':
            cap.append(self.next())
        self.next()
        params = []
        if self.peek() == '(':
            self.next()
            while self.peek() != ')':
                ty = self.typ()
                params.append((ty, self.next() if self.kind() == 'id' else None))
                if self.peek() == ',':
                    self.next()
            self.next()
        ret = ('auto', 0, False)
        while self.peek() in QUAL or self.peek() == 'mutable':
            self.next()
        if self.peek() == '->':
            self.next()
            ret = self.typ()
        return ('closure', Fn('closure', params, self.block(), ln, ret), '&' in cap)

    def postfix(self):
        if self.peek() == '(':
            self.next()
            e = self.expr()
            self.want(')')
        elif self.kind() == 'num':
            s = self.next()
            if s[:2] in ('0x', '0X'):
                e = ('num', int(s.rstrip('uUlL'), 16))
            elif re.fullmatch(r'\d+[uUlL]*', s):
                e = ('num', int(s.rstrip('uUlL')))
            else:
                e = ('num', Fr(s.rstrip('fFlL')))
        elif self.kind() == 'id':
            e = ('id', self.next())
        elif self.peek() == '[':
            e = self.closure()
        else:
            raise CError('line %d: unexpected %r' % (self.line(), self.peek()))
        while True:
            p = self.peek()
            if p == '(':
                ln = self.line()
                self.next()
                a = []
                while self.peek() != ')':
                    a.append(self.assign())
                    if self.peek() == ',':
                        self.next()
                self.next()
                e = ('call', e, a, ln)
            elif p == '[':
                self.next()
                k = self.expr()
                self.want(']')
                e = ('idx', e, k)
            elif p in ('++', '--'):
                self.next()
                e = ('post', p, e)
            else:
                return e


# ---- values: int | Fr | Poly-as-dict {monomial: Fr}; monomial = sorted tuple of (symbol, power)
def S(name):
    return {((name, 1),): Fr(1)}


def P(v):
    return v if isinstance(v, dict) else {(): Fr(v)}


def norm(d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return Fr(0)
    if len(d) == 1 and () in d:
        return d[()]
    return d


def add(a, b, s=1):
    if not isinstance(a, dict) and not isinstance(b, dict):
        return a + s * b
    out = dict(P(a))
    for k, v in P(b).items():
        out[k] = out.get(k, 0) + s * v
    return norm(out)


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + v
    return tuple(sorted((k, v) for k, v in d.items() if v))


def mul(a, b):
    if not isinstance(a, dict) and not isinstance(b, dict):
        return a * b
    out = {}
    for ka, va in P(a).items():
        for kb, vb in P(b).items():
            k = mmul(ka, kb)
            out[k] = out.get(k, 0) + va * vb
    return norm(out)


def power(a, n):
    out = Fr(1)
    for _ in range(n):
        out = mul(out, a)
    return out


class Ret(Exception):
    pass


class Ptr:
    """pointer to element off of an array"""
    def __init__(self, arr, off=0):
        self.arr, self.off = arr, off


class Arr:
    def __init__(self, name, data=None, size=None):
        self.name, self.data, self.size = name, data if data is not None else {}, size
        self.writes = []


class Eval:
    def __init__(self, prog, limit=4000000):
        self.prog, self.steps, self.limit = prog, 0, limit
        self.depth, self.at = 0, 0
        self.glob = {'#': {}}
        for d in prog.globals:
            self.decl(d, self.glob, self.glob)

    def run(self, fn, args, refs=()):
        f = self.prog.fns.get(fn)
        if f is None:
            raise CError('no function ' + fn)
        if len(args) != len(f.params):
            raise CError('%s takes %d arguments' % (fn, len(f.params)))
        return self.enter(f, args, {'#': {}}, refs)

    def enter(self, f, args, env, refs=()):
        for (ty, nm), a in zip(f.params, args):
            if nm is None:
                continue
            env[nm] = self.conv(ty, a)
            env['#'][nm] = ty
        self.depth += 1
        r = self.exec(f.body, env)
        self.depth -= 1
        for k, back in refs:
            if f.params[k][1] is not None:
                back(env[f.params[k][1]])
        if self.depth == 0:
            self.at = r[2] if r and r[0] == 'ret' else f.line
        if r is None and f.ret[0] not in ('void', 'auto'):
            raise CError('%s can reach its end without returning a value' % f.name)
        return self.conv(f.ret, r[1]) if r and r[0] == 'ret' and f.ret[0] != 'void' else None

    def conv(self, ty, v):
        if isinstance(v, (Ptr, Arr)) or ty[1]:
            return v
        if ty[0] in ('double', 'float'):
            return Fr(v) if isinstance(v, int) else v
        if ty[0] in ('int', 'long', 'unsigned', 'size_t', 'short', 'char', 'bool'):
            if isinstance(v, Fr):
                return int(v)
            if isinstance(v, dict):
                raise CError('a symbolic real is converted to an integer')
        return v

    def exec(self, s, env):
        """None = falls through; ('ret', v, line) / ('break',) / ('continue',)"""
        self.steps += 1
        if self.steps > self.limit:
            raise CError('too many steps')
        k = s[0]
        if k == 'block':
            saved = {}
            try:
                for x in s[1]:
                    if x[0] == 'decl':
                        self.hide(x, env, saved)
                    r = self.exec(x, env)
                    if r:
                        return r
                return None
            finally:
                self.unhide(env, saved)
        if k == 'return':
            return ('ret', None if s[1] is None else self.ev(s[1], env), s[2])
        if k == 'expr':
            self.ev(s[1], env)
            return None
        if k == 'decl':
            self.decl(s, env, env)
            return None
        if k in ('nop', 'case', 'default'):
            return None
        if k in ('break', 'continue'):
            return (k,)
        if k == 'if':
            if self.truth(self.ev(s[1], env), s[4]):
                return self.exec(s[2], env)
            return self.exec(s[3], env) if s[3] else None
        if k == 'switch':
            v = self.ev(s[1], env)
            if not isinstance(v, int):
                raise CError('line %d: switch on a value that is not a known integer' % s[6])
            if s[5] is None:
                s[5] = {}
                for e, pos in s[3]:
                    s[5][self.ev(e, {'#': {}})] = pos
            at = s[5].get(v, s[4])
            if at is None:
                return None
            for x in s[2][at:]:
                r = self.exec(x, env)
                if r:
                    return None if r[0] == 'break' else r
            return None
        if k == 'each':
            a = self.ev(s[3], env)
            if not isinstance(a, Arr) or a.size is None or getattr(a, 'dims', 1) > 1 or s[1][2]:
                raise CError('line %d: loop over something that is not an array of known size' % s[5])
            for q in range(a.size):
                env[s[2]] = self.conv(s[1], self.load(a, q))
                env['#'][s[2]] = s[1]
                r = self.exec(s[4], env)
                if r:
                    if r[0] == 'break':
                        break
                    if r[0] == 'ret':
                        return r
            return None
        if k == 'for' and s[1][0] == 'decl':
            saved = {}
            self.hide(s[1], env, saved)
            try:
                self.exec(s[1], env)
                return self.exec(('for', ('nop',)) + tuple(s[2:]), env)
            finally:
                self.unhide(env, saved)
        if k == 'for':
            self.exec(s[1], env)
            while s[2] is None or self.truth(self.ev(s[2], env), s[5]):
                self.steps += 1
                if self.steps > self.limit:
                    raise CError('too many steps')
                r = self.exec(s[4], env)
                if r:
                    if r[0] == 'break':
                        break
                    if r[0] == 'ret':
                        return r
                if s[3] is not None:
                    self.ev(s[3], env)
            return None
        if k == 'do':
            while True:
                r = self.exec(s[1], env)
                if r:
                    if r[0] == 'break':
                        return None
                    if r[0] == 'ret':
                        return r
                if not self.truth(self.ev(s[2], env), s[3]):
                    return None
        raise CError('statement ' + str(k))

    def hide(self, d, env, saved):
        for name, _, _, _ in d[1]:
            if name not in saved:
                saved[name] = (name in env, env.get(name), env['#'].get(name))

    def unhide(self, env, saved):
        for name, (had, v, ty) in saved.items():
            if had:
                env[name], env['#'][name] = v, ty
            else:
                env.pop(name, None)

    def truth(self, v, ln):
        if isinstance(v, dict):
            raise CError('line %d: a branch depends on a symbolic real' % ln)
        return bool(v)

    def decl(self, d, env, ev):
        for name, ty, dims, init in d[1]:
            env['#'][name] = ty
            if ty[2] and init is not None and init[0] in ('id', 'idx', 'un') and \
                    not isinstance(self.ev(init, env), (Ptr, Arr)):
                raise CError('line %d: a reference to a variable' % d[2])
            if dims:
                size = [self.ev(x, env) if x is not None else None for x in dims]
                arr = Arr(name, None, size[0])
                arr.ty = ty
                env[name] = arr

                def fill(x, pre):
                    for q, y in enumerate(x[1]):
                        if y[0] == 'list':
                            fill(y, pre + (q,))
                        else:
                            arr.data[pre + (q,) if len(dims) > 1 else q] = self.conv(ty, self.ev(y, env))
                if init is not None:
                    if init[0] != 'list':
                        raise CError('array %s initialised by an expression' % name)
                    fill(init, ())
                    if len(dims) == 1:
                        n = arr.size if arr.size is not None else len(arr.data)
                        arr.size = n
                        for q in range(n):
                            arr.data.setdefault(q, self.conv(ty, 0))
                    elif all(isinstance(x, int) for x in size[1:]):
                        n = size[0] if size[0] is not None else len(init[1])
                        for key in itertools.product(*(range(x) for x in [n] + size[1:])):
                            arr.data.setdefault(key, self.conv(ty, 0))
                arr.dims = len(dims)
            else:
                if init is not None and init[0] == 'list':
                    raise CError('line %d: %s initialised by a list' % (d[2], name))
                env[name] = self.conv(ty, self.ev(init, env)) if init is not None else None

    def ev(self, e, env):
        k = e[0]
        if k == 'num':
            return e[1]
        if k == 'id':
            n = e[1]
            if n in env:
                v = env[n]
            elif n in self.glob:
                v = self.glob[n]
            elif n in ('true', 'false'):
                return int(n == 'true')
            else:
                raise CError('unknown name ' + n)
            if v is None:
                raise CError('%s is read before it is set' % n)
            return v
        if k == 'bin':
            op = e[1]
            if op == '&&':
                return int(self.truth(self.ev(e[2], env), 0) and self.truth(self.ev(e[3], env), 0))
            if op == '||':
                return int(self.truth(self.ev(e[2], env), 0) or self.truth(self.ev(e[3], env), 0))
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            if isinstance(a, (Ptr, Arr)):
                a = a if isinstance(a, Ptr) else Ptr(a)
                if op in '+-' and isinstance(b, int):
                    return Ptr(a.arr, a.off + (b if op == '+' else -b))
                raise CError('pointer arithmetic ' + op)
            if op == '+':
                return add(a, b)
            if op == '-':
                return add(a, b, -1)
            if op == '*':
                return mul(a, b)
            if op == '/':
                if isinstance(b, dict):
                    raise CError('division by a symbolic real')
                if b == 0:
                    raise CError('division by zero')
                if isinstance(a, int) and isinstance(b, int):
                    q = abs(a) // abs(b)
                    return q if (a >= 0) == (b >= 0) else -q
                return mul(a, Fr(1) / b)
            if isinstance(a, dict) or isinstance(b, dict):
                raise CError('operator %s on a symbolic real' % op)
            if op == '%':
                r = abs(a) % abs(b)
                return r if a >= 0 else -r
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op])
            if op in ('&', '|', '^', '<<', '>>'):
                return {'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b, '>>': a >> b}[op]
            raise CError('operator ' + op)
        if k == 'un':
            op = e[1]
            if op == '&':
                t = e[2]
                if t[0] == 'idx':
                    a, i = self.ev(t[1], env), self.ev(t[2], env)
                    a = a if isinstance(a, Ptr) else Ptr(a)
                    return Ptr(a.arr, a.off + i)
                raise CError('address of ' + t[0])
            v = self.ev(e[2], env)
            if op == '*':
                return self.load(v, 0)
            if op == '-':
                return mul(-1, v)
            if op == '+':
                return v
            if op == '!':
                return int(not self.truth(v, 0))
            raise CError('operator ' + op)
        if k == 'call':
            return self.call(e, env)
        if k == 'idx':
            return self.load(self.ev(e[1], env), self.ev(e[2], env))
        if k == 'assign':
            op, tgt = e[1], e[2]
            v = self.ev(e[3], env)
            if op != '=':
                old = self.ev(tgt, env)
                if isinstance(old, (Ptr, Arr)):
                    old = old if isinstance(old, Ptr) else Ptr(old)
                    v = Ptr(old.arr, old.off + (v if op == '+=' else -v))
                elif op == '+=':
                    v = add(old, v)
                elif op == '-=':
                    v = add(old, v, -1)
                elif op == '*=':
                    v = mul(old, v)
                elif op == '/=' and not isinstance(v, dict) and not (isinstance(old, int) and isinstance(v, int)):
                    v = mul(old, Fr(1) / v)
                else:
                    raise CError('operator ' + op)
            self.store(tgt, v, env, e[4])
            return v
        if k == 'post':
            old = self.ev(e[2], env)
            d = 1 if e[1] == '++' else -1
            self.store(e[2], Ptr(old.arr, old.off + d) if isinstance(old, Ptr) else
                       Ptr(old, d) if isinstance(old, Arr) else add(old, d), env, 0)
            return old
        if k == 'cond':
            return self.ev(e[2] if self.truth(self.ev(e[1], env), 0) else e[3], env)
        if k == 'cast':
            return self.conv(e[1], self.ev(e[2], env))
        if k == 'comma':
            self.ev(e[1], env)
            return self.ev(e[2], env)
        if k == 'closure':
            return ('lam', e[1], e[2], env if e[2] else dict(env))
        if k == 'sizeof':
            v = e[1]
            if v[0] == 'id' and isinstance(env.get(v[1]), Arr) and env[v[1]].size is not None \
                    and getattr(env[v[1]], 'dims', 1) == 1:
                return 8*env[v[1]].size
            if v[0] in ('un', 'idx'):
                return 8
            raise CError('line %d: sizeof' % e[2])
        raise CError('expression ' + k)

    def load(self, a, i):
        if isinstance(a, tuple) and a[0] == 'row':
            key = a[2] + (i,)
            if key in a[1].data:
                return a[1].data[key]
            return ('row', a[1], key)
        if isinstance(a, Arr):
            a = Ptr(a)
        if not isinstance(a, Ptr) or not isinstance(i, int):
            raise CError('indexing of something that is not an array with a known index')
        if getattr(a.arr, 'dims', 1) > 1:
            return ('row', a.arr, (a.off + i,))
        if a.off + i not in a.arr.data:
            raise CError('%s[%d] is read before it is set' % (a.arr.name, a.off + i))
        return a.arr.data[a.off + i]

    def store(self, t, v, env, ln):
        if t[0] == 'id':
            tgt = env if t[1] in env or t[1] not in self.glob else self.glob
            old, ty = tgt.get(t[1]), tgt['#'].get(t[1])
            if ty is not None and ty[0] not in ('auto', 'void'):
                v = self.conv(ty, v)
            elif isinstance(old, Fr) or isinstance(old, dict):
                v = Fr(v) if isinstance(v, int) else v
            tgt[t[1]] = v
        elif t[0] in ('idx', 'un'):
            if t[0] == 'un':
                if t[1] != '*':
                    raise CError('assignment to ' + t[1])
                a, i = self.ev(t[2], env), 0
            else:
                a, i = self.ev(t[1], env), self.ev(t[2], env)
            a = Ptr(a) if isinstance(a, Arr) else a
            if not isinstance(a, Ptr) or not isinstance(i, int):
                raise CError('store at an unknown index')
            if getattr(a.arr, 'dims', 1) > 1:
                raise CError('store into a table of several dimensions')
            a.arr.data[a.off + i] = self.conv(getattr(a.arr, 'ty', None) or ('double', 0), v)
            a.arr.writes.append((a.off + i, ln))
        else:
            raise CError('assignment to ' + t[0])

    def writeback(self, t, v, env, ln):
        if self.ev(t, env) != v:
            self.store(t, v, env, ln)

    def closed(self, c, args, refs):
        """a call of a closure: the captured names are read, and written back when captured by reference"""
        _, f, byref, outer = c
        env = {k: v for k, v in outer.items() if k != '#'}
        env['#'] = dict(outer['#'])
        own = {nm for _, nm in f.params}
        before = {k: v for k, v in env.items() if k != '#' and k not in own}
        r = self.enter(f, args, env, refs)
        if byref:
            for k, v in before.items():
                if k in env and env[k] is not v:
                    outer[k] = env[k]
        return r

    def call(self, e, env):
        if e[1][0] != 'id':
            raise CError('indirect call')
        n = e[1][1].split('::')[-1]
        f = env.get(n)
        if isinstance(f, tuple) and f[0] == 'lam':
            f = f[1]
        elif f is None:
            f = self.prog.fns.get(n)
        refs, args = [], []
        for k, x in enumerate(e[2]):
            ty = f.params[k][0] if isinstance(f, Fn) and k < len(f.params) else None
            if x[0] == 'un' and x[1] == '&' and x[2][0] == 'id' and not isinstance(env.get(x[2][1]), (Ptr, Arr)):
                cell = Arr(x[2][1], {0: env[x[2][1]]} if env.get(x[2][1]) is not None else {}, 1)
                cell.ty = env['#'].get(x[2][1])
                args.append(Ptr(cell))
                refs.append((k, lambda p, c=cell, t=x[2]: self.store(t, c.data[0], env, e[3]) if 0 in c.data else None))
            elif ty and ty[2] and not ty[1] and x[0] == 'id' and env.get(x[1]) is None and x[1] in env:
                args.append(0)
                refs.append((k, lambda v, t=x: self.store(t, v, env, e[3])))
            else:
                v = self.ev(x, env)
                args.append(v)
                if ty and ty[2] and not ty[1] and x[0] in ('id', 'idx') and not isinstance(v, (Ptr, Arr)):
                    refs.append((k, lambda v, t=x: self.writeback(t, v, env, e[3])))
        if isinstance(f, Fn) and f.name == 'closure':
            return self.closed(env[n], args, refs)
        if n in self.prog.fns:
            return self.run(n, args, refs)
        if n == 'copy' and len(args) == 3:
            o, z, d = (Ptr(a) if isinstance(a, Arr) else a for a in args)
            if not all(isinstance(a, Ptr) for a in (o, z, d)) or o.arr is not z.arr:
                raise CError('line %d: copy of an unknown range' % e[3])
            for k in range(z.off - o.off):
                d.arr.data[d.off + k] = self.load(o, k)
                d.arr.writes.append((d.off + k, e[3]))
            return Ptr(d.arr, d.off + z.off - o.off)
        if n == 'pow':
            p = args[1]
            if isinstance(p, Fr) and p.denominator == 1:
                p = int(p)
            if not isinstance(p, int) or p < 0:
                raise CError('pow with an exponent that is not a known natural number')
            return power(args[0], p)
        if n in ('memcpy', 'memmove') and len(args) == 3:
            d, o = (Ptr(a) if isinstance(a, Arr) else a for a in args[:2])
            if not isinstance(d, Ptr) or not isinstance(o, Ptr) or not isinstance(args[2], int) or args[2] % 8:
                raise CError('line %d: %s of something that is not a known number of reals' % (e[3], n))
            vals = [self.load(o, k) for k in range(args[2] // 8)]
            for k, v in enumerate(vals):
                d.arr.data[d.off + k] = v
                d.arr.writes.append((d.off + k, e[3]))
            return d
        if n in ('fabs', 'abs') and not isinstance(args[0], dict):
            return abs(args[0])
        if n == 'printf':
            return 0
        raise CError('line %d: call of unknown function %s' % (e[3], n))


def parse(text):
    return Parser(text).unit()

