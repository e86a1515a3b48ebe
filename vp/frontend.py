"""Front ends: Python (ast), Cython (Cython's own parser) and a C++ subset are
all lowered to Python `ast` statements so that a single analysis engine reads
the three languages of the repository.

Lowerings of constructs Python does not have:
    &x[i]            ->  __addr__(x[i])
    <double*>e       ->  e                        (cast dropped)
    sizeof(T)        ->  __sizeof__()
    double F[36]     ->  F = __carray__(36)
    cdef T x         ->  recorded in Func.ctypes
    with nogil: B    ->  B
    switch (e) {...} ->  __Switch__ node (class Switch)
"""
import ast
import os


class AnalysisBroken(Exception):
    """The checker met something it cannot read: the answer would be a guess."""


class Func:
    def __init__(self, name, params, body, lineno, module, kind='def'):
        self.name = name
        self.params = params        # [(name, ctype or None, default ast or None)]
        self.body = body            # [ast.stmt]
        self.lineno = lineno
        self.module = module
        self.kind = kind            # def | cdef | c
        self.ctypes = {}            # local name -> ctype string
        self.vararg = None
        self.kwarg = None
        self.n_posonly = 0
        self.kwonly = []            # names
        self.cls = None
        self.decorators = []
        self.cpdef = False

    def param_names(self):
        return [p[0] for p in self.params]

    def __repr__(self):
        return '<Func %s:%d %s>' % (self.module.path, self.lineno, self.name)


class Class:
    def __init__(self, name, bases, lineno, module):
        self.name = name
        self.bases = bases
        self.lineno = lineno
        self.module = module
        self.methods = {}
        self.consts = {}           # class-level assignments name -> ast
        self.node = None


class Module:
    def __init__(self, path, lang):
        self.path = path
        self.lang = lang
        self.funcs = {}
        self.classes = {}
        self.consts = {}           # module-level simple assignments name -> ast expr
        self.externs = {}          # name -> header
        self.extern_sigs = {}
        self.extern_lines = {}      # name -> (ret, n args)
        self.imports = {}          # local name -> ('module', dotted) | ('from', dotted, name)
        self.stars = []            # modules of 'from x import *'
        self.body = []
        self.tree = None
        self.directives = {}
        self.name = None


class Switch(ast.stmt):
    _fields = ('subject', 'cases')

    def __init__(self, subject, cases, lineno):
        super().__init__()
        self.subject = subject
        self.cases = cases      # [(list of const ast | None for default, [stmts])] in order
        self.lineno = lineno


class Break(ast.stmt):
    _fields = ()


# --------------------------------------------------------------------------
def L(node, line):
    node.lineno = line
    node.col_offset = 0
    return node


def _name(n, line):
    return L(ast.Name(id=n, ctx=ast.Load()), line)


def _const(v, line):
    return L(ast.Constant(value=v), line)


def _call(fn, args, line, kw=()):
    return L(ast.Call(func=_name(fn, line) if isinstance(fn, str) else fn,
                      args=list(args), keywords=list(kw)), line)


# -------------------------------------------------------------------- python
def load_python(path, src=None):
    if src is None:
        with open(path) as fh:
            src = fh.read()
    m = Module(path, 'py')
    try:
        m.tree = ast.parse(src)
    except SyntaxError as e:
        raise AnalysisBroken('%s does not parse: %s' % (path, e))
    _collect_py(m, m.tree.body)
    return m


def py_func(node, module, cls=None):
    a = node.args
    params = []
    allp = list(a.posonlyargs) + list(a.args)
    defaults = [None] * (len(allp) - len(a.defaults)) + list(a.defaults)
    for p, d in zip(allp, defaults):
        params.append((p.arg, None, d))
    kwonly = []
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        params.append((p.arg, None, d))
        kwonly.append(p.arg)
    f = Func(node.name, params, node.body, node.lineno, module)
    f.kwonly = kwonly
    f.vararg = a.vararg.arg if a.vararg else None
    f.kwarg = a.kwarg.arg if a.kwarg else None
    f.cls = cls
    f.node = node
    f.decorators = [ast.unparse(d) for d in node.decorator_list]
    return f


def _collect_py(m, body):
    for st in body:
        if isinstance(st, ast.FunctionDef):
            m.funcs[st.name] = py_func(st, m)
        elif isinstance(st, ast.ClassDef):
            c = Class(st.name, [ast.unparse(b) for b in st.bases], st.lineno, m)
            c.node = st
            for s in st.body:
                if isinstance(s, ast.FunctionDef):
                    c.methods[s.name] = py_func(s, m, c)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.consts[t.id] = s.value
            m.classes[st.name] = c
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    m.consts[t.id] = st.value
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            if isinstance(st.target, ast.Name):
                m.consts[st.target.id] = st.value
        elif isinstance(st, ast.Import):
            for al in st.names:
                m.imports[(al.asname or al.name.split('.')[0])] = \
                    ('module', al.name if al.asname else al.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            for al in st.names:
                if al.name == '*':
                    m.stars.append('.' * st.level + (st.module or ''))
                    continue
                m.imports[al.asname or al.name] = \
                    ('from', '.' * st.level + (st.module or ''), al.name)
        elif isinstance(st, (ast.If, ast.Try)):
            _collect_py(m, st.body)
            _collect_py(m, st.orelse)


# -------------------------------------------------------------------- cython
def load_cython(path, src=None):
    try:
        from Cython.Compiler.TreeFragment import parse_from_strings
        from Cython.Compiler import Errors
    except ImportError as e:
        raise AnalysisBroken('Cython parser not importable (run with '
                             '/opt/venv/bin/python): %s' % e)
    if src is None:
        with open(path) as fh:
            src = fh.read()
    m = Module(path, 'pyx')
    for line in src.splitlines()[:30]:
        s = line.strip()
        if s.startswith('#cython:') or s.startswith('# cython:'):
            k, _, v = s.split(':', 1)[1].partition('=')
            m.directives[k.strip()] = v.strip()
    try:
        tree = parse_from_strings('m', src)
    except Exception as e:
        raise AnalysisBroken('%s does not parse as Cython: %s' % (path, e))
    _Cy(m).module(tree)
    return m


_BIN = {'AddNode': ast.Add, 'SubNode': ast.Sub, 'MulNode': ast.Mult,
        'DivNode': ast.Div, 'ModNode': ast.Mod, 'PowNode': ast.Pow,
        'MatMultNode': ast.MatMult,
        'IntBinopNode': None, 'BitwiseOrNode': None}
_AUG = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div,
        '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow, '@': ast.MatMult}
_CMP = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt,
        '>=': ast.GtE, 'is': ast.Is, 'is_not': ast.IsNot, 'in': ast.In,
        'not_in': ast.NotIn, 'is not': ast.IsNot, 'not in': ast.NotIn}


class _Cy:
    def __init__(self, m):
        self.m = m
        self.f = None

    def module(self, tree):
        body = self.stmts(tree.body)
        self.m.body = body
        for st in body:
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.m.consts[t.id] = st.value

    # types
    def ctype(self, bt, decl=None):
        s = self.bt(bt)
        d = decl
        while d is not None:
            n = type(d).__name__
            if n == 'CPtrDeclaratorNode':
                s += '*'
                d = d.base
            elif n == 'CArrayDeclaratorNode':
                s += '[]'
                d = d.base
            else:
                break
        return s

    def bt(self, b):
        n = type(b).__name__
        if n == 'CSimpleBaseTypeNode':
            return b.name or 'object'
        if n == 'MemoryViewSliceTypeNode':
            return '%s[%s]' % (self.bt(b.base_type_node), ','.join(':' for _ in b.axes))
        if n == 'CComplexBaseTypeNode':
            return self.ctype(b.base_type, b.declarator)
        if n == 'CConstTypeNode' or n == 'CConstOrVolatileTypeNode':
            return self.bt(b.base_type)
        return n

    @staticmethod
    def dname(d):
        while not hasattr(d, 'name') or type(d).__name__ not in ('CNameDeclaratorNode',):
            d = d.base
        return d

    def args(self, arglist):
        out = []
        for a in arglist:
            d = self.dname(a.declarator)
            nm = d.name
            ty = self.ctype(a.base_type, a.declarator)
            if not nm:      # 'def f(x)' parsed with name in base type
                nm = a.base_type.name
                ty = None
            df = self.expr(a.default) if a.default is not None else None
            out.append((str(nm), ty, df))
        return out

    def stmts(self, n):
        if n is None:
            return []
        t = type(n).__name__
        if t == 'StatListNode':
            out = []
            for s in n.stats:
                out += self.stmts(s)
            return out
        line = n.pos[1] if n.pos else 0
        h = getattr(self, 's_' + t, None)
        if h is None:
            raise AnalysisBroken('%s:%s: unsupported Cython statement %s' %
                                 (self.m.path, line, t))
        return h(n, line)

    def s_PassStatNode(self, n, line):
        return [L(ast.Pass(), line)]

    def s_CDefExternNode(self, n, line):
        self.externs(n.body, str(n.include_file))
        return []

    def externs(self, body, header):
        t = type(body).__name__
        if t == 'StatListNode':
            for s in body.stats:
                self.externs(s, header)
        elif t == 'CVarDefNode':
            for d in body.declarators:
                nm = str(self.dname(d).name)
                self.m.externs[nm] = header
                self.m.extern_lines[nm] = (str(getattr(self.dname(d), 'cname', None) or nm), d.pos[1] if d.pos else 0)
                dd = d
                while dd is not None and type(dd).__name__ != 'CFuncDeclaratorNode':
                    dd = getattr(dd, 'base', None)
                if dd is not None:
                    self.m.extern_sigs[nm] = (self.bt(body.base_type),
                                              [a[1] for a in self.args(dd.args)])

    def s_CVarDefNode(self, n, line):
        out = []
        for d in n.declarators:
            nd = self.dname(d)
            nm = str(nd.name)
            ty = self.ctype(n.base_type, d)
            if type(d).__name__ == 'CFuncDeclaratorNode':
                continue
            if self.f is not None:
                self.f.ctypes[nm] = ty
            dims = []
            dd = d
            while type(dd).__name__ in ('CArrayDeclaratorNode', 'CPtrDeclaratorNode'):
                if type(dd).__name__ == 'CArrayDeclaratorNode' and dd.dimension is not None:
                    dims.append(self.expr(dd.dimension))
                dd = dd.base
            if dims:
                out.append(L(ast.Assign(targets=[_name(nm, line)],
                                        value=_call('__carray__', dims, line)), line))
            dflt = nd.default
            if dflt is not None:
                out.append(L(ast.Assign(targets=[_name(nm, line)],
                                        value=self.expr(dflt)), line))
        return out

    def _func(self, name, args, body, line, kind):
        f = Func(name, args, None, line, self.m, kind)
        for nm, ty, _ in args:
            if ty:
                f.ctypes[nm] = ty
        old, self.f = self.f, f
        f.body = self.stmts(body)
        self.f = old
        if old is None:
            self.m.funcs[name] = f
        return f

    def s_DefNode(self, n, line):
        f = self._func(str(n.name), self.args(n.args), n.body, line, 'def')
        if n.star_arg is not None:
            f.vararg = str(n.star_arg.name)
        if n.starstar_arg is not None:
            f.kwarg = str(n.starstar_arg.name)
        return []

    def s_CFuncDefNode(self, n, line):
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        nm = str(self.dname(d).name)
        f = self._func(nm, self.args(d.args), n.body, line, 'cdef')
        f.rettype = self.ctype(n.base_type, n.declarator)
        f.cpdef = bool(getattr(n, 'overridable', False))
        return []

    def s_SingleAssignmentNode(self, n, line):
        if type(n.rhs).__name__ == 'ImportNode':
            nm = n.rhs.module_name.value
            self.m.imports[str(n.lhs.name)] = ('module', str(nm))
            return []
        return [L(ast.Assign(targets=[self.expr(n.lhs)], value=self.expr(n.rhs)), line)]

    def s_CascadedAssignmentNode(self, n, line):
        return [L(ast.Assign(targets=[self.expr(x) for x in n.lhs_list],
                             value=self.expr(n.rhs)), line)]

    def s_ParallelAssignmentNode(self, n, line):
        out = []
        for s in n.stats:
            out += self.stmts(s)
        return out

    def s_InPlaceAssignmentNode(self, n, line):
        return [L(ast.AugAssign(target=self.expr(n.lhs), op=_AUG[n.operator](),
                                value=self.expr(n.rhs)), line)]

    def s_ExprStatNode(self, n, line):
        return [L(ast.Expr(value=self.expr(n.expr)), line)]

    def s_ReturnStatNode(self, n, line):
        return [L(ast.Return(value=None if n.value is None else self.expr(n.value)), line)]

    def s_ContinueStatNode(self, n, line):
        return [L(ast.Continue(), line)]

    def s_BreakStatNode(self, n, line):
        return [L(ast.Break(), line)]

    def s_RaiseStatNode(self, n, line):
        return [L(ast.Raise(exc=self.expr(n.exc_type) if n.exc_type is not None else None,
                            cause=None), line)]

    def s_ReraiseStatNode(self, n, line):
        return [L(ast.Raise(exc=None, cause=None), line)]

    def s_AssertStatNode(self, n, line):
        return [L(ast.Assert(test=self.expr(n.condition), msg=None), line)]

    def s_FromImportStatNode(self, n, line):
        mod = str(n.module.module_name.value)
        level = max(0, n.module.level or 0)
        als = []
        for nm, tgt in n.items:
            self.m.imports[str(tgt.name)] = ('from', '.' * level + mod, str(nm))
            als.append(ast.alias(name=str(nm), asname=str(tgt.name)))
        return [L(ast.ImportFrom(module=mod, names=als, level=level), line)] if als else []

    def s_FromCImportStatNode(self, n, line):
        for it in n.imported_names:
            nm, as_name = it[1], it[2]
            self.m.externs[str(as_name or nm)] = str(n.module_name)
        return []

    def s_CImportStatNode(self, n, line):
        return []

    def s_GILStatNode(self, n, line):
        return self.stmts(n.body)

    def s_IfStatNode(self, n, line):
        orelse = self.stmts(n.else_clause) if n.else_clause is not None else []
        for cl in reversed(n.if_clauses):
            node = L(ast.If(test=self.expr(cl.condition), body=self.stmts(cl.body),
                            orelse=orelse), cl.pos[1])
            orelse = [node]
        return orelse

    def s_ForInStatNode(self, n, line):
        return [L(ast.For(target=self.expr(n.target), iter=self.expr(n.iterator.sequence),
                          body=self.stmts(n.body),
                          orelse=self.stmts(n.else_clause)), line)]

    def s_ForFromStatNode(self, n, line):
        lo = self.expr(n.bound1)
        hi = self.expr(n.bound2)
        if n.relation1 == '<':
            lo = L(ast.BinOp(lo, ast.Add(), _const(1, line)), line)
        if n.relation2 == '<=':
            hi = L(ast.BinOp(hi, ast.Add(), _const(1, line)), line)
        if n.relation2 not in ('<', '<='):
            raise AnalysisBroken('%s:%s: downward for-from' % (self.m.path, line))
        a = [lo, hi] + ([self.expr(n.step)] if n.step is not None else [])
        return [L(ast.For(target=self.expr(n.target), iter=_call('range', a, line),
                          body=self.stmts(n.body), orelse=[]), line)]

    def s_WhileStatNode(self, n, line):
        return [L(ast.While(test=self.expr(n.condition), body=self.stmts(n.body),
                            orelse=self.stmts(n.else_clause)), line)]

    def s_TryExceptStatNode(self, n, line):
        hs = []
        for c in n.except_clauses:
            hs.append(L(ast.ExceptHandler(type=None, name=None, body=self.stmts(c.body)), line))
        return [L(ast.Try(body=self.stmts(n.body), handlers=hs,
                          orelse=self.stmts(n.else_clause), finalbody=[]), line)]

    def s_TryFinallyStatNode(self, n, line):
        return [L(ast.Try(body=self.stmts(n.body), handlers=[], orelse=[],
                          finalbody=self.stmts(n.finally_clause)), line)]

    # expressions
    def expr(self, n):
        t = type(n).__name__
        line = n.pos[1] if getattr(n, 'pos', None) else 0
        if t in _BIN and _BIN[t]:
            return L(ast.BinOp(self.expr(n.operand1), _BIN[t](), self.expr(n.operand2)), line)
        h = getattr(self, 'e_' + t, None)
        if h is None:
            return _call('__unknown__', [_const(t, line)], line)
        return h(n, line)

    def e_NameNode(self, n, line):
        return _name(str(n.name), line)

    def e_IntNode(self, n, line):
        v = str(n.value).rstrip('uUlL')
        return _const(int(v, 0), line)

    def e_FloatNode(self, n, line):
        c = _const(float(n.value), line)
        c.literal = str(n.value)
        return c

    def e_StringNode(self, n, line):
        v = n.value
        return _const(v.decode() if isinstance(v, bytes) else str(v), line)

    e_UnicodeNode = e_StringNode
    e_IdentifierStringNode = e_StringNode
    e_BytesNode = e_StringNode

    def e_NoneNode(self, n, line):
        return _const(None, line)

    def e_BoolNode(self, n, line):
        return _const(bool(n.value), line)

    def e_NullNode(self, n, line):
        return _const(None, line)

    def e_EllipsisNode(self, n, line):
        return _const(Ellipsis, line)

    def e_AttributeNode(self, n, line):
        return L(ast.Attribute(value=self.expr(n.obj), attr=str(n.attribute),
                               ctx=ast.Load()), line)

    def e_IndexNode(self, n, line):
        return L(ast.Subscript(value=self.expr(n.base), slice=self.expr(n.index),
                               ctx=ast.Load()), line)

    def e_SliceIndexNode(self, n, line):
        return L(ast.Subscript(value=self.expr(n.base), slice=L(ast.Slice(
            lower=None if n.start is None else self.expr(n.start),
            upper=None if n.stop is None else self.expr(n.stop), step=None), line),
            ctx=ast.Load()), line)

    def e_SliceNode(self, n, line):
        def q(x):
            return None if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
        return L(ast.Slice(lower=q(n.start), upper=q(n.stop), step=q(n.step)), line)

    def e_TupleNode(self, n, line):
        return L(ast.Tuple(elts=[self.expr(a) for a in n.args], ctx=ast.Load()), line)

    def e_ListNode(self, n, line):
        return L(ast.List(elts=[self.expr(a) for a in n.args], ctx=ast.Load()), line)

    def e_DictNode(self, n, line):
        return L(ast.Dict(keys=[self.expr(i.key) for i in n.key_value_pairs],
                          values=[self.expr(i.value) for i in n.key_value_pairs]), line)

    def e_SimpleCallNode(self, n, line):
        return _call(self.expr(n.function), [self.expr(a) for a in n.args], line)

    def e_GeneralCallNode(self, n, line):
        pa = n.positional_args
        args = [self.expr(a) for a in pa.args] if hasattr(pa, 'args') else []
        kw = []
        ka = n.keyword_args
        if ka is not None and hasattr(ka, 'key_value_pairs'):
            for it in ka.key_value_pairs:
                kw.append(ast.keyword(arg=str(it.key.value), value=self.expr(it.value)))
        return _call(self.expr(n.function), args, line, kw)

    def e_UnaryMinusNode(self, n, line):
        return L(ast.UnaryOp(ast.USub(), self.expr(n.operand)), line)

    def e_UnaryPlusNode(self, n, line):
        return L(ast.UnaryOp(ast.UAdd(), self.expr(n.operand)), line)

    def e_NotNode(self, n, line):
        return L(ast.UnaryOp(ast.Not(), self.expr(n.operand)), line)

    def e_PrimaryCmpNode(self, n, line):
        ops, comps = [], []
        c = n
        left = self.expr(n.operand1)
        while c is not None:
            ops.append(_CMP[c.operator]())
            comps.append(self.expr(c.operand2))
            c = c.cascade
        return L(ast.Compare(left=left, ops=ops, comparators=comps), line)

    def e_BoolBinopNode(self, n, line):
        return L(ast.BoolOp(op=ast.And() if n.operator == 'and' else ast.Or(),
                            values=[self.expr(n.operand1), self.expr(n.operand2)]), line)

    def e_CondExprNode(self, n, line):
        return L(ast.IfExp(test=self.expr(n.test), body=self.expr(n.true_val),
                           orelse=self.expr(n.false_val)), line)

    def e_AmpersandNode(self, n, line):
        return _call('__addr__', [self.expr(n.operand)], line)

    def e_TypecastNode(self, n, line):
        ty = self.ctype(n.base_type, n.declarator)
        e = self.expr(n.operand)
        if ty in ('int', 'long', 'short', 'size_t'):
            return _call('int', [e], line)
        return e

    def e_SizeofTypeNode(self, n, line):
        return _call('__sizeof__', [_const(self.ctype(n.base_type, n.declarator), line)], line)

    def e_ImportNode(self, n, line):
        return _const(None, line)


# ------------------------------------------------------------------------- C
import re

_TOK = re.compile(r'''
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?[fFlLuU]*)
  | (?P<id>[A-Za-z_]\w*(?:::\w+)*)
  | (?P<str>"(?:\\.|[^"\\])*")
  | (?P<op>\+\+|--|\+=|-=|\*=|/=|==|!=|<=|>=|&&|\|\||->|<<|>>|[-+*/%=<>!&|^~?:;,.(){}\[\]])
''', re.X | re.S)

_CTYPES = {'double', 'float', 'int', 'long', 'short', 'unsigned', 'signed', 'void',
           'char', 'const', 'static', 'inline', 'extern', 'size_t', 'bool', 'constexpr',
           'EXPORTIT', 'auto', 'register', 'volatile', '__restrict', 'restrict'}


def load_c(path, src=None):
    if src is None:
        with open(path) as fh:
            src = fh.read()
    m = Module(path, 'c')
    _C(m, src).unit()
    return m


class _C:
    def __init__(self, m, src):
        self.m = m
        self.macros = {}
        # preprocessor: keep only simple object macros, drop the rest
        lines = []
        skip_depth = 0
        src = re.sub(r'\\\n', ' ', src)
        self.decl_specs = set(_CTYPES)
        for ln in src.split('\n'):
            s = ln.strip()
            if s.startswith('#'):
                mm = re.match(r'#\s*define\s+(\w+)\s*(.*)$', s)
                if mm:
                    body = mm.group(2).strip()
                    if body == '' or body.startswith('__'):
                        self.decl_specs.add(mm.group(1))
                    else:
                        self.macros[mm.group(1)] = body
                lines.append('')
            else:
                lines.append(ln)
        src = '\n'.join(lines)
        self.toks = []
        pos, line = 0, 1
        while pos < len(src):
            mm = _TOK.match(src, pos)
            if not mm:
                raise AnalysisBroken('%s:%d: cannot tokenise C source' % (m.path, line))
            k = mm.lastgroup
            if k != 'ws':
                v = mm.group()
                if k == 'id' and v in self.macros and re.match(r'^[-+(). 0-9eE]+$', self.macros[v]):
                    for t2 in _TOK.finditer(self.macros[v]):
                        if t2.lastgroup != 'ws':
                            self.toks.append((t2.lastgroup, t2.group(), line))
                else:
                    self.toks.append((k, v, line))
            line += mm.group().count('\n')
            pos = mm.end()
        self.toks.append(('eof', '', line))
        self.p = 0

    def peek(self, k=0):
        return self.toks[min(self.p + k, len(self.toks) - 1)]

    def next(self):
        t = self.toks[self.p]
        self.p += 1
        return t

    def at(self, v):
        return self.peek()[1] == v and self.peek()[0] != 'str'

    def eat(self, v):
        if self.at(v):
            self.p += 1
            return True
        return False

    def expect(self, v):
        t = self.next()
        if t[1] != v:
            raise AnalysisBroken('%s:%d: expected %r, found %r' % (self.m.path, t[2], v, t[1]))
        return t

    def unit(self):
        while self.peek()[0] != 'eof':
            if self.eat(';'):
                continue
            if self.at('}'):      # end of extern "C" { ... }
                self.next()
                continue
            if self.at('extern') and self.peek(1)[0] == 'str':
                self.next(); self.next()
                self.eat('{')
                continue
            if self.at('namespace'):
                self.next()
                if self.peek()[0] == 'id':
                    self.next()
                self.expect('{')
                continue
            if self.at('using'):
                while not self.eat(';'):
                    self.next()
                continue
            self.toplevel()

    def decl_start(self):
        t = self.peek()
        return t[0] == 'id' and t[1] in self.decl_specs

    def specs(self):
        ty = []
        while self.peek()[0] == 'id' and self.peek()[1] in self.decl_specs:
            ty.append(self.next()[1])
        ptr = ''
        while self.at('*') or self.at('&'):
            self.next()
            ptr += '*'
        base = [x for x in ty if x in ('double', 'float', 'int', 'long', 'short', 'void',
                                       'char', 'size_t', 'bool', 'unsigned', 'auto')]
        return ' '.join(base) + ptr

    def toplevel(self):
        line = self.peek()[2]
        ty = self.specs()
        if not ty and not self.decl_start():
            raise AnalysisBroken('%s:%d: unsupported top-level C construct near %r'
                                 % (self.m.path, line, self.peek()[1]))
        name = self.next()[1]
        if self.at('('):
            self.next()
            params = []
            if self.at('void') and self.peek(1)[1] == ')':
                self.next()
            while not self.eat(')'):
                pt = self.specs()
                pn = ''
                if self.peek()[0] == 'id':
                    pn = self.next()[1]
                while self.eat('['):
                    pt += '*'
                    while not self.eat(']'):
                        self.next()
                params.append((pn, pt, None))
                self.eat(',')
            if self.eat(';'):
                return
            f = Func(name, params, None, line, self.m, 'c')
            f.rettype = ty
            for pn, pt, _ in params:
                f.ctypes[pn] = pt
            self.f = f
            f.body = self.block()
            self.m.funcs[name] = f
        else:
            self.f = None
            for st in self.declarators(ty, name, line):
                if isinstance(st, ast.Assign):
                    self.m.consts[st.targets[0].id] = st.value
                    if ty.startswith(('int', 'long')):
                        self.m.directives['int:' + st.targets[0].id] = True

    def declarators(self, ty, name, line):
        out = []
        while True:
            dims = []
            while self.eat('['):
                if self.at(']'):
                    dims.append(_const(0, line))
                else:
                    dims.append(self.expr())
                self.expect(']')
            if self.f is not None:
                self.f.ctypes[name] = ty + '[]' * len(dims)
            if self.eat('='):
                if self.at('{'):
                    v = self.braces()
                else:
                    v = self.assign_expr()
                out.append(L(ast.Assign(targets=[_name(name, line)], value=v), line))
            elif dims:
                out.append(L(ast.Assign(targets=[_name(name, line)],
                                        value=_call('__carray__', dims, line)), line))
            if self.eat(','):
                while self.at('*'):
                    self.next()
                name = self.next()[1]
                continue
            self.expect(';')
            return out

    def braces(self):
        line = self.expect('{')[2]
        el = []
        while not self.eat('}'):
            el.append(self.braces() if self.at('{') else self.assign_expr())
            self.eat(',')
        return L(ast.List(elts=el, ctx=ast.Load()), line)

    def block(self):
        self.expect('{')
        out = []
        while not self.eat('}'):
            out += self.stmt()
        return out

    def body(self):
        return self.block() if self.at('{') else self.stmt()

    def stmt(self):
        t = self.peek()
        line = t[2]
        if self.at('{'):
            return self.block()
        if self.eat(';'):
            return []
        if t[0] == 'id':
            if t[1] == 'return':
                self.next()
                v = None if self.at(';') else self.expr()
                self.expect(';')
                return [L(ast.Return(value=v), line)]
            if t[1] == 'if':
                self.next()
                self.expect('(')
                c = self.expr()
                self.expect(')')
                b = self.body()
                e = []
                if self.eat('else'):
                    e = self.body()
                return [L(ast.If(test=c, body=b or [L(ast.Pass(), line)], orelse=e), line)]
            if t[1] == 'switch':
                return [self.switch()]
            if t[1] == 'break':
                self.next(); self.expect(';')
                return [L(ast.Break(), line)]
            if t[1] == 'continue':
                self.next(); self.expect(';')
                return [L(ast.Continue(), line)]
            if t[1] == 'for':
                return self.for_()
            if t[1] == 'while':
                self.next(); self.expect('(')
                c = self.expr()
                self.expect(')')
                return [L(ast.While(test=c, body=self.body(), orelse=[]), line)]
            if t[1] in ('do', 'goto', 'case', 'default'):
                raise AnalysisBroken('%s:%d: unsupported C statement %s' % (self.m.path, line, t[1]))
            if self.decl_start() or (self.peek(1)[0] == 'id' and t[1] not in ('else',)):
                if not self.decl_start():
                    self.decl_specs.add(t[1])
                ty = self.specs()
                name = self.next()[1]
                return self.declarators(ty, name, line)
        return self.expr_stmt(';')

    def expr_stmt(self, end):
        line = self.peek()[2]
        out = []
        while True:
            e = self.assign_expr(stmt=True)
            if isinstance(e, ast.stmt):
                out.append(e)
            elif isinstance(e, list):
                out += e
            else:
                out.append(L(ast.Expr(value=e), line))
            if self.eat(','):
                continue
            break
        self.expect(end)
        return out

    def for_(self):
        line = self.next()[2]
        self.expect('(')
        if self.at(';'):
            self.next()
            init = []
        elif self.decl_start():
            ty = self.specs()
            init = self.declarators(ty, self.next()[1], line)
        else:
            init = self.expr_stmt(';')
        cond = _const(True, line) if self.at(';') else self.expr()
        self.expect(';')
        upd = [] if self.at(')') else self.expr_stmt(')')
        if not upd:
            self.expect(')')
        b = self.body()
        # canonical counting loop -> for in range
        if (len(init) == 1 and isinstance(init[0], ast.Assign) and len(upd) == 1
                and isinstance(upd[0], ast.AugAssign) and isinstance(upd[0].op, ast.Add)
                and isinstance(cond, ast.Compare) and isinstance(cond.left, ast.Name)
                and isinstance(init[0].targets[0], ast.Name)
                and cond.left.id == init[0].targets[0].id
                and isinstance(cond.ops[0], (ast.Lt, ast.LtE, ast.NotEq))):
            hi = cond.comparators[0]
            if isinstance(cond.ops[0], ast.LtE):
                hi = L(ast.BinOp(hi, ast.Add(), _const(1, line)), line)
            return [L(ast.For(target=init[0].targets[0],
                              iter=_call('range', [init[0].value, hi, upd[0].value], line),
                              body=b, orelse=[]), line)]
        return init + [L(ast.While(test=cond, body=b + upd, orelse=[]), line)]

    def switch(self):
        line = self.next()[2]
        self.expect('(')
        subj = self.expr()
        self.expect(')')
        self.expect('{')
        cases = []
        while not self.eat('}'):
            labels = []
            while self.at('case') or self.at('default'):
                if self.next()[1] == 'default':
                    labels.append(None)
                else:
                    labels.append(self.ternary())
                self.expect(':')
            body = []
            while not (self.at('case') or self.at('default') or self.at('}')):
                body += self.stmt()
            cases.append((labels, body))
        return Switch(subj, cases, line)

    # expressions (precedence climbing)
    def expr(self):
        return self.assign_expr()

    def assign_expr(self, stmt=False):
        line = self.peek()[2]
        if stmt and self.peek()[1] in ('++', '--'):
            op = self.next()[1]
            e = self.unary()
            return L(ast.AugAssign(target=e, op=ast.Add() if op == '++' else ast.Sub(),
                                   value=_const(1, line)), line)
        e = self.ternary()
        if stmt:
            if self.at('='):
                tg = [e]
                while self.eat('='):
                    r = self.ternary()
                    tg.append(r)
                return L(ast.Assign(targets=tg[:-1], value=tg[-1]), line)
            if self.peek()[1] in ('+=', '-=', '*=', '/='):
                op = self.next()[1][0]
                r = self.ternary()
                return L(ast.AugAssign(target=e, op=_AUG[op](), value=r), line)
            if self.peek()[1] in ('++', '--'):
                op = self.next()[1]
                return L(ast.AugAssign(target=e, op=ast.Add() if op == '++' else ast.Sub(),
                                       value=_const(1, line)), line)
        return e

    def ternary(self):
        c = self.binary(0)
        if self.at('?'):
            line = self.next()[2]
            a = self.ternary()
            self.expect(':')
            b = self.ternary()
            return L(ast.IfExp(test=c, body=a, orelse=b), line)
        return c

    LEVELS = [['||'], ['&&'], ['==', '!='], ['<', '<=', '>', '>='], ['+', '-'], ['*', '/', '%']]

    def binary(self, lv):
        if lv == len(self.LEVELS):
            return self.unary()
        left = self.binary(lv + 1)
        while self.peek()[0] == 'op' and self.peek()[1] in self.LEVELS[lv]:
            _, op, line = self.next()
            right = self.binary(lv + 1)
            if op in ('||', '&&'):
                left = L(ast.BoolOp(op=ast.Or() if op == '||' else ast.And(),
                                    values=[left, right]), line)
            elif lv in (2, 3):
                left = L(ast.Compare(left=left, ops=[_CMP[op]()], comparators=[right]), line)
            elif op == '/':
                n = L(ast.BinOp(left, ast.Div(), right), line)
                n.c_div = True
                left = n
            else:
                left = L(ast.BinOp(left, _AUG[op](), right), line)
        return left

    def unary(self):
        t = self.peek()
        if t[1] == '-' and t[0] == 'op':
            self.next()
            return L(ast.UnaryOp(ast.USub(), self.unary()), t[2])
        if t[1] == '+' and t[0] == 'op':
            self.next()
            return self.unary()
        if t[1] == '!':
            self.next()
            return L(ast.UnaryOp(ast.Not(), self.unary()), t[2])
        if t[1] == '&':
            self.next()
            return _call('__addr__', [self.unary()], t[2])
        if t[1] == '*':
            self.next()
            return L(ast.Subscript(value=self.unary(), slice=_const(0, t[2]),
                                   ctx=ast.Load()), t[2])
        if t[1] == '(' and self.peek(1)[0] == 'id' and self.peek(1)[1] in self.decl_specs:
            self.next()
            ty = self.specs()
            self.expect(')')
            e = self.unary()
            if ty in ('int', 'long'):
                return _call('int', [e], t[2])
            if ty in ('double', 'float'):
                return _call('__double__', [e], t[2])
            return e
        return self.postfix()

    def postfix(self):
        k, v, line = self.next()
        if k == 'num':
            s = v.rstrip('fFlLuU')
            if re.fullmatch(r'\d+', s):
                e = _const(int(s), line)
            else:
                e = _const(float(s), line)
                e.literal = s
        elif k == 'id':
            e = _name(v, line)
        elif v == '(':
            e = self.expr()
            self.expect(')')
        elif k == 'str':
            e = _const(v[1:-1], line)
        else:
            raise AnalysisBroken('%s:%d: unexpected %r in C expression' % (self.m.path, line, v))
        while True:
            if self.at('['):
                self.next()
                i = self.expr()
                self.expect(']')
                e = L(ast.Subscript(value=e, slice=i, ctx=ast.Load()), line)
            elif self.at('('):
                self.next()
                args = []
                while not self.eat(')'):
                    args.append(self.assign_expr())
                    self.eat(',')
                e = _call(e, args, line)
            elif self.at('.') or self.at('->'):
                self.next()
                e = L(ast.Attribute(value=e, attr=self.next()[1], ctx=ast.Load()), line)
            else:
                return e


_CACHE = {}


def load(path):
    path = os.path.abspath(path)
    if path in _CACHE:
        return _CACHE[path]
    if not os.path.exists(path):
        raise AnalysisBroken('missing source file %s' % path)
    if path.endswith('.py'):
        m = load_python(path)
    elif path.endswith(('.pyx', '.pxi', '.pxd')):
        m = load_cython(path)
    else:
        m = load_c(path)
    _CACHE[path] = m
    return m
