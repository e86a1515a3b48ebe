"""Value-flow analysis (flow-sensitive, loop-summarising global value numbering).

Every local, array cell and attribute is mapped to a canonical Laurent
polynomial (vp.poly).  Control flow joins are merged with indicator atoms (gated
values), loops are analysed once with their modified locations havocked to
'phi' atoms; a location whose value after the body is  phi + e  is summarised
as  v0 + Sum(e).  Nothing is executed; no path is enumerated.
"""
import ast
from fractions import Fraction

from . import frontend as FE
from .poly import Poly, ZERO, ONE, atom_of, intern_atom, _IND, show, TooBig

A = Poly.atom
NONE = A(('none',))


def sstr(s):
    return A(('str', s))


class Give(Exception):
    """analysis cannot represent this construct"""


class Loop:
    _n = 0

    def __init__(self, trip, kind, line, iterable=None, name='', prange=False, step=None):
        Loop._n += 1
        self.id = Loop._n
        self.trip = trip
        self.kind = kind
        self.line = line
        self.iterable = iterable
        self.name = name
        self.prange = prange

    def lv(self):
        return A(('lv', '%s@%d' % (self.name, self.id), self.id))

    def __repr__(self):
        return '<Loop %s %s line %s>' % (self.name, show(self.trip) if self.trip is not None
                                         else show(self.iterable), self.line)


PURE_METHODS = ('dot', 'append', 'extend', 'insert', 'format', 'get', 'index', 'count', 'join', 'write', 'matvec', 'add')


class Event:
    __slots__ = ('kind', 'base', 'index', 'value', 'op', 'guard', 'loops', 'line', 'func',
                 'extra', 'full')

    def __init__(self, kind, base, index, value, op, guard, loops, line, func, extra=None,
                 full=None):
        self.kind = kind
        self.base = base
        self.index = index
        self.value = value
        self.op = op
        self.guard = guard
        self.loops = loops
        self.line = line
        self.func = func
        self.extra = extra
        self.full = full

    def cond(self, kinds=('branch',)):
        p = ONE
        for g, k in self.guard:
            if k in kinds:
                p = p * g
        return p

    def where(self):
        return '%s:%s' % (self.func.module.path if self.func else '?', self.line)

    def __repr__(self):
        return '<%s %s%s %s %s @%s>' % (
            self.kind, show(self.base) if self.base is not None else '',
            '[%s]' % ','.join(show(i) if isinstance(i, Poly) else str(i) for i in self.index)
            if self.index else '',
            self.op or '', show(self.value) if isinstance(self.value, Poly) else self.value,
            self.line)


class State:
    __slots__ = ('env', 'heap', 'guard')

    def __init__(self, env, heap, guard):
        self.env = env
        self.heap = heap
        self.guard = guard

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.guard)


_DEPS = {}


def deps(x):
    """set of loop ids / phi names an atom or poly depends on"""
    if isinstance(x, Poly):
        s = frozenset()
        for m in x.t:
            for a, _ in m:
                s |= atom_deps(a)
        return s
    if isinstance(x, tuple):
        s = frozenset()
        for y in x:
            s |= deps(y)
        return s
    return frozenset()


def poly_has(p, pred):
    """does any atom inside p satisfy pred"""
    if isinstance(p, Poly):
        for m in p.t:
            for i, _ in m:
                a = atom_of(i)
                if pred(a) or any(poly_has(x, pred) for x in a[1:]):
                    return True
        return False
    if isinstance(p, tuple):
        return any(poly_has(x, pred) for x in p)
    return False


def atom_deps(i):
    r = _DEPS.get(i)
    if r is None:
        a = atom_of(i)
        if a[0] == 'lv':
            r = frozenset([('L', a[2])])
        elif a[0] == 'elem':
            r = frozenset([('L', a[2])]) | deps(a[1])
        elif a[0] == 'phi':
            r = frozenset([('P', a[2], a[1]), ('L', a[2])])
        else:
            r = deps(a[1:])
        _DEPS[i] = r
    return r


def rebuild(p, fn, memo=None):
    """Rewrite atoms bottom-up.  fn(atom tuple) -> Poly or None."""
    memo = {} if memo is None else memo

    def tup(t):
        out = []
        ch = False
        for y in t:
            if isinstance(y, Poly):
                z = poly(y)
            elif isinstance(y, tuple):
                z = tup(y)
            else:
                z = y
            ch = ch or z is not y
            out.append(z)
        return tuple(out) if ch else t

    def one(i):
        a = atom_of(i)
        r = fn(a)
        if r is not None:
            return r
        b = tup(a)
        if b is a or b == a:
            return None
        if b[0] == 'ind':
            return mk_ind(b)
        if b[0] == 'inv':
            return b[1].inv()
        if b[0] == 'sum':
            return A(b)
        r = fn(b)
        return r if r is not None else A(b)

    def poly(q):
        return q.map_atoms(one, memo)

    return poly(p)


def mk_ind(a):
    """normalise an indicator atom whose operands may have become constant"""
    k = a[1]
    if k == 'eq':
        d = a[2]
        c = d.cval()
        if c is not None:
            return ONE if c == 0 else ZERO
        return ind_eq_diff(d)
    if k == 'lt':
        c = a[2].cval()
        if c is not None:
            return ONE if c < 0 else ZERO
    if k == 'is':
        r = same_obj(a[2], a[3])
        if r is not None:
            return ONE if r else ZERO
    if k == 'truth':
        t = truth_const(a[2])
        if t is not None:
            return ONE if t else ZERO
    return A(a)


def ind_eq_diff(d):
    """canonical indicator for d == 0"""
    m = min(d.t, key=lambda mm: repr([(atom_of(x), e) for x, e in mm]))
    lead = d.t[m]
    q = Poly({k: v / lead for k, v in d.t.items()})
    return A(('ind', 'eq', q))


def const_kind(v):
    a = v.single_atom() if isinstance(v, Poly) else None
    if v.cval() is not None:
        return 'num'
    if a is not None:
        if a[0] in ('str', 'none', 'func', 'class', 'module', 'obj', 'tuple', 'buf', 'new', 'slice'):
            return a[0]
    return None


def same_obj(x, y):
    kx, ky = const_kind(x), const_kind(y)
    if kx and ky:
        if kx == ky == 'tuple':
            return True if x == y else None
        return x == y
    if x == y:
        return True
    return None


STR_METHODS = ('format', 'startswith', 'endswith', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'find', 'count',
               'zfill', 'capitalize', 'title', 'isdigit', 'join')


def pyval(v):
    """string or whole number as the Python value"""
    if const_kind(v) == 'str':
        return v.single_atom()[1]
    return v.as_int()


def definite(i):
    """index whose equality with another such index is decided by comparison"""
    return i.as_int() is not None or const_kind(i) == 'str'


def truth_const(v):
    k = const_kind(v)
    if k == 'num':
        return v.cval() != 0
    if k == 'none':
        return False
    if k == 'str':
        return bool(v.single_atom()[1])
    if k in ('func', 'class', 'module', 'new'):
        return True
    if k == 'tuple':
        return bool(v.single_atom()[1])
    return None


def tup(*vs):
    return A(('tuple', tuple(vs)))


class Frame:
    def __init__(self, func, parent=None):
        self.func = func
        self.returns = []      # (state, value)
        self.closure = parent


class Flow:
    """One analysis run."""

    UNROLL = 64
    MAXDEPTH = 12

    def __init__(self, resolver=None, assume=None, inline=None, externs=None, self_class=None):
        self.resolver = resolver
        self.assume = dict(assume or {})     # Poly indicator -> bool
        self.inline = inline or (lambda f: True)
        self.externs = externs or {}
        self.loop_brk = {}          # loop -> states at its breaks
        self.touched = {}           # array or container -> loops that write it
        self.events = []
        self.loops = []
        self.modsets = {}
        self.frames = []
        self.nbuf = 0
        self.bufs = {}
        self.obj_class = {}
        self.notes = []
        self.loopinfo = {}
        self.loop_end = {}
        self.phi0 = {}
        self.closures = {}
        self.callstack = []
        self.closure_info = {}
        self.sites = []     # call sites and iterations of unrolled loops that are open
        self.stable = {}
        self.self_class = self_class
        self.typer = None
        self.fold_globals = False   # read module level containers (registries) by value
        self.post = {}              # (class, method) -> where the result is stored
        self.steps = 0
        self.noret = False
        self.local_assigned = {}

    # ------------------------------------------------------------ entry
    def run(self, func, args=None, state=None):
        """Analyse func with parameters bound to symbols (or args)."""
        env = {}
        st = state or State({}, {}, ())
        binds = dict(args or {})
        for nm, ty, df in func.params:
            env[nm] = binds.pop(nm) if nm in binds else A(('sym', nm))
        if func.vararg:
            env[func.vararg] = A(('sym', '*' + func.vararg))
        if func.kwarg:
            env[func.kwarg] = A(('sym', '**' + func.kwarg))
        st = State(env, st.heap, st.guard)
        return self.exec_func(func, st)

    def exec_func(self, func, st):
        fr = Frame(func)
        self.frames.append(fr)
        self.callstack.append(func)
        if len(self.callstack) > self.MAXDEPTH:
            raise Give('call depth')
        try:
            outs = self.block(func.body, st)
        finally:
            self.frames.pop()
            self.callstack.pop()
        ends = []
        for kind, s, v in outs:
            if kind == 'next':
                ends.append((s, NONE))
            elif kind == 'return':
                ends.append((s, v))
        if not ends:
            return None, None
        # join all the ends
        base = ends[-1]
        s, v = base[0].copy(), base[1]
        s.env['$ret'] = v
        for s2, v2 in reversed(ends[:-1]):
            s2 = s2.copy()
            s2.env['$ret'] = v2
            s = self.join(s2, s)
        v = s.env.pop('$ret')
        return s, v

    # ------------------------------------------------------------ joins
    def rel(self, s1, s2):
        g1, g2 = s1.guard, s2.guard
        k = 0
        while k < len(g1) and k < len(g2) and g1[k] == g2[k]:
            k += 1
        return g1[:k], g1[k:], g2[k:]

    def join(self, s1, s2):
        if s1 is s2:
            return s1
        pre, r1, r2 = self.rel(s1, s2)
        c1 = f1 = ONE
        for g, k in r1:
            f1 = f1 * g
            if k != 'noraise':
                c1 = c1 * g
        c2 = f2 = ONE
        for g, k in r2:
            f2 = f2 * g
            if k != 'noraise':
                c2 = c2 * g
        # of the two, s1 iff c1 (what raised an error on the way is not among them)
        if not (c1 + c2 == ONE):
            c1, c2 = f1, f2
        env = {}
        for k in set(s1.env) | set(s2.env):
            a = s1.env.get(k)
            b = s2.env.get(k)
            if a is b or a == b:
                env[k] = a
                continue
            if a is None:
                a = A(('undef', k))
            if b is None:
                b = A(('undef', k))
            env[k] = self.gate(c1, a, b)
        heap = {}
        for k in set(s1.heap) | set(s2.heap):
            a = s1.heap.get(k)
            b = s2.heap.get(k)
            if a is b or a == b:
                heap[k] = a
                continue
            if k[0] in ('cell', 'attr'):
                if a is None:
                    a = self.default_read(k, s1)
                if b is None:
                    b = self.default_read(k, s2)
                heap[k] = self.gate(c1, a, b)
            elif k[0] == 'dirty':
                heap[k] = True
            elif k[0] == 'obj':
                if a is None or b is None:
                    heap[k] = a or b      # allocated on one side only
                else:
                    heap[k] = self.join_obj(c1, a, b)
            elif k[0] == 'fill':
                heap[k] = ('unknown', (A(('fill?', id(a), id(b))),))
        extra = ()
        tot = f1 + f2
        if tot != ONE and (r1 or r2):
            kinds = {k for _, k in r1 + r2}
            if kinds == {'noraise'} or c1 + c2 == ONE:
                extra = ((tot, 'noraise'),)
            else:
                extra = ((tot, 'branch'),)
        return State(env, heap, pre + extra)

    def join_obj(self, c, a, b):
        if a[0] == b[0] == 'dict':
            da, db = dict(a[1]), dict(b[1])
            out = []
            for k in list(da) + [k for k in db if k not in da]:
                va = da.get(k, A(('missing', k)))
                vb = db.get(k, A(('missing', k)))
                out.append((k, va if va == vb else self.gate(c, va, vb)))
            return ('dict', tuple(out), a[2] or b[2])
        if a[0] == b[0] == 'list' and len(a[1]) == len(b[1]):
            return ('list', tuple(x if x == y else self.gate(c, x, y)
                                  for x, y in zip(a[1], b[1])), a[2] or b[2])
        if a[0] == b[0] == 'list':
            # common prefix then conditional items
            n = 0
            while n < min(len(a[1]), len(b[1])) and a[1][n] == b[1][n]:
                n += 1
            items = a[1][:n] + tuple(A(('opt', c, x)) for x in a[1][n:]) + \
                tuple(A(('opt', ONE - c, x)) for x in b[1][n:])
            return ('list', items, True)
        return ('opaque', (), True)

    def gate(self, c, a, b):
        if c == ONE:
            return a
        if c == ZERO:
            return b
        ta, tb = a.single_atom(), b.single_atom()
        if ta and tb and ta[0] == tb[0] == 'tuple' and len(ta[1]) == len(tb[1]):
            return A(('tuple', tuple(x if x == y else self.gate(c, x, y)
                                     for x, y in zip(ta[1], tb[1]))))
        return b + c * (a - b)

    def default_read(self, k, st):
        if k[0] == 'attr':
            return A(('attr', k[1], k[2]))
        return self.read_cell_default(k[1], k[2], st)

    # ------------------------------------------------------------ blocks
    def block(self, stmts, st):
        """returns list of (kind, state, value)"""
        outs = []
        cur = st
        for s in stmts:
            res = self.stmt(s, cur)
            nxt = [x for x in res if x[0] == 'next']
            outs += [x for x in res if x[0] != 'next']
            if not nxt:
                return outs
            cur = nxt[0][1]
        outs.append(('next', cur, None))
        return outs

    def add_guard(self, st, cond, kind='branch'):
        c = st.copy()
        c.guard = c.guard + ((cond, kind),)
        return c

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > 400000:
            raise Give('step budget')
        t = type(s).__name__
        h = getattr(self, 's_' + t, None)
        if h is None:
            self.note('unsupported statement %s' % t, s)
            return [('next', st, None)]
        old, self.noret = self.noret, False
        res = h(s, st)
        hit, self.noret = self.noret, old
        if hit:                       # a call that never returns was evaluated unconditionally
            return [x for x in res if x[0] == 'raise'] or [('raise', st, None)]
        return res

    def maybe(self, e, st, fn=None):
        """evaluate something that is only evaluated under a condition"""
        old = self.noret
        r = (fn or self.ev)(e, st)
        self.noret = old
        return r

    def note(self, msg, node=None):
        self.notes.append('%s:%s: %s' % (
            self.frames[-1].func.module.path if self.frames else '?',
            getattr(node, 'lineno', '?'), msg))

    def s_Pass(self, s, st):
        return [('next', st, None)]

    s_Global = s_Nonlocal = s_Delete = s_Pass

    def s_Import(self, s, st):
        st = st.copy()
        for al in s.names:
            st.env[al.asname or al.name.split('.')[0]] = \
                A(('module', al.name if al.asname else al.name.split('.')[0]))
        return [('next', st, None)]

    def s_ImportFrom(self, s, st):
        st = st.copy()
        mod = self.frames[-1].func.module
        for al in s.names:
            st.env[al.asname or al.name] = self.import_from(
                mod, '.' * s.level + (s.module or ''), al.name)
        return [('next', st, None)]

    def s_Expr(self, s, st):
        st = st.copy()
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value, st)
        return [('next', st, None)]

    def s_Assign(self, s, st):
        st = st.copy()
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return [('next', st, None)]

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [('next', st, None)]
        st = st.copy()
        self.assign(s.target, self.ev(s.value, st), st, s)
        return [('next', st, None)]

    def s_AugAssign(self, s, st):
        st = st.copy()
        if isinstance(s.target, ast.Name):
            cur = self.ev(s.target, st)
            # in place mutation of arrays/lists through a name
            v = self.ev(s.value, st)
            r = self.binop(s.op, cur, v, s, st)
            a = cur.single_atom()
            if a is not None and a[0] == 'obj':
                o = st.heap.get(('obj', a[1]))
                if o and o[0] == 'list' and isinstance(s.op, ast.Add):
                    st.heap[('obj', a[1])] = ('list', o[1] + (A(('ext', v)),), True)
                    return [('next', st, None)]
            self.event('augname', None, (s.target.id,), v, type(s.op).__name__, st, s, full=cur)
            st.env[s.target.id] = r
            return [('next', st, None)]
        cur = self.ev(s.target, st)
        v = self.ev(s.value, st)
        self.assign(s.target, self.binop(s.op, cur, v, s, st), st, s, aug=type(s.op).__name__)
        return [('next', st, None)]

    def s_Return(self, s, st):
        st = st.copy()
        v = NONE if s.value is None else self.ev(s.value, st)
        self.event('return', None, (), v, None, st, s)
        return [('return', st, v)]

    def s_Raise(self, s, st):
        st = st.copy()
        v = NONE
        if s.exc is not None:
            v = self.ev(s.exc, st)
        self.event('raise', None, (), v, None, st, s)
        return [('raise', st, None)]

    def s_Continue(self, s, st):
        return [('continue', st, None)]

    def s_Break(self, s, st):
        return [('break', st, None)]

    def s_Assert(self, s, st):
        st = st.copy()
        c = self.cond(s.test, st)
        if c == ZERO:
            self.event('raise', None, (), NONE, None, st, s)
            return [('raise', st, None)]
        if c != ONE:
            st = self.add_guard(st, c, 'noraise')
        return [('next', st, None)]

    def s_FunctionDef(self, s, st):
        st = st.copy()
        f = FE.py_func(s, self.frames[-1].func.module)
        key = self.closure(f, s.name, s, st.env, st)
        st.env[s.name] = A(key)
        return [('next', st, None)]

    def closure(self, f, name, node, env, st):
        """a function made here; defaults are evaluated now, other names when it is called"""
        k = ('closure', id(node), tuple(self.sites), tuple(l.id for l in self.loops))
        n = self.stable.setdefault(k, sum(1 for x in self.stable if x[0] == 'closure'))
        key = ('closure', f.module.path, name, node.lineno, n)
        defs = {}
        for nm, ty, df in f.params:
            if df is not None and not isinstance(df, ast.Constant):
                defs[nm] = self.ev(df, st)
        self.closures[key] = (f, env)
        self.closure_info[key] = (self.frames[-1].func, defs)
        return key

    def s_ClassDef(self, s, st):
        return [('next', st, None)]

    def s_With(self, s, st):
        st = st.copy()
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        res = self.block(list(s.body) + list(s.orelse), st)
        outs = []
        for h in s.handlers:
            c = A(('ind', 'exc', getattr(h, 'lineno', 0), self.frames[-1].func.name))
            hs = self.add_guard(st, c, 'branch')
            if h.name:
                hs.env[h.name] = A(('excval', h.lineno))
            hr = self.block(h.body, hs)
            new = []
            for kind, x, v in res:
                if kind == 'next':
                    x = State(x.env, x.heap, st.guard + ((ONE - c, 'branch'),) +
                              x.guard[len(st.guard):])
                new.append((kind, x, v))
            res = self.merge_next(new + hr)
        if s.finalbody:
            for kind, x, v in res:
                for k2, y, v2 in self.block(s.finalbody, x):
                    outs.append((kind if k2 == 'next' else k2, y, v if k2 == 'next' else v2))
            return outs
        return res

    s_TryStar = s_Try

    def merge_next(self, res):
        nxt = [x for x in res if x[0] == 'next']
        oth = [x for x in res if x[0] != 'next']
        if len(nxt) <= 1:
            return oth + nxt
        s = nxt[0][1]
        for x in nxt[1:]:
            s = self.join(s, x[1])
        return oth + [('next', s, None)]

    def s_If(self, s, st):
        st = st.copy()
        c = self.cond(s.test, st)
        if c == ONE:
            return self.block(s.body, st)
        if c == ZERO:
            return self.block(s.orelse, st)
        self.event('if', None, (), c, None, st, s)
        return self.fork(c, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x), st)

    def fork(self, c, tb, fb, st):
        t = tb(self.add_guard(st, c))
        f = fb(self.add_guard(st, ONE - c))
        tn = [x for x in t if x[0] == 'next']
        fn = [x for x in f if x[0] == 'next']
        oth = [x for x in t + f if x[0] != 'next']
        if tn and fn:
            return oth + [('next', self.join(tn[0][1], fn[0][1]), None)]
        live = tn or fn
        if live:
            dead = f if tn else t
            if all(x[0] == 'raise' for x in dead):
                # surviving side: condition only excludes an error
                x = live[0][1]
                n = len(st.guard)
                g = x.guard
                if len(g) > n and g[n][1] == 'branch' and g[n][0] in (c, ONE - c):
                    x = State(x.env, x.heap, g[:n] + ((g[n][0], 'noraise'),) + g[n + 1:])
                live = [('next', x, None)]
            return oth + live
        return oth

    def s_Switch(self, s, st):
        st = st.copy()
        v = self.ev(s.subject, st)
        labels = []
        for labs, body in s.cases:
            labels.append([None if l is None else self.ev(l, st) for l in labs])
        iv = v.as_int()
        # flatten fallthrough: body k continues with k+1 unless it ends the case

        def run_from(k, x):
            outs = []
            cur = [('next', x, None)]
            for j in range(k, len(s.cases)):
                nx = [y for y in cur if y[0] == 'next']
                outs += [y for y in cur if y[0] != 'next']
                cur = []
                if not nx:
                    break
                cur = self.block(s.cases[j][1], nx[0][1])
            outs += cur
            # break leaves the switch
            out2 = []
            for kind, y, vv in outs:
                out2.append(('next' if kind == 'break' else kind, y, vv))
            return self.merge_next(out2)

        if iv is not None:
            for k, labs in enumerate(labels):
                if any(l is not None and l == v for l in labs):
                    return run_from(k, st)
            for k, labs in enumerate(labels):
                if any(l is None for l in labs):
                    return run_from(k, st)
            return [('next', st, None)]

        # symbolic: nested if-chain
        def chain(k, x):
            if k == len(labels):
                for j, labs in enumerate(labels):
                    if any(l is None for l in labs):
                        return run_from(j, x)
                return [('next', x, None)]
            real = [l for l in labels[k] if l is not None]
            if not real:
                return chain(k + 1, x)
            c = ZERO
            for l in real:
                c = c + self.eq(v, l)
            return self.fork(c, lambda y: run_from(k, y), lambda y: chain(k + 1, y), x)
        return chain(0, st)

    # ------------------------------------------------------------ loops
    def s_For(self, s, st):
        st = st.copy()
        it = s.iter
        src = self.iter_source(it, st)
        kind = src[0]
        if kind == 'items':
            return self.unrolled(s, st, src[1])
        if kind == 'range':
            lo, hi, step, prange = src[1:]
            n = (hi - lo) / step
            k = n.as_int()
            if k is not None and k <= self.UNROLL:
                if k <= 0:
                    return self.block(s.orelse, st)
                return self.unrolled(s, st, [lo + step.scale(i) for i in range(k)])
            ki = n.cval()
            if ki is not None and ki <= self.UNROLL:
                import math
                return self.unrolled(s, st, [lo + step.scale(i) for i in range(max(0, math.ceil(ki)))])
        return self.symloop(s, st, src)

    def iter_source(self, it, st):
        """-> ('items', [values]) | ('range', lo, hi, step, prange) |
              ('iter', iterable, maker)"""
        if isinstance(it, ast.Call) and isinstance(it.func, (ast.Name, ast.Attribute)):
            fn = it.func.id if isinstance(it.func, ast.Name) else it.func.attr
            if fn in ('range', 'prange', 'xrange') and (
                    isinstance(it.func, ast.Name) or fn == 'prange'):
                a = [self.ev(x, st) for x in it.args]
                for k in it.keywords:
                    self.ev(k.value, st)
                lo, hi, step = ZERO, None, ONE
                if len(a) == 1:
                    hi = a[0]
                elif len(a) >= 2:
                    lo, hi = a[0], a[1]
                    if len(a) > 2:
                        step = a[2]
                ln = hi.single_atom() if isinstance(hi, Poly) else None
                if ln is not None and ln[0] == 'len' and lo == ZERO and step == ONE and fn != 'prange':
                    # counting through a sequence is walking along it
                    return ('count', ln[1])
                return ('range', lo, hi, step, fn == 'prange')
            if fn == 'enumerate' and isinstance(it.func, ast.Name):
                inner = self.iter_source(it.args[0], st)
                start = self.ev(it.args[1], st) if len(it.args) > 1 else ZERO
                if inner[0] == 'items':
                    return ('items', [tup(start + Poly.const(k), v)
                                      for k, v in enumerate(inner[1])])
                return ('enum', inner, start)
            if fn == 'zip' and isinstance(it.func, ast.Name):
                inner = [self.iter_source(x, st) for x in it.args]
                inner = [self.known_length(x, st) for x in inner]
                if all(x[0] == 'items' for x in inner):
                    return ('items', [tup(*vs) for vs in zip(*[x[1] for x in inner])])
                return ('zip', inner)
            if fn == 'reversed' and isinstance(it.func, ast.Name):
                inner = self.iter_source(it.args[0], st)
                if inner[0] == 'items':
                    return ('items', inner[1][::-1])
            if fn in ('items', 'keys', 'values') and isinstance(it.func, ast.Attribute):
                o = self.ev(it.func.value, st)
                d = self.getobj(o, st)
                if d and d[0] == 'dict' and not d[2]:
                    if fn == 'items':
                        return ('items', [tup(k, v) for k, v in d[1]])
                    return ('items', [k if fn == 'keys' else v for k, v in d[1]])
        v = self.ev(it, st)
        return self.iter_value(v, st)

    def iter_value(self, v, st):
        a = v.single_atom()
        if a is not None and a[0] == 'tuple':
            return ('items', list(a[1]))
        o = self.getobj(v, st)
        if o and o[0] == 'list' and not o[2]:
            return ('items', list(o[1]))
        if o and o[0] == 'dict' and not o[2]:
            return ('items', [k for k, _ in o[1]])
        if a is not None and a[0] == 'range':
            return ('range', a[1], a[2], a[3], False)
        return ('iter', v)

    def known_length(self, src, st):
        """the entries of a sequence whose length has been compared with a constant"""
        if src[0] != 'iter':
            return src
        ln = A(('len', src[1]))
        for g, kind in st.guard:
            a = g.single_atom()
            if a is None or a[0] != 'ind' or a[1] != 'eq':
                continue
            r = a[2] - ln
            n = r.cval() if r.cval() is not None else None
            n = -n if n is not None else (a[2] + ln).cval()
            if n is not None and 0 <= n <= self.UNROLL and n == int(n):
                return ('items', [A(('idx', src[1], (Poly.const(k),))) for k in range(int(n))])
        return src

    def getobj(self, v, st):
        a = v.single_atom() if isinstance(v, Poly) else None
        if a is not None and a[0] == 'obj':
            return st.heap.get(('obj', a[1]))
        if a is not None and a[0] == 'global' and self.fold_globals:
            g = self.stable.get(('gobj', a[1], a[2]))
            if g is not None:
                for k, x in g[1].items():
                    st.heap.setdefault(k, x)
                return st.heap.get(('obj', g[0].single_atom()[1]))
        return None

    def unrolled(self, s, st, items):
        outs = []
        cur = st
        broke = []
        for k, v in enumerate(items):
            c = cur.copy()
            self.assign(s.target, v, c, s, quiet=True)
            self.sites.append(k)
            try:
                res = self.block(s.body, c)
            finally:
                self.sites.pop()
            outs += [x for x in res if x[0] in ('return', 'raise')]
            broke += [x[1] for x in res if x[0] == 'break']
            nx = [x[1] for x in res if x[0] in ('next', 'continue')]
            if not nx:
                cur = None
                break
            cur = nx[0]
            for y in nx[1:]:
                cur = self.join(cur, y)
        if cur is not None and s.orelse:
            res = self.block(s.orelse, cur)
            outs += [x for x in res if x[0] != 'next']
            nn = [x for x in res if x[0] == 'next']
            cur = nn[0][1] if nn else None
        for b in broke:
            cur = b if cur is None else self.join(b, cur)
        if cur is not None:
            outs.append(('next', cur, None))
        return outs

    def loop_target(self, src, loop):
        """value of the loop target for symbolic sources"""
        k = src[0]
        if k == 'range':
            return src[1] + src[3] * loop.lv()
        if k == 'iter':
            return A(('elem', src[1], loop.id))
        if k == 'count':
            return loop.lv()
        if k == 'enum':
            return tup(src[2] + loop.lv(), self.loop_target(src[1], loop))
        if k == 'zip':
            return tup(*[self.loop_target(x, loop) for x in src[1]])
        if k == 'items':
            return A(('elem', tup(*src[1]), loop.id))
        raise Give('loop source')

    def loop_trip(self, src):
        k = src[0]
        if k == 'range':
            return (src[2] - src[1]) / src[3]
        if k in ('iter', 'count'):
            return A(('len', src[1]))
        if k == 'enum':
            return self.loop_trip(src[1])
        if k == 'zip':
            return self.loop_trip(src[1][0])
        if k == 'items':
            return Poly.const(len(src[1]))

    def loop_iterable(self, src):
        if src[0] in ('iter', 'count'):
            return src[1]
        if src[0] == 'enum':
            return self.loop_iterable(src[1])
        if src[0] == 'zip':
            return tup(*[x for x in map(self.loop_iterable, src[1]) if x is not None])
        return None

    def loop_for(self, node, src):
        # a loop that another call runs over something else is another loop
        trip = self.loop_trip(src) if src else None
        iterable = self.loop_iterable(src) if src else None
        key = (id(node), tuple(id(f) for f in self.callstack), tuple(l.id for l in self.loops), trip, iterable)
        info = self.loopinfo.get(key)
        if info is None:
            nm = 'i'
            if isinstance(getattr(node, 'target', None), ast.Name):
                nm = node.target.id
            loop = Loop(trip, src[0] if src else 'while', getattr(node, 'lineno', 0), iterable, nm,
                        bool(src and src[0] == 'range' and src[4]))
            info = [loop, set(), set()]
            self.loopinfo[key] = info
        return info

    def symloop(self, s, st, src, body=None, cond=None):
        info = self.loop_for(s, src)
        loop, modenv, modheap = info
        body = s.body if body is None else body
        mark = len(self.events)
        for attempt in range(12):
            del self.events[mark:]
            cur = st.copy()
            phis = {}
            for k in modenv:
                v0 = st.env.get(k)
                if v0 is None:
                    continue
                cur.env[k] = A(('phi', k, loop.id))
                phis[('e', k)] = v0
            for k in modheap:
                if k[0] == 'obj':
                    if k in st.heap:
                        o = st.heap[k]
                        cur.heap[k] = (o[0], o[1], True)
                    continue
                if k[0] == 'dirty':
                    cur.heap[k] = True
                    continue
                if k[0] == 'fill':
                    cur.heap.pop(k, None)
                    continue
                v0 = st.heap.get(k)
                if v0 is None:
                    if k[0] in ('cell', 'attr') and any(
                            d == ('L', loop.id) for d in deps(k[1:])):
                        continue
                    v0 = self.default_read(k, st)
                cur.heap[k] = A(('phi', ('h',) + k, loop.id))
                phis[('h', k)] = v0
            self.loops.append(loop)
            try:
                if src is not None:
                    self.assign(s.target, self.loop_target(src, loop), cur, s, quiet=True)
                entry = cur
                if cond is not None:
                    cur = cur.copy()
                    c = self.cond(cond, cur)
                    if c != ONE:
                        cur = self.add_guard(cur, c)
                res = self.block(body, cur)
            finally:
                self.loops.pop()
            nx = [x[1] for x in res if x[0] in ('next', 'continue')]
            end = None
            for y in nx:
                end = y if end is None else self.join(end, y)
            new = False
            ends = [x[1] for x in res if x[0] in ('next', 'continue', 'break')]
            for e in ends:
                for k, v in e.env.items():
                    if k in modenv or k not in st.env:
                        continue
                    if v is not st.env[k] and v != st.env[k]:
                        if isinstance(getattr(s, 'target', None), ast.Name) and k == s.target.id:
                            continue
                        modenv.add(k)
                        new = True
                for k, v in e.heap.items():
                    if k in modheap:
                        continue
                    o = st.heap.get(k)
                    if o is not v and o != v:
                        if k[0] in ('cell', 'attr') and o is None and deps(k[1:]) & {('L', loop.id)}:
                            continue
                        if k[0] == 'obj' and o is None:
                            continue
                        if k[0] == 'fill' and k not in st.heap:
                            pass
                        modheap.add(k)
                        new = True
            if not new:
                break
        else:
            raise Give('loop did not stabilise')
        outs = [x for x in res if x[0] in ('return', 'raise')]
        # return inside a symbolic loop: keep going as well
        out = st.copy()
        if end is not None:
            self.close_loop(loop, st, end, phis, out)
            self.tables(loop, st, out, mark)
        br = [x[1] for x in res if x[0] == 'break']
        if br:
            self.loop_brk[loop.id] = [(x.guard, dict(x.env)) for x in br]
            # value after loop unknown for anything modified
            for k in modenv:
                out.env[k] = A(('brk', k, loop.id))
            for k in modheap:
                if k[0] in ('cell', 'attr'):
                    out.heap[k] = A(('brk', ('h',) + k, loop.id))
        if s.orelse:
            r2 = self.block(s.orelse, out)
            outs += [x for x in r2 if x[0] != 'next']
            nn = [x for x in r2 if x[0] == 'next']
            if not nn:
                return outs
            out = nn[0][1]
        outs.append(('next', out, None))
        return outs

    def close_loop(self, loop, st, end, phis, out):
        lid = ('L', loop.id)
        ph = {}
        for key, v0 in phis.items():
            if key[0] == 'e':
                ph[key] = (A(('phi', key[1], loop.id)), v0, end.env.get(key[1]))
            else:
                ph[key] = (A(('phi', ('h',) + key[1], loop.id)), v0, end.heap.get(key[1]))
        self.loop_end[loop.id] = (loop, ph)
        unchanged = {}
        for key, (f, v0, ve) in ph.items():
            if ve == f:
                unchanged[f.single_atom()] = v0
        for key, (f, v0, ve) in ph.items():
            if ve is None:
                continue
            if ve == f:
                val = v0
            else:
                d = ve - f
                if not any(x[0] == 'P' and x[1] == loop.id for x in deps(d)) and not self.rewritten(d, loop):
                    val = v0 + self.sum_over(loop, d)
                elif lid not in deps(ve):
                    val = ve
                else:
                    val = A(('loopout', f, loop.id))
            if key[0] == 'e':
                out.env[key[1]] = val
            else:
                out.heap[key[1]] = val
        # names first bound inside the loop
        for k, v in end.env.items():
            if k not in st.env and k not in out.env:
                out.env[k] = v if lid not in deps(v) else A(('loopout', k, loop.id))
        for k, v in end.heap.items():
            if k in out.heap:
                if k[0] == 'obj' and end.heap[k] != st.heap.get(k):
                    out.heap[k] = self.close_obj(loop, st.heap.get(k), v)
                continue
            if k[0] in ('cell', 'attr') and lid in deps(k[1:]):
                continue
            if k[0] in ('cell', 'attr'):
                if lid in deps(v):
                    v = A(('loopout', ('h',) + k, loop.id))
                out.heap[k] = v
            elif k[0] in ('dirty',):
                out.heap[k] = v
            elif k[0] == 'fill':
                out.heap[k] = v
            elif k[0] == 'obj':
                out.heap[k] = v

    def tables(self, loop, st, out, mark):
        """an array each entry of which a loop sets once can be read as what it was set to"""
        by = {}
        for e in self.events[mark:]:
            if e.kind in ('store', 'setitem') and isinstance(e.base, Poly):
                by.setdefault(e.base, []).append(e)
        for b, es in by.items():
            a = b.single_atom()
            if a is None or a[0] != 'buf' or len(es) != 1 or ('fill', b) in st.heap:
                continue
            e, = es
            depth = len(self.loops)
            own = e.loops[depth:]
            v = e.full if e.full is not None else e.value
            if e.op != '=' or e.extra is not None or not own or own[0] is not loop or not isinstance(v, Poly) or \
                    any(l.kind not in ('range', 'count') or l.trip is None for l in own) or len(e.guard) != len(st.guard):
                continue
            ix = [x.single_atom() if isinstance(x, Poly) else None for x in e.index]
            if len(ix) != len(own) or any(x is None or x[0] != 'lv' for x in ix):
                continue
            ids = [x[2] for x in ix]
            if sorted(ids) != sorted(l.id for l in own):
                continue
            trips = [next(l.trip for l in own if l.id == i) for i in ids]
            if any(deps(t) & {('L', l.id) for l in own} for t in trips):
                continue
            if any(d[0] == 'P' and d[1] in ids for d in deps(v)):
                continue
            if poly_has(v, lambda x: x[0] in ('loopout', 'brk') or x[0] in ('buf', 'obj') and
                        set(ids) & set(self.touched.get(x, ()))):
                continue
            out.heap[('fill', b)] = ('table', (tuple(ids), tuple(trips), v))

    def trip_of(self, i):
        for l in self.loops:
            if l.id == i:
                return l.trip
        return None

    def close_obj(self, loop, before, after):
        if before and before[0] == after[0] == 'list':
            n = len(before[1])
            items = after[1]
            if items[:n] == before[1]:
                add = tuple(A(('rep', loop.id, x)) for x in items[n:])
                return ('list', before[1] + add, True)
        if before and before[0] == after[0] == 'dict':
            return ('dict', after[1], True)
        return ('opaque', (), True)

    def rewritten(self, d, loop):
        """does d contain a product with an array that the loop writes again in each iteration"""
        def bad(a):
            return a[0] in ('obj', 'buf') and loop.id in self.touched.get(a, ())

        def mm(a):
            return a[0] == 'matmul' and any(poly_has(x, bad) for x in a[1:])
        return poly_has(d, mm)

    def sum_over(self, loop, e):
        """Sum over all iterations of loop of the polynomial e."""
        lid = ('L', loop.id)
        out = ZERO
        trip = loop.trip
        for m, c in e.t.items():
            dep, ind = [], []
            for a, x in m:
                (dep if lid in atom_deps(a) else ind).append((a, x))
            if not dep:
                r = trip if trip is not None else A(('trip', loop.id))
            else:
                bounds = []
                D = Poly({(): Fraction(1)})
                rest = []
                for a, x in dep:
                    at = atom_of(a)
                    if at[0] == 'sum' and x == 1 and not bounds:
                        bounds = list(at[1])
                        D = D * at[2]
                    else:
                        rest.append((a, x))
                if rest:
                    D = D * Poly({tuple(rest): Fraction(1)})
                key = trip if loop.kind == 'range' else (loop.iterable if loop.iterable is not None
                                                         else trip)
                lvl = sum(1 for b, _ in bounds if b == key)
                bv = ('bv', key, lvl)

                def fn(at, loop=loop, bv=bv):
                    if at[0] == 'lv' and at[2] == loop.id:
                        return A(bv)
                    if at[0] == 'elem' and at[2] == loop.id:
                        return A(('belem', at[1], lvl))
                    return None
                D = rebuild(D, fn)
                bounds = tuple(sorted(bounds + [(key, lvl)], key=repr))
                r = A(('sum', bounds, D))
            out = out + r * Poly({tuple(ind): c})
        return out

    def s_While(self, s, st):
        # canonical counting loop  while i < n: ...; i += k
        t = s.test
        if (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)
                and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq)) and s.body):
            nm = t.left.id
            last = s.body[-1]
            step = None
            if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and \
                    isinstance(last.target, ast.Name) and last.target.id == nm:
                step = last.value
            elif isinstance(last, ast.Assign) and isinstance(last.targets[0], ast.Name) and \
                    last.targets[0].id == nm and isinstance(last.value, ast.BinOp) and \
                    isinstance(last.value.op, ast.Add) and \
                    isinstance(last.value.left, ast.Name) and last.value.left.id == nm:
                step = last.value.right
            inner = s.body[:-1]
            bad = False
            for x in inner:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and y.id == nm and isinstance(
                            getattr(y, 'ctx', None), ast.Store):
                        bad = True
                    if isinstance(y, (ast.Assign, ast.AugAssign)):
                        tg = y.targets if isinstance(y, ast.Assign) else [y.target]
                        if any(isinstance(q, ast.Name) and q.id == nm for q in tg):
                            bad = True
                    if isinstance(y, ast.Continue):
                        bad = True
            if step is not None and not bad:
                st = st.copy()
                lo = self.ev(t.left, st)
                hi = self.ev(t.comparators[0], st)
                if isinstance(t.ops[0], ast.LtE):
                    hi = hi + ONE
                sp = self.ev(step, st)
                src = ('range', lo, hi, sp, False)
                k = ((hi - lo) / sp).as_int()
                fake = ast.For(target=ast.Name(id=nm, ctx=ast.Store()), iter=t,
                               body=inner, orelse=s.orelse)
                fake.lineno = s.lineno
                key = ('fake', id(s))
                fake = self.stable.setdefault(key, fake)
                if k is not None and k <= self.UNROLL:
                    res = self.unrolled(fake, st, [lo + sp.scale(i) for i in range(max(k, 0))])
                else:
                    res = self.symloop(fake, st, src)
                for r in res:
                    if r[0] == 'next':
                        r[1].env[nm] = hi
                return res
        c = self.cond(t, st.copy())
        if c == ZERO:
            return [('next', st, None)]
        return self.symloop(s, st, None, cond=t)

    # ------------------------------------------------------------ assign
    def event(self, kind, base, index, value, op, st, node, extra=None, full=None):
        self.events.append(Event(kind, base, index, value, op, st.guard, tuple(self.loops),
                                 getattr(node, 'lineno', 0),
                                 self.frames[-1].func if self.frames else None, extra, full))

    def assign(self, t, v, st, node, quiet=False, aug=None):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            if not quiet:
                self.event('name', None, (t.id,), v, aug, st, node)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e,
                                A(('unpack*', v, t.elts.index(e))), st, node, quiet)
                return
            vals = self.unpack(v, len(t.elts), st)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st, node, quiet)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(o, t.attr, st, node)
            st.heap[('attr', o, t.attr)] = v
            self.event('setattr', o, (t.attr,), v, aug, st, node, full=cur)
            return
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            idx = self.index(t.slice, st)
            self.store(b, idx, v, st, node, aug)
            return
        self.note('unsupported assignment target', node)

    def unpack(self, v, n, st):
        a = v.single_atom()
        if a is not None and a[0] == 'tuple' and len(a[1]) == n:
            return list(a[1])
        o = self.getobj(v, st)
        if o and o[0] == 'list' and not o[2] and len(o[1]) == n:
            return list(o[1])
        return [self.read(v, (Poly.const(i),), st) for i in range(n)]

    def norm_base(self, b, idx, st):
        a = b.single_atom()
        while a is not None:
            if a[0] == 'ptr':
                off = a[2]
                idx = off[:-1] + (off[-1] + idx[0],) + tuple(idx[1:])
                b = a[1]
            elif a[0] == 'idx' and not self.getobj(b, st):
                idx = tuple(a[2]) + tuple(idx)
                b = a[1]
            else:
                break
            a = b.single_atom()
        return b, tuple(idx)

    def store(self, b, idx, v, st, node, aug=None):
        o = self.getobj(b, st)
        if o is not None:
            a = b.single_atom()
            self.event('setitem', b, idx, v, aug, st, node)
            if o[0] == 'dict':
                d = list(o[1])
                k = idx[0] if len(idx) == 1 else tup(*idx)
                for i, (kk, _) in enumerate(d):
                    if kk == k:
                        d[i] = (k, v)
                        break
                else:
                    d.append((k, v))
                op = o[2] or bool(deps(k)) or const_kind(k) is None
                st.heap[('obj', a[1])] = ('dict', tuple(d), op)
            elif o[0] == 'list':
                i = idx[0].as_int()
                if i is not None and not o[2] and -len(o[1]) <= i < len(o[1]):
                    l = list(o[1])
                    l[i] = v
                    st.heap[('obj', a[1])] = ('list', tuple(l), o[2])
                else:
                    st.heap[('obj', a[1])] = (o[0], o[1], True)
            return
        b, idx = self.norm_base(b, idx, st)
        cur = self.read(b, idx, st)
        ia = ('idx', b, idx)
        iid = intern_atom(ia)
        op, val = '=', v
        if cur.cval() is None:
            d = v - cur
            if not self.mentions(d, iid):
                op, val = '+=', d
        if aug == 'Add' and op == '=':
            op, val = '+=', v - cur
        self.event('store', b, idx, val, op, st, node, extra=aug, full=v)
        self.touch(b)
        if st.heap.get(('fill', b), ('',))[0] == 'table':
            del st.heap[('fill', b)]
        key = ('cell', b, idx)
        sym = any(not definite(i) for i in idx if isinstance(i, Poly))
        for k in [k for k in st.heap if k[0] == 'cell' and k[1] == b and k != key]:
            if len(k[2]) == len(idx) and any(
                    (x - y).cval() not in (None, 0) or (definite(x) and definite(y) and x != y)
                    for x, y in zip(k[2], idx) if isinstance(x, Poly) and isinstance(y, Poly)):
                continue
            if sym or any(not definite(i) for i in k[2] if isinstance(i, Poly)):
                del st.heap[k]
        if sym:
            st.heap[('dirty', b)] = True
        st.heap[key] = v

    def mentions(self, p, iid):
        return any(a == iid for m in p.t for a, _ in m)

    # ------------------------------------------------------------ reads
    def read(self, b, idx, st):
        o = self.getobj(b, st)
        if o is not None:
            if o[0] == 'list' and len(idx) >= 1:
                i = idx[0].as_int() if isinstance(idx[0], Poly) else None
                if i is not None and not o[2] and -len(o[1]) <= i < len(o[1]):
                    r = o[1][i]
                    return r if len(idx) == 1 else self.read(r, idx[1:], st)
                sl = idx[0].single_atom() if isinstance(idx[0], Poly) else None
                if sl and sl[0] == 'slice' and not o[2] and len(idx) == 1:
                    q = [None if x == NONE else x.as_int() for x in sl[1:]]
                    if all(x == NONE or x.as_int() is not None for x in sl[1:]):
                        return self.newobj('list', tuple(o[1][slice(*q)]), st)
            if o[0] == 'dict':
                k = idx[0] if len(idx) == 1 else tup(*idx)
                for kk, vv in o[1]:
                    if kk == k:
                        if o[2] and deps(kk):
                            break
                        return vv
            return self.walked(b, idx)
        a = b.single_atom()
        if a is not None and a[0] == 'tuple' and idx:
            i = idx[0].as_int() if isinstance(idx[0], Poly) else None
            if i is not None and -len(a[1]) <= i < len(a[1]):
                r = a[1][i]
                return r if len(idx) == 1 else self.read(r, idx[1:], st)
            sl = idx[0].single_atom() if isinstance(idx[0], Poly) else None
            if sl and sl[0] == 'slice' and len(idx) == 1 and \
                    all(x == NONE or x.as_int() is not None for x in sl[1:]):
                q = [None if x == NONE else x.as_int() for x in sl[1:]]
                return A(('tuple', tuple(a[1][slice(*q)])))
        b, idx = self.norm_base(b, idx, st)
        key = ('cell', b, idx)
        if key in st.heap:
            return st.heap[key]
        return self.read_cell_default(b, idx, st)

    def read_cell_default(self, b, idx, st):
        a = b.single_atom()
        if a is not None and a[0] == 'buf':
            f = st.heap.get(('fill', b))
            if f is not None:
                return self.fill_read(b, f, idx)
            info = self.bufs.get(a[1], {})
            if info.get('init') == 'zero' and ('dirty', b) not in st.heap and \
                    all(isinstance(i, Poly) and i.as_int() is not None for i in idx):
                return ZERO
        else:
            f = st.heap.get(('fill', b))
            if f is not None:
                return self.fill_read(b, f, idx)
        # reading a cell of an elementwise expression
        return self.walked(b, idx)

    def walked(self, b, idx):
        """b[idx]; the k-th entry in a loop counting k along b is the entry the loop is at"""
        a = idx[0].single_atom() if idx and isinstance(idx[0], Poly) else None
        if a is not None and a[0] == 'lv':
            for l in self.loops:
                if l.id == a[2] and l.iterable == b and l.kind in ('count', 'enum', 'iter'):
                    el = A(('elem', b, l.id))
                    return el if len(idx) == 1 else A(('idx', el, tuple(idx[1:])))
        return A(('idx', b, tuple(idx)))

    def fill_read(self, b, f, idx):
        kind, args = f
        if kind == 'table':
            ids, trips, v = args
            xs = [x.single_atom() if isinstance(x, Poly) else None for x in idx]
            if len(xs) != len(ids) or any(x is None or x[0] != 'lv' or self.trip_of(x[2]) != t
                                          for x, t in zip(xs, trips)):
                return self.walked(b, idx)
            new = dict(zip(ids, idx))
            return rebuild(v, lambda x: new.get(x[2]) if x[0] == 'lv' else None)
        return A(('call', A(('fn', kind)), tuple(idx) + tuple(args), ()))

    def touch(self, b):
        if self.loops:
            a = b.single_atom()
            if a is not None and a[0] in ('buf', 'obj'):
                self.touched.setdefault(a, set()).update(l.id for l in self.loops)

    def newobj(self, kind, items, st, open_=False):
        self.nbuf += 1
        if self.loops:
            self.touched[('obj', self.nbuf)] = {l.id for l in self.loops}
        st.heap[('obj', self.nbuf)] = (kind, items, open_)
        return A(('obj', self.nbuf))

    def newbuf(self, **info):
        # stable numbering so that re-analysing a loop body gives the same atoms
        node = info.get('node')
        key = ('buf', id(node), tuple(id(f) for f in self.callstack), tuple(self.sites),
               tuple(l.id for l in self.loops), info.get('tag'))
        if key in self.stable:
            n = self.stable[key]
        else:
            self.nbuf += 1
            n = self.nbuf
            self.stable[key] = n
        self.bufs[n] = info
        return A(('buf', n))

    def getattr(self, o, name, st, node=None):
        k = ('attr', o, name)
        if k in st.heap:
            return st.heap[k]
        a = o.single_atom()
        if a is not None:
            if a[0] == 'module':
                return self.module_attr(a[1], name)
            if a[0] == 'modobj':
                return self.mod_global(FE.load(a[1]), name)
            if name == 'T' and a[0] == 'attr' and a[2] == 'T':
                return a[1]
        return A(('attr', o, name))

    # ------------------------------------------------------------ names
    def module_attr(self, modname, name):
        if self.resolver is not None:
            m = self.resolver(modname)
            if m is not None:
                r = self.mod_global(m, name)
                if r is not None:
                    return r
            sub = self.resolver(modname + '.' + name)
            if sub is not None:
                return A(('module', modname + '.' + name))
        return A(('ext', modname + '.' + name))

    def import_from(self, mod, dotted, name):
        if dotted.startswith('.'):
            if self.resolver is not None:
                dotted = self.resolver.absolute(mod, dotted)
        if self.resolver is not None:
            sub = self.resolver(dotted + '.' + name)
            if sub is not None:
                m = self.resolver(dotted)
                if m is None or (name not in m.funcs and name not in m.classes):
                    return A(('module', dotted + '.' + name))
            m = self.resolver(dotted)
            if m is not None:
                r = self.mod_global(m, name)
                if r is not None:
                    return r
        return A(('ext', dotted + '.' + name))

    def mod_global(self, m, name):
        if name in m.funcs:
            return A(('func', m.path, name))
        if name in m.classes:
            return A(('class', m.path, name))
        if name in m.imports:
            im = m.imports[name]
            if im[0] == 'module':
                return A(('module', im[1]))
            return self.import_from(m, im[1], im[2])
        if name in m.consts:
            key = ('modconst', m.path, name)
            if key not in self.stable:
                self.stable[key] = A(('global', m.path, name))
                fr = Frame(FE.Func('<module>', [], [], 0, m))
                self.frames.append(fr)
                try:
                    tmp = State({}, {}, ())
                    nev = len(self.events)
                    v = self.ev(m.consts[name], tmp)
                    del self.events[nev:]
                finally:
                    self.frames.pop()
                if self.getobj(v, tmp) is not None:
                    # module level container: keep symbolic identity
                    self.stable[key] = A(('global', m.path, name))
                    self.stable[('gobj', m.path, name)] = (v, tmp.heap)
                else:
                    self.stable[key] = v
            return self.stable[key]
        if name in m.externs:
            return A(('fn', name))
        if not name.startswith('_') and self.resolver is not None:
            for dotted in m.stars:
                if dotted.startswith('.'):
                    dotted = self.resolver.absolute(m, dotted)
                sm = self.resolver(dotted)
                if sm is not None and sm is not m:
                    r = self.mod_global(sm, name)
                    if r is not None:
                        return r
        return None

    def lookup(self, name, st, node):
        if name in st.env:
            return st.env[name]
        fr = self.frames[-1]
        if fr.closure is not None and name in fr.closure:
            return fr.closure[name]
        m = fr.func.module
        if self.is_local(fr.func, name):
            return A(('undef', name))
        r = self.mod_global(m, name)
        if r is not None:
            return r
        if name == 'self':
            return A(('sym', 'self'))
        if name in ('True', 'true'):
            return ONE
        if name in ('False', 'false'):
            return ZERO
        if name in ('None', 'NULL', 'nullptr'):
            return NONE
        return A(('fn', name))

    def is_local(self, func, name):
        s = self.local_assigned.get(id(func))
        if s is None:
            s = set()
            for st in (func.body or []):
                for n in walk_stmts(st):
                    tg = []
                    if isinstance(n, ast.Assign):
                        tg = n.targets
                    elif isinstance(n, (ast.AugAssign, ast.For, ast.AnnAssign)):
                        tg = [n.target]
                    for t in tg:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Name) and y is not None:
                                if isinstance(t, (ast.Name, ast.Tuple, ast.List)):
                                    s.add(y.id)
            s |= set(func.ctypes) - {p[0] for p in func.params}
            self.local_assigned[id(func)] = s
        return name in s

    # ------------------------------------------------------------ conditions
    def cond(self, e, st):
        """0/1-valued polynomial of a condition, after the assumptions"""
        c = self.cond0(e, st)
        return self.apply_assume(c)

    def apply_assume(self, c):
        if c.cval() is not None or not self.assume:
            return c

        def fn(i):
            a = atom_of(i)
            if a[0] == 'ind':
                v = self.assume.get(a)
                if v is None:
                    for pred, val in self.assume.items():
                        if callable(pred) and pred(a):
                            v = val(a) if callable(val) else val
                            if v is not None:
                                break
                if v is not None:
                    return ONE if v else ZERO
            return None
        return c.map_atoms(fn)

    def cond0(self, e, st):
        if isinstance(e, ast.BoolOp):
            cs = [self.cond(e.values[0], st)] + [self.maybe(v, st, self.cond) for v in e.values[1:]]
            if isinstance(e.op, ast.And):
                r = ONE
                for c in cs:
                    r = r * c
                return r
            r = ONE
            for c in cs:
                r = r * (ONE - c)
            return ONE - r
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return ONE - self.cond(e.operand, st)
        if isinstance(e, ast.Compare):
            left = self.ev(e.left, st)
            r = ONE
            for op, c in zip(e.ops, e.comparators):
                right = self.ev(c, st)
                r = r * self.compare(op, left, right, st)
                left = right
            return r
        v = self.ev(e, st)
        return self.truth(v, st)

    def truth(self, v, st):
        t = truth_const(v)
        if t is not None:
            return ONE if t else ZERO
        if v.t and all(all(a in _IND for a, _ in m) for m in v.t) and v * v == v:
            return v         # already an indicator expression
        # integer flags written as 0/1 joins of indicators (e.g. one_F_each_point)
        o = self.getobj(v, st)
        if o is not None and not o[2]:
            return ONE if o[1] else ZERO
        return A(('ind', 'truth', v))

    def eq(self, x, y):
        kx, ky = const_kind(x), const_kind(y)
        if kx and ky:
            if kx in ('obj', 'buf') or ky in ('obj', 'buf'):
                if x == y:
                    return ONE
                return A(('ind', 'eqv', x, y))
            if kx == ky == 'tuple':
                tx, ty = x.single_atom()[1], y.single_atom()[1]
                if len(tx) != len(ty):
                    return ZERO
                r = ONE
                for p, q in zip(tx, ty):
                    r = r * self.eq(p, q)
                return r
            return ONE if x == y else ZERO
        if x == y:
            return ONE
        if kx in ('str', 'none', 'tuple') or ky in ('str', 'none', 'tuple'):
            if ky not in ('str', 'none', 'tuple'):
                x, y = y, x
            # equality of a gated string value: distribute
            if len(x.t) > 1 or (x.t and any(a in _IND for m in x.t for a, _ in m)):
                r = self.dist_eq(x, y)
                if r is not None:
                    return r
            return A(('ind', 'eqv', x, y))
        d = x - y
        # 0/1 valued integer compared with a 0/1 constant
        for p, q in ((x, y), (y, x)):
            c = q.cval()
            if c in (0, 1) and p.t and all(all(a in _IND for a, _ in m) for m in p.t):
                return p if c == 1 else ONE - p
        return ind_eq_diff(d)

    def dist_eq(self, x, y):
        """x is a combination of indicator * value atoms"""
        groups = {}
        for m, c in x.t.items():
            ind = tuple((a, e) for a, e in m if a in _IND)
            val = tuple((a, e) for a, e in m if a not in _IND)
            groups.setdefault(val, ZERO)
            groups[val] = groups[val] + Poly({ind: c})
        r = ZERO
        for val, w in groups.items():
            v = Poly({val: Fraction(1)})
            r = r + w * self.eq(v, y)
        return r

    def compare(self, op, x, y, st):
        if isinstance(op, ast.Eq):
            return self.eq(x, y)
        if isinstance(op, ast.NotEq):
            return ONE - self.eq(x, y)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = same_obj(x, y)
            if r is None:
                if len(x.t) > 1 and const_kind(y) in ('none', 'str', 'num'):
                    c = self.dist_is(x, y)
                else:
                    c = A(('ind', 'is', x, y))
            else:
                c = ONE if r else ZERO
            return c if isinstance(op, ast.Is) else ONE - c
        if isinstance(op, (ast.In, ast.NotIn)):
            items = None
            a = y.single_atom()
            if a is not None and a[0] == 'tuple':
                items = a[1]
            o = self.getobj(y, st)
            if o is not None and not o[2]:
                items = o[1] if o[0] == 'list' else [k for k, _ in o[1]]
            if items is not None:
                r = ONE
                for z in items:
                    r = r * (ONE - self.eq(x, z))
                c = ONE - r
            elif const_kind(x) == 'str' and const_kind(y) == 'str':
                c = ONE if x.single_atom()[1] in y.single_atom()[1] else ZERO
            else:
                c = A(('ind', 'in', x, y))
            return c if isinstance(op, ast.In) else ONE - c
        d = x - y
        if isinstance(op, ast.Gt):
            return self.lt(-d)
        if isinstance(op, ast.Lt):
            return self.lt(d)
        if isinstance(op, ast.GtE):
            return ONE - self.lt(d)
        if isinstance(op, ast.LtE):
            return ONE - self.lt(-d)
        return A(('ind', 'cmp', x, y, type(op).__name__))

    def dist_is(self, x, y):
        groups = {}
        for m, c in x.t.items():
            ind = tuple((a, e) for a, e in m if a in _IND)
            val = tuple((a, e) for a, e in m if a not in _IND)
            groups.setdefault(val, ZERO)
            groups[val] = groups[val] + Poly({ind: c})
        r = ZERO
        for val, w in groups.items():
            v = Poly({val: Fraction(1)})
            s = same_obj(v, y)
            if s is None:
                q = A(('ind', 'is', v, y))
            else:
                q = ONE if s else ZERO
            r = r + w * q
        return r

    def lt(self, d):
        c = d.cval()
        if c is not None:
            return ONE if c < 0 else ZERO
        m = min(d.t, key=lambda mm: repr([(atom_of(x), e) for x, e in mm]))
        lead = abs(d.t[m])
        d = Poly({k: v / lead for k, v in d.t.items()})
        return A(('ind', 'lt', d))

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        h = getattr(self, 'e_' + type(e).__name__, None)
        if h is None:
            self.note('unsupported expression %s' % type(e).__name__, e)
            return A(('unk', type(e).__name__, getattr(e, 'lineno', 0)))
        return h(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return ONE if v else ZERO
        if isinstance(v, int):
            return Poly.const(v)
        if isinstance(v, float):
            lit = getattr(e, 'literal', None)
            if lit is not None:
                return Poly.const(Fraction(lit))
            if v != v or v in (float('inf'), float('-inf')):
                return A(('float', repr(v)))
            return Poly.const(v)
        if isinstance(v, complex):
            return A(('imag',)) * Poly.const(v.imag) + Poly.const(v.real)
        if isinstance(v, str):
            return sstr(v)
        return A(('const', repr(v)))

    def e_Name(self, e, st):
        return self.lookup(e.id, st, e)

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        v = self.getattr(o, e.attr, st, e)
        self.event('getattr', o, (e.attr,), v, None, st, e)
        return v

    def index(self, s, st):
        if isinstance(s, ast.Tuple):
            return tuple(self.ev(x, st) for x in s.elts)
        return (self.ev(s, st),)

    def e_Slice(self, e, st):
        f = lambda x: NONE if x is None else self.ev(x, st)
        return A(('slice', f(e.lower), f(e.upper), f(e.step)))

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        idx = self.index(e.slice, st)
        v = self.read(b, idx, st)
        self.event('load', b, idx, v, None, st, e)
        return v

    def e_Tuple(self, e, st):
        return tup(*[self.ev(x, st) for x in e.elts])

    def e_List(self, e, st):
        vals = tuple(self.ev(x, st) for x in e.elts)
        return self.newobj('list', vals, st, any(isinstance(x, ast.Starred) for x in e.elts))

    def e_Set(self, e, st):
        return tup(*[self.ev(x, st) for x in e.elts])

    def e_Starred(self, e, st):
        return A(('star', self.ev(e.value, st)))

    def e_Dict(self, e, st):
        items = []
        open_ = False
        for k, v in zip(e.keys, e.values):
            if k is None:
                vv = self.ev(v, st)
                o = self.getobj(vv, st)
                if o and o[0] == 'dict':
                    items += list(o[1])
                    open_ = open_ or o[2]
                else:
                    open_ = True
                continue
            items.append((self.ev(k, st), self.ev(v, st)))
        return self.newobj('dict', tuple(items), st, open_)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, st)
                py = pyval(x)
                spec = v.format_spec
                if py is not None and v.conversion in (-1, 115) and (spec is None or all(
                        isinstance(c, ast.Constant) for c in spec.values)):
                    try:
                        x = sstr(format(py, '' if spec is None else ''.join(c.value for c in spec.values)))
                    except (TypeError, ValueError):
                        pass
                parts.append(x)
            else:
                parts.append(self.ev(v, st))
        if all(const_kind(p) == 'str' for p in parts):
            return sstr(''.join(p.single_atom()[1] for p in parts))
        return A(('fmt', tuple(parts)))

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_BinOp(self, e, st):
        x = self.ev(e.left, st)
        y = self.ev(e.right, st)
        if getattr(e, 'c_div', False) and self.c_int(e.left) and self.c_int(e.right):
            cx, cy = x.as_int(), y.as_int()
            if cx is not None and cy:
                q = abs(cx) // abs(cy)
                return Poly.const(q if (cx < 0) == (cy < 0) else -q)
            return A(('call', A(('fn', 'idiv')), (x, y), ()))
        return self.binop(e.op, x, y, e, st)

    def c_int(self, e):
        """C expression of integer type (only needed for '/')"""
        if isinstance(e, ast.Constant):
            return isinstance(e.value, int) and not isinstance(e.value, bool)
        if isinstance(e, ast.Name):
            f = self.frames[-1].func
            t = f.ctypes.get(e.id)
            if t is None:
                return bool(f.module.directives.get('int:' + e.id))
            return t in ('int', 'long', 'short', 'size_t', 'unsigned', 'unsigned int')
        if isinstance(e, ast.UnaryOp):
            return self.c_int(e.operand)
        if isinstance(e, ast.BinOp):
            return self.c_int(e.left) and self.c_int(e.right)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id == 'int':
                return True
            g = self.frames[-1].func.module.funcs.get(e.func.id)
            return bool(g is not None and getattr(g, 'rettype', '') in ('int', 'long'))
        return False

    def is_seq(self, v, st):
        a = v.single_atom()
        if a is None:
            return False
        if a[0] in ('str', 'fmt'):
            return True
        if a[0] == 'tuple':
            return True
        o = self.getobj(v, st)
        return o is not None

    def binop(self, op, x, y, e, st):
        if isinstance(op, (ast.Add, ast.Mult, ast.Mod)) and (self.is_seq(x, st) or self.is_seq(y, st)):
            kx, ky = const_kind(x), const_kind(y)
            if isinstance(op, ast.Add):
                if kx == ky == 'str':
                    return sstr(x.single_atom()[1] + y.single_atom()[1])
                ox, oy = self.getobj(x, st), self.getobj(y, st)
                if ox and oy and ox[0] == oy[0] == 'list':
                    return self.newobj('list', ox[1] + oy[1], st, ox[2] or oy[2])
                if kx == ky == 'tuple':
                    return tup(*(x.single_atom()[1] + y.single_atom()[1]))
                return A(('cat', x, y))
            if isinstance(op, ast.Mod):
                if kx == 'str':
                    vals = y.single_atom()[1] if ky == 'tuple' else (y,)
                    py = [pyval(v) for v in vals]
                    if None not in py:
                        try:
                            return sstr(x.single_atom()[1] % tuple(py))
                        except (TypeError, ValueError):
                            pass
                return A(('fmt', (x, y)))
            o = self.getobj(x, st) or self.getobj(y, st)
            n = y.as_int() if y.as_int() is not None else x.as_int()
            if o and o[0] == 'list' and n is not None and n < 64:
                return self.newobj('list', o[1] * n, st, o[2])
            return A(('repeat', x, y))
        if isinstance(op, ast.Add):
            return x + y
        if isinstance(op, ast.Sub):
            return x - y
        if isinstance(op, ast.Mult):
            return x * y
        if isinstance(op, ast.Div):
            return x / y
        if isinstance(op, ast.Pow):
            n = y.as_int()
            if n is not None and abs(n) <= 64:
                if n > 4 and len(x.t) > 60:
                    return A(('pow', x, y))
                return x.pow(n)
            c = y.cval()
            if c is not None and c == Fraction(1, 2):
                return A(('call', A(('fn', 'sqrt')), (x,), ()))
            return A(('pow', x, y))
        if isinstance(op, ast.MatMult):
            return A(('matmul', x, y))
        if isinstance(op, ast.FloorDiv):
            a, b = x.as_int(), y.as_int()
            if a is not None and b:
                return Poly.const(a // b)
            return A(('call', A(('fn', 'floordiv')), (x, y), ()))
        if isinstance(op, ast.Mod):
            a, b = x.as_int(), y.as_int()
            if a is not None and b:
                return Poly.const(a % b)
            return A(('call', A(('fn', 'mod')), (x, y), ()))
        return A(('op', type(op).__name__, x, y))

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return ONE - self.cond(e.operand, st)
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        return A(('op', type(e.op).__name__, v))

    def e_Compare(self, e, st):
        return self.cond(e, st)

    def e_BoolOp(self, e, st):
        # value semantics of and/or
        vals = [self.ev(e.values[0], st)] + [self.maybe(v, st) for v in e.values[1:]]
        ind = lambda v: v.cval() is not None or all(all(a in _IND for a, _ in m) for m in v.t)
        if all(ind(v) for v in vals):
            r = ONE
            if isinstance(e.op, ast.And):
                for v in vals:
                    r = r * self.truth(v, st)
                return r
            for v in vals:
                r = r * (ONE - self.truth(v, st))
            return ONE - r
        r = vals[-1]
        for v in reversed(vals[:-1]):
            t = self.apply_assume(self.truth(v, st))
            r = self.gate(t, r, v) if isinstance(e.op, ast.And) else self.gate(t, v, r)
        return r

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if c == ONE:
            return self.ev(e.body, st)
        if c == ZERO:
            return self.ev(e.orelse, st)
        return self.gate(c, self.maybe(e.body, st), self.maybe(e.orelse, st))

    def e_Lambda(self, e, st):
        body = ast.Return(value=e.body)
        body.lineno = e.lineno
        fd = ast.FunctionDef(name='<lambda>', args=e.args, body=[body], decorator_list=[],
                             returns=None)
        fd.lineno = e.lineno
        f = FE.py_func(fd, self.frames[-1].func.module)
        key = self.closure(f, '<lambda>', e, dict(st.env), st)
        return A(key)

    def comp(self, e, st, elts):
        gens = e.generators
        items = [[]]

        def go(k, s):
            if k == len(gens):
                return [tuple(self.ev(x, s) for x in elts)]
            g = gens[k]
            src = self.iter_source(g.iter, s)
            res = []
            if src[0] == 'range':
                n = ((src[2] - src[1]) / src[3]).as_int()
                if n is not None and n <= self.UNROLL:
                    src = ('items', [src[1] + src[3].scale(i) for i in range(n)])
            if src[0] == 'items':
                for i, v in enumerate(src[1]):
                    s2 = State(dict(s.env), s.heap, s.guard)
                    self.assign(g.target, v, s2, e, quiet=True)
                    self.sites.append(i)
                    try:
                        c = ONE
                        for t in g.ifs:
                            c = c * self.cond(t, s2)
                        if c == ZERO:
                            continue
                        sub = go(k + 1, s2)
                    finally:
                        self.sites.pop()
                    if c != ONE:
                        sub = [tuple(A(('opt', c, x)) for x in r) for r in sub]
                    res += sub
                return res
            info = self.loop_for(g, src)
            loop = info[0]
            self.loops.append(loop)
            try:
                s2 = State(dict(s.env), s.heap, s.guard)
                self.assign(g.target, self.loop_target(src, loop), s2, e, quiet=True)
                c = ONE
                for t in g.ifs:
                    c = c * self.cond(t, s2)
                if c != ONE:
                    s2 = State(s2.env, s2.heap, s2.guard + ((c, 'branch'),))
                sub = go(k + 1, s2)
            finally:
                self.loops.pop()
            out = []
            for r in sub:
                out.append(tuple(A(('rep', loop.id, x if c == ONE else A(('opt', c, x))))
                                 for x in r))
            return out
        return go(0, st)

    def e_ListComp(self, e, st):
        r = self.maybe(e, st, lambda e, st: self.comp(e, st, [e.elt]))
        vals = tuple(x[0] for x in r)
        return self.newobj('list', vals, st, any(
            x.single_atom() and x.single_atom()[0] in ('rep', 'opt') for x in vals))

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, st):
        r = self.maybe(e, st, lambda e, st: self.comp(e, st, [e.key, e.value]))
        return self.newobj('dict', tuple(r), st, any(
            k.single_atom() and k.single_atom()[0] in ('rep', 'opt') for k, _ in r))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id not in st.env:
            h = getattr(self, 'b_' + fn.id, None)
            if h is not None and not self.shadowed(fn.id):
                return h(e, st)
            if fn.id in ('max', 'min') and not e.keywords and not self.shadowed(fn.id) and \
                    not any(isinstance(x, ast.Starred) for x in e.args):
                v = self.extreme(e, st)
                if v is not None:
                    return v
        if isinstance(fn, ast.Attribute):
            o = self.ev(fn.value, st)
            f = self.getattr(o, fn.attr, st, fn)
            self.event('getattr', o, (fn.attr,), f, None, st, fn)
            recv = o
        else:
            f = self.ev(fn, st)
            recv = None
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                src = self.iter_value(v, st)
                if src[0] == 'items':
                    args += src[1]
                else:
                    args.append(A(('star', v)))
            else:
                args.append(self.ev(a, st))
        kw = []
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                o = self.getobj(v, st)
                if o and o[0] == 'dict' and not o[2] and all(const_kind(x) == 'str' for x, _ in o[1]):
                    kw += [(x.single_atom()[1], y) for x, y in o[1]]
                else:
                    kw.append(('**', v))
            else:
                kw.append((k.arg, v))
        return self.call(f, args, kw, st, e, recv)

    def shadowed(self, name):
        m = self.frames[-1].func.module
        return name in m.funcs or name in m.classes or name in m.imports or name in m.consts

    def call(self, f, args, kw, st, node, recv=None):
        a = f.single_atom()
        if a is not None and a[0] == 'func':
            func = FE.load(a[1]).funcs[a[2]]
            return self.call_func(func, args, kw, st, node, f)
        if a is not None and a[0] == 'closure':
            func, env = self.closures[a]
            names = {nm for nm, _, _ in func.params[:len(args)]} | {k for k, _ in kw}
            if self.closure_info[a][0] is self.frames[-1].func:
                env = {**env, **st.env}
            kw = list(kw) + [(k, v) for k, v in self.closure_info[a][1].items() if k not in names]
            return self.call_func(func, args, kw, st, node, f, closure=env)
        if a is not None and a[0] == 'class':
            return self.instantiate(a, args, kw, st, node)
        if a is not None and a[0] == 'attr':
            cls = self.class_of(a[1])
            if cls is not None:
                meth = self.find_method(cls, a[2])
                if meth is not None:
                    return self.call_func(meth, [a[1]] + args, kw, st, node, f)
            r = self.obj_method(a[1], a[2], args, kw, st, node)
            if r is not None:
                return r
        name = None
        if a is not None and a[0] in ('fn', 'ext'):
            name = a[1]
        if name is not None:
            h = self.externs.get(name)
            if h is not None:
                return h(self, args, kw, st, node)
            r = self.ext_call(name, args, kw, st, node)
            if r is not None:
                self.event('call', f, (), r, name, st, node, extra=(tuple(args), tuple(kw)))
                return r
        return self.opaque(f, args, kw, st, node)

    def escape(self, f, vals, st):
        """buffers handed to a function that is not followed may be written by it"""
        a = f.single_atom()
        if a is None or a[0] in ('fn', 'ext') or a[0] == 'attr' and a[2] in PURE_METHODS:
            return
        for v in vals:
            b = v.single_atom() if isinstance(v, Poly) else None
            if b is not None and b[0] == 'ptr':
                b = b[1].single_atom()
            if b is None or b[0] != 'buf':
                continue
            b = A(b)
            for k in [k for k in st.heap if k[0] in ('cell', 'fill') and k[1] == b]:
                del st.heap[k]
            st.heap[('dirty', b)] = True
            self.touch(b)

    def opaque(self, f, args, kw, st, node):
        v = A(('call', f, tuple(args), tuple(sorted(kw, key=lambda x: x[0]))))
        self.escape(f, list(args) + [x for _, x in kw], st)
        self.event('call', f, (), v, None, st, node, extra=(tuple(args), tuple(kw)))
        return v

    def class_of(self, o):
        a = o.single_atom()
        if a is None:
            return None
        if a == ('sym', 'self') and self.self_class is not None:
            return self.self_class
        if a in self.obj_class:
            return self.obj_class[a]
        if self.typer is not None:
            c = self.typer(a)
            if c is not None:
                return c
        if a[0] == 'new':
            return FE.load(a[1]).classes.get(a[2])
        return None

    def find_method(self, cls, name):
        if name in cls.methods:
            return cls.methods[name]
        return None

    def instantiate(self, a, args, kw, st, node):
        cls = FE.load(a[1]).classes[a[2]]
        key = ('new', id(node), tuple(id(f) for f in self.callstack), tuple(self.sites),
               tuple(l.id for l in self.loops))
        cnt = self.stable.setdefault(('newcnt',) + key, sum(1 for k in self.stable if k[0] == 'newcnt'))
        o = A(('new', a[1], a[2], cnt) + tuple(l.lv() for l in self.loops))
        init = cls.methods.get('__init__')
        bound = None
        if init is not None:
            bound, err = bind(init, [o] + list(args), kw)
        self.event('new', o, (), o, cls.name, st, node, extra=(tuple(args), tuple(kw), bound))
        if init is not None and bound is not None and self.inline(init):
            self.do_inline(init, bound, st, node, None)
        elif bound is not None:
            # constructor parameters that keep their names are the usual fields
            pass
        return o

    def call_func(self, func, args, kw, st, node, f, closure=None):
        bound, err = bind(func, args, kw)
        if err:
            self.event('badcall', f, (), NONE, err, st, node, extra=(tuple(args), tuple(kw), func))
            return A(('call', f, tuple(args), tuple(sorted(kw, key=lambda x: x[0]))))
        rec = sum(1 for g in self.callstack if g is func)
        if (closure is not None or self.inline(func)) and rec == 0 and \
                len(self.callstack) < self.MAXDEPTH - 1 and \
                not any(v.single_atom() and v.single_atom()[0] == 'star' for v in args):
            self.event('enter', f, (), NONE, func.name, st, node, extra=bound)
            return self.do_inline(func, bound, st, node, closure)
        vals = tuple((k, v) for k, v in sorted(bound.items()))
        v = A(('call', f, (), vals))
        self.event('call', f, (), v, func.name, st, node, extra=(tuple(args), tuple(kw), bound, func))
        self.escape(f, [x for _, x in vals], st)
        self.apply_post(func, bound, v, st, node)
        return v

    def apply_post(self, func, bound, v, st, node):
        """where a summarised method leaves its result on the object"""
        p = self.post.get((func.cls.name if getattr(func, 'cls', None) is not None else None, func.name))
        o = bound.get('self')
        if p is None or o is None:
            return
        if p[0] == 'attr':
            st.heap[('attr', o, p[1])] = v
            self.event('setattr', o, (p[1],), v, 'post', st, node, full=NONE)
        elif p[0] == 'attrs':
            for k in p[1]:
                st.heap[('attr', o, k)] = A(('idx', v, (sstr(k),)))
        elif p[0] == 'item':
            self.store(self.getattr(o, p[1], st, node), (sstr(p[2]),), v, st, node, 'post')

    def do_inline(self, func, bound, st, node, closure):
        env = {}
        for nm, ty, df in func.params:
            if nm in bound:
                env[nm] = bound[nm]
            elif df is not None:
                self.frames.append(Frame(func))
                try:
                    env[nm] = self.ev(df, st)
                finally:
                    self.frames.pop()
        extra = [(k, bound[k]) for k in bound if k not in env and not k.startswith('*')]
        for k in bound:
            if k not in env:
                env[k] = bound[k]
        if func.kwarg and func.kwarg not in bound:
            env[func.kwarg] = self.newobj('dict', tuple((sstr(k), v) for k, v in extra), st, '**' in bound)
        s = State(env, dict(st.heap), st.guard)
        fr_closure = closure
        # closures read the enclosing environment
        if closure is not None:
            for k, v in closure.items():
                env.setdefault(k, v)
        self.sites.append(id(node))
        try:
            outs, v = self.exec_func(func, s)
        finally:
            self.sites.pop()
        if outs is None:
            self.noret = True
            return A(('noreturn', func.name))
        st.heap.clear()
        st.heap.update(outs.heap)
        return v

    # methods on locally known containers / arrays
    def obj_method(self, o, name, args, kw, st, node):
        ob = self.getobj(o, st)
        a = o.single_atom()
        if a is not None and a[0] == 'str' and name in STR_METHODS:
            py = [pyval(v) for v in args]
            pk = {k: pyval(v) for k, v in kw}
            if None not in py and None not in pk.values():
                try:
                    r = getattr(a[1], name)(*py, **pk)
                except Exception:
                    r = None
                if isinstance(r, str):
                    return sstr(r)
                if isinstance(r, (bool, int)):
                    return Poly.const(int(r))
        if ob is not None:
            oid = ('obj', a[1])
            if ob[0] == 'list':
                if name == 'append':
                    self.event('append', o, (), args[0], None, st, node)
                    st.heap[oid] = ('list', ob[1] + (args[0],), ob[2])
                    return NONE
                if name == 'extend':
                    src = self.iter_value(args[0], st)
                    if src[0] == 'items':
                        st.heap[oid] = ('list', ob[1] + tuple(src[1]), ob[2])
                    else:
                        st.heap[oid] = ('list', ob[1] + (A(('ext', args[0])),), True)
                    return NONE
                if name == 'copy':
                    return self.newobj('list', ob[1], st, ob[2])
                if name in ('insert', 'remove', 'pop', 'clear', 'sort', 'reverse'):
                    st.heap[oid] = ('list', ob[1], True)
                    self.event('mutate', o, (), NONE, name, st, node, extra=(tuple(args), ()))
                    return A(('call', A(('attr', o, name)), tuple(args), ()))
            if ob[0] == 'dict':
                if name == 'get' and args:
                    for k, v in ob[1]:
                        if k == args[0]:
                            return v
                    if not ob[2]:
                        return args[1] if len(args) > 1 else NONE
                if name == 'copy':
                    return self.newobj('dict', ob[1], st, ob[2])
                if name == 'update':
                    d = dict(ob[1])
                    open_ = ob[2]
                    for x in args:
                        q = self.getobj(x, st)
                        if q and q[0] == 'dict':
                            d.update(dict(q[1]))
                            open_ = open_ or q[2]
                        else:
                            open_ = True
                    for k, v in kw:
                        d[sstr(k)] = v
                    st.heap[oid] = ('dict', tuple(d.items()), open_)
                    return NONE
        if name in ('lower', 'upper', 'strip') and const_kind(o) == 'str':
            return sstr(getattr(o.single_atom()[1], name)())
        if name in ('copy', 'ravel', 'flatten', 'astype', 'tocsr', 'tocsc', 'tocoo') and False:
            return o
        if name == 'dot' and len(args) == 1:
            return A(('matmul', o, args[0]))
        if name in ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse',
                    'update', 'setdefault', 'popitem', 'add', 'fill', 'put', 'resize',
                    'sort_indices', 'eliminate_zeros', 'sum_duplicates'):
            v = A(('call', A(('attr', o, name)), tuple(args), tuple(sorted(kw))))
            self.event('mutate', o, (), v, name, st, node, extra=(tuple(args), tuple(kw)))
            return v
        return None

    # ---- builtins by name
    def _args(self, e, st):
        return [self.ev(a, st) for a in e.args], [(k.arg, self.ev(k.value, st)) for k in e.keywords]

    def b___addr__(self, e, st):
        x = e.args[0]
        if isinstance(x, ast.Subscript):
            b = self.ev(x.value, st)
            idx = self.index(x.slice, st)
            b, idx = self.norm_base(b, idx, st)
            return A(('ptr', b, idx))
        if isinstance(x, ast.Name):
            return A(('ptr', A(('var', x.id)), (ZERO,)))
        return A(('addr', self.ev(x, st)))

    def b___carray__(self, e, st):
        dims = [self.ev(a, st) for a in e.args]
        return self.newbuf(node=e, init='uninit', shape=dims, kind='carray', line=e.lineno,
                           func=self.frames[-1].func)

    def b___sizeof__(self, e, st):
        return A(('sizeof', e.args[0].value if e.args else '?'))

    def b___double__(self, e, st):
        return self.ev(e.args[0], st)

    def b___unknown__(self, e, st):
        self.note('construct %s not modelled' % e.args[0].value, e)
        return A(('unk', e.args[0].value, e.lineno))

    def b_float(self, e, st):
        return self.ev(e.args[0], st) if e.args else ZERO

    def b_sizeof(self, e, st):
        return A(('sizeof', '?'))

    def b_int(self, e, st):
        v = self.ev(e.args[0], st) if e.args else ZERO
        if v.as_int() is not None:
            return v
        return A(('call', A(('fn', 'int')), (v,), ()))

    def b_len(self, e, st):
        v = self.ev(e.args[0], st)
        o = self.getobj(v, st)
        if o is not None and not o[2]:
            return Poly.const(len(o[1]))
        a = v.single_atom()
        if a is not None and a[0] == 'tuple':
            return Poly.const(len(a[1]))
        return A(('len', v))

    def b_any(self, e, st, every=False):
        v = self.ev(e.args[0], st) if len(e.args) == 1 else None
        src = self.iter_value(v, st) if v is not None else ('?',)
        if src[0] != 'items' or any((x.single_atom() or ('',))[0] in ('opt', 'rep', 'star', 'ext') for x in src[1]):
            return A(('call', A(('fn', 'all' if every else 'any')), (v,), ()))
        r = ONE
        for x in src[1]:
            t = self.apply_assume(self.truth(x, st))
            r = r * (t if every else ONE - t)
        return r if every else ONE - r

    def extreme(self, e, st):
        """the largest or smallest of known numbers"""
        n = len(self.events)
        vs = [self.ev(x, st.copy()) for x in e.args]
        if len(vs) == 1:
            o = self.getobj(vs[0], st)
            t = vs[0].single_atom()
            vs = list(o[1]) if o and o[0] in ('list',) and not o[2] else list(t[1]) if t and t[0] == 'tuple' else []
        cs = [x.cval() if isinstance(x, Poly) else None for x in vs]
        if not cs or None in cs:
            del self.events[n:]
            return None
        return vs[cs.index(max(cs) if e.func.id == 'max' else min(cs))]

    def b_all(self, e, st):
        return self.b_any(e, st, True)

    def b_range(self, e, st):
        a = [self.ev(x, st) for x in e.args]
        lo, hi, sp = ZERO, None, ONE
        if len(a) == 1:
            hi = a[0]
        else:
            lo, hi = a[0], a[1]
            sp = a[2] if len(a) > 2 else ONE
        return A(('range', lo, hi, sp))

    def b_sum(self, e, st):
        v = self.ev(e.args[0], st)
        start = self.ev(e.args[1], st) if len(e.args) > 1 else ZERO
        o = self.getobj(v, st)
        t = v.single_atom()
        if o is None and t is not None and t[0] == 'tuple' and not any(
                (x.single_atom() or ('',))[0] in ('star', 'ext') for x in t[1]):
            o = ('list', t[1])
        if o and o[0] == 'list':
            tot = start
            for x in o[1]:
                a = x.single_atom()
                c = ONE
                loops = []
                while a is not None and a[0] in ('opt', 'rep'):
                    if a[0] == 'opt':
                        c = c * a[1]
                        x = a[2]
                    else:
                        loops.append(a[1])
                        x = a[2]
                    a = x.single_atom()
                x = c * x
                for lid in reversed(loops):
                    lp = [i[0] for i in self.loopinfo.values() if i[0].id == lid]
                    x = self.sum_over(lp[0], x)
                tot = tot + x
            return tot
        return start + A(('call', A(('fn', 'sum')), (v,), ()))

    def b_getattr(self, e, st):
        a, _ = self._args(e, st)
        if len(a) >= 2 and const_kind(a[1]) == 'str':
            v = self.getattr(a[0], a[1].single_atom()[1], st, e)
            self.event('getattr', a[0], (a[1].single_atom()[1],), v,
                       'default' if len(a) > 2 else None, st, e)
            if len(a) > 2:
                return A(('getattr', a[0], a[1], a[2])) if v == A(('attr', a[0], a[1].single_atom()[1])) else v
            return v
        return A(('call', A(('fn', 'getattr')), tuple(a), ()))

    def b_setattr(self, e, st):
        a, _ = self._args(e, st)
        if const_kind(a[1]) == 'str':
            nm = a[1].single_atom()[1]
            st.heap[('attr', a[0], nm)] = a[2]
            self.event('setattr', a[0], (nm,), a[2], None, st, e)
        else:
            self.event('setattr', a[0], (a[1],), a[2], None, st, e)
        return NONE

    def b_list(self, e, st):
        if not e.args:
            return self.newobj('list', (), st)
        v = self.ev(e.args[0], st)
        src = self.iter_value(v, st)
        if src[0] == 'items':
            return self.newobj('list', tuple(src[1]), st)
        return A(('call', A(('fn', 'list')), (v,), ()))

    def b_tuple(self, e, st):
        if not e.args:
            return tup()
        v = self.ev(e.args[0], st)
        src = self.iter_value(v, st)
        if src[0] == 'items':
            return tup(*src[1])
        return A(('call', A(('fn', 'tuple')), (v,), ()))

    def b_dict(self, e, st):
        a, kw = self._args(e, st)
        items = []
        open_ = False
        if a:
            o = self.getobj(a[0], st)
            if o and o[0] == 'dict':
                items += list(o[1])
                open_ = o[2]
            else:
                items.append((A(('base',)), a[0]))
                open_ = True
        for k, v in kw:
            if k is None:
                o = self.getobj(v, st)
                if o and o[0] == 'dict':
                    items += list(o[1])
                    open_ = open_ or o[2]
                else:
                    open_ = True
                continue
            items = [x for x in items if x[0] != sstr(k)] + [(sstr(k), v)]
        return self.newobj('dict', tuple(items), st, open_)

    def b_pow(self, e, st):
        a, _ = self._args(e, st)
        return self.binop(ast.Pow(), a[0], a[1], e, st)

    def b_print(self, e, st):
        self._args(e, st)
        return NONE

    def b_super(self, e, st):
        return A(('sym', 'super'))

    IDENT = {'numpy.ascontiguousarray', 'numpy.asarray', 'numpy.atleast_1d',
             'numpy.asfortranarray', 'numpy.float64'}

    def copied(self, v, st, deep, depth=0):
        o = self.getobj(v, st)
        if o is None or o[0] not in ('dict', 'list') or depth > 4:
            return v
        if not deep:
            return self.newobj(o[0], o[1], st, o[2])
        items = tuple((k, self.copied(x, st, deep, depth + 1)) for k, x in o[1]) if o[0] == 'dict' else \
            tuple(self.copied(x, st, deep, depth + 1) for x in o[1])
        return self.newobj(o[0], items, st, o[2])

    def ext_call(self, name, args, kw, st, node):
        short = name.rsplit('.', 1)[-1]
        if name in self.IDENT and args:
            return args[0]
        if name in ('copy.deepcopy', 'copy.copy') and len(args) == 1 and self.getobj(args[0], st) is not None:
            return self.copied(args[0], st, short == 'deepcopy')
        if name in ('numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.full'):
            shape = args[0] if args else dict(kw).get('shape', NONE)
            return self.newbuf(node=node, init={'zeros': 'zero', 'empty': 'uninit'}.get(short, short),
                               shape=shape, kind='numpy', line=node.lineno,
                               func=self.frames[-1].func,
                               tag=shape if self.loops else None)
        if short in ('malloc', 'calloc'):
            b = self.newbuf(node=node, init='zero' if short == 'calloc' else 'uninit',
                            shape=args[0] if len(args) == 1 else args[0] * args[1],
                            kind='malloc', line=node.lineno, func=self.frames[-1].func)
            return b
        if short == 'pow' and len(args) == 2 and name in ('pow', 'math.pow', 'std::pow', 'numpy.power'):
            return self.binop(ast.Pow(), args[0], args[1], node, st)
        if name in ('numpy.dot', 'numpy.matmul') and len(args) == 2:
            return A(('matmul', args[0], args[1]))
        if name in ('numpy.sqrt', 'math.sqrt', 'sqrt'):
            return A(('call', A(('fn', 'sqrt')), (args[0],), ()))
        if name in ('numpy.pi', 'math.pi'):
            return A(('fn', 'pi'))
        return None


def walk_stmts(s):
    yield s
    if isinstance(s, FE.Switch):
        for _, b in s.cases:
            for x in b:
                yield from walk_stmts(x)
        return
    for f in ('body', 'orelse', 'finalbody'):
        for x in getattr(s, f, []) or []:
            if isinstance(x, ast.stmt):
                yield from walk_stmts(x)
    for h in getattr(s, 'handlers', []) or []:
        for x in h.body:
            yield from walk_stmts(x)


def bind(func, args, kw):
    """Bind call arguments to parameters.  -> (mapping, error or None)"""
    names = [p[0] for p in func.params if p[0] not in func.kwonly]
    bound = {}
    args = list(args)
    star = any(v.single_atom() and v.single_atom()[0] == 'star' for v in args)
    extra = []
    for i, v in enumerate(args):
        if i < len(names):
            bound[names[i]] = v
        elif func.vararg:
            extra.append(v)
        elif star:
            pass
        else:
            return None, 'takes %d positional arguments but %d were given' % (len(names), len(args))
    allnames = {p[0] for p in func.params}
    dstar = False
    for k, v in kw:
        if k == '**':
            dstar = True
            bound['**'] = v
            continue
        if k in bound:
            return None, 'got multiple values for argument %r' % k
        if k not in allnames and not func.kwarg:
            return None, 'got an unexpected keyword argument %r' % k
        bound[k] = v
    if not star and not dstar:
        for nm, ty, df in func.params:
            if nm not in bound and df is None:
                return None, 'missing required argument %r' % nm
    if extra:
        bound['*' + func.vararg] = tup(*extra)
    return bound, None
