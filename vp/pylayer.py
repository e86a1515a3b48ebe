"""Helpers for analysing the Python layer (classes and methods) with flow.Flow."""
from . import flow as FL
from . import proj
from . import kernels as K
from .frontend import AnalysisBroken
from .poly import Poly, TooBig, ONE, ZERO, show, atom_of
from .kernels import sym, attr, A

NONE = FL.NONE
COPY = {'numpy.reshape', 'numpy.ravel', 'numpy.ascontiguousarray', 'numpy.asarray', 'numpy.array',
        'numpy.atleast_1d', 'numpy.require', 'numpy.copy', 'numpy.asanyarray', 'numpy.float64'}
COPYM = {'reshape', 'ravel', 'flatten', 'copy', 'astype'}


def S_(s):
    return FL.sstr(s)


def attr_of(p, n):
    return A(('attr', p, n))


def order_ok(kw):
    d = dict(kw)
    return 'order' not in d or d['order'] == S_('C')


def cls(rel, name):
    m = proj.mod(rel)
    if name not in m.classes:
        raise AnalysisBroken('anchor class missing: %s in %s' % (name, rel))
    return m.classes[name]


def method(rel, cname, name, assume=None, args=None, externs=None, inline=None):
    c = cls(rel, cname)
    if name not in c.methods:
        raise AnalysisBroken('anchor method missing: %s.%s in %s' % (cname, name, rel))
    f = c.methods[name]
    fl = FL.Flow(proj.RESOLVE, assume=assume, externs=externs, self_class=c, inline=inline)
    st, ret = fl.run(f, args)
    return f, fl, st, ret


def function(rel, name, assume=None, args=None, externs=None, inline=None):
    f = proj.func(rel, name)
    fl = FL.Flow(proj.RESOLVE, assume=assume, externs=externs, inline=inline)
    st, ret = fl.run(f, args)
    return f, fl, st, ret


def none_assume(d):
    """{Poly: bool}: whether that value is None"""
    def side(a):
        if a[0] != 'ind' or a[1] != 'is':
            return None
        if a[2] == NONE:
            return a[3]
        if a[3] == NONE:
            return a[2]
        return None

    def pred(a):
        s = side(a)
        return s is not None and s in d

    def val(a):
        return d[side(a)]
    return {pred: val}


def none_cond(c):
    """the quantity X when c is the condition 'X is None'"""
    a = c.single_atom()
    if a is None or a[0] != 'ind' or a[1] != 'is':
        return None
    return a[2] if a[3] == NONE else a[3] if a[2] == NONE else None


def truth_assume(d):
    """{Poly: bool}: truth value"""
    def pred(a):
        return a[0] == 'ind' and a[1] == 'truth' and a[2] in d

    def val(a):
        return d[a[2]]
    return {pred: val}


def eq_assume(d):
    """{Poly: value Poly}: the (string/number) value this quantity has in == comparisons"""
    def find(a):
        if a[0] != 'ind' or a[1] not in ('eq', 'eqv'):
            return None
        if a[1] == 'eqv':
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if x in d and FL.const_kind(y):
                    return d[x] == y
            return None
        for x, v in d.items():
            p = a[2]
            m = {FL.intern_atom(x.single_atom())} & p.atoms()
            if m:
                i = next(iter(m))
                q = p.map_atoms(lambda j: v if j == i else None)
                c = q.cval()
                if c is not None:
                    return c == 0
                # string - string
                if all(atom_of(z)[0] == 'str' for z in q.atoms()):
                    return q == ZERO
        return None

    def pred(a):
        return find(a) is not None
    return {pred: find}


def merge(*ds):
    out = {}
    for d in ds:
        out.update(d)
    return out


def strip(p, shapes=None):
    """remove operations that keep the elements and their row-major order"""
    memo = {}

    def fn(a):
        if a[0] == 'call':
            f = a[1].single_atom()
            if f is None or not order_ok(a[3]):
                return None
            if f[0] == 'attr' and f[2] in COPYM:
                if shapes is not None and f[2] == 'reshape':
                    shapes.append(a[2][0] if len(a[2]) == 1 else FL.tup(*a[2]))
                return FL.rebuild(f[1], fn, memo)
            if f[0] == 'ext' and f[1] in COPY and a[2]:
                if shapes is not None and f[1] == 'numpy.reshape' and len(a[2]) > 1:
                    shapes.append(a[2][1])
                return FL.rebuild(a[2][0], fn, memo)
        return None
    return FL.rebuild(p, fn, memo)


def where(e):
    return K.where_of(e)


def wf(f, line=None):
    return '%s:%s' % (proj.relpath(f.module.path), line if line is not None else f.lineno)


def calls(fl, name):
    """call events of a function/method of that (last) name"""
    out = []
    for e in fl.events:
        if e.kind not in ('call', 'enter'):
            continue
        if e.op == name or callee(e) == name:
            out.append(e)
    return out


def callee(e):
    a = e.base.single_atom() if isinstance(e.base, Poly) else None
    if a is None:
        return None
    if a[0] == 'attr':
        return a[2]
    if a[0] == 'ext':
        return a[1].split('.')[-1]
    if a[0] in ('fn',):
        return a[1]
    if a[0] == 'func':
        return a[2] if len(a) > 2 else None
    return None


def bind_args(params, args, kw):
    """positional + keyword -> {name: value}; None when it does not bind"""
    out = {}
    if len(args) > len(params):
        return None
    for n, v in zip(params, args):
        out[n] = v
    for n, v in kw:
        if n in out or n not in params:
            return None
        out[n] = v
    return out


def obj(st, v):
    """heap object behind a value -> ('dict'|'list'|..., items)"""
    a = v.single_atom() if v is not None else None
    if a is None or a[0] != 'obj':
        return None
    return st.heap.get(('obj', a[1]))


def unrep(x, fl):
    """('rep', L, opt(c, v)) -> (loop, cond, value), or None"""
    a = x.single_atom()
    if a is None:
        return None
    loop, cond = None, ONE
    while a is not None and a[0] in ('rep', 'opt'):
        if a[0] == 'rep':
            if loop is not None:
                return None
            loop = a[1]
            x = a[2]
        else:
            cond = cond * a[1]
            x = a[2]
        a = x.single_atom()
    return loop, cond, x


# ------------------------------------------------------------------ typed runs
SHELL = 'panels/shell.py'
MD = 'panels/multidomain/multidomain.py'
BAY = 'panels/stiffpanelbay/stiffpanelbay.py'
BS1 = 'panels/stiffener/bladestiff1d.py'
BS2 = 'panels/stiffener/bladestiff2d.py'


def elem_of(a, *iterables):
    """is this atom an element of one of the iterables"""
    if a[0] in ('elem', 'belem') and a[1] in iterables:
        return True
    return a[0] == 'idx' and a[1] in iterables and len(a[2]) == 1


def typed(rel, cname, name, typer=None, opaque=(), assume=None, args=None, inline=None):
    """run a method with native kernels and the named functions kept as calls"""
    c = cls(rel, cname)
    if name not in c.methods:
        raise AnalysisBroken('anchor method missing: %s.%s in %s' % (cname, name, rel))
    f = c.methods[name]
    opaque = set(opaque) | {'msg', 'warn'}

    def inl(g):
        if g is f:
            return True
        if g.module.path.endswith('.pyx') or g.name in opaque:
            return False
        return inline is None or inline(g)
    fl = FL.Flow(proj.RESOLVE, assume=assume, self_class=c, inline=inl)
    fl.typer = typer
    st, ret = fl.run(f, args)
    return f, fl, st, ret


def configured(rel, cname, name, attrs=None, args=None, typer=None, opaque=(), assume=None, inline=None,
               owner='self', heap=None):
    """run a method with the given attribute values of the object and argument values; symbolic
    arguments are present (not None, not a string) and truth follows the value given"""
    c = cls(rel, cname) if cname else None
    if cname and name not in c.methods:
        raise AnalysisBroken('anchor method missing: %s.%s in %s' % (cname, name, rel))
    f = c.methods[name] if cname else proj.func(rel, name)
    opaque = set(opaque) | {'msg', 'warn'}

    def inl(g):
        if g is f:
            return True
        if g.module.path.endswith('.pyx') or g.name in opaque:
            return False
        return inline is None or inline(g)
    given = {sym(p) for p in f.param_names()} | set((args or {}).values())
    given |= set((attrs or {}).values())

    def nonep(a):
        if a[0] != 'ind' or a[1] != 'is':
            return None
        x = a[2] if a[3] == NONE else a[3] if a[2] == NONE else None
        return False if x in given else None

    def strp(a):
        if a[0] == 'ind' and a[1] == 'truth':
            b = a[2].single_atom()
            if b is not None and b[0] == 'call' and b[1] == A(('fn', 'isinstance')) and \
                    b[2][1:] == (A(('fn', 'str')),):
                return False
        return None
    asm = {(lambda a: nonep(a) is not None): nonep, (lambda a: strp(a) is not None): strp}
    fl = FL.Flow(proj.RESOLVE, assume=merge(assume or {}, asm), self_class=c, inline=inl)
    fl.typer = typer
    fl.fold_globals = True
    st = FL.State({}, {('attr', sym(owner), k): v for k, v in (attrs or {}).items()}, ())
    st.heap.update(heap or {})
    try:
        st, ret = fl.run(f, args, st)
    except (FL.Give, TooBig) as ex:
        ex.flow, ex.func = fl, f
        raise
    return f, fl, st, ret


def kbind(func, names, args, kw):
    """arguments of a native kernel under canonical names (position decides unless the
    kernel uses exactly these names); None when the call does not bind"""
    b, err = FL.bind(func, list(args), list(kw))
    if err:
        return None
    have = func.param_names()
    if set(names) <= set(have):
        return b
    m = dict(zip(have, names))
    return {m.get(k, k): v for k, v in b.items()}


def call_parts(a):
    """('call' atom) -> (callee poly, args, kw) with bound calls as keywords"""
    return a[1], a[2], a[3]


def callee_name(a):
    f = a[1].single_atom()
    if f is None:
        return None
    if f[0] in ('attr',):
        return f[2]
    if f[0] == 'func':
        return f[2]
    if f[0] in ('ext', 'fn'):
        return f[1].split('.')[-1]
    return None


SYM = {'finalize_symmetric_matrix', 'make_symmetric'}
SKEW = {'make_skew_symmetric'}
SAMEM = {'csr_matrix', 'csc_matrix', 'coo_matrix', 'asarray', 'array', 'csr_array', 'csc_array',
         'ascontiguousarray'}
SAMEMM = {'tocsr', 'tocsc', 'tocoo', 'copy', 'asformat'}


class Leaf:
    def __init__(self, coef, loops, inds, wrap, atom):
        self.coef, self.loops, self.inds, self.wrap, self.atom = coef, loops, inds, wrap, atom

    @property
    def cond(self):
        p = ONE
        for a in self.inds:
            p = p * A(a)
        return p

    def __repr__(self):
        return 'Leaf(%s, loops=%d, inds=%d, wrap=%s, %s)' % (
            self.coef, len(self.loops), len(self.inds), self.wrap,
            show(A(self.atom)) if self.atom is not None else '1')


def leaves(p, loops=(), wrap=(), coef=1, inds=()):
    """additive pieces of a matrix or vector valued expression"""
    out = []
    for m, c in p.t.items():
        mats, ii, ok = [], list(inds), True
        for i, e in m:
            a = atom_of(i)
            if a[0] == 'ind':
                ii.append(a)
            else:
                mats.append((a, e))
        if len(mats) != 1 or mats[0][1] != 1:
            out.append(Leaf(coef * c, loops, tuple(ii), wrap, None if not mats else
                            ('prod', Poly({m: 1}))))
            continue
        a = mats[0][0]
        if a[0] == 'sum':
            out += leaves(a[2], loops + tuple(a[1]), wrap, coef * c, tuple(ii))
            continue
        if a[0] == 'call':
            n = callee_name(a)
            f = a[1].single_atom()
            if f is not None and f[0] == 'attr' and n in SAMEMM and not a[2]:
                out += leaves(f[1], loops, wrap, coef * c, tuple(ii))
                continue
            if n in SYM and a[2]:
                out += leaves(a[2][0], loops, wrap + ('sym',), coef * c, tuple(ii))
                continue
            if n in SKEW and a[2]:
                out += leaves(a[2][0], loops, wrap + ('skew',), coef * c, tuple(ii))
                continue
            if n in SAMEM and f is not None and f[0] == 'ext' and a[2]:
                z = a[2][0].single_atom()
                if z is not None and z[0] in ('tuple', 'obj'):
                    continue                    # csr_matrix((n, n)): no entries
                out += leaves(a[2][0], loops, wrap, coef * c, tuple(ii))
                continue
            if n == 'zeros' and f is not None and f[0] == 'ext':
                continue
            if n in ('transpose',) and f is not None and f[0] == 'attr':
                out += leaves(f[1], loops, wrap + ('T',), coef * c, tuple(ii))
                continue
        if a[0] == 'attr' and a[2] == 'T':
            out += leaves(a[1], loops, wrap + ('T',), coef * c, tuple(ii))
            continue
        out.append(Leaf(coef * c, loops, tuple(ii), wrap, a))
    return out


def split_prod(lf):
    """leaf -> (scalar factor Poly, matrix call atom or None)"""
    if lf.atom is None or lf.atom[0] != 'prod':
        return ONE, lf.atom
    (m, c), = lf.atom[1].t.items()
    calls = [(i, e) for i, e in m if atom_of(i)[0] == 'call' and callee_name(atom_of(i)) not in (
        'sqrt', 'len', 'abs', 'int', 'float')]
    if len(calls) != 1 or calls[0][1] != 1:
        return ONE, lf.atom
    rest = Poly({tuple(x for x in m if x[0] != calls[0][0]): c})
    return rest, atom_of(calls[0][0])


def ratio(p):
    """(numerator, denominator) polynomials without inverse atoms or negative powers"""
    num, den = ZERO, ONE
    for m, c in p.t.items():
        n, d = Poly.const(c), ONE
        for i, e in m:
            a = atom_of(i)
            if a[0] == 'inv':
                q = ratio(a[1])
                for _ in range(abs(e)):
                    n, d = (n * q[1], d * q[0]) if e > 0 else (n * q[0], d * q[1])
            elif e < 0:
                d = d * A(a).pow(-e)
            else:
                n = n * A(a).pow(e)
        num, den = num * d + n * den, den * d
    return num, den


def same_ratio(p, q):
    a, b = ratio(p)
    c, d = ratio(q)
    return a * d == c * b


def ret_when(f, fl, ret):
    return ret


def rec_leaves(fl, p, loops=(), wrap=(), coef=1, inds=(), depth=0):
    """leaves of p, following accumulators of loops that carry other recurrences along;
    such pieces are in terms of ('elem', iterable, loop id) and have the loop (iterable, ('loop', id))"""
    out = []
    for lf in leaves(p, loops, wrap, coef, inds):
        a = lf.atom
        if a is None or a[0] != 'loopout' or a[2] not in fl.loop_end or depth > 12:
            out.append(lf)
            continue
        lp, recs = fl.loop_end[a[2]]
        rec = None
        for k, v in recs.items():
            if v[0] == a[1] or k == ('e', a[1]) or k == a[1] or v[0].single_atom() == a[1]:
                rec = v
        if rec is None or lp.iterable is None:
            out.append(lf)
            continue
        phi, v0, vend = rec
        d = vend - phi
        ph = phi.single_atom()
        if K.poly_mentions(d, lambda z: z == ph):
            out.append(lf)
            continue
        out += rec_leaves(fl, v0, lf.loops, lf.wrap, lf.coef, lf.inds, depth + 1)
        out += rec_leaves(fl, d, lf.loops + ((lp.iterable, ('loop', a[2])),), lf.wrap, lf.coef, lf.inds,
                          depth + 1)
    return out


def last_only(fl, lf):
    """the piece is what the last iteration of a loop left in a variable: nothing of the iterations before it is kept"""
    a = lf.atom
    if a is None or a[0] != 'loopout' or a[2] not in fl.loop_end:
        return False
    for k, v in fl.loop_end[a[2]][1].items():
        if v[0] == a[1] or k == ('e', a[1]) or k == a[1] or v[0].single_atom() == a[1]:
            phi, v0, vend = v
            ph = phi.single_atom()
            return not K.poly_mentions(vend, lambda z: z == ph or isinstance(z, tuple) and z[:1] in (('brk',), ('unk',)))
    return False


def recurrence(fl, v):
    """value of a phi atom -> (first value, step per iteration) or None"""
    a = v.single_atom()
    if a is None or a[0] != 'phi' or a[2] not in fl.loop_end:
        return None
    for k, r in fl.loop_end[a[2]][1].items():
        if r[0] == v:
            return r[1], r[2] - r[0]
    return None
