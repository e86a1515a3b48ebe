"""Decoding of the matrix / vector kernels.

A kernel is analysed by flow.Flow.  Its triplet stores are decoded into
(row amplitude, column amplitude, coefficient) and the coefficient is rewritten
in canonical shape-function atoms

    ('S', side, axis, owner, field, derivative, location)

side 'A' is the row amplitude, 'B' the column amplitude; location is 'int'
(integrated over the whole domain), 'q' (at the Gauss point) or a Poly.
"""
import re
from fractions import Fraction
from .poly import Poly, ZERO, ONE, atom_of, show, intern_atom, close, show_mono
from . import flow as FL
from . import proj
from .frontend import AnalysisBroken

A = Poly.atom
INTEGRALS = {'integral_ff': (0, 0), 'integral_ffp': (0, 1), 'integral_ffpp': (0, 2),
             'integral_fpfp': (1, 1), 'integral_fpfpp': (1, 2), 'integral_fppfpp': (2, 2)}
POINT = {'f': 0, 'fp': 1, 'fpp': 2}
VEC = {'vec_f': 'f', 'vec_fp': 'fp', 'vec_fpp': 'fpp',
       'calc_vec_f': 'f', 'calc_vec_fp': 'fp', 'calc_vec_fpp': 'fpp',
       'calc_f': None}
FLAG = re.compile(r'^([xy])([12])(u|v|w)(r?)(f?)$')
FIELDS = 'uvw'


def sym(n):
    return A(('sym', n))


def attr(o, *names):
    p = sym(o) if isinstance(o, str) else o
    for n in names:
        p = A(('attr', p, n))
    return p


def S(side, axis, owner, field, d, loc):
    return A(('S', side, axis, owner, field, d, loc))


def Q(alpha, field, p, q, owner='shell'):
    """derivative sum of the current displacement state"""
    return A(('q', alpha, field, p, q, owner))



def F(i, j):
    i, j = min(i, j), max(i, j)
    # the coupling block of a laminate is itself symmetric
    i, j = {(1, 3): (0, 4), (2, 3): (0, 5), (2, 4): (1, 5)}.get((i, j), (i, j))
    return A(('F', i, j))


WT = A(('gw', 'x')) * A(('gw', 'y'))       # product of the two quadrature weights


# ------------------------------------------------------------------ externs
def h_leggauss(flow, args, kw, st, node):
    n, p, w = args[0], args[1], args[2]
    for v, kind in ((p, 'gpt'), (w, 'gwt')):
        a = v.single_atom()
        base = v
        if a is not None and a[0] == 'ptr':
            base = a[1]
            if any(i != ZERO for i in a[2]):
                continue
        st.heap[('fill', base)] = (kind, (n,))
    flow.event('call', A(('fn', 'leggauss_quad')), (), FL.NONE, 'leggauss_quad', st, node,
               extra=(tuple(args), tuple(kw)))
    return FL.NONE


def h_vec(kind):
    def h(flow, args, kw, st, node):
        base = args[0]
        a = base.single_atom()
        if a is not None and a[0] == 'ptr':
            if all(i == ZERO for i in a[2]):
                base = a[1]
            elif len(a[2]) > 1 or a[2][0] != ZERO:
                base = A(('idx', a[1], a[2]))
        for k in [k for k in st.heap if k[0] == 'cell' and k[1] == base]:
            del st.heap[k]
        st.heap[('fill', base)] = (kind, tuple(args[1:]))
        flow.event('call', A(('fn', 'vec_' + kind)), (), FL.NONE, 'vec_' + kind, st, node,
                   extra=(tuple(args), tuple(kw)))
        return FL.NONE
    return h


EXTERNS = {'leggauss_quad': h_leggauss, 'vec_f': h_vec('f'), 'vec_fp': h_vec('fp'),
           'vec_fpp': h_vec('fpp')}

_RUNS = {}


class Undecided(Exception):
    pass


# ------------------------------------------------------------------ assumptions
def poly_mentions(p, pred):
    for m in p.t:
        for a, _ in m:
            if atom_mentions(atom_of(a), pred):
                return True
    return False


def atom_mentions(a, pred):
    if pred(a):
        return True
    for x in a[1:]:
        if isinstance(x, Poly):
            if poly_mentions(x, pred):
                return True
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Poly) and poly_mentions(y, pred):
                    return True
                if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], Poly) and \
                        poly_mentions(y[1], pred):
                    return True
    return False


def lim_assume(full):
    """full: {'x1': bool, ...}  True means the limit has its 'not set' value"""
    def pred(a):
        if a[0] != 'ind' or a[1] != 'eq':
            return False
        return _lim_name(a) is not None

    def _lim_name(a):
        d = a[2]
        if not isinstance(d, Poly) or len(d.t) != 2 or () not in d.t:
            return None
        m = [k for k in d.t if k][0]
        if len(m) != 1 or m[0][1] != 1:
            return None
        at = atom_of(m[0][0])
        c = -d.t[()] / d.t[m]
        if at[0] == 'attr' and at[2] in full and c == -1:
            return at[2]
        return None

    def val(a):
        return full[_lim_name(a)]
    return {pred: val}


def flag_assume(name, value):
    """integer parameter `name` has exactly `value`"""
    def pred(a):
        if a[0] != 'ind' or a[1] not in ('eq', 'truth', 'lt'):
            return False
        d = a[2]
        if not isinstance(d, Poly):
            return False
        at = {x for m in d.t for x, _ in m}
        return len(at) == 1 and atom_of(next(iter(at))) == ('sym', name)

    def val(a):
        d = a[2].map_atoms(lambda i: Poly.const(value))
        c = d.cval()
        if c is None:
            return None
        if a[1] == 'eq':
            return c == 0
        if a[1] == 'lt':
            return c < 0
        return c != 0
    return {pred: val}


def shape_assume(dims):
    """X.shape == tuple of `dims` dimensions is true, of any other number false"""
    def pred(a):
        if a[0] != 'ind' or a[1] not in ('eqv', 'eq'):
            return False
        return any(isinstance(x, Poly) and (x.single_atom() or ('',))[0] == 'attr' and
                   x.single_atom()[2] == 'shape' for x in a[2:]) or \
            any(isinstance(x, Poly) and poly_mentions(x, lambda y: y[0] == 'attr' and y[2] == 'ndim')
                for x in a[2:])

    def val(a):
        for x in a[2:]:
            at = x.single_atom()
            if at is not None and at[0] == 'tuple':
                return len(at[1]) == dims
        d = a[2]
        if a[1] == 'eq':
            z = d.map_atoms(lambda i: Poly.const(dims) if atom_of(i)[0] == 'attr' and
                            atom_of(i)[2] == 'ndim' else None).cval()
            if z is not None:
                return z == 0
        return None
    return {pred: val}


def run(rel, fn, assume=None, key=None, externs=None, names=()):
    k = (rel, fn, key)
    if key is not None and k in _RUNS:
        return _RUNS[k]
    f = proj.func(rel, fn)
    ex = dict(EXTERNS)
    ex.update(externs or {})
    fl = FL.Flow(proj.RESOLVE, assume=assume, externs=ex)
    st, ret = fl.run(f, canonical_args(f, names))
    if key is not None:
        _RUNS[k] = (f, fl, st, ret)
    return f, fl, st, ret


# ------------------------------------------------------------------ decode
def decode_index(p):
    """index = base + alpha + 3*x + 3*M*y  ->  dict or None"""
    const = p.t.get((), Fraction(0))
    base, xs, ys = [], [], []
    for m, c in p.t.items():
        if not m:
            continue
        lv = [(a, e) for a, e in m if atom_of(a)[0] in ('lv', 'bv')]
        if not lv:
            base.append((m, c))
            continue
        if len(lv) != 1 or lv[0][1] != 1:
            return None
        rest = tuple(x for x in m if x != lv[0])
        if not rest:
            xs.append((atom_of(lv[0][0]), c))
        else:
            ys.append((atom_of(lv[0][0]), c, rest))
    if len(xs) != 1 or len(ys) != 1:
        return None
    if const.denominator != 1:
        return None
    bp = Poly(dict(base))
    d = dict(alpha=int(const), base=bp, x=xs[0][0], xc=xs[0][1], y=ys[0][0], yc=ys[0][1],
             stride=Poly({ys[0][2]: Fraction(1)}))
    return d


def trip_of(atom, loops):
    if atom[0] == 'bv':
        return atom[1]
    for l in loops:
        if l.id == atom[2]:
            return l.trip
    return None


class Problem:
    def __init__(self, rule, where, msg, inst=''):
        self.rule, self.where, self.msg, self.inst = rule, where, msg, inst

    def key(self):
        return (self.rule, self.inst)


def where_of(e):
    return '%s:%s' % (proj.relpath(e.func.module.path), e.line)


def owner_of(p):
    """'shell' / 'p1' ... from the object a flag or size is read from"""
    a = p.single_atom()
    if a is None:
        return show(p)
    if a[0] == 'sym':
        return a[1]
    if a[0] == 'attr':
        return owner_of(a[1]) + '.' + a[2]
    return show(p)


def flag_of(p):
    """attribute or parameter holding an edge flag -> (owner, axis, end, field, r) or None"""
    a = p.single_atom()
    if a is None:
        return None
    if a[0] == 'attr':
        nm, own = a[2], owner_of(a[1])
    elif a[0] == 'sym':
        nm, own = a[1], ''
    else:
        return None
    m = FLAG.match(nm)
    if not m:
        return None
    ax, end, fld, r, f = m.groups()
    return own + ('.f' if f else ''), ax, end, fld, r


def flags4(args):
    """four flag arguments -> (owner, axis, field) or None when inconsistent"""
    fl = [flag_of(x) for x in args]
    if any(x is None for x in fl):
        return None
    own = {x[0] for x in fl}
    ax = {x[1] for x in fl}
    fd = {x[3] for x in fl}
    if len(own) != 1 or len(ax) != 1 or len(fd) != 1:
        return None
    if [(x[2], x[4]) for x in fl] != [('1', ''), ('1', 'r'), ('2', ''), ('2', 'r')]:
        return None
    return fl[0][0], fl[0][1], fl[0][3]


class Canon:
    """rewrites a value into canonical atoms, given the roles of loop variables"""

    def __init__(self, roles, gauss=None, bvroles=None, u='cs', ubase=None):
        self.roles = roles            # lv atom -> (side, axis)
        self.gauss = gauss            # Gauss-context or None
        self.memo = {}
        self.u = u
        self.state_owner = 'shell'
        self.ubase = ubase

    def __call__(self, p):
        return FL.rebuild(p, self.one, self.memo)

    def role(self, idx, roles=None):
        a = idx.single_atom() if isinstance(idx, Poly) else None
        if a is None:
            return None
        return (roles or self.roles).get(a)

    def bad(self, name, args):
        return A(('Sbad', name, tuple(args)))

    def loc(self, p, axis):
        if self.gauss is not None:
            r = self.gauss.loc(p, axis)
            if r is not None:
                return r
        return p

    def shape(self, name, idx, loc, flags, roles=None):
        d = POINT[name]
        r = self.role(idx, roles)
        fl = flags4(flags)
        if r is None or fl is None or r[1] != fl[1]:
            return self.bad(name, (idx, loc) + tuple(flags))
        return S(r[0], fl[1], fl[0], fl[2], d, self.loc(loc, fl[1]))

    def integral(self, name, args):
        d1, d2 = INTEGRALS[name]
        if len(args) != 10:
            return self.bad(name, args)
        r1, r2 = self.role(args[0]), self.role(args[1])
        f1, f2 = flags4(args[2:6]), flags4(args[6:10])
        if r1 is None or r2 is None or f1 is None or f2 is None or \
                r1[1] != f1[1] or r2[1] != f2[1] or f1[1] != f2[1] or r1[0] == r2[0]:
            return self.bad(name, args)
        return S(r1[0], f1[1], f1[0], f1[2], d1, 'int') * S(r2[0], f2[1], f2[0], f2[2], d2, 'int')

    def one(self, a):
        if a[0] == 'call':
            fa = a[1].single_atom()
            if fa is not None and fa[0] == 'fn':
                n = fa[1]
                if n in INTEGRALS:
                    return self.integral(n, a[2])
                if n in POINT and len(a[2]) == 6:
                    return self.shape(n, a[2][0], a[2][1], a[2][2:6])
                if n in ('gpt', 'gwt') and self.gauss is not None:
                    return self.gauss.atom(n, a[2])
        if a[0] == 'sum':
            return self.state_sum(a)
        if a[0] == 'idx':
            return self.table(a)
        return None

    def table(self, a):
        """laminate / density tables, uniform or one per integration point"""
        b, ix = a[1], a[2]
        ba = b.single_atom()
        if ba is None:
            return None
        if ba == ('sym', 'Finput') or (ba[0] == 'attr' and ba[2] == 'ABD'):
            k = 2
        elif ba == ('sym', 'hrho_input'):
            k = 1
        else:
            return None
        if len(ix) == k + 2:
            if self.gauss is None or set(self.gauss.var) != {'x', 'y'} or \
                    ix[0] != self.gauss.var['x'] or ix[1] != self.gauss.var['y']:
                return None
            ix = ix[2:]
        if len(ix) != k:
            return None
        t = tuple(x.as_int() for x in ix)
        if any(x is None for x in t):
            return None
        if k == 2:
            if not all(0 <= x < 6 for x in t):
                return None
            return F(*t)
        return A(('hrho', t[0]))

    # sums over all amplitudes of the state vector
    def state_sum(self, a):
        bounds, D = a[1], a[2]
        total = ZERO
        for m, c in D.t.items():
            out = self.state_term(bounds, m)
            if out is None:
                return None
            total = total + out.scale(c)
        return total

    def state_term(self, bounds, m):
        idx, shp, rest = None, [], []
        for at, e in m:
            x = atom_of(at)
            if x[0] == 'idx' and e == 1 and idx is None and poly_mentions(
                    x[2][-1], lambda y: y[0] == 'bv'):
                idx = x
            elif x[0] == 'call' and e == 1 and x[1].single_atom() and \
                    x[1].single_atom()[0] == 'fn' and x[1].single_atom()[1] in POINT:
                shp.append((x[1].single_atom()[1], x[2]))
            elif x[0] == 'Sbad' and e == 1:
                if x[1] in POINT:
                    shp.append((x[1], x[2]))
                else:
                    rest.append((at, e))
            else:
                rest.append((at, e))
        if idx is None or len(shp) != 2 or len(bounds) != 2:
            return None
        b = idx[1].single_atom()
        if b is None or len(idx[2]) != 1:
            return None
        d = decode_index(idx[2][0])
        if d is None:
            return None
        roles = {d['x']: ('q', 'x'), d['y']: ('q', 'y')}
        got = {}
        for nm, args in shp:
            s = self.shape(nm, args[0], args[1], args[2:6], roles).single_atom()
            if s is None or s[0] != 'S':
                return A(('qbad', tuple(bounds), Poly({m: Fraction(1)})))
            got[s[2]] = s
        if set(got) != {'x', 'y'}:
            return A(('qbad', tuple(bounds), Poly({m: Fraction(1)})))
        sx, sy = got['x'], got['y']
        own = sx[3]
        ok = (sx[3] == sy[3] and sx[4] == sy[4] and d['xc'] == 3 and d['yc'] == 3 and
              sx[6] == 'q' and sy[6] == 'q' and
              d['stride'] == attr(own, 'm') if isinstance(own, str) else False)
        ok = ok and trip_of(d['x'], ()) == attr(own, 'm') and trip_of(d['y'], ()) == attr(own, 'n')
        if self.ubase is not None:
            ok = ok and d['base'] == self.ubase
        ok = ok and b == ('sym', self.u)
        if not ok:
            return A(('qbad', tuple(bounds), Poly({m: Fraction(1)})))
        return Q(d['alpha'], sx[4], sx[5], sy[5], own) * Poly({tuple(rest): Fraction(1)})


class Gauss:
    """Canonical Gauss point: which loop runs over the x and which over the y points"""

    def __init__(self, loops, nx, ny, lims):
        self.loops = loops
        self.n = {'x': nx, 'y': ny}
        self.lims = lims          # axis -> (lo, hi) natural coordinates
        self.var = {}
        for l in loops:
            for ax in 'xy':
                if l.trip == self.n[ax] and ax not in self.var:
                    self.var[ax] = l.lv()
                    break

    def pt(self, ax):
        return A(('call', A(('fn', 'gpt')), (self.var[ax], self.n[ax]), ()))

    def expected(self, ax):
        lo, hi = self.lims[ax]
        return (self.pt(ax) + ONE).scale(Fraction(1, 2)) * (hi - lo) + lo

    def loc(self, p, axis):
        if axis not in self.var:
            return None
        e = self.expected(axis)
        if p == e or close(p, e) is None:
            return 'q'
        return None

    def atom(self, n, args):
        if n == 'gwt':
            for ax in 'xy':
                if ax in self.var and args == (self.var[ax], self.n[ax]):
                    return A(('gw', ax))
        return None


# ------------------------------------------------------------------ guards
def split_guard(cond, row, col, r0, c0, alpha, beta):
    """cond: 0/1 polynomial guarding a store.  Returns (symmetric?, rest, problem)
    where symmetric means only blocks on or above the diagonal are visited."""
    if cond == ONE:
        return False, ONE, None
    lts = [a for a in cond.atoms() if atom_of(a)[0] == 'ind' and atom_of(a)[1] == 'lt']
    if not lts:
        return False, cond, None
    if len(lts) > 1:
        return None, cond, 'several order conditions'
    a = lts[0]
    d = atom_of(a)[2]
    ind = Poly({((a, 1),): Fraction(1)})
    # cond == X * (1 - ind)  or X * ind
    on = cond.map_atoms(lambda i: ONE if i == a else None)
    off = cond.map_atoms(lambda i: ZERO if i == a else None)
    # block(col) - block(row)
    diff = (col - c0 - Poly.const(beta)) - (row - r0 - Poly.const(alpha))
    # d must be k*(col-row) + s
    dd = d.map_atoms(lambda i: ZERO if atom_of(i) in ATOMS_BASE(r0, c0) else None)
    for k in _ratios(dd, diff):
        s = (dd - diff.scale(k)).cval()
        if s is None:
            continue
        # ind true  <=>  k*(col-row) + s < 0
        if k > 0 and on == ZERO:
            # kept when col-row >= -s/k ; dropped when row-col > s/k
            t = s / k
            first = 3 * ((t // 3) + 1)          # smallest dropped row-col (multiple of 3)
            if first + alpha - beta > 0:
                return True, off, None
            return True, off, 'blocks on or above the diagonal are skipped'
        if k < 0 and off == ZERO:
            # kept when |k|(row-col) > ... : -|k|(col-row)+s<0  <=> col-row > s/|k|
            t = s / (-k)
            # dropped when col-row <= t  <=> row-col >= -t
            import math
            first = 3 * math.ceil(Fraction(-t) / 3)
            if first + alpha - beta > 0:
                return True, on, None
            return True, on, 'blocks on or above the diagonal are skipped'
        if k < 0 and on == ZERO or k > 0 and off == ZERO:
            return None, cond, 'keeps the wrong (lower) triangle'
    return None, cond, None


def ATOMS_BASE(r0, c0):
    return {atom_of(a) for p in (r0, c0) for a in p.atoms()}


def _ratios(d, diff):
    out = []
    for m, c in diff.t.items():
        if m in d.t:
            k = d.t[m] / c
            if k not in out:
                out.append(k)
    return out


# ------------------------------------------------------------------ triplets
COO = {'scipy.sparse.coo_matrix', 'scipy.sparse.csr_matrix', 'scipy.sparse.csc_matrix',
       'scipy.sparse.coo_array', 'scipy.sparse.csr_array'}


def unwrap_return(ret):
    a = ret.single_atom() if ret is not None else None
    while a is not None and a[0] == 'call':
        f = a[1].single_atom()
        if f is not None and f[0] == 'attr' and f[2] in ('tocsr', 'tocsc', 'tocoo', 'copy'):
            a = f[1].single_atom()
            continue
        if f is not None and f[0] == 'ext' and f[1] in COO:
            return a
        return None
    return None


class Entry:
    def __init__(self):
        self.value = ZERO
        self.where = ''
        self.sym = None
        self.loops = ()


class Matrix:
    """decoded kernel"""

    def __init__(self, rel, fn):
        self.rel, self.fn = rel, fn
        self.problems = []
        self.undecided = []
        self.entries = {}        # (alpha, beta) -> Entry
        self.row = self.col = None
        self.slots = 0
        self.stores = 0
        self.bound = None

    def bad(self, rule, where, msg, inst=''):
        self.problems.append(Problem(rule, where, '%s: %s' % (self.fn, msg),
                                     '%s:%s:%s' % (self.rel, self.fn, inst)))

    def und(self, msg):
        self.undecided.append('%s:%s: %s' % (self.rel, self.fn, msg))


def side_info(mx, p, e, which, params, owner):
    d = decode_index(p)
    if d is None:
        mx.und('%s index %s not decoded' % (which, show(p)))
        return None
    w = where_of(e)
    st = d['stride'].single_atom()
    if st is None or st[0] not in ('attr', 'sym'):
        mx.und('%s index stride %s not decoded' % (which, show(d['stride'])))
        return None
    own = owner_of(st[1]) if st[0] == 'attr' else ('.f' if st[1] == 'm1' else '')
    nm = st[2] if st[0] == 'attr' else st[1]
    dd = dict(d)
    dd['owner'] = own
    M = d['stride']
    N = A(('attr', st[1], 'n')) if st[0] == 'attr' else sym(nm.replace('m', 'n'))
    ok = True
    if owner is not None and own != owner:
        mx.bad('amplitude-index', w, '%s index %s belongs to panel %r, expected %r' %
               (which, show(p), own, owner), which)
        ok = False
    if not (nm.startswith('m') or nm.endswith('m')):
        mx.bad('amplitude-index', w, '%s index %s: stride is %s, not the number of x terms'
               % (which, show(p), show(M)), which)
        ok = False
    if d['xc'] != 3 or d['yc'] != 3:
        mx.bad('amplitude-index', w, '%s index %s: not 3 amplitudes per term' % (which, show(p)), which)
        ok = False
    tx, ty = trip_of(d['x'], e.loops), trip_of(d['y'], e.loops)
    if tx != M or ty != N:
        mx.bad('amplitude-index', w, '%s index %s: x index runs over %s and y index over %s, '
               'expected %s and %s' % (which, show(p), show(tx) if tx is not None else '?',
                                       show(ty) if ty is not None else '?', show(M), show(N)), which)
        ok = False
    expbase = sym(which + '0')
    if which + '0' in params and d['base'] != expbase:
        mx.bad('amplitude-index', w, '%s index %s: offset is %s, expected %s' %
               (which, show(p), show(d['base']), which + '0'), which)
        ok = False
    if not 0 <= d['alpha'] <= 2:
        mx.bad('amplitude-index', w, '%s index %s: component %d' % (which, show(p), d['alpha']), which)
        ok = False
    return dd if ok else None


def eq_only(cond, fl):
    """cond is a product of equality indicators -> their differences, else None"""
    if len(cond.t) != 1:
        return None
    (m, c), = cond.t.items()
    if c != 1:
        return None
    out = []
    for a, e in m:
        at = atom_of(a)
        if at[0] != 'ind' or at[1] != 'eq':
            return None
        out.append(at[2])
    return out


def decode_matrix(rel, fn, assume=None, key=None, row_owner=None, col_owner=None,
                  nx=None, ny=None, lims=None, symmetric=True, ubase='col0', names=()):
    f, fl, st, ret = run(rel, fn, assume, key, names=names)
    names = set(names)
    mx = Matrix(rel, fn)
    mx.func, mx.flow = f, fl
    params = set(f.param_names()) | names
    ca = unwrap_return(ret)
    if ca is None:
        mx.und('return value %s is not a sparse matrix of triplets' % (show(ret) if ret is not None else None))
        return mx
    arg = ca[2][0].single_atom() if ca[2] else None
    rc = None
    if arg is not None and arg[0] == 'tuple' and len(arg[1]) == 2:
        rc = arg[1][1].single_atom()
    if rc is None or rc[0] != 'tuple' or len(rc[1]) != 2:
        mx.und('triplet arguments not recognised')
        return mx
    V, R, C = arg[1][0], rc[1][0], rc[1][1]
    kw = dict(ca[3])
    shp = kw.get('shape', ca[2][1] if len(ca[2]) > 1 else None)
    if 'size' in params:
        exp = FL.tup(sym('size'), sym('size'))
        if shp is None:
            mx.bad('shape', rel, 'matrix has no explicit shape', 'shape')
        elif shp != exp:
            mx.bad('shape', rel, 'matrix shape is %s, expected (size, size)' % show(shp), 'shape')
    if len({V, R, C}) != 3:
        mx.bad('triplet', rel, 'values, rows and columns are not three separate arrays', 'arrays')
        return mx
    groups = {}
    order = []
    for e in fl.events:
        if e.kind != 'store' or e.base not in (V, R, C):
            continue
        k = e.index[0] if len(e.index) == 1 else None
        if k is None:
            mx.und('triplet store with %d indices' % len(e.index))
            continue
        if k not in groups:
            groups[k] = {'r': [], 'c': [], 'v': []}
            order.append(k)
        groups[k][{V: 'v', R: 'r', C: 'c'}[e.base]].append(e)
        mx.stores += 1
    if not groups:
        mx.und('no triplet stores found')
        return mx
    slots = []
    for k in order:
        g = groups[k]
        decode_slot(mx, k, g, params, row_owner, col_owner, nx, ny, lims, symmetric, slots, ubase)
    mx.slots = len(slots)
    mx.slotinfo = slots
    mx.bufs = (V, R, C)
    return mx


def decode_slot(mx, k, g, params, row_owner, col_owner, nx, ny, lims, symmetric, slots, ubase):
    inst = 'slot'
    any_e = (g['v'] or g['r'] or g['c'])[0]
    w = where_of(any_e)
    for q, nm in (('r', 'row'), ('c', 'column'), ('v', 'value')):
        if not g[q]:
            mx.bad('triplet', w, 'no %s is stored in the slot used here' % nm, nm)
            return
    for q, nm in (('r', 'row'), ('c', 'column')):
        if any(e.op != '=' and e.extra is not None for e in g[q]) and len(g[q]) > 1:
            mx.bad('triplet', where_of(g[q][-1]), 'two coefficients share one slot (the slot counter '
                   'does not advance)', 'shared')
            return
        vals = {(e.full if e.full is not None else e.value) for e in g[q]}
        if len(vals) > 1:
            mx.bad('triplet', where_of(g[q][-1]), 'two coefficients share one slot (the slot counter '
                   'does not advance): %s' % ' / '.join(show(v) for v in vals), 'shared')
            return
    re_, ce = g['r'][0], g['c'][0]
    rv = re_.full if re_.full is not None else re_.value
    cv = ce.full if ce.full is not None else ce.value
    r = side_info(mx, rv, re_, 'row', params, row_owner)
    c = side_info(mx, cv, ce, 'col', params, col_owner)
    if r is None or c is None:
        return
    four = [r['x'], r['y'], c['x'], c['y']]
    if len(set(four)) != 4:
        mx.bad('amplitude-index', w, 'row %s and column %s share a loop variable' %
               (show(rv), show(cv)), 'rowcol')
        return
    al, be = r['alpha'], c['alpha']
    roles = {r['x']: ('A', 'x'), r['y']: ('A', 'y'), c['x']: ('B', 'x'), c['y']: ('B', 'y')}
    ve = g['v'][-1]
    loops = ve.loops
    gl = [l for l in loops if l.lv().single_atom() not in roles]
    gauss = None
    if nx is not None:
        gauss = Gauss(gl, nx, ny, lims)
        if set(gauss.var) != {'x', 'y'}:
            mx.und('Gauss point loops not recognised')
            return
        if len(gl) != 2:
            mx.und('extra loop around the coefficient')
            return
    elif gl:
        mx.und('extra loop around the coefficient')
        return
    if not all(any(l.lv().single_atom() == x for l in loops) for x in four):
        mx.und('coefficient not inside the amplitude loops')
        return
    canon = Canon(roles, gauss, ubase=sym(ubase) if ubase in params else None)
    total = ZERO
    sym_ = None
    gtail = None
    for e in g['v']:
        we = where_of(e)
        if e.op == '=' and gauss is not None:
            mx.bad('accumulate', we, 'coefficient (%s,%s) is overwritten at every integration point '
                   'instead of accumulated' % (FIELDS[al], FIELDS[be]), '%s%s' % (FIELDS[al], FIELDS[be]))
            return
        s, rest, prob = split_guard(e.cond(), rv, cv, r['base'], c['base'], al, be)
        if prob:
            mx.bad('triangle', we, 'coefficient (%s,%s): %s' % (FIELDS[al], FIELDS[be], prob),
                   '%s%s' % (FIELDS[al], FIELDS[be]))
            return
        if s is None:
            mx.und('guard of coefficient (%s,%s) not recognised: %s' %
                   (FIELDS[al], FIELDS[be], show(e.cond())))
            return
        if s and not symmetric:
            mx.bad('triangle', we, 'coefficient (%s,%s) is only stored on one triangle of a block '
                   'that is not completed by symmetry' % (FIELDS[al], FIELDS[be]),
                   '%s%s' % (FIELDS[al], FIELDS[be]))
            return
        if rest != ONE:
            if eq_only(rest, None) is not None or len(rest.t) > 0 and all(
                    atom_of(a)[0] == 'ind' and atom_of(a)[1] == 'eq' and FL.deps(atom_of(a)[2])
                    for a in rest.atoms()):
                mx.bad('guard', we, 'coefficient (%s,%s) is only added when %s' %
                       (FIELDS[al], FIELDS[be], show(rest)), '%s%s' % (FIELDS[al], FIELDS[be]))
                return
            mx.und('coefficient (%s,%s) conditional on %s' % (FIELDS[al], FIELDS[be], show(rest)))
            return
        sym_ = s
        gtail = e.cond()
        if e.op == '=':
            total = e.value if e is g['v'][0] else e.value
        else:
            total = total + e.value
    # rows / columns written whenever the value is (or at the first/last Gauss point only)
    for q in ('r', 'c'):
        conds = [x.cond() for x in g[q]]
        cq = conds[0]
        if cq != gtail:
            ok = False
            if gauss is not None:
                for m, cc in cq.t.items():
                    pass
                want = gtail
                for ax in 'xy':
                    v = gauss.var[ax]
                    for tgt in (ZERO, gauss.n[ax] - ONE):
                        pass
                cands = [ONE]
                for ax in 'xy':
                    v = gauss.var[ax]
                    cands = [z * i for z in cands for i in
                             (ONE, FL.ind_eq_diff(v), FL.ind_eq_diff(v - (gauss.n[ax] - ONE)))]
                ok = any(cq == want * z for z in cands)
            if not ok:
                mx.bad('triplet', where_of(g[q][0]), 'the %s of coefficient (%s,%s) is written under %s '
                       'but its value under %s' % ({'r': 'row', 'c': 'column'}[q], FIELDS[al], FIELDS[be],
                                                   show(cq), show(gtail)), 'guard')
                return
    val = canon(total)
    ent = mx.entries.get((al, be))
    if ent is None:
        ent = mx.entries[(al, be)] = Entry()
    ent.value = ent.value + val
    ent.where = where_of(ve)
    ent.sym = sym_
    ent.loops = loops
    slots.append(dict(index=k, loops=loops, roles=roles, event=ve, sym=sym_, gauss=gauss,
                      rowcol=(rv, cv)))
    mx.row, mx.col = r, c
    mx.gauss = gauss


KNOWN = {'S', 'q', 'F', 'hrho', 'gw', 'sym', 'attr', 'Sbad', 'qbad', 'idx', 'inv'}


def unknown_atoms(p):
    out = []
    for a in p.atoms():
        at = atom_of(a)
        b = at[1].single_atom() if at[0] == 'idx' and isinstance(at[1], Poly) else None
        if at[0] not in KNOWN or b is not None and b[0] == 'buf':
            out.append(at)
    return out


def settle(val, exp, unk, fl=None):
    """values with parts that have no meaning for the analysis and are wrong all the same -> text or None"""
    names = {intern_atom(x): x for x in unk}
    # a term with an uninitialised local and nothing else that is not understood
    for mono in val.t:
        odd = [names[i] for i, _ in mono if i in names]
        if odd and all(x[0] == 'undef' for x in odd) and not any(atom_of(i)[0] in ('ind', 'phi', 'loopout') for i, _ in mono):
            return 'reads the local %s before it is given a value' % odd[0][1]
    # a sum over the amplitudes that goes on from one turn of an outer loop to the next
    for x in unk:
        if x[0] == 'phi' and fl is not None and x[2] in fl.loop_end:
            for f_, v0, ve in fl.loop_end[x[2]][1].values():
                if f_.single_atom() != x or ve is None:
                    continue
                inc = ve - f_
                if inc != ZERO and not poly_mentions(inc, lambda z: z[0] in ('phi', 'loopout', 'undef', 'brk')) and \
                        poly_mentions(inc, lambda z: z[0] == 'idx' and isinstance(z[1], Poly) and
                                      z[1].single_atom() is not None and z[1].single_atom()[0] == 'sym'):
                    return 'contains %s, a sum over the amplitudes that is not started anew for each turn of the loop ' \
                        'at line %s' % (x[1], fl.loop_end[x[2]][0].line)
    # the only such part is whether a given number is negative: both outcomes occur
    if len(names) == 1:
        (i, a), = names.items()
        if a[0] == 'ind' and a[1] == 'lt' and isinstance(a[2], Poly):
            fr_ = [m for m in a[2].t if m]
            x = atom_of(fr_[0][0][0]) if len(fr_) == 1 and len(fr_[0]) == 1 and fr_[0][0][1] == 1 else None
            if x is not None and x[0] == 'idx' and isinstance(x[1], Poly) and x[1].single_atom() is not None and \
                    x[1].single_atom()[0] in ('sym', 'attr'):
                for on in (0, 1):
                    v = ZERO
                    for mono, c in val.t.items():
                        if any(j == i for j, _ in mono):
                            if on:
                                v = v + Poly({tuple(y for y in mono if y[0] != i): c})
                        else:
                            v = v + Poly({mono: c})
                    if close(v, exp) is not None:
                        return 'differs from the required one when %s is %s' % (
                            show_atom_short(x), 'below a bound' if on else 'not below a bound')
    return None


def compare(mx, spec, what='coefficient', alts=()):
    """compare decoded entries with expected ones; returns number of obligations

    alts: (name, spec) of deviations that have a finding of their own: an entry that equals one of
    them exactly is reported under that name, so that recording it hides no other deviation"""
    n = 0
    keys = sorted(set(spec) | set(mx.entries))
    for k in keys:
        n += 1
        exp = spec.get(k, ZERO)
        ent = mx.entries.get(k)
        nm = FIELDS[k[0]] + (FIELDS[k[1]] if len(k) > 1 else '')
        if ent is None:
            if exp == ZERO:
                continue
            if mx.undecided:
                mx.und('%s (%s) not found among the decoded ones' % (what, nm))
                continue
            if any(p.rule in ('triplet', 'amplitude-index') for p in mx.problems):
                continue
            mx.bad('missing', mx.rel, 'no %s couples %s' % (what, ' and '.join(nm)), nm)
            continue
        df = close(ent.value, exp)
        if df is None:
            continue
        allowed = set(unknown_atoms(exp))
        unk = [x for x in unknown_atoms(ent.value) if x not in allowed]
        if unk:
            txt = settle(ent.value, exp, unk, getattr(mx, 'flow', None))
            if txt:
                mx.bad('coefficient', ent.where, '%s (%s) %s' % (what, nm, txt), nm + ':part')
                continue
            mx.und('%s (%s) contains %s' % (what, nm, show_atom_short(unk[0])))
            continue
        m, cg, ce = df
        nm += ''.join(':' + n for n, sp in alts if close(ent.value, sp.get(k, ZERO)) is None)
        mx.bad('coefficient', ent.where, '%s (%s) differs from the required one: term %s has factor '
               '%s, expected %s' % (what, nm, show_mono(m), fr(cg), fr(ce)), nm)
    return n


def fr(c):
    return str(c) if c.denominator < 100000 else '%.12g' % float(c)


def show_atom_short(a):
    from .poly import show_atom
    return show_atom(a)[:120]


def canonical_args(f, names):
    """bind kernel parameters to canonical symbols: by name when all canonical names are
    there, by position otherwise (the callers pass them positionally)"""
    have = f.param_names()
    if set(names) <= set(have):
        return {}
    if len(have) >= len(names):
        return {have[i]: sym(nm) for i, nm in enumerate(names)}
    return {}


def decode_vector(rel, fn, assume=None, key=None, owner=None, nx=None, ny=None, lims=None,
                  offset='col0', names=()):
    """kernel returning a 1-D array filled by += stores"""
    f, fl, st, ret = run(rel, fn, assume, key, names=names)
    mx = Matrix(rel, fn)
    mx.func, mx.flow = f, fl
    params = set(f.param_names())
    evs = [e for e in fl.events if e.kind == 'store' and e.base == ret]
    if not evs:
        mx.und('no stores into the returned vector recognised')
        return mx
    slots = []
    for e in evs:
        mx.stores += 1
        w = where_of(e)
        d = decode_index(e.index[0])
        if d is None:
            mx.und('index %s not decoded' % show(e.index[0]))
            continue
        r = side_info_vec(mx, d, e, offset, owner)
        if r is None:
            continue
        al = d['alpha']
        roles = {d['x']: ('A', 'x'), d['y']: ('A', 'y')}
        gl = [l for l in e.loops if l.lv().single_atom() not in roles]
        gauss = None
        if nx is not None:
            gauss = Gauss(gl, nx, ny, lims)
            if set(gauss.var) != {'x', 'y'} or len(gl) != 2:
                mx.und('Gauss point loops not recognised')
                continue
        elif gl:
            mx.und('extra loops')
            continue
        if e.op != '+=' and gauss is not None:
            mx.bad('accumulate', w, 'entry %s is overwritten at every integration point' % FIELDS[al],
                   FIELDS[al])
            continue
        c = e.cond()
        if c != ONE:
            if eq_only(c, None) is not None and FL.deps(c):
                mx.bad('guard', w, 'entry %s only added when %s' % (FIELDS[al], show(c)), FIELDS[al])
            else:
                mx.und('entry %s conditional on %s' % (FIELDS[al], show(c)))
            continue
        canon = Canon(roles, gauss, ubase=sym('col0') if 'col0' in params else None)
        v = canon(e.value)
        ent = mx.entries.setdefault((al,), Entry())
        ent.value = ent.value + v
        ent.where = w
        ent.loops = e.loops
        slots.append(al)
        mx.gauss = gauss
    mx.slots = len(slots)
    return mx


def side_info_vec(mx, d, e, offset, owner):
    w = where_of(e)
    st = d['stride'].single_atom()
    if st is None or st[0] not in ('attr', 'sym'):
        mx.und('index stride %s not decoded' % show(d['stride']))
        return None
    own = owner_of(st[1]) if st[0] == 'attr' else ''
    nm = st[2] if st[0] == 'attr' else st[1]
    M = d['stride']
    N = A(('attr', st[1], 'n')) if st[0] == 'attr' else sym('n')
    tx, ty = trip_of(d['x'], e.loops), trip_of(d['y'], e.loops)
    bad = None
    if nm != 'm':
        bad = 'stride is %s, not the number of x terms' % show(M)
    elif d['xc'] != 3 or d['yc'] != 3:
        bad = 'not 3 amplitudes per term'
    elif tx != M or ty != N:
        bad = 'x index runs over %s, y index over %s' % (show(tx) if tx is not None else '?',
                                                         show(ty) if ty is not None else '?')
    elif offset is not None and d['base'] != sym(offset):
        bad = 'offset is %s' % show(d['base'])
    elif not 0 <= d['alpha'] <= 2:
        bad = 'component %d' % d['alpha']
    elif owner is not None and own != owner:
        bad = 'belongs to %s' % own
    if bad:
        mx.bad('amplitude-index', w, 'index %s: %s' % (show(e.index[0]), bad), 'index')
        return None
    return d
