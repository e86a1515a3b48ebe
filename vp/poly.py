"""Canonical normal form used by the value-flow analysis.

A value is a Laurent polynomial with exact rational coefficients over interned
*atoms*.  Two source expressions that are equal by the rules of commutative
algebra get the same normal form, so temporaries, helper functions,
re-association and statement order do not matter.

Indicator atoms ('ind', ...) are idempotent (0/1 valued): joins of two control
flow branches are written  vf + ind*(vt - vf).
"""
from fractions import Fraction

_ATOMS = []          # id -> atom tuple
_IDS = {}            # atom tuple -> id
_IND = set()         # ids of idempotent atoms


def intern_atom(a):
    i = _IDS.get(a)
    if i is None:
        i = len(_ATOMS)
        _ATOMS.append(a)
        _IDS[a] = i
        if a and a[0] == 'ind':
            _IND.add(i)
    return i


def atom_of(i):
    return _ATOMS[i]


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        if a in d:
            if a in _IND:
                continue
            n = d[a] + e
            if n == 0:
                del d[a]
            else:
                d[a] = n
        else:
            d[a] = e
    return tuple(sorted(d.items()))


class TooBig(Exception):
    pass


class Poly:
    __slots__ = ('t', '_h')
    LIMIT = 400000

    def __init__(self, t):
        self.t = t
        self._h = None

    # -- constructors
    @staticmethod
    def const(c):
        if isinstance(c, float):
            c = Fraction(repr(c))
        else:
            c = Fraction(c)
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(a):
        return Poly({((intern_atom(a), 1),): Fraction(1)})

    # -- queries
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def as_int(self):
        c = self.cval()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return _ATOMS[m[0][0]]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    # -- arithmetic
    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not self.t or not o.t:
            return ZERO
        if len(self.t) * len(o.t) > self.LIMIT:
            raise TooBig('product of %d x %d terms' % (len(self.t), len(o.t)))
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                n = t.get(m, 0) + c1 * c2
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
        return Poly(t)

    def scale(self, c):
        return Poly({m: v * c for m, v in self.t.items()}) if c else ZERO

    def inv(self):
        if not self.t:
            return Poly.atom(('divzero',))
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if any(a in _IND for a, _ in m):
                return Poly.atom(('inv', self))
            return Poly({tuple((a, -e) for a, e in m): 1 / c})
        # normalise leading coefficient so that 1/(2x+2y) == 1/2 * 1/(x+y)
        lead = self.t[min(self.t)]
        p = Poly({m: c / lead for m, c in self.t.items()})
        a = Poly.atom(('inv', p))
        return a.scale(1 / lead)

    def __truediv__(self, o):
        return self * o.inv()

    def pow(self, n):
        if n < 0:
            return self.inv().pow(-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    # -- rewriting
    def map_atoms(self, fn, memo=None):
        """fn(atom id) -> Poly or None (keep)."""
        out = ZERO
        cache = {} if memo is None else memo
        for m, c in self.t.items():
            keep = []
            term = None
            for a, e in m:
                if a not in cache:
                    cache[a] = fn(a)
                r = cache[a]
                if r is None:
                    keep.append((a, e))
                else:
                    q = r.pow(e)
                    term = q if term is None else term * q
            base = Poly({tuple(keep): c})
            out = out + (base if term is None else base * term)
        return out

    def __repr__(self):
        return show(self)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def show_atom(a, depth=0):
    if not isinstance(a, tuple):
        if isinstance(a, Poly):
            return show(a, depth + 1)
        return str(a)
    if depth > 6:
        return '...'
    k = a[0] if a else None
    if k == 'sym':
        return str(a[1])
    if k == 'attr':
        return '%s.%s' % (show_atom(a[1], depth + 1), a[2])
    if k == 'idx':
        return '%s[%s]' % (show_atom(a[1], depth + 1),
                           ','.join(show_atom(x, depth + 1) for x in a[2]))
    if k == 'call':
        s = ','.join(show_atom(x, depth + 1) for x in a[2])
        if len(a) > 3 and a[3]:
            s += ''.join(',%s=%s' % (n, show_atom(v, depth + 1)) for n, v in a[3])
        return '%s(%s)' % (show_atom(a[1], depth + 1), s)
    if k == 'lv':
        return str(a[1]).split('@')[0]
    if k == 'bv':
        return 'i<%s>' % show_atom(a[1], depth + 1)
    if k == 'str':
        return repr(a[1])
    if k == 'ind':
        return '[%s]' % ' '.join(show_atom(x, depth + 1) for x in a[1:])
    return '%s(%s)' % (k, ','.join(show_atom(x, depth + 1) for x in a[1:]))


def show(p, depth=0, limit=12):
    if not isinstance(p, Poly):
        return show_atom(p, depth)
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda kv: (len(kv[0]), str(kv[0])))[:limit]:
        f = []
        if c != 1 or not m:
            f.append(str(c) if c.denominator < 10000 else '%.12g' % float(c))
        for a, e in m:
            s = show_atom(_ATOMS[a], depth + 1)
            f.append(s if e == 1 else '%s^%d' % (s, e))
        out.append('*'.join(f))
    if len(p.t) > limit:
        out.append('...(%d terms)' % len(p.t))
    return ' + '.join(out)


def close(p, q, rtol=Fraction(1, 10**9)):
    """None when p and q agree coefficient by coefficient (floating literals in
    the source are compared with relative tolerance), else the first
    differing (monomial, cp, cq)."""
    for m in set(p.t) | set(q.t):
        cp = p.t.get(m, Fraction(0))
        cq = q.t.get(m, Fraction(0))
        if cp == cq:
            continue
        if abs(cp - cq) <= rtol * max(abs(cp), abs(cq)):
            continue
        return m, cp, cq
    return None


def show_mono(m):
    return '*'.join((show_atom(_ATOMS[a]) + ('' if e == 1 else '^%d' % e))
                    for a, e in m) or '1'
