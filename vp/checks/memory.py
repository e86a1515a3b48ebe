"""C19: memory safety of the native kernels.

Every ``def`` function of the compiled modules is analysed with its C helpers
inlined.  Each array access (load, store, pointer handed to a C routine) is an
obligation: the interval of the index, obtained by eliminating loop variables
and loop-carried counters from the normal form, lies inside the array.
"""
import itertools
from fractions import Fraction
from .. import kernels as K
from .. import flow as FL
from .. import proj
from ..kernels import sym, attr, A
from ..poly import Poly, ONE, ZERO, show, atom_of, intern_atom
from ..report import Check
from ..frontend import AnalysisBroken

GLOBS = ('panels/models/', 'panels/multidomain/connections/', 'panels/stiffener/models/',
         'panels/bardell.pyx', 'panels/legendre_gauss_quadrature.pyx')
C = Poly.const


def pow_mono(m):
    return Poly({m: Fraction(1)})


class Bounds:
    """interval arithmetic on normal forms in the context of one event"""

    def __init__(self, fl, loops, facts=()):
        self.fl = fl
        self.loops = list(loops)
        self.facts = list(facts)
        self.depth = 0
        self.alias = None

    # ---- elimination
    def pick(self, p):
        best = None
        for i in p.atoms():
            a = atom_of(i)
            r = None
            if a[0] == 'phi':
                r = (0, -self.pos(a[2]))
            elif a[0] == 'loopout':
                r = (1, 0)
            elif a[0] == 'sum':
                r = (2, 0)
            elif a[0] == 'ind':
                r = (6, 0)
            elif a[0] == 'lv':
                r = (4, -self.pos(a[2]))
            elif a[0] == 'bv':
                r = (5, 0)
            if r is not None and (best is None or r < best[0]):
                best = (r, i, a)
        return best

    def pos(self, lid):
        for k, l in enumerate(self.loops):
            if l.id == lid:
                return k
        return 99

    def loop(self, lid):
        for l in self.loops:
            if l.id == lid:
                return l
        e = self.fl.loop_end.get(lid)
        if e:
            return e[0]
        for l in self.fl.loops:
            if l.id == lid:
                return l
        return None

    def sign(self, q):
        """+1 / -1 when q has that sign for all non-negative values of its atoms"""
        if not q.t:
            return 1
        lo = self.lo(q)
        if lo is not None and self.nonneg(lo):
            return 1
        hi = self.hi(q)
        if hi is not None and self.nonneg(-hi):
            return -1
        return None

    def bound(self, p, up):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            return None
        try:
            while True:
                b = self.pick(p)
                if b is None:
                    return p
                _, i, a = b
                p0, q = {}, {}
                for m, c in p.t.items():
                    e = dict(m).get(i)
                    if e is None:
                        p0[m] = c
                    elif e == 1:
                        q[tuple(x for x in m if x[0] != i)] = c
                    else:
                        return None
                p0, q = Poly(p0), Poly(q)
                s = self.sign(q)
                if s is None:
                    return None
                v = self.atom_bound(a, up if s > 0 else not up)
                if v is None:
                    return None
                p = p0 + q * v
        finally:
            self.depth -= 1

    def hi(self, p):
        return self.bound(p, True)

    def lo(self, p):
        return self.bound(p, False)

    def atom_bound(self, a, up):
        k = a[0]
        if k == 'ind':
            return ONE if up else ZERO
        if k == 'lv':
            l = self.loop(a[2])
            if l is None or l.trip is None:
                return None
            if not up:
                return ZERO
            t = ungate(l.trip)
            return (self.alias(t) if self.alias else t) - ONE
        if k == 'bv':
            return a[1] - ONE if up and isinstance(a[1], Poly) else (None if up else ZERO)
        if k == 'sum':
            n = ONE
            for t, _ in a[1]:
                if not isinstance(t, Poly):
                    return None
                n = n * t
            v = self.bound(a[2], up)
            if v is None:
                return None
            if up:
                return n * v if self.nonneg(v) else (ZERO if self.nonneg(-v) else None)
            return ZERO if self.nonneg(v) else (n * v if self.nonneg(-v) else None)
        if k in ('phi', 'loopout'):
            if k == 'loopout':
                # value of a location after a loop: not a counter summary
                return None
            ent = self.fl.loop_end.get(a[2])
            if not ent:
                return None
            l, d = ent
            for phi, v0, vend in d.values():
                if phi.single_atom() == a:
                    break
            else:
                return None
            b0 = self.bound(v0, up)
            if b0 is None or l.trip is None:
                return None
            dl = vend - phi
            if intern_atom(a) in dl.atoms():
                return None
            db = self.bound(dl, up)
            if db is None:
                return None
            if up:
                if self.nonneg(-db):
                    return b0
                return b0 + (l.trip - ONE) * db if self.nonneg(db) else None
            if self.nonneg(db):
                return b0
            return b0 + (l.trip - ONE) * db if self.nonneg(-db) else None
        return None

    # ---- proof of p >= 0
    def nonneg(self, p):
        if all(c >= 0 for c in p.t.values()):
            return True
        q = self.shift(p)
        if all(c >= 0 for c in q.t.values()):
            return True
        for f in self.facts:
            for mult in (ONE,):
                if all(c >= 0 for c in self.shift(p - f * mult).t.values()):
                    return True
        for f, g in itertools.combinations(self.facts, 2):
            if all(c >= 0 for c in self.shift(p - f - g).t.values()):
                return True
        return False

    def shift(self, p):
        """trip counts of the enclosing loops are at least one"""
        ids = {}
        for l in self.loops:
            if l.trip is not None:
                t = l.trip.single_atom()
                if t is not None:
                    ids[intern_atom(t)] = True
        for t in POSITIVE:
            ids[t] = True

        def fn(i):
            if i in ids:
                return A(atom_of(i)) + ONE
            return None
        for m in p.t:
            for i, e in m:
                if e < 0:
                    return p
        return p.map_atoms(fn, {})


POSITIVE = set()


def facts_of(guard):
    """inequalities p >= 0 implied by the path condition"""
    out = []
    for g, _ in guard:
        for i in sorted(g.atoms()):
            a = atom_of(i)
            if a[0] != 'ind' or a[1] not in ('lt', 'eq'):
                continue
            one = g.map_atoms(lambda j: ONE if j == i else None, {})
            zero = g.map_atoms(lambda j: ZERO if j == i else None, {})
            if one == ZERO and zero != ZERO:        # the indicator is false here
                if a[1] == 'lt':
                    out.append(a[2])
            elif zero == ZERO and one != ZERO:
                if a[1] == 'lt':
                    out.append(-a[2] - ONE)
                else:
                    out += [a[2], -a[2]]
    return out


# ------------------------------------------------------------------ shapes
SIZEOF = {'sizeof'}


def c_sizes(p):
    """allocation size in doubles: n*sizeof(double) or n*sizeof(double *)"""
    out = {}
    for m, c in p.t.items():
        rest, sz = [], None
        for i, e in m:
            a = atom_of(i)
            t = repr(a)
            if 'sizeof' in t and e == 1 and sz is None:
                sz = t
            else:
                rest.append((i, e))
        if sz is None or 'double' not in sz:
            return None
        out[tuple(rest)] = out.get(tuple(rest), 0) + c
    return Poly(out)


def dims(info):
    s = info['shape']
    if info['kind'] == 'carray':
        n = ONE
        for x in s:
            n = n * (x if isinstance(x, Poly) else C(x))
        return [x if isinstance(x, Poly) else C(x) for x in s]
    if info['kind'] == 'malloc':
        n = c_sizes(s)
        return None if n is None else [n]
    a = s.single_atom()
    if a is not None and a[0] == 'tuple':
        return list(a[1])
    return [s]


def buf_no(p):
    a = p.single_atom()
    if a is not None and a[0] == 'buf':
        return a[1]
    return None


def strip_ptr(p):
    """pointer or array -> (base, index offset)"""
    a = p.single_atom()
    if a is not None and a[0] == 'ptr':
        return a[1], a[2]
    return p, None


def relf(e):
    return '%s:%s' % (proj.relpath(e.func.module.path) if e.func else '?', e.line)


# ------------------------------------------------------------------ concrete witness
class NoValue(Exception):
    pass


class Concrete:
    """evaluates extracted index recurrences for given small sizes"""

    def __init__(self, fl, env):
        self.fl = fl
        self.env = env            # atom id -> int
        self.bv = {}

    def val(self, p):
        s = Fraction(0)
        for m, c in p.t.items():
            v = c
            for i, e in m:
                x = self.atom(i)
                if e < 0 and x == 0:
                    raise NoValue
                v = v * Fraction(x) ** e
            s += v
        return s

    def atom(self, i):
        if i in self.env:
            return self.env[i]
        a = atom_of(i)
        if a[0] == 'ind' and a[1] == 'lt':
            return 1 if self.val(a[2]) < 0 else 0
        if a[0] == 'ind' and a[1] == 'eq':
            return 1 if self.val(a[2]) == 0 else 0
        if a[0] == 'sum':
            trips = [int(self.val(t)) for t, _ in a[1]]
            keys = [intern_atom(('bv', t, l)) for t, l in a[1]]
            s = Fraction(0)
            for vs in itertools.product(*[range(t) for t in trips]):
                old = {k: self.env.get(k) for k in keys}
                self.env.update(dict(zip(keys, vs)))
                s += self.val(a[2])
                for k, v in old.items():
                    if v is None:
                        self.env.pop(k, None)
                    else:
                        self.env[k] = v
            return s
        raise NoValue(show(Poly.atom(a)))

    def walk(self, loops, visit, guards):
        if not loops:
            for g in guards:
                if self.val(g) == 0:
                    return
            visit(self)
            return
        l = loops[0]
        ent = self.fl.loop_end.get(l.id)
        phis = []
        if ent:
            for phi, v0, vend in ent[1].values():
                a = phi.single_atom()
                if a is None or a[0] != 'phi':
                    continue
                try:
                    self.env[intern_atom(a)] = self.val(v0)
                    phis.append((intern_atom(a), vend))
                except NoValue:
                    self.env.pop(intern_atom(a), None)
        lv = intern_atom(l.lv().single_atom())
        n = int(self.val(l.trip))
        for x in range(n):
            self.env[lv] = x
            self.walk(loops[1:], visit, guards)
            new = {}
            for k, vend in phis:
                try:
                    new[k] = self.val(vend)
                except NoValue:
                    pass
            for k, _ in phis:
                if k in new:
                    self.env[k] = new[k]
                else:
                    self.env.pop(k, None)


def free_atoms(polys):
    """parameters a set of normal forms depends on"""
    out = set()
    seen = set()

    def poly(p):
        for m in p.t:
            for i, _ in m:
                one(i)

    def one(i):
        if i in seen:
            return
        seen.add(i)
        a = atom_of(i)
        if a[0] in ('sym', 'attr') or a[0] == 'idx' or a[0] == 'call':
            out.add(i)
            return
        if a[0] == 'ind':
            if a[1] in ('lt', 'eq'):
                poly(a[2])
            else:
                out.add(i)
            return
        if a[0] == 'sum':
            for t, _ in a[1]:
                if isinstance(t, Poly):
                    poly(t)
            poly(a[2])
            return
        if a[0] in ('lv', 'phi', 'bv'):
            return
        out.add(i)
    for p in polys:
        poly(p)
    return out


def witness(fl, e, idx, dim, facts):
    """sizes for which the index leaves [0, dim) on a path that reaches the access, or None"""
    guards = [g for g, k in e.guard if all(atom_of(i)[0] == 'ind' and atom_of(i)[1] in ('lt', 'eq')
                                           for i in g.atoms())]
    rel = set()
    for p in [idx, dim] + guards:
        for i in closure_atoms(p, fl):
            a = atom_of(i)
            if a[0] in ('lv', 'phi'):
                rel.add(a[2])
            elif a[0] == 'ind' and a[1] in ('lt', 'eq'):
                rel |= {atom_of(j)[2] for j in closure_atoms(a[2], fl) if atom_of(j)[0] in ('lv', 'phi')}
    loops = [l for l in e.loops if l.id in rel]
    need = [idx, dim]
    for l in loops:
        if l.trip is None:
            return None
        need.append(l.trip)
        ent = fl.loop_end.get(l.id)
        if ent:
            for phi, v0, vend in ent[1].values():
                if intern_atom(phi.single_atom()) in closure_atoms(idx, fl):
                    need += [v0, vend]
    params = sorted(free_atoms(need + guards + facts))
    scal = []
    env0 = {}
    for i in params:
        a = atom_of(i)
        nm = a[1] if a[0] == 'sym' else (a[2] if a[0] == 'attr' else None)
        if nm in ('row0', 'col0'):
            env0[i] = 0
        elif nm == 'size':
            env0[i] = 10 ** 6
        elif nm in SIZES or (a[0] == 'sym'):
            scal.append(i)
        else:
            return None
    if len(scal) > 8:
        return None
    choices = [(1, 2, 3)] * len(scal)
    if len(scal) > 4:
        choices = [(1, 2)] * len(scal)
    big = [c.cval() for p in [dim] for c in [p] if p.cval() is not None]
    if big and big[0] < 100:
        choices = [tuple(c) + (int(big[0]), int(big[0]) + 1) for c in choices]
    if len(loops) > 4 and len(choices[0]) > 3:
        return None
    for vs in itertools.product(*choices):
        env = dict(env0)
        env.update(dict(zip(scal, vs)))
        c = Concrete(fl, env)
        try:
            if any(c.val(f) < 0 for f in facts):
                continue
        except NoValue:
            return None
        hit = []

        def visit(cc):
            if hit:
                return
            i, d = cc.val(idx), cc.val(dim)
            if i < 0 or i >= d:
                hit.append((int(i), int(d)))
        try:
            c.walk(loops, visit, guards)
        except NoValue:
            return None
        if hit:
            return ', '.join('%s=%d' % (show(Poly.atom(atom_of(k))), v) for k, v in zip(scal, vs)), hit[0]
    return None


SIZES = {'m', 'n', 'm1', 'n1', 'm2', 'n2', 'nx', 'ny', 'mf', 'nf', 'm_skin', 'n_skin'}


def closure_atoms(p, fl, seen=None):
    """atoms of p and of the counters it depends on"""
    seen = set() if seen is None else seen
    for i in p.atoms():
        if i in seen:
            continue
        seen.add(i)
        a = atom_of(i)
        if a[0] == 'phi':
            ent = fl.loop_end.get(a[2])
            if ent:
                for phi, v0, vend in ent[1].values():
                    if phi.single_atom() == a:
                        closure_atoms(v0, fl, seen)
                        closure_atoms(vend, fl, seen)
        elif a[0] == 'sum':
            closure_atoms(a[2], fl, seen)
    return seen


# ------------------------------------------------------------------ check
def units():
    out = []
    for p in proj.sources(('.pyx',)):
        rel = proj.relpath(p)
        if any(rel.startswith(g) for g in GLOBS):
            m = proj.FE.load(p)
            for nm, f in sorted(m.funcs.items()):
                if getattr(f, 'kind', 'def') in ('def', 'cpdef'):
                    out.append((rel, nm))
    return out



def is_array(ty):
    return ty is not None and ('[' in ty or '*' in ty)


def run_all(rel, fn):
    f = proj.func(rel, fn)
    fl = FL.Flow(proj.RESOLVE, externs=dict(K.EXTERNS))
    st, ret = fl.run(f, K.canonical_args(f, ()))
    return f, fl


def written_by_vec():
    """number of doubles each vector evaluator stores through its first argument"""
    from . import tables as T
    from .. import cfront as CF
    out = {nm: T.NUM for nm, _ in T.VEC}
    try:
        prog = T.program(T.SRC + 'bardell_functions.cpp')
        for nm, _ in T.VEC:
            a = CF.Arr('out')
            CF.Eval(prog).run(nm, [CF.Ptr(a)] + [CF.S('xi')] + [CF.S(x) for x in T.FLAGS])
            out[nm] = max(a.data) + 1
    except (FL.Give, CF.CError) as e:
        Check.last.und('stores of the vector evaluators, taken as %d: %s' % (T.NUM, e))
    return out


class Unit:
    """obligations of one native function; results are plain data (computed in a worker)"""

    def __init__(self, rel, fn, vec):
        self.rel, self.fn, self.vec = rel, fn, vec
        self.okn = 0
        self.bads, self.unds, self.counts, self.extents = [], [], {}, {}
        self.samples = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def bad(self, rule, line, inst, msg):
        self.bads.append((rule, line, '%s:%s' % (self.fn, inst), '%s: %s' % (self.fn, msg)))

    def und(self, msg):
        self.unds.append('%s %s: %s' % (self.rel, self.fn, msg))

    def name(self, fl, base):
        n = buf_no(base)
        if n is not None:
            i = fl.bufs[n]
            return 'array of line %d' % i['line']
        return show(base)[:30]

    def run(self):
        self.f, self.fl = f, fl = run_all(self.rel, self.fn)
        self.count('native functions')
        self.params = {nm: ty for nm, ty, _ in f.params}
        owners = set()
        for e in fl.events:
            if e.kind in ('store', 'load') and e.base is not None and e.index:
                self.access(e)
            elif e.kind == 'call':
                self.call(e)
        self.slots()
        self.lifetime()
        self.parallel()
        return self

    # ---- one access
    def access(self, e):
        fl = self.fl
        base, idx = e.base, tuple(e.index)
        if not all(isinstance(i, Poly) for i in idx):
            return
        a = base.single_atom()
        if a is not None and a[0] == 'ptr':
            off = a[2]
            base = a[1]
            if len(idx) != 1 or not off:
                self.und('pointer access at line %s' % e.line)
                return
            idx = tuple(off[:-1]) + (off[-1] + idx[0],)
            a = base.single_atom()
        facts = facts_of(e.guard)
        b = Bounds(fl, e.loops, facts)
        dd = None
        n = buf_no(base)
        if n is not None:
            dd = dims(fl.bufs[n])
            if dd is None or len(dd) != len(idx):
                self.und('%s of line %s used with %d indices' % (fl.bufs[n]['kind'], fl.bufs[n]['line'], len(idx)))
                return
        elif a is not None and a[0] == 'attr' and a[2] == 'shape':
            return
        elif a is not None and a[0] == 'attr' and a[2] == 'ABD':
            dd = [C(6), C(6)]
        elif a is not None and a[0] == 'sym' and is_array(self.params.get(a[1])):
            dd = self.param(e, a[1], idx, b)
        elif a is None or a[0] in ('call', 'sym', 'idx'):
            dd = self.derived(e, base, idx)
        if dd is None:
            return
        if len(dd) != len(idx):
            self.und('array used with %d indices at line %s' % (len(idx), e.line))
            return
        self.count('array accesses')
        for k, (i, d) in enumerate(zip(idx, dd)):
            if d is None:
                continue
            self.inside(e, b, facts, base, k, i, d)

    def inside(self, e, b, facts, base, k, i, d):
        a = i.single_atom()
        if a is not None and a[0] in ('slice', 'none'):
            return
        lo, hi = b.lo(i), b.hi(i)
        okl = lo is not None and b.nonneg(lo)
        okh = self.room(b, d, i)
        if okl and okh:
            self.okn += 1
            if len(self.samples) < 2 and b.loops:
                self.samples.append('%s:%s index %s in [%s, %s], extent %s' % (
                    self.rel, e.line, show(i)[:60], show(lo)[:40], show(hi)[:60], show(d)[:60]))
            return
        what = '%s, dimension %d' % (self.name(self.fl, base), k)
        w = witness(self.fl, e, i, d, facts)
        if w:
            self.bad('bounds', e.line, self.short(base, k),
                     'index %s of %s reaches %d while the extent %s is %d (%s)' % (
                         show(i)[:60], what, w[1][0], show(d)[:40], w[1][1], w[0]))
        else:
            self.und('line %s: index %s of %s is not shown to stay below %s' % (
                e.line, show(i)[:60], what, show(d)[:50]))

    def room(self, b, d, i):
        d, i = ungate(d), ungate(i)
        for dd, ii in ((d, i), (self.contract(d), self.contract(i))):
            r = b.lo(dd - ONE - ii)
            if r is not None and b.nonneg(r):
                return True
        # coordinate arrays of one call have the same length
        sy = [nm for nm, ty in self.params.items() if is_array(ty)]
        polys = [d, i] + [l.trip for l in b.loops if l.trip is not None]
        used = [nm for nm in sy if any(K.atom_mentions(atom_of(j), lambda y: y == ('sym', nm))
                                       for p in polys for j in p.atoms())]
        if len(used) > 1:
            def same(a):
                if a[0] == 'sym' and a[1] in used:
                    return sym(used[0])
                if a[0] == 'buf':
                    x = self.fl.bufs[a[1]]
                    for n in range(1, a[1]):
                        y = self.fl.bufs.get(n)
                        if y and all(x.get(q) == y.get(q) for q in ('kind', 'init', 'shape')):
                            return A(('buf', n) + a[2:])
                return None
            b.alias = lambda p: FL.rebuild(p, same)
            try:
                r = b.lo(b.alias(d - ONE - i))
                return r is not None and b.nonneg(r)
            finally:
                b.alias = None
        return False

    def short(self, base, k):
        n = buf_no(base)
        if n is not None:
            i = self.fl.bufs[n]
            return '%s-%s:dim%d' % (i['kind'], show(i['shape'])[:30] if isinstance(i['shape'], Poly)
                                    else 'x'.join(str(x) for x in i['shape']), k)
        return '%s:dim%d' % (show(base)[:20], k)

    def contract(self, p):
        """documented precondition: size >= col0 + 3*m*n (row0 likewise)"""
        n = [s for s in ('size',) if intern_atom(('sym', s)) in p.atoms()]
        if not n:
            return p
        o = self.owner()
        if o is None:
            return p
        v = o
        if 'col0' in self.params:
            v = v + sym('col0')
        return p.map_atoms(lambda i: v if i == intern_atom(('sym', 'size')) else None, {})

    def owner(self):
        """3*m*n of the (single) panel object of this function"""
        objs = set()
        for l in self.loops():
            if l.trip is None:
                continue
            a = l.trip.single_atom()
            if a is not None and a[0] == 'attr' and a[2] in ('m', 'n'):
                objs.add(a[1])
        if len(objs) != 1:
            return None
        o = next(iter(objs))
        return C(3) * attr(o, 'm') * attr(o, 'n')

    def param(self, e, name, idx, b):
        """extent a parameter array is documented to have"""
        ty = self.params[name]
        ext = []
        for i in idx:
            h = b.hi(i)
            ext.append(h)
        self.extents.setdefault(name, []).append((tuple(ext), e.line))
        own = self.owner()
        if len(idx) == 1 and own is not None and ty.startswith('double') and \
                all(h is not None for h in ext) and self.mentions(ext[0], own):
            # vector of Ritz constants
            v = own
            if 'col0' in self.params:
                v = v + sym('col0')
            return [v]
        if len(idx) == 2 and own is not None:
            return [None, own]
        return [None] * len(idx) if len(idx) > 1 else [A(('idx', attr(sym(name), 'shape'), (ZERO,)))]

    def loops(self):
        if not hasattr(self, '_loops'):
            d = {}
            for e in self.fl.events:
                for l in e.loops:
                    d[l.id] = l
            self._loops = list(d.values())
        return self._loops

    def mentions(self, p, own):
        return bool(p.atoms() & own.atoms())

    def derived(self, e, base, idx):
        """arrays that are selected by a shape test, and reshaped arguments"""
        a = base.single_atom()
        if a is not None and a[0] == 'sym':
            if self.params.get(a[1]) in (None, 'object') and len(idx) == 2:
                return [C(6), C(6)] if self.tabular(base) else None
            return None
        gg = ONE
        for g, _ in e.guard:
            gg = gg * g
        for i in base.atoms():
            if atom_of(i)[0] == 'ind':
                continue
            cand = A(atom_of(i))
            cond, ok = {}, True
            for m, c in base.t.items():
                d = dict(m)
                if i in d:
                    if d[i] != 1:
                        ok = False
                    cond[tuple(x for x in m if x[0] != i)] = c
            if not ok:
                continue
            cond = Poly(cond)
            if gg * cond != gg:
                continue
            for j in cond.atoms() | gg.atoms():
                z = atom_of(j)
                if z[0] == 'ind' and z[1] == 'eqv':
                    for x, y in ((z[2], z[3]), (z[3], z[2])):
                        t = y.single_atom()
                        if x == attr(cand, 'shape') and t is not None and t[0] == 'tuple':
                            return list(t[1])
        if len(idx) == 2:
            # two-dimensional block of rows handed to the workers: (row of the loop, position below shape[1])
            sh = A(('idx', attr(base, 'shape'), (ONE,)))
            rows = None
            for i in base.atoms():
                z = atom_of(i)
                r = self.reshape_rows(z)
                if r is not None:
                    rows = r if rows in (None, r) else False
            if rows:
                gated = ZERO
                for m, c in base.t.items():
                    nz = [x for x in m if atom_of(x[0])[0] != 'ind']
                    iz = tuple(x for x in m if atom_of(x[0])[0] == 'ind')
                    if len(nz) != 1:
                        return None
                    gated = gated + Poly({iz: c}) * A(('idx', attr(A(atom_of(nz[0][0])), 'shape'), (ONE,)))
                return [rows, gated]
        return None

    def tabular(self, base):
        return True

    def reshape_rows(self, z):
        if z[0] != 'call':
            return None
        f = z[1].single_atom()
        if f is None or f[-1] not in ('numpy.reshape', 'reshape') and f[-1:] != ('reshape',):
            return None
        t = z[2][-1].single_atom()
        if t is not None and t[0] == 'tuple' and len(t[1]) == 2:
            return t[1][0]
        if len(z[2]) == 2 and f[0] == 'attr':
            return z[2][0]
        return None

    # ---- native calls that write through a pointer
    def call(self, e):
        nm = e.op if isinstance(e.op, str) else None
        if nm == 'leggauss_quad':
            n = e.extra[0][0]
            for what, p in zip(('points', 'weights'), e.extra[0][1:3]):
                self.filled(e, p, n, what)
        elif nm in self.vec:
            self.filled(e, e.extra[0][0], C(self.vec[nm]), nm)

    def filled(self, e, p, n, what):
        base, off = strip_ptr(p)
        k = buf_no(base)
        self.count('pointer arguments')
        if k is None:
            self.extents.setdefault(show(base), []).append(((n - ONE,), e.line))
            self.okn += 1
            return
        d = dims(self.fl.bufs[k])
        o = ZERO
        if off:
            if any(x != ZERO for x in off[:-1]):
                self.und('line %s: %s written at an offset' % (e.line, what))
                return
            o = off[-1]
        if d is None:
            self.und('line %s: size of the %s buffer is not a number of doubles' % (e.line, what))
            return
        b = Bounds(self.fl, e.loops, facts_of(e.guard))
        room = d[-1] - o - n
        if b.nonneg(room):
            self.okn += 1
            return
        c = room.cval()
        if c is not None or b.nonneg(-room - ONE) or intern_any(room, n, d[-1]):
            self.bad('buffer', e.line, '%s-buffer' % what, '%s writes %s values into an array of %s' % (
                what, show(n), show(d[-1])))
        else:
            self.und('line %s: %s writes %s values into an array of %s' % (e.line, what, show(n), show(d[-1])))

    # ---- triplet slots
    def slots(self):
        fl = self.fl
        by = {}
        for e in fl.events:
            if e.kind == 'store' and e.base is not None and buf_no(e.base) is not None and e.loops and \
                    len(e.index) == 1:
                phis = [i for i in e.index[0].atoms() if atom_of(i)[0] == 'phi']
                if len(phis) == 1 and len([1 for m in e.index[0].t if (phis[0], 1) in m]) == 1:
                    by.setdefault((phis[0], e.loops[-1].id), []).append(e)
        for (i, lid), evs in by.items():
            a = atom_of(i)
            if a[2] != lid:
                continue
            ent = fl.loop_end.get(lid)
            if not ent:
                continue
            phi = A(a)
            vend = [v for p, _, v in ent[1].values() if p == phi]
            if not vend:
                continue
            delta = vend[0] - phi
            if i in delta.atoms():
                self.und('line %s: counter recurrence' % evs[0].line)
                continue
            first = {}
            for e in evs:
                self.count('triplet slots')
                off = e.index[0] - phi
                o = off.as_int()
                g = e.cond()
                b = Bounds(fl, e.loops, facts_of(e.guard))
                # advance of the counter on the paths that reach the store
                adv = None
                sub = {}
                for j in delta.atoms():
                    z = atom_of(j)
                    if z[0] == 'ind':
                        one = g.map_atoms(lambda q: ONE if q == j else None, {})
                        zero = g.map_atoms(lambda q: ZERO if q == j else None, {})
                        if one == ZERO:
                            sub[j] = ZERO
                        elif zero == ZERO:
                            sub[j] = ONE
                adv = delta.map_atoms(lambda q: sub.get(q), {})
                if o is None or adv.as_int() is None:
                    self.und('line %s: advance %s of the slot counter' % (e.line, show(adv)[:60]))
                    continue
                lod = b.lo(delta)
                if lod is None or not b.nonneg(lod):
                    self.und('line %s: slot counter may go back' % e.line)
                elif self.span(evs, phi) > adv.as_int():
                    self.bad('slot', e.line, 'slot-reuse', 'consecutive iterations share slots: %d slots used, '
                             'counter advances by %d' % (self.span(evs, phi), adv.as_int()))
                else:
                    self.okn += 1
                info = fl.bufs[buf_no(e.base)]
                if e.op == '=':
                    k = (buf_no(e.base), o, repr(sorted(g.t.items(), key=repr)))
                    if k in first and first[k] != e.value:
                        self.bad('slot', e.line, 'slot-overwritten', 'slot %d of the %s is written twice with different '
                                 'values' % (o, self.name(fl, e.base)))
                    first[k] = e.value
                elif e.op and e.op not in ('=',) and info['init'] == 'uninit':
                    self.bad('slot', e.line, 'accumulate-uninitialised', 'values are accumulated into an array that '
                             'is not initialised')
        # skipped slots of uninitialised triplet arrays
        for n, info in fl.bufs.items():
            if info['init'] != 'uninit' or info['kind'] != 'numpy':
                continue
            used = [e for evs in by.values() for e in evs if buf_no(e.base) == n]
            if used:
                cond = [e for e in used if any(k == 'branch' for _, k in e.guard)]
                if cond:
                    self.bad('slot', cond[0].line, 'skipped-uninitialised', 'slots that are skipped keep the content of '
                             'an uninitialised array (allocated in line %d)' % info['line'])

    def span(self, evs, phi):
        os = [(e.index[0] - phi).as_int() for e in evs]
        os = [o for o in os if o is not None]
        return max(os) - min(os) + 1 if os else 0

    # ---- allocation life time
    def lifetime(self):
        fl = self.fl
        order = {id(e): k for k, e in enumerate(fl.events)}
        alloc, frees = {}, {}
        for e in fl.events:
            if e.kind != 'call':
                continue
            if e.op in ('malloc', 'calloc') and buf_no(e.value) is not None:
                alloc[buf_no(e.value)] = e
            elif K_callee(e) == 'free':
                x = e.extra[0][0] if e.extra and e.extra[0] else None
                n = buf_no(strip_ptr(x)[0]) if x is not None else None
                if n is None:
                    self.und('line %s: free of an unknown pointer' % e.line)
                else:
                    frees.setdefault(n, []).append(e)
        for n, e in alloc.items():
            self.count('allocations')
            fr = frees.get(n, [])
            what = 'memory allocated in %s line %s' % (e.func.name, e.line)
            inst = '%s:alloc%d' % (e.func.name, self.ordinal(alloc, n, e))
            tot = ZERO
            pre = branch(e)
            bad = False
            for x in fr:
                extra = [g for g in branchl(x) if g not in branchl(e)]
                c = ONE
                for g in extra:
                    c = c * g
                tot = tot + c
                if [l.id for l in x.loops] != [l.id for l in e.loops]:
                    inner = [l for l in x.loops if l.id not in [m.id for m in e.loops]]
                    if inner:
                        self.bad('lifetime', x.line, inst, '%s is released in every iteration of the loop of line %s'
                                 % (what, inner[0].line))
                    else:
                        self.bad('lifetime', e.line, inst, '%s in a loop is released only once, after it' % what)
                    bad = True
            if bad:
                continue
            if not fr:
                self.bad('lifetime', e.line, inst, '%s is never released' % what)
            elif tot != ONE:
                c = tot.cval()
                if c is not None and c > 1:
                    self.bad('lifetime', fr[-1].line, inst, '%s is released %s times' % (what, c))
                else:
                    self.bad('lifetime', fr[-1].line, inst, '%s is not released on every path (condition %s)' % (
                        what, show(tot)[:60]))
            else:
                self.okn += 1
            first = min([order[id(x)] for x in fr], default=None)
            for x in fl.events:
                if first is None or order[id(x)] <= first or x.kind not in ('load', 'store', 'call'):
                    continue
                hit = x.kind != 'call' and x.base is not None and buf_no(strip_ptr(x.base)[0]) == n
                if x.kind == 'call' and K_callee(x) != 'free' and isinstance(x.extra, tuple) and x.extra and \
                        isinstance(x.extra[0], tuple):
                    hit = any(isinstance(v, Poly) and buf_no(strip_ptr(v)[0]) == n for v in x.extra[0])
                if hit and len(fr) == 1:
                    self.bad('lifetime', x.line, inst + ':after', '%s is used after its release' % what)

    def ordinal(self, alloc, n, e):
        return sum(1 for k, x in alloc.items() if k < n and x.func is e.func and x.line != e.line)

    # ---- data races
    def parallel(self):
        fl = self.fl
        private = set()
        for e in fl.events:
            if e.kind == 'call' and e.op in ('malloc', 'calloc') and any(l.prange for l in e.loops):
                private.add(buf_no(e.value))
        for l in self.loops():
            if l.prange:
                self.count('parallel loops')
        for e in fl.events:
            pl = [l for l in e.loops if l.prange]
            if e.kind == 'call' and pl and e.op in self.vec or e.kind == 'call' and pl and e.op == 'leggauss_quad':
                ptrs = e.extra[0][:1] if e.op in self.vec else e.extra[0][1:3]
                for p in ptrs:
                    base, off = strip_ptr(p)
                    if buf_no(base) in private:
                        self.okn += 1
                    elif off and any(x == pl[0].lv() for x in off):
                        self.okn += 1
                    else:
                        self.bad('race', e.line, 'race:%s' % e.op, '%s writes the same memory from every worker of the '
                                 'parallel loop of line %s' % (e.op, pl[0].line))
                continue
            if e.kind != 'store' or e.base is None or not pl or not e.index:
                continue
            base, off = strip_ptr(e.base)
            if buf_no(base) in private:
                continue
            if buf_no(base) is None and base.single_atom() is not None and base.single_atom()[0] not in ('sym', 'attr'):
                continue
            self.count('stores in parallel loops')
            comps = list(off or ()) + list(e.index)
            lv = intern_atom(pl[0].lv().single_atom())
            if off:
                comps = list(off[:-1]) + [off[-1] + e.index[0]]
            if any(c == pl[0].lv() for c in comps[:-1]) or comps[-1] == pl[0].lv():
                self.okn += 1
            elif not any(lv in deep_atoms(c) for c in comps):
                self.bad('race', e.line, 'race:%s' % self.short(base, 0), 'every worker of the parallel loop of line %s '
                         'stores to the same elements of the %s' % (pl[0].line, self.name(fl, base)))
            elif len(comps) == 1:
                # lv * stride + inner < stride
                q, r = {}, {}
                for m, c in comps[0].t.items():
                    d = dict(m)
                    if d.get(lv) == 1:
                        q[tuple(x for x in m if x[0] != lv)] = c
                    else:
                        r[m] = c
                q, r = Poly(q), Poly(r)
                b = Bounds(fl, [l for l in e.loops if l is not pl[0]], facts_of(e.guard))
                hi, lo = b.hi(r), b.lo(r)
                if hi is not None and lo is not None and b.nonneg(q - ONE - hi + lo):
                    self.okn += 1
                else:
                    self.und('line %s: separation of the workers' % e.line)
            else:
                self.und('line %s: separation of the workers' % e.line)


def ungate(p):
    """element of a conditionally chosen tuple = conditionally chosen element"""
    def fn(a):
        if a[0] not in ('idx', 'attr') or not isinstance(a[1], Poly) or len(a[1].t) < 2:
            return None
        out = ZERO
        for m, c in a[1].t.items():
            iz = tuple(x for x in m if atom_of(x[0])[0] == 'ind')
            nz = tuple(x for x in m if atom_of(x[0])[0] != 'ind')
            if len(nz) != 1 or nz[0][1] != 1:
                return None
            out = out + Poly({iz: c}) * A((a[0], A(atom_of(nz[0][0])), a[2]))
        return out
    return FL.rebuild(p, fn)


def deep_atoms(p, seen=None):
    seen = set() if seen is None else seen
    for i in p.atoms():
        if i not in seen:
            seen.add(i)
            a = atom_of(i)
            for x in a[1:]:
                if isinstance(x, Poly):
                    deep_atoms(x, seen)
    return seen


def intern_any(room, n, d):
    """both are plain parameters: the sizes are unrelated"""
    return n.single_atom() is not None and (d.single_atom() is not None or d.cval() is not None)


def K_callee(e):
    a = e.base.single_atom() if isinstance(e.base, Poly) else None
    if a is None:
        return None
    return a[-1] if isinstance(a[-1], str) else None


def branchl(e):
    return [g for g, k in e.guard if k == 'branch']


def branch(e):
    p = ONE
    for g in branchl(e):
        p = p * g
    return p


def work(arg):
    rel, fn, vec = arg
    try:
        u = Unit(rel, fn, vec).run()
        ext = {k: [(tuple(None if h is None else show(h) if h.as_int() is None else h.as_int() for h in t), ln)
                   for t, ln in v] for k, v in u.extents.items()}
        return (rel, fn, u.okn, u.bads, u.unds, u.counts, ext, u.samples, None)
    except (FL.Give, K.Undecided) as x:
        return (rel, fn, 0, [], ['%s %s: %s' % (rel, fn, x)], {}, {}, [], None)
    except AnalysisBroken as x:
        return (rel, fn, 0, [], [], {}, {}, [], str(x))


def c19(tier):
    import multiprocessing as mp
    ck = Check('C19', 'Interval analysis of every array index of the compiled functions (loop variables and carried slot '
               'counters eliminated in the normal form), extents of the buffers handed to C routines, release of '
               'every allocation on every path, separation of parallel workers, and extents of the arrays the '
               'Python layer passes to kernels that write into them')
    vec = written_by_vec()
    us = units()
    for rel in ('panels/models', 'panels/multidomain/connections', 'panels/stiffener/models'):
        if not any(r.startswith(rel) for r, _ in us):
            raise AnalysisBroken('no compiled module below ' + rel)
    with mp.get_context('fork').Pool(4) as pool:
        res = pool.map(work, [(r, f, vec) for r, f in us], chunksize=1)
    rows = {}
    for rel, fn, okn, bads, unds, counts, ext, samples, err in res:
        if err:
            raise AnalysisBroken(err)
        ck.ok(okn)
        for s in samples[:1]:
            if len(ck.samples) < 12:
                ck.samples.append(s)
        for rule, line, inst, msg in bads:
            ck.bad(rule, '%s:%s' % (rel, line), inst, msg)
        for x in unds:
            ck.und(x)
        for k, n in counts.items():
            ck.count(k, n)
        if fn == 'fg' and 'g' in ext:
            rows['fg'] = max([t[0] for t, _ in ext['g'] if isinstance(t[0], int)], default=-1) + 1
    if rows.get('fg', 0) < 3:
        raise AnalysisBroken('shape-function matrix fg: no stores found')
    callers(ck, rows['fg'])
    ck.need('native functions', 55)
    ck.need('array accesses', 1200)
    ck.need('pointer arguments', 60)
    ck.need('triplet slots', 400)
    ck.need('allocations', 15)
    ck.need('stores in parallel loops', 8)
    ck.assumptions += ['matrix kernels are called with size >= col0 + 3*m*n and size >= row0 + 3*m*n (decided for the '
                       'callers by C20)', 'vectors of Ritz constants have the length of the domain they describe (C25, C29)',
                       'laminate matrices are 6 x 6 (composites.laminate)']
    return ck


# ------------------------------------------------------------------ arrays passed by the Python layer
def callers(ck, nrows):
    import ast
    from .. import pylayer as PY
    for p in proj.sources(('.py',)):
        rel = proj.relpath(p)
        if os_dev(rel):
            continue
        m = proj.FE.load(p)
        fs = [(None, f) for f in m.funcs.values()]
        for c in m.classes.values():
            fs += [(c, f) for f in c.methods.values()]
        for c, f in fs:
            names = set()
            for s in f.body:
                for n in ast.walk(s) if isinstance(s, ast.AST) else ():
                    if isinstance(n, ast.Attribute):
                        names.add(n.attr)
                    elif isinstance(n, ast.Name):
                        names.add(n.id)
            if not names & {'fg', 'get_points_weights'}:
                continue
            try:
                fl = FL.Flow(proj.RESOLVE, self_class=c, inline=lambda g: False)
                fl.run(f)
            except (FL.Give, K.Undecided) as x:
                ck.und('%s %s: %s' % (rel, f.name, x))
                continue
            q = (c.name + '.' if c else '') + f.name
            for e in fl.events:
                if e.kind != 'call' or not isinstance(e.extra, tuple) or not e.extra or not isinstance(e.extra[0], tuple):
                    continue
                nm = PY.callee(e)
                if nm == 'fg' and e.extra[0]:
                    n = buf_no(e.extra[0][0])
                    ck.count('arrays passed to native code')
                    d = dims(fl.bufs[n]) if n is not None else None
                    if d is None or len(d) != 2 or d[0].as_int() is None:
                        ck.und('%s:%s: shape of the matrix passed to fg' % (rel, e.line))
                    elif d[0].as_int() < nrows:
                        ck.bad('caller-extent', '%s:%s' % (rel, e.line), '%s:fg-rows' % q,
                               '%s passes a matrix of %d rows to fg, which writes %d rows' % (q, d[0].as_int(), nrows))
                    else:
                        ck.ok()
                elif nm == 'get_points_weights' and len(e.extra[0]) >= 3:
                    for what, x in zip(('points', 'weights'), e.extra[0][1:3]):
                        n = buf_no(x)
                        ck.count('arrays passed to native code')
                        d = dims(fl.bufs[n]) if n is not None else None
                        if d is None or len(d) != 1:
                            ck.und('%s:%s: length of the %s' % (rel, e.line, what))
                        elif d[0] == e.extra[0][0]:
                            ck.ok()
                        else:
                            r = d[0] - e.extra[0][0]
                            if r.cval() is not None and r.cval() > 0:
                                ck.ok()
                            else:
                                ck.bad('caller-extent', '%s:%s' % (rel, e.line), '%s:quadrature-%s' % (q, what),
                                       '%s passes an array of %s for %s %s' % (q, show(d[0])[:30],
                                                                              show(e.extra[0][0])[:30], what))


def os_dev(rel):
    return '/dev/' in rel


REGISTRY = {'C19': c19}
