"""C33: ready-made assemblies.

Every builder is value-numbered on opaque arguments; the panels, joints, loads and analyses it sets up are
compared with the geometry and the meaning of its arguments."""
import ast
from .. import flow as FL
from .. import kernels as K
from .. import proj
from .. import pylayer as PL
from ..flow import NONE, ONE, ZERO
from ..kernels import sym, attr, A
from ..poly import Poly, TooBig, show, atom_of
from ..pylayer import S_
from ..report import Check

P = 'panels/multidomain/'
C = Poly.const
Y = sym('position')
SIDES = ('x1', 'x2', 'y1', 'y2')
DOFS = ('u', 'ur', 'v', 'vr', 'w', 'wr')
PI = A(('ext', 'numpy.pi'))


class Rec:
    """a call that is not followed: what it gets and the state it finds"""

    def __init__(self, name, f, args, kw, heap, line, v, func, host):
        self.name, self.f, self.args, self.kw, self.heap = name, f, args, dict(kw), heap
        self.line, self.v, self.func, self.host = line, v, func, host
        self.loads = None
        self.bound = None
        if func is not None:
            b, err = FL.bind(func, list(args), list(kw))
            self.bound = None if err else b
        self.recv = (self.bound or {}).get('self')
        if self.recv is None and f.single_atom() is not None and f.single_atom()[0] == 'attr':
            self.recv = f.single_atom()[1]

    def arg(self, name, pos=None):
        if self.bound is not None:
            return self.bound.get(name)
        if name in self.kw:
            return self.kw[name]
        if pos is not None and len(self.args) > pos:
            return self.args[pos]
        return None

    @property
    def where(self):
        return '%s:%d' % (proj.relpath(self.host.module.path), self.line)


LOADED = ('calc_fext', 'static')


class BFlow(FL.Flow):
    def __init__(self, *a, **k):
        FL.Flow.__init__(self, *a, **k)
        self.rec = []

    def note_call(self, f, args, kw, st, node, func=None):
        n = PL.callee_name(('call', f, (), ())) if func is None else func.name
        r = Rec(n, f, args, kw, dict(st.heap), getattr(node, 'lineno', 0), None, func, self.frames[-1].func)
        if n in LOADED:
            r.loads = self.loads(st, node)
        self.rec.append(r)
        return r

    def opaque(self, f, args, kw, st, node):
        r = self.note_call(f, args, kw, st, node)
        r.v = FL.Flow.opaque(self, f, args, kw, st, node)
        return r.v

    def call_func(self, func, args, kw, st, node, f, closure=None):
        if self.inline(func) or closure is not None:
            return FL.Flow.call_func(self, func, args, kw, st, node, f, closure)
        r = self.note_call(f, args, kw, st, node, func)
        r.v = FL.Flow.call_func(self, func, args, kw, st, node, f, closure)
        return r.v

    def loads(self, st, node):
        """{panel: [(kind, x, y, values)]} with the load functions evaluated at a symbolic position"""
        out = {}
        for k, v in list(st.heap.items()):
            if k[0] != 'attr' or k[2] not in ('point_loads', 'point_loads_inc', 'distr_loads', 'distr_loads_inc'):
                continue
            o = self.getobj(v, st)
            if o is None or o[2]:
                out.setdefault(k[1], []).append(None)
                continue
            for e in o[1]:
                eo = self.getobj(e, st)
                a = e.single_atom()
                it = eo[1] if eo is not None and not eo[2] else a[1] if a is not None and a[0] == 'tuple' else None
                if it is None or len(it) != 5:
                    out.setdefault(k[1], []).append(None)
                    continue
                vals = []
                for x in it[2:]:
                    if k[2].startswith('distr') and x != NONE:
                        x = self.call(x, [Y], [], st.copy(), node)
                    vals.append(x)
                out.setdefault(k[1], []).append((k[2].replace('_inc', ''), it[0], it[1], tuple(vals)))
        return out


def sign(p):
    """sign of a combination of dimensions, which are positive"""
    if not p.t:
        return 0
    for m in p.t:
        for i, e in m:
            if atom_of(i)[0] not in ('sym', 'idx') and atom_of(i) != ('ext', 'numpy.pi'):
                return None
    cs = [c for c in p.t.values()]
    return 1 if all(c > 0 for c in cs) else -1 if all(c < 0 for c in cs) else None


def follow(g):
    if g.module.path.endswith('.pyx') or g.name in ('msg', 'warn'):
        return False
    if getattr(g, 'cls', None) is None:
        return True
    return g.name == '__init__' or g.name in ('_set_ranges', 'get_size') or g.name.startswith('add_')


class Run:
    """a builder evaluated on opaque arguments"""

    def __init__(self, rel, name, args):
        self.f = f = proj.func(rel, name)
        self.rel = rel
        args = {k: v for k, v in args.items() if k in f.param_names()}
        self.args = {p: args.get(p, sym(p)) for p in f.param_names()}
        given = {v for v in self.args.values() if v != NONE}

        def present(x):
            a = x.single_atom()
            return x in given or a is not None and a[0] in ('idx', 'elem', 'new', 'closure', 'func', 'call', 'buf') \
                or sign(x) is not None

        def fact(a):
            if a[0] != 'ind':
                return None
            if a[1] == 'is':
                x = a[2] if a[3] == NONE else a[3] if a[2] == NONE else None
                return False if x is not None and x != NONE and present(x) else None
            if a[1] == 'lt':
                s = sign(a[2])
                return None if s is None else s < 0
            if a[1] == 'eq':
                s = sign(a[2])
                return None if s is None else s == 0
            if a[1] == 'truth':
                b = a[2].single_atom()
                if b is not None and b[0] == 'call' and PL.callee_name(b) == 'isinstance':
                    return None
                if b is not None and b[0] in ('closure', 'func'):
                    return True
                s = sign(a[2])
                return None if s is None else s != 0
            return None
        fl = BFlow(proj.RESOLVE, assume={(lambda a: fact(a) is not None): fact}, inline=follow)
        fl.fold_globals = True
        self.fl = fl
        self.st, self.ret = fl.run(f, dict(self.args), FL.State({}, {}, ()))
        self.text = '%s(%s)' % (name, ', '.join('%s=%s' % (k, 'None' if v == NONE else show(v)) for k, v in sorted(
            args.items())))
        self.line = {}
        self.fuzzy = None
        for e in fl.events:
            if e.kind == 'setattr':
                a = e.base.single_atom()
                if a is None or a[0] != 'new':
                    self.fuzzy = '.%s (line %d)' % (e.index[0], e.line)
            if e.kind == 'new':
                self.line[e.base] = '%s:%d' % (proj.relpath(e.func.module.path), e.line)

    @property
    def where(self):
        return PL.wf(self.f)

    def calls(self, *names):
        return [r for r in self.fl.rec if r.name in names]


def is_new(v, name):
    a = v.single_atom() if isinstance(v, Poly) else None
    return a is not None and a[0] == 'new' and a[2] == name


class Joint:
    def __init__(self, d):
        self.d = d
        self.p1, self.p2 = d.get('p1'), d.get('p2')
        self.func = d.get('func').single_atom()[1] if d.get('func') is not None and \
            FL.const_kind(d.get('func')) == 'str' else None
        self.unbonded = d.get('has_defect')


class Model:
    """panels, joints and data at a point of the run"""

    def __init__(self, run, heap, conns=None):
        self.run, self.heap = run, heap
        self.problem = None
        self.assy = None
        self.panels, self.joints = [], []
        for k, v in heap.items():
            if k[0] == 'attr' and k[2] == 'panels' and is_new(k[1], 'MultiDomain'):
                self.assy = k[1]
                self.panels = self.items(v)
        if self.assy is None or self.panels is None or not all(is_new(p, 'Shell') for p in self.panels or []):
            self.problem = 'the panels of the assembly are not known'
            return
        if conns is None:
            conns = heap.get(('attr', self.assy, 'conn'))
        if conns is not None:
            self.conns(conns)
        self.number()

    def conns(self, conns):
        js = self.items(conns)
        if js is None:
            self.problem = 'the connections are not known'
            return
        for j in js:
            a = j.single_atom()
            o = self.heap.get(('obj', a[1])) if a is not None and a[0] == 'obj' else None
            if o is None or o[0] != 'dict' or o[2]:
                self.problem = 'a connection is not known: %s' % show(j)[:80]
                return
            d = {}
            for k, v in o[1]:
                if FL.const_kind(k) != 'str':
                    self.problem = 'a connection is not known: %s' % show(j)[:80]
                    return
                d[k.single_atom()[1]] = v
            self.joints.append(Joint(d))

    def items(self, v):
        a = v.single_atom() if isinstance(v, Poly) else None
        if a is None:
            return None
        if a[0] == 'tuple':
            return list(a[1])
        o = self.heap.get(('obj', a[1])) if a[0] == 'obj' else None
        if o is None or o[2] or o[0] not in ('list', 'tuple'):
            return None
        return list(o[1])

    def get(self, p, n):
        v = self.heap.get(('attr', p, n))
        return v

    def group(self, p):
        v = self.get(p, 'group')
        return v.single_atom()[1] if v is not None and FL.const_kind(v) == 'str' else None

    def number(self):
        self.names = {}
        for k, p in enumerate(self.panels):
            self.names[p] = '%s panel %d' % (self.group(p), k + 1)

    def name(self, p):
        return self.names.get(p, show(p)[:40] if isinstance(p, Poly) else str(p))

    def where(self, p):
        return self.run.line.get(p, self.run.where)

    def of(self, *groups):
        return [p for p in self.panels if (self.group(p) or '').startswith(groups)]

    def known(self, ps, names):
        for p in ps:
            for n in names:
                if self.get(p, n) is None:
                    return False
        return True


def norm_pi(p):
    """one name for pi"""
    memo = {}

    def fn(a):
        if a[0] == 'ext' and a[1].split('.')[-1] == 'pi':
            return PI
        if a[0] == 'attr' and a[2] == 'pi':
            return PI
        return None
    return FL.rebuild(p, fn, memo)


def same(x, y):
    return isinstance(x, Poly) and isinstance(y, Poly) and norm_pi(x) == norm_pi(y)


def S(x):
    return show(x)[:60] if isinstance(x, Poly) else 'nothing'


class Judge:
    def __init__(self, ck, run):
        self.ck, self.run = ck, run

    def eq(self, rule, where, inst, what, x, y):
        if x is None:
            self.ck.und('%s: %s is not set' % (self.run.text, what))
        elif same(x, y):
            self.ck.ok(1, '%s: %s is %s' % (self.run.text, what, S(y)))
        else:
            self.bad(rule, where, inst, '%s is %s, expected %s' % (what, S(x), S(y)))
            return False
        return True

    def bad(self, rule, where, inst, msg):
        if self.run.fuzzy:
            return self.ck.und('%s: %s; but %s is set on an object that is not known' % (
                self.run.text, msg, self.run.fuzzy))
        self.ck.bad(rule, where, self.run.f.name + ':' + inst, '%s: %s' % (self.run.text, msg))

    def truth(self, c, rule, where, inst, msg):
        if c:
            self.ck.ok(1)
        else:
            self.bad(rule, where, inst, msg)


GEOM = ('x0', 'y0', 'a', 'b')


def end_of(m, p, d, at):
    """which end of the panel a position is"""
    v = {'x': m.get(p, 'a'), 'y': m.get(p, 'b')}[d]
    if same(at, ZERO):
        return d + '1'
    if same(at, v):
        return d + '2'
    return None


def joints(j, m, per=None):
    """geometry of the joints; -> {(panel, side): [joint]} and the bonded pairs"""
    used, bonds, flanges = {}, [], []
    for k, c in enumerate(m.joints):
        if not all(isinstance(x, Poly) for x in (c.p1, c.p2)) or c.func is None:
            j.ck.und('%s: connection %d is not known' % (j.run.text, k + 1))
            continue
        nm = '%s %s - %s' % (c.func, m.name(c.p1), m.name(c.p2))
        w = m.where(c.p1)
        if not (c.p1 in m.panels and c.p2 in m.panels):
            j.bad('joint', j.run.where, nm, 'connection %s refers to a panel that is not in the assembly' % nm)
            continue
        j.truth(c.p1 != c.p2, 'joint', w, nm, 'connection %s joins a panel with itself' % nm)
        g = {n: (m.get(c.p1, n), m.get(c.p2, n)) for n in GEOM}
        if any(x is None or y is None for x, y in g.values()):
            j.ck.und('%s: position of the panels of %s not known' % (j.run.text, nm))
            continue
        if c.func in ('SSxcte', 'SSycte'):
            d, s = ('x', 'a') if c.func == 'SSxcte' else ('y', 'b')
            o, os_ = ('y', 'b') if d == 'x' else ('x', 'a')
            e1, e2 = c.d.get(d + 'cte1'), c.d.get(d + 'cte2')
            if e1 is None or e2 is None:
                j.bad('joint', w, nm, 'connection %s has no position of the joint' % nm)
                continue
            at1, at2 = g[d + '0'][0] + e1, g[d + '0'][1] + e2
            ok = same(at1, at2) or per is not None and d == 'y' and (same(at1, at2 + per) or same(at2, at1 + per))
            j.truth(ok, 'joint', w, nm, 'the edges joined by %s do not coincide: %s = %s and %s' % (
                nm, d, S(at1), S(at2)))
            for n in (o + '0', os_):
                j.truth(same(*g[n]), 'joint', w, nm, 'the edges joined by %s do not coincide: %s is %s and %s' % (
                    nm, n, S(g[n][0]), S(g[n][1])))
            for p, e in ((c.p1, e1), (c.p2, e2)):
                side = end_of(m, p, d, e)
                if side is None:
                    j.bad('joint', w, nm, 'connection %s is not at an edge of %s: %s' % (nm, m.name(p), S(e)))
                else:
                    used.setdefault((p, side), []).append(c)
        elif c.func in ('SB', 'SB_TSL'):
            for n in GEOM:
                j.truth(same(*g[n]), 'joint', w, nm, 'the surfaces joined by %s do not coincide: %s is %s and %s' % (
                    nm, n, S(g[n][0]), S(g[n][1])))
            bonds.append(c)
        elif c.func == 'BFycte':
            for n in ('x0', 'a'):
                j.truth(same(*g[n]), 'joint', w, nm, 'the parts joined by %s do not coincide: %s is %s and %s' % (
                    nm, n, S(g[n][0]), S(g[n][1])))
            flanges.append(c)
            e2 = c.d.get('ycte2')
            if e2 is None or c.d.get('ycte1') is None:
                j.bad('joint', w, nm, 'connection %s has no position of the joint' % nm)
                continue
            side = end_of(m, c.p2, 'y', e2)
            j.truth(side is not None, 'joint', w, nm, 'connection %s is not at an edge of the flange: %s' % (nm, S(e2)))
            if side is not None:
                used.setdefault((c.p2, side), []).append(c)
        else:
            j.ck.und('%s: connection type %s is not known' % (j.run.text, c.func))
    return used, bonds, flanges


def opposite(m, p, side):
    """position of a side: (direction, across value, start, length)"""
    d = side[0]
    at = m.get(p, d + '0') + (m.get(p, 'a' if d == 'x' else 'b') if side[1] == '2' else ZERO)
    o = 'y' if d == 'x' else 'x'
    return d, at, m.get(p, o + '0'), m.get(p, 'a' if o == 'x' else 'b')


def neighbours(m, ps, per=None):
    """pairs of sides that face each other: [(p, side, q, side)]"""
    out = []
    for i, p in enumerate(ps):
        for q in ps[i:]:
            for sp, sq in (('x1', 'x2'), ('x2', 'x1'), ('y1', 'y2'), ('y2', 'y1')):
                if p is q or p == q:
                    continue
                a, b = opposite(m, p, sp), opposite(m, q, sq)
                if not (same(a[2], b[2]) and same(a[3], b[3])):
                    continue
                if same(a[1], b[1]) or per is not None and sp[0] == 'y' and (
                        same(a[1], b[1] + per) or same(b[1], a[1] + per)):
                    out.append((p, sp, q, sq))
    return out


def joined_once(j, m, ps, used, per=None, what='skin'):
    """each pair of facing edges has exactly one joint; -> sides with a neighbour"""
    inner = set()
    for p, sp, q, sq in neighbours(m, ps, per):
        inner |= {(p, sp), (q, sq)}
        n = [c for c in used.get((p, sp), ()) if c in used.get((q, sq), ()) and c.func.startswith('SS')]
        j.truth(len(n) == 1, 'joined', m.where(p), '%s %s' % (m.name(p), sp),
                'edge %s of %s and edge %s of %s coincide and have %d connections' % (
                    sp, m.name(p), sq, m.name(q), len(n)))
    return inner


def outer_sides(j, m, ps, inner, ends, what):
    """every side is inside or on the boundary; -> {boundary side: [panel]}"""
    out = {s: [] for s in SIDES}
    for p in ps:
        for s in SIDES:
            if (p, s) in inner:
                continue
            at = opposite(m, p, s)[1]
            want = ends.get(s)
            if want is None:
                j.bad('domain', m.where(p), '%s %s' % (m.name(p), s),
                      'edge %s of %s is not next to another panel' % (s, m.name(p)))
                continue
            j.truth(same(at, want), 'domain', m.where(p), '%s %s' % (m.name(p), s),
                    'edge %s of %s at %s is neither next to another panel nor at the boundary %s of the %s' % (
                        s, m.name(p), S(at), S(want), what))
            out[s].append(p)
    return out


def area(j, m, ps, want, what):
    t = ZERO
    for p in ps:
        t = t + m.get(p, 'a') * m.get(p, 'b')
    j.truth(same(t, want), 'domain', j.run.where, 'area of the ' + what,
            'the %s panels cover the area %s, expected %s' % (what, S(t), S(want)))


def flags(m, p, side):
    return [m.get(p, side + d) for d in DOFS]


def free(j, m, p, side, why):
    v = flags(m, p, side)
    if any(x is None for x in v):
        j.ck.und('%s: boundary conditions of %s not known' % (j.run.text, m.name(p)))
        return
    j.truth(all(same(x, ONE) for x in v), 'edge', m.where(p), '%s %s' % (m.name(p), side),
            'edge %s of %s is restrained (%s) although it is %s' % (
                side, m.name(p), ', '.join('%s=%s' % (side + d, S(x)) for d, x in zip(DOFS, v) if not same(x, ONE)), why))


def supported(j, m, ps, side, zero, one, what):
    """all panels along a boundary have the same conditions"""
    ref = None
    for p in ps:
        v = flags(m, p, side)
        if any(x is None for x in v):
            j.ck.und('%s: boundary conditions of %s not known' % (j.run.text, m.name(p)))
            continue
        for d, x in zip(DOFS, v):
            if d in zero or d in one:
                j.truth(same(x, ZERO if d in zero else ONE), 'edge', m.where(p), '%s %s%s' % (m.name(p), side, d),
                        '%s%s of %s is %s on the %s' % (side, d, m.name(p), S(x), what))
        if ref is None:
            ref = (p, v)
        for d, x, y in zip(DOFS, v, ref[1]):
            j.truth(same(x, y), 'edge', m.where(p), '%s %s%s' % (m.name(p), side, d),
                    '%s%s is %s in %s and %s in %s, which are along the same edge' % (
                        side, d, S(x), m.name(p), S(y), m.name(ref[0])))


def data(j, m, p, want):
    for n, v in want.items():
        if v is None:
            continue
        j.eq('data', m.where(p), '%s %s' % (m.name(p).rsplit(' ', 1)[0].replace(' panel', ''), n),
             '%s of %s' % (n, m.name(p)), m.get(p, n), v)


# ------------------------------------------------------------------ analyses
def bound_call(run, v, name):
    """the recorded call that gave a value"""
    for r in run.fl.rec:
        if r.name == name and isinstance(v, Poly) and r.v == v:
            return r
    return None


def terms_of(v):
    """[(coefficient, atom poly)] of a sum; conversions between sparse formats removed"""
    memo = {}

    def fn(a):
        if a[0] == 'call' and PL.callee_name(a) in PL.SAMEM | PL.SYM and len(a[2]) == 1:
            return FL.rebuild(a[2][0], fn, memo)
        if a[0] == 'call' and PL.callee_name(a) in PL.SAMEMM and not a[2]:
            return FL.rebuild(a[1].single_atom()[1], fn, memo)
        return None
    v = FL.rebuild(v, fn, memo)
    out = []
    for mo, c in v.t.items():
        out.append((c, Poly({mo: 1})))
    return out


def ret_items(run):
    v = run.ret
    a = v.single_atom() if isinstance(v, Poly) else None
    return list(a[1]) if a is not None and a[0] == 'tuple' else None


def part(v, call, k):
    """v is element k of the result of a call"""
    a = v.single_atom() if isinstance(v, Poly) else None
    return a is not None and a[0] == 'idx' and a[1] == call and a[2] == (C(k),)


def results(j, run, assy, rec, first, names):
    """the builder returns the assembly and what the solver found"""
    it = ret_items(run)
    if it is None:
        j.ck.und('%s: the result is not known' % run.text)
        return
    j.truth(len(it) == len(first) + 3 - 1 if names else True, 'analysis', run.where, 'result',
            'returns %d values' % len(it))
    if len(it) != len(first) + 2:
        return
    for k, (x, what) in enumerate(first):
        j.truth(same(it[k], x), 'analysis', run.where, 'result', 'value %d of the result is not %s' % (k + 1, what))
    for k, n in enumerate(names):
        v = it[len(first) + k]
        j.truth(part(v, rec.v, k), 'analysis', run.where, 'result', 'value %d of the result is not the %s found by %s' % (
            len(first) + k + 1, n, rec.name))


def one(j, run, recs, what):
    if len(recs) == 1:
        return recs[0]
    if not recs:
        j.bad('analysis', run.where, what, '%s is not called' % what)
    else:
        j.ck.und('%s: %s is called %d times' % (run.text, what, len(recs)))
    return None


def linear_k0(j, run, m, r):
    """the stiffness matrix is the linear one of the assembly with its joints"""
    j.truth(r.recv == m.assy and r.arg('c') in (None, NONE), 'analysis', r.where, 'stiffness',
            'the stiffness matrix is not the linear one of the assembly')


def joints_used(j, run, r):
    """the joints calc_kC works with: argument or attribute of the assembly"""
    c = r.arg('conn')
    if c is None or c == NONE:
        c = r.heap.get(('attr', r.recv, 'conn'))
    return c if c != NONE else None


def solver(j, run, name, want_eig):
    r = one(j, run, run.calls(name), name)
    if r is None:
        return None
    if want_eig is not None:
        j.eq('analysis', r.where, 'num_eigvalues', 'num_eigvalues', r.arg('num_eigvalues'), want_eig)
    return r


def force(j, run, m, v, loaded):
    """v is the force vector of the loads of the assembly; -> (sign, record with the loads)"""
    ts = terms_of(v)
    if len(ts) != 1 or ts[0][0] not in (1, -1):
        j.ck.und('%s: force vector %s is not known' % (run.text, S(v)))
        return None, None
    s, x = ts[0]
    for r in run.calls('calc_fext'):
        if r.v == x and r.recv == m.assy:
            return s, r
    a = x.single_atom()
    if a is None or a[0] != 'buf':
        j.ck.und('%s: force vector %s is not known' % (run.text, S(v)))
        return None, None
    last = None
    done = []
    size = ZERO
    for p in m.panels:
        size = size + C(3) * m.get(p, 'm') * m.get(p, 'n')
    info = run.fl.bufs[a[1]]
    sh = info.get('shape')
    dims = sh if isinstance(sh, (list, tuple)) else [sh]
    if len(dims) == 1 and isinstance(dims[0], Poly):
        d = dims[0].single_atom()
        dd = d[1][0] if d is not None and d[0] == 'tuple' and len(d[1]) == 1 else dims[0]
        j.eq('analysis', run.where, 'force size', 'the size of the force vector', dd, size)
    for e in run.fl.events:
        if e.kind != 'store' or e.base != x:
            continue
        where = '%s:%d' % (proj.relpath(e.func.module.path), e.line)
        r = next((r for r in run.calls('calc_fext') if r.v == (e.full if e.full is not None else e.value) or
                  r.v == e.value), None)
        sl = e.index[0].single_atom() if e.index else None
        if r is None or sl is None or sl[0] != 'slice':
            j.ck.und('%s: element %s of the force vector' % (run.text, S(e.index[0] if e.index else ZERO)))
            return None, None
        p = r.recv
        ok = same(sl[1], r.heap.get(('attr', p, 'col_start')) or r.heap.get(('attr', p, 'row_start'))) and same(
            sl[2], r.heap.get(('attr', p, 'col_end')))
        j.truth(ok, 'analysis', where, 'force place', 'the forces of %s are put at %s:%s of the force vector' % (
            m.name(p), S(sl[1]), S(sl[2])))
        done.append(p)
        last = r
    for p in loaded:
        j.truth(done.count(p) == 1, 'analysis', run.where, 'force of ' + m.name(p),
                'the forces of the loaded %s are included %d times' % (m.name(p), done.count(p)))
    return s, last


def edge_loads(j, run, m, r, s, loads, per_panel):
    """s * loads are the forces Nxx on the edges of the panels: {panel: Nxx}"""
    got = r.loads or {}
    for p, want in loads.items():
        ls = got.get(p, [])
        if any(x is None for x in ls):
            j.ck.und('%s: loads of %s' % (run.text, m.name(p)))
            continue
        ls = [x for x in ls if x[0] == 'distr_loads']
        j.truth(len(ls) == 1, 'load', m.where(p), 'loads of ' + m.name(p), '%s has %d edge loads' % (m.name(p), len(ls)))
        for kind, x, y, vals in ls:
            side = end_of(m, p, 'x', x) if isinstance(x, Poly) and x != NONE else None
            j.truth(side == per_panel, 'load', m.where(p), 'loaded edge of ' + m.name(p),
                    'the load of %s is at x=%s' % (m.name(p), S(x)))
            k = s if side == 'x2' else -s
            j.eq('load', m.where(p), 'load of ' + m.name(p), 'load of %s (as tension)' % m.name(p),
                 vals[0].scale(k) if vals[0] != NONE else vals[0], want)
            j.truth(all(v == NONE or same(v, ZERO) for v in vals[1:]), 'load', m.where(p), 'load of ' + m.name(p),
                    '%s is loaded in other directions' % m.name(p))
    for p in m.panels:
        if p not in loads:
            j.truth(not got.get(p), 'load', m.where(p), 'loads of ' + m.name(p), '%s is loaded' % m.name(p))


# ------------------------------------------------------------------ cylinders
def cylinder_model(j, run, m, n, blades):
    ar = run.args
    per = (C(2) * PI * ar['r'])
    skin = m.of('skin')
    rest = [p for p in m.panels if p not in skin]
    j.truth(len(skin) == n, 'domain', run.where, 'panels', '%d skin panels for npanels=%d' % (len(skin), n))
    if not m.known(m.panels, GEOM):
        j.ck.und('%s: positions of the panels not known' % run.text)
        return None
    used, bonds, flanges = joints(j, m, per)
    inner = joined_once(j, m, skin, used, per)
    outer = outer_sides(j, m, skin, inner, {'x1': ZERO, 'x2': ar['height']}, 'cylinder')
    area(j, m, skin, ar['height'] * per, 'skin')
    for p, s in sorted(inner, key=repr):
        free(j, m, p, s, 'joined')
    for p in skin:
        data(j, m, p, dict(r=ar['r'], m=ar['m'], n=ar['n'], plyt=ar['plyt'], stack=ar['stack'],
                           laminaprop=ar['laminaprop'], a=ar['height']))
    j.truth(not bonds, 'joint', run.where, 'bonds', 'unexpected surface connections')
    total = sum(1 for c in m.joints)
    j.truth(total == n + (n if blades else 0), 'joined', run.where, 'number of connections',
            '%d connections for %d panels' % (total, n))
    order = sorted(range(len(skin)), key=lambda i: -1)
    order = by_y(m, skin, per, n)
    if order is None:
        j.ck.und('%s: order of the panels not known' % run.text)
        return None
    bl = []
    if blades:
        j.truth(len(rest) == n, 'domain', run.where, 'blades', '%d blades for npanels=%d' % (len(rest), n))
        for i, p in enumerate(order):
            cs = [c for c in flanges if c.p1 == p]
            j.truth(len(cs) == 1, 'joined', m.where(p), 'blade %d' % i, '%s has %d blades' % (m.name(p), len(cs)))
            if len(cs) != 1:
                continue
            q, c = cs[0].p2, cs[0]
            bl.append(q)
            j.eq('joint', m.where(q), 'blade position', 'position of %s' % m.name(q), m.get(p, 'y0') + c.d['ycte1'],
                 m.get(q, 'y0'))
            data(j, m, q, dict(m=ar['m'], n=ar['n'], plyt=ar['plyt'], laminaprop=ar['laminaprop'], a=ar['height'],
                               stack=index(ar['stack_blades'], i), b=index(ar['width_blades'], i)))
            r = m.get(q, 'r')
            j.truth(r in (None, NONE), 'data', m.where(q), 'blade r', 'blades are flat')
            for s in ('y1', 'y2'):
                free(j, m, q, s, 'joined or free')
    else:
        j.truth(not rest, 'domain', run.where, 'panels', 'panels other than the skin')
    return skin, order, bl


def index(v, i):
    return A(('idx', v, (C(i),)))


def by_y(m, skin, per, n):
    """panels in the order of their position"""
    b = m.get(skin[0], 'b')
    out = []
    for i in range(n):
        q = [p for p in skin if same(m.get(p, 'y0'), b.scale(i))]
        if len(q) != 1:
            return None
        out.append(q[0])
    return out


def cylinder(ck, n, rel, create, lb_cte, lb_static, spla, blades):
    names = ['create', 'cte', 'static'] + (['spla'] if spla else [])
    fns = {'create': create, 'cte': lb_cte, 'static': lb_static, 'spla': spla}
    for kind in names:
        run = Run(rel, fns[kind], {'npanels': C(n)})
        j = Judge(ck, run)
        ck.count('builder runs')
        if run.st is None:
            j.bad('data', run.where, 'rejected', 'the arguments are rejected')
            continue
        ar = run.args
        if kind == 'create':
            it = ret_items(run)
            if it is None or len(it) != 2:
                ck.und('%s: the result is not known' % run.text)
                continue
            m = Model(run, run.st.heap, it[1])
            j.truth(m.assy is None or it[0] == m.assy, 'analysis', run.where, 'result', 'the assembly is not returned')
        elif kind == 'spla':
            m = spla_model(j, run)
        else:
            r = one(j, run, run.calls('calc_kC'), 'calc_kC')
            if r is None:
                continue
            m = Model(run, r.heap, joints_used(j, run, r))
            linear_k0(j, run, m, r)
        if m is None:
            continue
        if m.problem:
            ck.und('%s: %s' % (run.text, m.problem))
            continue
        ck.count('panels', len(m.panels))
        ck.count('connections', len(m.joints))
        got = cylinder_model(j, run, m, n, blades)
        top = () if kind == 'create' else ('u',)
        for p in [None]:
            supported(j, m, m.panels, 'x1', ('u', 'v', 'w'), ('wr',), 'bottom edge (SS1)')
            supported(j, m, m.panels, 'x2', ('v', 'w'), top + ('wr',), 'top edge (SS3)')
        if got is None or kind in ('create',):
            continue
        skin, order, bl = got
        nxx = {}
        if kind == 'spla':
            nxx = {p: ar['Nxx'] for p in m.panels}
        elif blades:
            for i, p in enumerate(order):
                nxx[p] = index(ar['Nxxs_skin'], i)
            for i, p in enumerate(bl):
                nxx[p] = index(ar['Nxxs_blade'], i)
        else:
            for i, p in enumerate(order):
                nxx[p] = index(ar['Nxxs'], i)
        if kind == 'spla':
            spla_loads(j, run, m, nxx)
            continue
        lbr = solver(j, run, 'lb', ar['num_eigvalues'])
        kg = one(j, run, run.calls('calc_kG'), 'calc_kG')
        if lbr is None or kg is None:
            continue
        j.truth(lbr.arg('K', 0) is not None and terms_of(lbr.arg('K', 0)) == [(1, r.v)], 'analysis', lbr.where, 'lb K',
                'the first matrix of lb is not the stiffness matrix')
        j.truth(lbr.arg('KG', 1) is not None and terms_of(lbr.arg('KG', 1)) == [(1, kg.v)], 'analysis', lbr.where,
                'lb KG', 'the second matrix of lb is not the geometric stiffness matrix')
        j.truth(kg.recv == m.assy, 'analysis', kg.where, 'calc_kG', 'calc_kG of another object')
        geometric(j, run, m, kg, r, nxx, kind == 'static', m.panels, 'x2', lbr)


def geometric(j, run, m, kg, kc, nxx, static, loaded, side, lbr, names=('eigenvalues', 'eigenvectors')):
    mk = Model(run, kg.heap, None)
    c = kg.arg('c')
    if not static:
        j.truth(c in (None, NONE), 'analysis', kg.where, 'calc_kG c', 'calc_kG gets a displacement state')
        for p, v in nxx.items():
            j.eq('data', m.where(p), 'Nxx of ' + m.name(p), 'Nxx of %s in calc_kG' % m.name(p), mk.get(p, 'Nxx'), v)
        for p in m.panels:
            if p not in nxx:
                j.truth(mk.get(p, 'Nxx') in (None, NONE, ZERO), 'data', m.where(p), 'Nxx of ' + m.name(p),
                        'Nxx of %s is %s' % (m.name(p), S(mk.get(p, 'Nxx'))))
        results(j, run, m.assy, lbr, [(m.assy, 'the assembly')], names)
        return
    sr = one(j, run, run.calls('static'), 'static')
    if sr is None:
        return
    k = sr.arg('K', 0)
    j.truth(k is not None and terms_of(k) == [(1, kc.v)], 'analysis', sr.where, 'static K',
            'the first argument of static is not the stiffness matrix')
    fv = sr.arg('fext', 1)
    if fv is None:
        j.ck.und('%s: force vector not known' % run.text)
        return
    s, fr = force(j, run, m, fv, loaded)
    if fr is not None:
        edge_loads(j, run, m, fr, s, {p: nxx[p] for p in loaded}, side)
    cs = A(('idx', sr.v, (C(1), ZERO)))
    ok = same(c, cs) or c is not None and part_of(c, sr.v)
    j.truth(ok, 'analysis', kg.where, 'calc_kG c', 'calc_kG does not get the displacements of the static analysis')
    for p in m.panels:
        j.truth(mk.get(p, 'Nxx') in (None, NONE, ZERO), 'analysis', kg.where, 'Nxx of ' + m.name(p),
                'Nxx of %s is %s although calc_kG takes the stresses of the static analysis' % (
                    m.name(p), S(mk.get(p, 'Nxx'))))
    results(j, run, m.assy, lbr, [(m.assy, 'the assembly'), (c, 'the static displacements')], names)


def part_of(c, v):
    a = c.single_atom()
    if a is None or a[0] != 'idx' or a[2] not in ((ZERO,), (C(-1),)):
        return False
    return part(a[1], v, 1)


def spla_model(j, run):
    r = one(j, run, [x for x in run.calls('static')], 'static')
    if r is None:
        return None
    return Model(run, r.heap)


def spla_loads(j, run, m, nxx):
    r = run.calls('static')[0]
    ar = run.args
    an = one(j, run, run.calls('Analysis'), 'Analysis')
    if an is None:
        return
    for k, n in enumerate(('calc_fext', 'calc_fint', 'calc_kC', 'calc_kG')):
        v = an.arg(n, k)
        a = v.single_atom() if isinstance(v, Poly) else None
        j.truth(a is not None and a[0] == 'attr' and a[1] == m.assy and a[2] == n, 'analysis', an.where,
                'Analysis ' + n, 'argument %s of Analysis is %s' % (n, S(v)))
    j.truth(r.recv == an.v, 'analysis', r.where, 'static', 'static of another object')
    nl = r.arg('NLgeom', 0)
    j.truth(nl == ONE, 'analysis', r.where, 'NLgeom', 'the analysis is not geometrically non-linear')
    got = {p: list(v) for p, v in (r.loads or {}).items()}
    spl = []
    for p in m.panels:
        ls = [x for x in got.get(p, []) if x is not None and x[0] == 'point_loads']
        got[p] = [x for x in got.get(p, []) if x is None or x[0] != 'point_loads']
        spl += [(p, x) for x in ls]
    r.loads = got
    edge_loads(j, run, m, r, 1, nxx, 'x2')
    j.truth(len(spl) == 1, 'load', run.where, 'perturbation load', '%d perturbation loads' % len(spl))
    for p, (kind, x, y, v) in spl:
        j.eq('load', m.where(p), 'perturbation load', 'x of the perturbation load', x, m.get(p, 'a') / C(2))
        j.truth(same(v[0], ZERO) and same(v[1], ZERO) and same(v[2], -ar['SPLA']), 'load', m.where(p),
                'perturbation load', 'the perturbation load is (%s, %s, %s)' % tuple(map(S, v)))
    it = ret_items(run)
    if it is None or len(it) != 3:
        j.ck.und('%s: the result is not known' % run.text)
    else:
        j.truth(it[0] == m.assy and part(it[1], r.v, 0) and part(it[2], r.v, 1), 'analysis', run.where, 'result',
                'the result is not (assembly, increments, displacements)')


# ------------------------------------------------------------------ stiffened panels
def tstiff_model(j, run, m, aero, loads):
    ar = run.args
    half = Poly.const(1) / Poly.const(2)
    skin, base, flange = m.of('skin'), m.of('base'), m.of('flange')
    j.truth(len(skin) + len(base) + len(flange) == len(m.panels), 'domain', run.where, 'panels',
            'panels that belong neither to the skin nor to the stiffener')
    if not m.known(m.panels, GEOM) or not (skin and base and flange):
        j.ck.und('%s: positions of the panels not known' % run.text)
        return None
    used, bonds, flanges = joints(j, m)
    inner = joined_once(j, m, skin, used)
    ends = {'x1': ZERO, 'x2': ar['a'], 'y1': ZERO, 'y2': ar['b']}
    outer = outer_sides(j, m, skin, inner, ends, 'skin')
    area(j, m, skin, ar['a'] * ar['b'], 'skin')
    binner = joined_once(j, m, base, used, what='base')
    yb = ar['ys'] - ar['bb'] * half
    bouter = outer_sides(j, m, base, binner, {'x1': ZERO, 'x2': ar['a'], 'y1': yb, 'y2': yb + ar['bb']}, 'base')
    area(j, m, base, ar['a'] * ar['bb'], 'base')
    finner = joined_once(j, m, flange, used, what='flange')
    y0 = m.get(flange[0], 'y0')
    fouter = outer_sides(j, m, flange, finner, {'x1': ZERO, 'x2': ar['a'], 'y1': y0, 'y2': y0 + ar['bf']}, 'flange')
    area(j, m, flange, ar['a'] * ar['bf'], 'flange')
    for p, s in sorted(inner | binner | finner, key=repr):
        free(j, m, p, s, 'joined')
    # flange on the middle of the base
    for p in base:
        cs = [c for c in flanges if c.p1 == p]
        j.truth(len(cs) == 1, 'joined', m.where(p), 'flange of ' + m.name(p), '%s has %d flanges' % (m.name(p), len(cs)))
        for c in cs:
            if c.d.get('ycte1') is not None:
                j.eq('joint', m.where(p), 'flange position', 'position of the flange on %s' % m.name(p),
                     m.get(p, 'y0') + c.d['ycte1'], ar['ys'])
        for s in ('y1', 'y2'):
            free(j, m, p, s, 'on the skin')
    for q in flange:
        j.truth(len([c for c in flanges if c.p2 == q]) == 1, 'joined', m.where(q), 'base of ' + m.name(q),
                '%s is connected %d times to the base' % (m.name(q), len([c for c in flanges if c.p2 == q])))
        for s in ('y1', 'y2'):
            free(j, m, q, s, 'joined or free')
    # base on the skin
    unb = []
    for q in base:
        at = [p for p in skin if all(same(m.get(p, n), m.get(q, n)) for n in GEOM)]
        j.truth(len(at) == 1, 'domain', m.where(q), 'skin below ' + m.name(q), 'no skin panel below %s' % m.name(q))
        cs = [c for c in bonds if c.p2 == q]
        on = [c for c in cs if c.p1 in at]
        j.truth(len(on) == len(cs) and len(cs) <= 1, 'joint', m.where(q), 'bond of ' + m.name(q),
                '%s has %d surface connections, %d with the skin below it' % (m.name(q), len(cs), len(on)))
        if not cs:
            unb.append(q)
    defect = ar['defect_a'] * ar['a']
    if same(defect, ZERO):
        j.truth(not unb, 'joined', run.where, 'debonding', '%s not connected to the skin although there is no defect' %
                ', '.join(m.name(q) for q in unb))
    else:
        t = ZERO
        for q in unb:
            t = t + m.get(q, 'a')
        j.truth(same(t, defect), 'joined', run.where, 'debonding',
                'the length without connection between base and skin is %s, expected %s' % (S(t), S(defect)))
        if len(unb) == 1:
            q = unb[0]
            j.eq('domain', m.where(q), 'debonding', 'middle of the defect',
                 m.get(q, 'x0') + m.get(q, 'a') * half, ar['a'] * half)
    # supports
    for s in ('y1', 'y2'):
        supported(j, m, outer[s], s, ('w',), ('wr',), 'lateral edge')
    for s in ('x1', 'x2'):
        supported(j, m, outer[s] + fouter[s], s, ('v', 'w'), ('wr',), 'loaded edge' if s == 'x1' else 'edge')
        for p in bouter[s]:
            v = flags(m, p, s)
            if all(x is not None for x in v):
                ref = flags(m, outer[s][0], s) if outer[s] else v
                j.truth(all(same(x, ONE) or same(x, y) for x, y in zip(v, ref)), 'edge', m.where(p),
                        '%s %s' % (m.name(p), s), 'edge %s of %s is restrained more than the skin' % (s, m.name(p)))
    # data
    opt = {'mb': 'm', 'nb': 'n', 'mf': 'm', 'nf': 'n'}
    val = dict(ar)
    for k, d in opt.items():
        if val[k] == NONE:
            val[k] = val[d]
    com = dict(plyt=ar['plyt'], laminaprop=ar['laminaprop'], rho=ar['rho'])
    for ps, sfx, stack, curved in ((skin, '', 'stack_skin', True), (base, 'b', 'stack_base', True),
                                   (flange, 'f', 'stack_flange', False)):
        for p in ps:
            w = dict(com, stack=ar[stack], m=val['m' + sfx], n=val['n' + sfx])
            if curved:
                w['r'] = ar['r']
            if 'nx' in ar:
                for q in ('nx', 'ny'):
                    if ar[q + sfx] != NONE:
                        w[q] = ar[q + sfx]
            data(j, m, p, w)
            if not curved:
                r = m.get(p, 'r')
                j.truth(r in (None, NONE), 'data', m.where(p), 'flange r', 'the flange is flat')
    if aero:
        for p in skin:
            data(j, m, p, dict(rho_air=ar['rho_air'], Mach=ar['Mach'], speed_sound=ar['speed_sound'], V=ar['air_speed'],
                               flow=ar['flow']))
    return skin, base, flange, outer['x1'] + bouter['x1'] + fouter['x1']


def tstiff(ck, kind, args, text):
    fn = 'tstiff2d_1stiff_' + kind
    run = Run(P + fn + '.py', fn, args)
    j = Judge(ck, run)
    ck.count('builder runs')
    ar = run.args
    if run.st is None:
        j.bad('data', run.where, 'rejected', 'the arguments are rejected')
        return
    r = one(j, run, run.calls('calc_kC'), 'calc_kC')
    if r is None:
        return
    m = Model(run, r.heap, joints_used(j, run, r))
    if m.problem:
        ck.und('%s: %s' % (run.text, m.problem))
        return
    linear_k0(j, run, m, r)
    ck.count('panels', len(m.panels))
    ck.count('connections', len(m.joints))
    got = tstiff_model(j, run, m, kind == 'flutter', None)
    if got is None:
        return
    skin, base, flange, x1 = got
    nxx = {}
    if kind != 'freq':
        for ps, k in ((skin, 'Nxx_skin'), (base, 'Nxx_base'), (flange, 'Nxx_flange')):
            for p in ps:
                nxx[p] = ZERO if ar[k] == NONE else ar[k]
    has = any(v != ZERO for v in nxx.values())
    static = kind != 'freq' and ar['run_static_case'] == ONE
    if static and has:
        for p in x1:
            v = m.get(p, 'x1u')
            j.truth(same(v, ONE), 'edge', m.where(p), 'x1u of ' + m.name(p), 'the loaded edge of %s cannot move (x1u=%s)' % (
                m.name(p), S(v)))
    if kind == 'compression':
        er = solver(j, run, 'lb', None)
        kg = one(j, run, run.calls('calc_kG'), 'calc_kG')
        if er is None or kg is None:
            return
        for q, (v, what) in enumerate(((r.v, 'stiffness'), (kg.v, 'geometric stiffness'))):
            x = er.arg(('K', 'KG')[q], q)
            j.truth(x is not None and terms_of(x) == [(1, v)], 'analysis', er.where, 'lb %d' % q,
                    'matrix %d of lb is not the %s matrix' % (q + 1, what))
        j.truth(kg.recv == m.assy, 'analysis', kg.where, 'calc_kG', 'calc_kG of another object')
        geometric(j, run, m, kg, r, nxx, static, x1, 'x1', er)
        return
    er = solver(j, run, 'freq', None)
    km = one(j, run, run.calls('calc_kM'), 'calc_kM')
    if er is None or km is None:
        return
    j.truth(km.recv == m.assy, 'analysis', km.where, 'calc_kM', 'calc_kM of another object')
    x = er.arg('M', 1)
    j.truth(x is not None and terms_of(x) == [(1, km.v)], 'analysis', er.where, 'freq M',
            'the second matrix of freq is not the mass matrix')
    k = er.arg('K', 0)
    ts = terms_of(k) if k is not None else []
    want = [r.v]
    if kind == 'flutter':
        kg = one(j, run, run.calls('calc_kG'), 'calc_kG')
        if kg is None:
            return
        want.append(kg.v)
        size = ZERO
        for p in m.panels:
            size = size + C(3) * m.get(p, 'm') * m.get(p, 'n')
        for p in skin:
            ka = [c for c in run.calls('calc_kA') if c.recv == p]
            j.truth(len(ka) == 1, 'analysis', m.where(p), 'kA of ' + m.name(p),
                    'the aerodynamic matrix of %s is calculated %d times' % (m.name(p), len(ka)))
            for c in ka:
                want.append(c.v)
                for n, v in (('size', size), ('row0', m.get(p, 'row_start')), ('col0', m.get(p, 'col_start'))):
                    j.eq('analysis', c.where, 'kA ' + n, '%s of calc_kA for %s' % (n, m.name(p)), c.arg(n), v)
        others = [c for c in run.calls('calc_kA') if c.recv not in skin]
        j.truth(not others, 'analysis', run.where, 'kA', 'aerodynamic matrix of a panel that is not skin')
        if static and not has:
            for p in m.panels:
                v = Model(run, kg.heap, None).get(p, 'Nxx')
                j.truth(v in (None, NONE, ZERO), 'data', m.where(p), 'Nxx of ' + m.name(p), 'Nxx of %s is %s' % (
                    m.name(p), S(v)))
            it = ret_items(run)
            if it is not None:
                results(j, run, m.assy, er, [(m.assy, 'the assembly'), (NONE, 'None')], ('eigenvalues', 'eigenvectors'))
        else:
            geometric(j, run, m, kg, r, nxx, static, x1, 'x1', er)
    else:
        results(j, run, m.assy, er, [(m.assy, 'the assembly')], ('eigenvalues', 'eigenvectors'))
    left = list(ts)
    for v in want:
        t = next((t for t in left if t[1] == v), None)
        nm = PL.callee_name(v.single_atom())
        j.truth(t is not None and t[0] == 1, 'analysis', er.where, 'freq K ' + str(nm),
                'the result of %s is not in the stiffness given to freq' % nm)
        if t is not None:
            left.remove(t)
    j.truth(not left, 'analysis', er.where, 'freq K', 'the stiffness given to freq has other terms: %s' % ', '.join(
        S(t[1]) for t in left))


OPT = ('mb', 'nb', 'mf', 'nf', 'nx', 'ny', 'nxb', 'nyb', 'nxf', 'nyf', 'r')


def c33(tier):
    ck = Check('C33', 'The panels, joints, loads and matrices every ready-made builder sets up, value-numbered on opaque arguments, are compared '
                      'with the geometry of the structure and the meaning of the arguments.')
    for n in (2, 3, 4) if tier != 'thorough' else range(2, 9):
        for spec in ((P + 'cylinder.py', 'create_cylinder_assy', 'cylinder_compression_lb_Nxx_cte',
                      'cylinder_compression_lb_Nxx_from_static', 'cylinder_spla', False),
                     (P + 'cylinder_blade_stiffened.py', 'create_cylinder_blade_stiffened',
                      'cylinder_blade_stiffened_compression_lb_Nxx_cte',
                      'cylinder_blade_stiffened_compression_lb_Nxx_from_static', None, True)):
            cylinder(ck, n, *spec)
    for kind in ('compression', 'flutter', 'freq'):
        for defect in (ZERO, None):
            for opt in (False, True):
                base = {} if defect is None else {'defect_a': ZERO}
                if not opt:
                    base.update({k: NONE for k in OPT})
                if kind == 'freq':
                    tstiff(ck, kind, base, '')
                    continue
                for run in (ONE, ZERO):
                    a = dict(base, run_static_case=run)
                    tstiff(ck, kind, a, '')
                    if kind == 'flutter':
                        tstiff(ck, kind, dict(a, Nxx_skin=NONE, Nxx_base=NONE, Nxx_flange=NONE), '')
                        tstiff(ck, kind, dict(a, Nxx_skin=NONE, Nxx_flange=NONE), '')
    ck.need('builder runs', 20)
    return ck


REGISTRY = {'C33': c33}
