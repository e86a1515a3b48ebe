"""C22 external force vectors: every registered load once, at its place, with its factor."""
from .. import flow as FL
from .. import kernels as K
from .. import proj
from .. import pylayer as PL
from ..kernels import sym, attr, A
from ..pylayer import NONE, S_, SHELL, attr_of
from ..poly import Poly, ONE, ZERO, show, atom_of
from ..report import Check

C = Poly.const
me = sym('self')
LISTS = {'point_loads': None, 'point_loads_inc': 'inc', 'distr_loads': None, 'distr_loads_inc': 'inc',
         'point_pds': None, 'point_pds_inc': 'inc', 'distr_pds': None, 'distr_pds_inc': 'inc'}
FG = ['g', 'x', 'y', 's']


def vague(v):
    return K.poly_mentions(v, lambda z: isinstance(z, tuple) and z[:1] in (
        ('unk',), ('join',), ('loopout',), ('phi',), ('noreturn',)))


def old_cell(a):
    return a[0] == 'phi' and isinstance(a[1], tuple) and a[1][:2] == ('h', 'cell')


class Term:
    """forces[k] times row k of the shape vector at (x, y), inside loops"""
    def __init__(self, loops, cond, x, y, panel, forces, line, idx):
        self.loops, self.cond, self.x, self.y, self.panel = loops, cond, x, y, panel
        self.forces, self.line, self.idx = forces, line, idx

    def mapped(self, fn, loops, cond=ONE):
        m = lambda p: p.map_atoms(fn) if isinstance(p, Poly) else p
        return Term(loops, m(self.cond) * cond, m(self.x), m(self.y), m(self.panel),
                    [m(f) for f in self.forces], self.line, self.idx)


class Leaf:
    def __init__(self, atom):
        self.atom = atom


class Forces:
    """additive contributions to a force vector of one analysed function"""

    def __init__(self, fl, st):
        self.fl, self.st = fl, st
        self.problems = []
        self.over = []
        self.last = []

    # -- rows of the shape vector
    def rows(self, v, at):
        """V -> {G: [force polys]}; None when not linear in rows of one shape vector"""
        out = {}
        for m, c in v.t.items():
            hit = None
            rest = []
            for i, e in m:
                a = atom_of(i)
                r = self.row(a)
                if r is not None:
                    if hit is not None or e != 1:
                        return None
                    hit = r
                else:
                    rest.append((i, e))
            if hit is None:
                return None
            g, fs = hit
            k = Poly({tuple(rest): c})
            cur = out.setdefault(g, {})
            for j, f in fs.items():
                cur[j] = cur.get(j, ZERO) + k * f
        return out

    def row(self, a):
        """atom -> (buffer atom, {row: factor})"""
        while True:
            if a[0] == 'call' and PL.callee_name(a) in ('ravel', 'flatten', 'copy', 'reshape', 'squeeze',
                                                        'asarray', 'array', 'ascontiguousarray'):
                f = a[1].single_atom()
                p = f[1] if f[0] == 'attr' else a[2][0] if a[2] else None
                q = p.single_atom() if p is not None else None
                if q is None or q[0] == 'obj':
                    return None
                a = q
                continue
            break
        if a[0] == 'idx' and len(a[2]) >= 1 and self.isbuf(a[1]):
            k = a[2][0].as_int() if isinstance(a[2][0], Poly) else None
            if k is None and not (len(a[2]) == 1 and a[2][0] == ZERO):
                return None
            return a[1].single_atom(), {k: ONE}
        pair = None
        if a[0] == 'matmul':
            pair = a[1], a[2]
        elif a[0] == 'call' and PL.callee_name(a) in ('dot', 'matmul') and len(a[2]) == 2:
            pair = a[2]
        if pair is None:
            # g[k] indexed result of a product: fpt.dot(g)[0]
            if a[0] == 'idx' and len(a[2]) == 1 and a[2][0] == ZERO:
                q = a[1].single_atom()
                return self.row(q) if q is not None and q[0] == 'matmul' else None
            return None
        l, r = pair
        g = r.single_atom()
        vec = l
        if g is not None and g[0] == 'attr' and g[2] == 'T':
            return None
        if g is None or g[0] != 'buf':
            g = l.single_atom()
            if g is not None and g[0] == 'attr' and g[2] == 'T':
                g = g[1].single_atom()
            vec = r
        if g is None or g[0] != 'buf':
            return None
        fs = self.vector(vec)
        return None if fs is None else (g, dict(enumerate(fs)))

    def isbuf(self, p):
        a = p.single_atom()
        return a is not None and a[0] == 'buf'

    def vector(self, p):
        tot = None
        for m, c in p.t.items():
            vec, rest = None, []
            for i, e in m:
                a = atom_of(i)
                v = None
                if a[0] == 'call' and PL.callee_name(a) in ('array', 'asarray', 'ravel') and e == 1:
                    f = a[1].single_atom()
                    v = self.items(a[2][0] if a[2] else f[1])
                elif a[0] == 'obj' and e == 1:
                    v = self.items(A(a))
                if v is not None:
                    if vec is not None:
                        return None
                    vec = v
                else:
                    rest.append((i, e))
            if vec is None:
                return None
            k = Poly({tuple(rest): c})
            cur = [k * x for x in vec]
            if tot is None:
                tot = cur
            elif len(tot) != len(cur):
                return None
            else:
                tot = [x + y for x, y in zip(tot, cur)]
        return tot

    def items(self, p):
        it = self.fl.getobj(p, self.st)
        a = p.single_atom()
        if it is not None and it[0] == 'list' and not it[2]:
            vs = it[1]
        elif a is not None and a[0] == 'tuple':
            vs = a[1]
        else:
            return None
        if len(vs) == 1 and vs[0].single_atom() is not None and vs[0].single_atom()[0] in ('obj', 'tuple'):
            return self.items(vs[0])
        return list(vs)

    # -- where the shape vector was evaluated
    def shape(self, g, pos, loops):
        """last evaluation of the load shape vector g before event number pos"""
        for e in reversed(self.fl.events[:pos]):
            if e.kind != 'call' or not isinstance(e.extra, tuple):
                continue
            b = e.extra[2] if len(e.extra) > 2 and e.extra[2] else None
            if b is None:
                b = PL.bind_args(FG, e.extra[0], e.extra[1]) or {}
            vals = list(b.values())
            if A(g) in vals and PL.callee(e) not in ('zeros', 'ravel', 'dot', 'array'):
                return e, b
        return None, None

    def terms(self, target):
        """contributions stored into buffer atom, or of a Poly"""
        out = []
        for n, e in enumerate(self.fl.events):
            if e.kind != 'store' or e.base.single_atom() != target:
                continue
            out += self.split(e.value, n, e.loops, e.cond(), e.line, e.index, e.op == '+=')
        return out

    def value_terms(self, v, line):
        """contributions of a value built by accumulation in loops"""
        out = []
        for lf in PL.rec_leaves(self.fl, v):
            a = lf.atom
            if a is None:
                if lf.coef != 0:
                    self.problems.append('constant contribution %s' % lf.coef)
                continue
            if a[0] == 'buf':
                out += self.terms(a)
                continue
            p = lf.cond * (a[1] if a[0] == 'prod' else A(a)).scale(lf.coef)
            out += self.split(p, len(self.fl.events), lf.loops, ONE, line, None, True, own=True)
        return out

    def split(self, v, pos, loops, cond, line, index, add, own=False):
        if not add:
            if v == ZERO:
                return []
            r = self.rows(v, pos)
            free = not any(K.poly_mentions(x, lambda z: isinstance(z, tuple) and z[:1] in (('lv',), ('elem',)))
                           for x in index or () if isinstance(x, Poly))
            if r and loops and free and cond == ONE:
                self.over.append((line, tuple(loops)))
            else:
                self.problems.append('line %s overwrites the force vector' % line)
            return []
        r = self.rows(v, pos)
        if r is None:
            # "f = g" read as "f += g - f": the former contents are dropped
            old = Poly({m: c for m, c in v.t.items() if len(m) == 1 and m[0][1] == 1 and c == -1 and
                        old_cell(atom_of(m[0][0]))})
            if len(old.t) == 1 and loops and cond == ONE and self.rows(v - old, pos):
                self.over.append((line, tuple(loops)))
                return []
            lst = self.left_behind(v, loops)
            if lst:
                self.last.append((line, lst))
            self.problems.append('line %s adds %s' % (line, show(v)[:120]))
            return []
        out = []
        for g, fs in r.items():
            e, b = self.shape(g, pos if not own else self.after(g, line), loops)
            if e is None:
                self.problems.append('line %s: shape vector %s is not evaluated' % (line, show(A(g))))
                continue
            ok = PL.callee(e) == 'fg'
            if not ok:
                self.problems.append('line %s: shape vector evaluated by %s' % (line, PL.callee(e)))
                continue
            out.append(Term(tuple(loops), cond, b.get('x'), b.get('y'), b.get('s'),
                            [fs.get(k, ZERO) for k in range(5)], line, index))
            out[-1].fg = e
        return out

    def left_behind(self, v, loops):
        """lists of loads of which the value only holds what their last element left in a variable"""
        out, seen, todo = [], set(), [v]
        inside = {l.id for l in loops if not isinstance(l, tuple)}

        def grab(z):
            if isinstance(z, tuple) and z[:1] == ('loopout',) and z not in seen:
                seen.add(z)
                lp = next((i[0] for i in self.fl.loopinfo.values() if i[0].id == z[2]), None)
                if lp is None or lp.iterable is None or lp.id in inside or z[2] not in self.fl.loop_end:
                    return False
                if any(K.poly_mentions(x[2], lambda q: isinstance(q, tuple) and q[:1] == ('brk',))
                       for x in self.fl.loop_end[z[2]][1].values()):
                    return False
                if PL.last_only(self.fl, Leaf(z)):
                    for val, _, _, it in self.variants(lp.iterable) or ():
                        if it is not None and it not in out:
                            out.append(it)
            return False
        K.poly_mentions(v, grab)
        return out

    def after(self, g, line):
        """event number after the last evaluation of g"""
        return len(self.fl.events)

    # -- elements of lists built in the function
    def variants(self, lst, depth=0):
        """list value -> [(value or None, loops, cond, iterable)]; value None: the raw elements"""
        a = lst.single_atom()
        if a is None or depth > 6:
            return None
        if a[0] == 'cat':
            out = []
            for x in a[1:]:
                v = self.variants(x, depth + 1)
                if v is None:
                    return None
                out += v
            return out
        if a[0] == 'call' and PL.callee_name(a) in ('list', 'tuple', 'chain', 'iter') and a[2]:
            out = []
            for x in a[2]:
                v = self.variants(x, depth + 1)
                if v is None:
                    return None
                out += v
            return out
        o = self.fl.getobj(lst, self.st)
        if o is not None:
            out = []
            for x in o[1]:
                q = x.single_atom()
                if q is not None and q[0] == 'ext':
                    v = self.variants(q[1], depth + 1)
                    if v is None:
                        return None
                    out += v
                    continue
                r = PL.unrep(x, self.fl)
                if r is None:
                    out.append((x, None, ONE, None))
                else:
                    lp = next((i[0] for i in self.fl.loopinfo.values() if i[0].id == r[0]), None)
                    out.append((r[2], r[0], r[1], lp.iterable if lp is not None else None))
            return out
        if a[0] == 'attr':
            return [(None, None, ONE, lst)]
        return None

    def component(self, v, k):
        """v[k] of a list-like value; loads have five components"""
        a = v.single_atom()
        if a is not None and a[0] == 'cat':
            first, rest = a[1], a[2:]
            it = self.items1(first)
            n = len(it) if it is not None else 5
            if k < 0:
                l = self.items1(rest[-1])
                if l is not None and -k <= len(l):
                    return l[k]
                return None
            if k < n:
                return self.component(first, k)
            if len(rest) == 1:
                return self.component(rest[0], k - n)
            return self.component(A(('cat',) + tuple(rest)), k - n)
        it = self.items1(v)
        if it is not None:
            return it[k] if -len(it) <= k < len(it) else None
        if a is not None:
            return A(('idx', v, (C(k),)))
        return None

    def items1(self, p):
        o = self.fl.getobj(p, self.st)
        a = p.single_atom()
        if o is not None and o[0] == 'list' and not o[2]:
            return list(o[1])
        if a is not None and a[0] == 'tuple':
            return list(a[1])
        return None

    def expand(self, t, depth=0):
        """replace elements of local lists by what was put there"""
        els = {}
        for p in [t.x, t.y, t.cond] + t.forces:
            if isinstance(p, Poly):
                collect(p, els)
        for el in els:
            v = self.variants(el[1])
            if v is None or all(x[0] is None and x[3] == el[1] for x in v):
                continue
            out = []
            for val, lid, cond, it in v:
                loops = []
                for l in t.loops:
                    i = iter_of(l)
                    if i == el[1]:
                        if it is not None:
                            loops.append((it, ('loop', lid if lid is not None else el[2])))
                    else:
                        loops.append(l)
                if val is None:
                    val = A(('elem', it, el[2]))
                fn = self.subst(el, val)
                out.append(t.mapped(fn, tuple(loops), cond))
            if depth > 8:
                return out
            return [z for y in out for z in self.expand(y, depth + 1)]
        return [t]

    def subst(self, el, val):
        def fn(i):
            a = atom_of(i)
            if a == el:
                return val
            if a[0] == 'idx' and len(a[2]) == 1 and isinstance(a[2][0], Poly):
                k = a[2][0].as_int()
                if a[1].single_atom() == el and k is not None:
                    return self.component(val, k)
                b = a[1].map_atoms(fn)
                if b != a[1]:
                    if k is not None:
                        r = self.component(b, k)
                        if r is not None:
                            return r
                    return A(('idx', b, a[2]))
            if a[0] == 'call':
                f2 = a[1].map_atoms(fn)
                a2 = tuple(x.map_atoms(fn) if isinstance(x, Poly) else x for x in a[2])
                if f2 != a[1] or a2 != a[2]:
                    return A(('call', f2, a2, a[3]))
            if a[0] == 'ind' and len(a) == 4:
                q = [x.map_atoms(fn) if isinstance(x, Poly) else x for x in a[2:]]
                if tuple(q) != a[2:]:
                    return A(('ind', a[1]) + tuple(q))
            return None
        return fn


def iter_of(l):
    return l[0] if isinstance(l, tuple) else l.iterable


def collect(p, out):
    for i in p.atoms():
        coll(atom_of(i), out)


def coll(a, out):
    if a[0] == 'elem':
        out[a] = True
    for x in a:
        if isinstance(x, Poly):
            collect(x, out)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Poly):
                    collect(y, out)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, Poly):
                            collect(z, out)


# ------------------------------------------------------------------ the panel
def idx_assume(cfg):
    """whether component k of a load is None: {k: bool}"""
    def hit(a, ks):
        if a[0] == 'ind' and a[1] == 'is' and NONE in (a[2], a[3]):
            v = a[3] if a[2] == NONE else a[2]
        elif a[0] == 'ind' and a[1] == 'truth':
            v = a[2]
        else:
            return None
        q = v.single_atom()
        if q is None or q[0] != 'idx' or len(q[2]) != 1 or not isinstance(q[2][0], Poly):
            return None
        b = q[1].single_atom()
        if b is None or b[0] not in ('elem', 'idx', 'belem'):
            return None
        k = q[2][0].as_int()
        return k if k in ks else None
    isn = lambda a: a[0] == 'ind' and a[1] == 'is' and hit(a, cfg) is not None
    tru = lambda a: a[0] == 'ind' and a[1] == 'truth' and hit(a, cfg) is not None and hit(a, cfg) > 1
    return {isn: (lambda a: cfg[hit(a, cfg)]), tru: (lambda a: not cfg[hit(a, cfg)])}


def run_fext(cfg, size_none):
    c = PL.cls(SHELL, 'Shell')
    f = c.methods['calc_fext']
    isstr = {(lambda a: a[0] == 'ind' and a[1] == 'truth' and K.poly_mentions(
        a[2], lambda z: z[0] == 'call' and PL.callee_name(z) == 'isinstance')): (lambda a: False),
        (lambda a: a[0] == 'ind' and a[1] == 'in' and K.poly_mentions(a[2], lambda z: z[0] == 'attr' and
                                                                      z[2] == 'model')): (lambda a: True)}
    asm = PL.merge(PL.none_assume({sym('size'): size_none}), idx_assume(cfg), isstr)
    fl = FL.Flow(proj.RESOLVE, assume=asm, self_class=c, inline=lambda g: g is f or (
        not g.module.path.endswith('.pyx') and g.name not in ('_rebuild', 'get_size', 'msg', 'warn')))
    fl.fold_globals = False
    st, ret = fl.run(f)
    return f, fl, st, ret


DIST = {'x fixed': {0: False, 1: True, 2: False, 3: False, 4: False},
        'y fixed': {0: True, 1: False, 2: False, 3: False, 4: False}}


def shape_of(fl, a):
    if a is None or a[0] != 'buf':
        return None
    s = fl.bufs.get(a[1], {}).get('shape')
    if isinstance(s, Poly):
        q = s.single_atom()
        return list(q[1]) if q is not None and q[0] == 'tuple' else [s]
    return list(s) if s is not None else None


def get_size_call(v):
    a = v.single_atom()
    return a is not None and a[0] == 'call' and PL.callee_name(a) == 'get_size'


def panel_size(v):
    return get_size_call(v) or v in (C(3) * attr('self', 'm') * attr('self', 'n'), attr('self', 'size'))


def shell_terms(ck, label, cfg, size_none=True):
    f, fl, st, ret = run_fext(cfg, size_none)
    wh = PL.wf(f)
    if ret is None:
        ck.bad('result', wh, 'fext:%s:raises' % label, 'Shell.calc_fext raises for loads with %s' % label)
        return None
    a = ret.single_atom()
    while a is not None and a[0] == 'call' and PL.callee_name(a) in ('asarray', 'array', 'ravel', 'copy') and a[2]:
        a = a[2][0].single_atom()
    F = Forces(fl, st)
    if a is None or a[0] != 'buf':
        ck.und('Shell.calc_fext returns %s' % show(ret)[:120])
        return None
    ts = F.terms(a)
    ts = [x for t in ts for x in F.expand(t)]
    for p in F.problems:
        ck.und('Shell.calc_fext (%s): %s' % (label, p))
    for line, lists in F.last:
        for it in lists:
            q = it.single_atom()
            if q is not None and q[0] == 'attr' and q[2] in LISTS:
                ck.bad('count', 'panels/shell_fext.py:%s' % line, 'fext:%s:last' % q[2], 'only the last of the loads '
                       'of %s is added' % q[2])
    for line, loops in F.over:
        ck.bad('overwrite', 'panels/shell_fext.py:%s' % line, 'fext:overwrite:%s' % label.replace(' ', '-'),
               'the contribution of a load replaces what was added before it')
        F.problems.append('overwritten')
    ck.count('force vector evaluations')
    # extent
    shp = shape_of(fl, a)
    want = (lambda v: panel_size(v)) if size_none else (lambda v: v == sym('size'))
    ck.count('force vector arguments')
    if shp is None or len(shp) != 1:
        ck.und('size of the force vector: %s' % (shp,))
    elif want(shp[0]):
        ck.ok(sample='size %s' % show(shp[0]))
    elif vague(shp[0]):
        ck.und('size of the force vector: %s' % show(shp[0])[:100])
    else:
        ck.bad('size', wh, 'fext:size:%s' % ('none' if size_none else 'given'), 'the force vector has size %s' %
               show(shp[0])[:100])
    return f, fl, st, F, ts, wh


def quad(fl, t, other):
    """quadrature loop of a term -> (points elem atom, weights elem atom, order Poly) or None"""
    for e in fl.events:
        if e.kind != 'call' or PL.callee(e) != 'get_points_weights':
            continue
        b = e.extra[2] if len(e.extra) > 2 else None
        if b is None:
            continue
        p, w = b.get('points'), b.get('weights')
        for l in other:
            it = iter_of(l)
            if it == p or it == w or it is not None and mention(it, p) or it is None and l_is_range(l, b.get('n')):
                return p, w, b.get('n'), e
    return None


def never_filled(fl, it):
    """arrays of zeros in the iterable of a loop that nothing writes to or hands on"""
    out = set()
    if it is None:
        return out
    bufs = set()
    whole = [it]
    a = it.single_atom()
    if a is not None and a[0] == 'tuple':
        whole = [x for y in a[1:] for x in (y if isinstance(y, tuple) else (y,)) if isinstance(x, Poly)]
    for v in whole:
        if v.single_atom() is not None and v.single_atom()[0] == 'buf':
            bufs.add(v.single_atom())
    for z in bufs:
        info = fl.bufs.get(z[1])
        hits = lambda v: isinstance(v, Poly) and K.poly_mentions(v, lambda y: y == z)
        if info is None or info.get('init') != 'zero':
            continue
        # allocations are numbered; reading the array in a loop or an expression is not a use that fills it
        if not any(e.kind in ('call', 'new', 'store', 'setitem', 'augname', 'mutate', 'setattr', 'badcall') and
                   (hits(e.base) and e.kind != 'augname' or
                    e.kind in ('call', 'new', 'setattr', 'badcall') and handed(e, hits)) for e in fl.events):
            out.add(z)
    return out


def handed(e, hits):
    if e.kind == 'setattr':
        return hits(e.value)
    if PL.callee(e) in ('zip', 'enumerate', 'len', 'range', 'reversed'):
        return False
    x = e.extra if isinstance(e.extra, (tuple, list)) else ()
    vals = list(x[0]) if len(x) > 0 else []
    kw = x[1] if len(x) > 1 else ()
    vals += list(kw.values()) if isinstance(kw, dict) else [v for _, v in kw]
    return any(hits(v) for v in vals)


def l_is_range(l, n):
    return not isinstance(l, tuple) and l.trip == n


def mention(p, q):
    return K.poly_mentions(p, lambda z: A(z) == q)


def shell_fext(ck):
    done = {}
    for label, cfg in DIST.items():
        r = shell_terms(ck, label, cfg)
        if r is None:
            continue
        f, fl, st, F, ts, wh = r
        clean = not F.problems
        count = {}
        for t in ts:
            name = next((l for l in LISTS if any(iter_of(x) == attr('self', l) for x in t.loops)), None)
            if name is None:
                ck.und('Shell.calc_fext (%s): line %s adds a load of %s' % (label, t.line, [
                    show(iter_of(x)) if iter_of(x) is not None else '?' for x in t.loops]))
                clean = False
                continue
            count[name] = count.get(name, 0) + 1
            one_term(ck, fl, t, name, label, 'panels/shell_fext.py:%s' % t.line)
        for l in LISTS:
            n = count.get(l, 0)
            ck.count('load lists')
            if n == 1:
                ck.ok()
            elif n or clean:
                ck.bad('count', wh, 'fext:%s:count:%s' % (l, label if 'distr' in l else 'point'),
                       'loads of %s are added %d times (%s)' % (l, n, label))
    shell_terms(ck, 'given size', DIST['x fixed'], size_none=False)
    # a component without function does not contribute
    for k, nm in ((2, 'x'), (3, 'y'), (4, 'z')):
        cfg = dict(DIST['x fixed'])
        cfg[k] = True
        r = shell_terms(ck, 'no %s function' % nm, cfg)
        if r is None:
            continue
        f, fl, st, F, ts, wh = r
        for t in ts:
            name = next((l for l in LISTS if any(iter_of(x) == attr('self', l) for x in t.loops)), None)
            if name is None or not name.startswith('distr'):
                continue
            v = t.forces[k - 2]
            ck.count('force vector arguments')
            if v == ZERO or zero_closure(fl, v):
                ck.ok()
            elif vague(v):
                ck.und('component without a function: %s' % show(v)[:100])
            else:
                ck.bad('force', 'panels/shell_fext.py:%s' % t.line, 'fext:%s:%s:none' % (name, nm),
                       'a load without %s function contributes %s' % (nm, show(v)[:100]))
    # both or none of the coordinates
    for label, cfg in (('both', {0: False, 1: False}), ('neither', {0: True, 1: True})):
        f, fl, st, ret = run_fext(cfg, True)
        ev = [e for e in fl.events if e.kind == 'raise' and e.loops]
        ck.count('force vector arguments')
        n = len({tuple(show(g) for g in [e.value]) + (e.line,) for e in ev if e.cond() != ZERO})
        if n >= 1:
            ck.ok()
        else:
            ck.bad('guard', PL.wf(f), 'fext:guard:' + label, 'an edge load with %s of the coordinates given is not '
                   'rejected' % label)


def zero_closure(fl, v):
    """a multiple of the value of a local function that returns zero"""
    for m, c in v.t.items():
        ok = False
        for i, e in m:
            a = atom_of(i)
            if a[0] == 'call':
                q = a[1].single_atom()
                if q is not None and q in getattr(fl, 'closures', {}):
                    fn = fl.closures[q][0]
                    import ast
                    b = fn.body
                    if len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Constant) and \
                            b[0].value.value == 0:
                        ok = True
        if not ok:
            return False
    return True


def one_term(ck, fl, t, name, label, wh):
    inst = 'fext:%s' % name
    lp = [l for l in t.loops if iter_of(l) == attr('self', name)]
    other = [l for l in t.loops if iter_of(l) != attr('self', name)]
    if len(lp) != 1:
        ck.bad('count', wh, inst + ':loop', 'loads of %s are added inside %d loops over them' % (name, len(lp)))
        return
    els = {}
    for p in [t.x, t.y] + t.forces:
        if isinstance(p, Poly):
            collect(p, els)
    e = next((x for x in els if x[1] == attr('self', name)), None)
    if e is None:
        ck.bad('coordinate', wh, inst + ':unused', 'the loads of %s are not used' % name)
        return
    E = lambda k: A(('idx', A(e), (C(k),)))
    s = sym('inc') if LISTS[name] else ONE
    ck.count('force vector arguments', 6)

    def cmp(rule, what, v, want):
        if v is None:
            ck.und('%s %s' % (inst, what))
        elif v == want:
            ck.ok(sample='%s %s = %s' % (name, what, show(v)))
        elif vague(v):
            ck.und('%s %s = %s' % (inst, what, show(v)[:120]))
        else:
            ck.bad(rule, wh, '%s:%s%s' % (inst, what, ':' + label.replace(' ', '-') if 'distr' in name else ''),
                   '%s of the loads in %s: %s, expected %s' % (what, name, show(v)[:160], show(want)[:160]))
    cmp('panel', 'panel', t.panel, me)
    if t.cond != ONE:
        if K.poly_mentions(t.cond, lambda z: z[0] in ('elem', 'idx')) or not vague(t.cond):
            ck.bad('count', wh, inst + ':cond', 'loads of %s are only added when %s' % (name, show(t.cond)[:100]))
        else:
            ck.und('%s added when %s' % (name, show(t.cond)[:80]))
    slice_ok(ck, t, inst, wh)
    if name.startswith('point'):
        if other:
            ck.bad('count', wh, inst + ':loops', 'loads of %s are added once more for every %s' %
                   (name, ', '.join(show(iter_of(x)) if iter_of(x) is not None else '?' for x in other)))
            return
        cmp('coordinate', 'x', t.x, E(0))
        cmp('coordinate', 'y', t.y, E(1))
        for k, c in enumerate('xyz'):
            cmp('force', 'f' + c, t.forces[k], E(2 + k) * s)
        for k in (3, 4):
            cmp('force', 'moment %d' % (k - 2), t.forces[k], ZERO)
    else:
        q = quad(fl, t, other)
        if q is None or len({key_loop(l) for l in other}) != 1:
            empty = sorted({b for l in other for b in never_filled(fl, iter_of(l))})
            if q is None and empty:
                ck.bad('quadrature', wh, '%s:unfilled' % inst, 'the %d arrays of zeros that the integral runs over are '
                       'never given points or weights' % len(empty))
                return
            ck.und('%s (%s): quadrature loop not recognised' % (inst, label))
            return
        p, w, n, ev = q
        rep = {}
        for i_ in list(els):
            if i_[1] == p:
                rep[i_] = sym('xi')
            elif i_[1] == w:
                rep[i_] = sym('weight')

        def canon(i):
            a = atom_of(i)
            if a in rep:
                return rep[a]
            if a[0] == 'idx' and len(a[2]) == 1:
                z = a[2][0].single_atom() if isinstance(a[2][0], Poly) else None
                if z is not None and z[0] == 'lv':
                    if a[1] == p:
                        return sym('xi')
                    if a[1] == w:
                        return sym('weight')
            if a[0] == 'call':
                f2 = a[1].map_atoms(canon)
                a2 = tuple(x.map_atoms(canon) if isinstance(x, Poly) else x for x in a[2])
                if f2 != a[1] or a2 != a[2]:
                    return A(('call', f2, a2, a[3]))
            return None
        cv = lambda v: v.map_atoms(canon) if isinstance(v, Poly) else v
        alongx = label == 'y fixed'
        d, n_ok, n_bad = ('a', ('m', 'nx'), ('n', 'ny')) if alongx else ('b', ('n', 'ny'), ('m', 'nx'))
        half = C(1) * attr('self', d).scale(__import__('fractions').Fraction(1, 2))
        X = (sym('xi') + ONE) * half
        cmp('coordinate', 'x', cv(t.x), X if alongx else E(0))
        cmp('coordinate', 'y', cv(t.y), E(1) if alongx else X)
        for k, c in enumerate('xyz'):
            fv = A(('call', E(2 + k), (X,), ()))
            cmp('force', 'f' + c, cv(t.forces[k]), fv * sym('weight') * half * s)
        for k in (3, 4):
            cmp('force', 'moment %d' % (k - 2), t.forces[k], ZERO)
        # order and arrays of the rule
        ck.count('force vector arguments')
        names = {x for x in n_ok + n_bad if K.poly_mentions(n, lambda z, x=x: z == ('attr', me, x))}
        shp = [shape_of(fl, z.single_atom()) for z in (p, w)]
        if names & set(n_ok) or n.as_int() is not None and n.as_int() >= 30:
            ck.ok()
        elif names:
            ck.bad('quadrature', PL.where(ev), '%s:order:%s' % (inst, d), 'the integral along %s uses %s points, '
                   'the terms along it are %s' % ('x' if alongx else 'y', show(n), n_ok[0]))
        else:
            ck.und('%s: order %s' % (inst, show(n)))
        for z in shp:
            if z is None:
                continue
            ck.count('force vector arguments')
            if len(z) == 1 and z[0] == n:
                ck.ok()
            elif len(z) == 1 and not vague(z[0]):
                ck.bad('quadrature', PL.where(ev), '%s:extent:%s' % (inst, d), 'the arrays of the integration rule '
                       'have %s entries, its order is %s' % (show(z[0]), show(n)))


def key_loop(l):
    return l[1] if isinstance(l, tuple) else ('loop', l.id)


def slice_ok(ck, t, inst, wh):
    if t.idx is None or len(t.idx) != 1:
        ck.und('%s: stored at %s' % (inst, t.idx))
        return
    a = t.idx[0].single_atom()
    if a is None or a[0] != 'slice':
        ck.und('%s: stored at %s' % (inst, show(t.idx[0])))
        return
    lo, hi = a[1], a[2]
    if lo == sym('col0') and hi != NONE and panel_size(hi - lo):
        ck.ok(sample='range %s:%s' % (show(lo), show(hi)))
    elif vague(lo) or vague(hi):
        ck.und('%s: range %s:%s' % (inst, show(lo), show(hi)))
    else:
        ck.bad('range', wh, inst + ':range', 'loads are added at %s:%s, expected col0:col0 + size of the panel' %
               (show(lo)[:60], show(hi)[:60]))


# ------------------------------------------------------------------ registration
def registration(ck):
    c = PL.cls(SHELL, 'Shell')
    x, y = sym('x'), sym('y')
    S = {'add_point_load': ('point_loads', [x, y, sym('fx'), sym('fy'), sym('fz')]),
         'add_distr_load_fixed_x': ('distr_loads', [x, NONE, sym('funcx'), sym('funcy'), sym('funcz')]),
         'add_distr_load_fixed_y': ('distr_loads', [NONE, y, sym('funcx'), sym('funcy'), sym('funcz')]),
         'add_point_pd': ('point_pds', [x, y, sym('ku') * sym('up'), sym('kv') * sym('vp'), sym('kw') * sym('wp')]),
         'add_distr_pd_fixed_x': ('distr_pds', [x, NONE, ('ku', 'funcu'), ('kv', 'funcv'), ('kw', 'funcw')]),
         'add_distr_pd_fixed_y': ('distr_pds', [NONE, y, ('ku', 'funcu'), ('kv', 'funcv'), ('kw', 'funcw')])}
    for name, (lst, want) in S.items():
        if name not in c.methods:
            ck.und('Shell.%s does not exist' % name)
            continue
        f = c.methods[name]
        opt = [p for p in f.param_names() if p[:4] == 'func' or lst == 'distr_pds' and p in ('ku', 'kv', 'kw')]
        for cte in (True, False):
            for absent in [()] + ([('u', 'x'), ('v', 'y'), ('w', 'z'), ('u', 'x', 'v', 'y'), ('u', 'x', 'w', 'z'),
                                   ('v', 'y', 'w', 'z')] if opt else []):
                gone = [p for p in opt if p[-1] in absent]
                asm = PL.merge(PL.none_assume({sym(p): p in gone for p in opt}),
                               PL.truth_assume(dict({sym('cte'): cte}, **{})),
                               PL.truth_assume({sym(p): p not in gone for p in opt}))
                fl = FL.Flow(proj.RESOLVE, assume=asm, self_class=c, inline=lambda g: g is f or g.module is f.module
                             and g.name != '_scaled')
                st, ret = fl.run(f, {p: NONE for p in gone})
                ck.count('registrations')
                wh = PL.wf(f)
                inst = '%s:%s' % (name, 'cte' if cte else 'inc')
                if ret is None:
                    ck.bad('register', wh, inst + ':raises', '%s rejects a load without %s' % (name, ', '.join(gone) or
                                                                                               'any omission'))
                    continue
                target = lst if cte else lst + '_inc'
                hits = [e for e in fl.events if e.kind in ('mutate', 'append') and e.cond() != ZERO]
                lists = []
                for e in hits:
                    a = e.base.single_atom()
                    lists.append(a[2] if a is not None and a[0] == 'attr' and a[1] == me else show(e.base))
                if len(hits) != 1 or hits[0].cond() != ONE:
                    (ck.und if not lists or any(vague(e.base) for e in hits) else
                     lambda m: ck.bad('register', wh, inst + ':count', m))(
                        '%s registers a load in %s' % (name, lists))
                    continue
                e = hits[0]
                if lists[0] != target:
                    ck.bad('register', PL.where(e), inst + ':list', '%s(cte=%s) registers the load in %s, expected '
                           'self.%s' % (name, cte, lists[0], target))
                    continue
                v = e.value if e.kind == 'append' else e.extra[0][0]
                it = Forces(fl, st).items1(v)
                if it is None or len(it) != 5:
                    ck.und('%s registers %s' % (name, show(v)[:100])) if it is None else ck.bad(
                        'register', PL.where(e), inst + ':length', '%s registers %d components' % (name, len(it)))
                    continue
                for k, w in enumerate(want):
                    ck.count('force vector arguments')
                    g = it[k]
                    if isinstance(w, tuple):
                        if w[1] in gone:
                            w = NONE
                        else:
                            ok = product_of(fl, st, g, sym(w[0]), sym(w[1]))
                            if ok:
                                ck.ok(sample='%s: %s' % (name, show(g)[:80]))
                            elif ok is None or vague(g):
                                ck.und('%s component %d: %s' % (name, k, show(g)[:100]))
                            else:
                                ck.bad('register', PL.where(e), '%s:%d' % (inst, k), '%s registers %s, expected %s '
                                       'times %s' % (name, show(g)[:100], w[0], w[1]))
                            continue
                    elif w.single_atom() is not None and w.single_atom()[0] == 'sym' and \
                            w.single_atom()[1] in gone:
                        w = NONE
                    if g == w:
                        ck.ok()
                    elif vague(g):
                        ck.und('%s component %d: %s' % (name, k, show(g)[:100]))
                    else:
                        ck.bad('register', PL.where(e), '%s:%d' % (inst, k), '%s registers %s at position %d, '
                               'expected %s' % (name, show(g)[:100], k, show(w)[:60]))


def product_of(fl, st, g, k, fn):
    """g(p) == k fn(p)"""
    a = g.single_atom()
    p = sym('position')
    want = k * A(('call', fn, (p,), ()))
    if a is None:
        return None
    if a[0] == 'call' and PL.callee_name(a) == 'partial' and a[2]:
        q = a[2][0].single_atom()
        if q is None or q[0] not in ('func', 'closure'):
            return None
        f = proj.RESOLVE and FL.FE.load(q[1]).funcs.get(q[2]) if q[0] == 'func' else fl.closures[q][0]
        names = f.param_names()
        args = dict(zip(names, a[2][1:]))
        args.update(dict(a[3]))
        rest = [x for x in names if x not in args]
        if not rest:
            return None
        args[rest[0]] = p
        f2 = FL.Flow(proj.RESOLVE, inline=lambda g_: g_ is f)
        st2, r = f2.run(f, args)
        return r == want if r is not None else False
    if a[0] == 'closure':
        f, env = fl.closures[a]
        names = f.param_names()
        import ast
        body = f.body[-1].value if f.body and isinstance(f.body[-1], ast.Return) else None
        if body is None:
            return None
        s2 = FL.State({**env, **fl.closure_info[a][1], names[0]: p}, dict(st.heap), ())
        fl.frames.append(FL.Frame(f))
        try:
            r = fl.ev(body, s2)
        except Exception:
            return None
        finally:
            fl.frames.pop()
        return r == want
    if a[0] == 'sym':
        return False
    return None


# ------------------------------------------------------------------ point constraint
def point_constraint(ck):
    c = PL.cls(SHELL, 'Shell')
    name = 'calc_stiffness_point_constraint'
    if name not in c.methods:
        return
    f = c.methods[name]
    flags = ('u', 'v', 'w', 'phix', 'phiy')
    for k, fl_on in enumerate(flags):
        asm = PL.truth_assume({sym(x): x == fl_on for x in flags})
        fl = FL.Flow(proj.RESOLVE, assume=asm, self_class=c, inline=lambda g: g is f or g.module is f.module and
                     g.name not in ('get_size', '_rebuild'))
        st, ret = fl.run(f)
        wh = PL.wf(f)
        inst = 'point-constraint:%s' % fl_on
        ck.count('point constraints')
        if ret is None:
            ck.bad('result', wh, inst, 'calc_stiffness_point_constraint returns nothing')
            continue
        pen = sym('kuvw') if k < 3 else sym('kphi')
        terms = []
        for lf in PL.leaves(ret):
            unit, atom = PL.split_prod(lf)
            if atom is None or atom[0] != 'call':
                terms.append(None)
                continue
            if PL.callee_name(atom) not in ('outer',) or len(atom[2]) != 2:
                terms.append(None)
                continue
            terms.append((unit.scale(lf.coef) * lf.cond if lf.atom[0] != 'prod' else unit.scale(lf.coef) * lf.cond,
                          atom[2]))
        if None in terms:
            ck.und('point constraint: %s' % show(ret)[:140])
            continue
        good = False
        if len(terms) == 1:
            cf, (l, r) = terms[0]
            a = l.single_atom()
            if l == r and a is not None and a[0] == 'idx' and a[2][0] == C(k):
                e, b = Forces(fl, st).shape(a[1].single_atom(), len(fl.events), ())
                if e is None:
                    ck.und('point constraint: shape vector not evaluated')
                    continue
                good = cf == pen and (b.get('x'), b.get('y'), b.get('s')) == (sym('x'), sym('y'), me)
        if good:
            ck.ok(sample='%s: %s g g^T' % (fl_on, show(pen)))
        elif vague(ret):
            ck.und('point constraint: %s' % show(ret)[:140])
        else:
            ck.bad('constraint', wh, inst, 'constraining %s gives %s' % (fl_on, show(ret)[:200]))


# ------------------------------------------------------------------ the bay
def bay_forces(ck, run, attrs):
    r = run('panels/stiffpanelbay/stiffpanelbay.py', 'StiffPanelBay', 'calc_fext', attrs)
    if r is None:
        return
    f, fl, st, ret = r
    wh = PL.wf(f)
    ck.count('force vector evaluations')
    if ret is None or ret == NONE:
        ck.bad('result', wh, 'bay:calc_fext:none', 'StiffPanelBay.calc_fext returns nothing')
        return
    skin, flange, loop = pieces(fl, ret)
    if skin is None:
        ck.und('StiffPanelBay.calc_fext returns %s' % show(ret)[:140])
        return
    parts = (('skin', skin, attr('self', 'forces_skin'), me), ('flange', flange, None, None))
    for nm, v, lst, panel in parts:
        if v is None:
            ck.bad('count', wh, 'bay:calc_fext:%s' % nm, 'the forces on the %s do not reach the force vector' % nm)
            continue
        if any(PL.last_only(fl, lf) or leftover(fl, st, lf.atom, loop, nm) for lf in PL.leaves(v)):
            ck.bad('count', wh, 'bay:calc_fext:%s:last' % nm, 'only the last force on the %s reaches the force vector: '
                   'every iteration replaces what the ones before it added' % nm)
            continue
        F = Forces(fl, st)
        ts = F.value_terms(v, f.lineno)
        ts = [x for t in ts for x in F.expand(t)]
        for p in F.problems:
            ck.und('StiffPanelBay.calc_fext, %s: %s' % (nm, p))
        if nm == 'flange':
            s = A(('elem', loop.iterable, loop.id))
            lst, panel = attr_of(s, 'forces_flange'), attr_of(s, 'flange')
        n = 0
        for t in ts:
            if not any(iter_of(l) == lst for l in t.loops):
                ck.und('StiffPanelBay.calc_fext, %s: loops over %s' % (nm, [show(iter_of(l)) for l in t.loops if
                                                                         iter_of(l) is not None]))
                F.problems.append('')
                continue
            n += 1
            els = {}
            for p in [t.x, t.y] + t.forces:
                if isinstance(p, Poly):
                    collect(p, els)
            e = next((x for x in els if x[1] == lst), None)
            if e is None:
                ck.bad('coordinate', wh, 'bay:calc_fext:%s:unused' % nm, 'the forces of the %s are not used' % nm)
                continue
            E = lambda k: A(('idx', A(e), (C(k),)))
            for what, g, w in (('x', t.x, E(0)), ('y', t.y, E(1)), ('panel', t.panel, panel), ('fx', t.forces[0], E(2)),
                               ('fy', t.forces[1], E(3)), ('fz', t.forces[2], E(4))):
                ck.count('force vector arguments')
                if g == w:
                    ck.ok()
                elif g is None or vague(g):
                    ck.und('bay force %s: %s' % (what, g))
                else:
                    ck.bad('force', wh, 'bay:calc_fext:%s:%s' % (nm, what), '%s of the forces on the %s: %s, expected '
                           '%s' % (what, nm, show(g)[:100], show(w)[:100]))
        if n == 1:
            ck.ok()
        elif not F.problems:
            ck.bad('count', wh, 'bay:calc_fext:%s:count' % nm, 'the forces on the %s are added %d times' % (nm, n))
        shp = extent(fl, v)
        ck.count('force vector arguments')
        okv = (lambda z: z == C(3) * attr('self', 'm') * attr('self', 'n')) if nm == 'skin' else \
            (lambda z: z == C(3) * attr_of(panel, 'm') * attr_of(panel, 'n') or get_size_call(z) and (
                z.single_atom()[1].single_atom()[1] == panel or dict(z.single_atom()[3]).get('self') == panel))
        if shp is None:
            ck.und('extent of the %s forces' % nm)
        elif okv(shp):
            ck.ok(sample='%s forces: %s entries' % (nm, show(shp)))
        elif vague(shp) or K.poly_mentions(shp, lambda z: z[0] in ('idx', 'call')):
            ck.und('extent of the %s forces: %s' % (nm, show(shp)[:100]))
        else:
            ck.bad('size', wh, 'bay:calc_fext:%s:size' % nm, 'the forces on the %s take %s entries' %
                   (nm, show(shp)[:100]))


def leftover(fl, st, a, loop, nm):
    """the piece is built from the element of a loop over the forces, outside of that loop"""
    if a is None or a[0] in ('loopout', 'phi'):
        return False
    found, objs, todo = {}, set(), [A(a)]
    while todo:
        p = todo.pop()
        collect(p, found)
        ids = set()
        K.poly_mentions(p, lambda z: z[0] == 'obj' and ids.add(z[1]) is not None)
        for i in ids - objs:
            objs.add(i)
            o = st.heap.get(('obj', i))
            if o is not None and o[0] in ('list', 'tuple'):
                todo += [x for x in o[1] if isinstance(x, Poly)]
    for e in found:
        if e[2] in fl.loop_end and e[2] != (loop.id if loop is not None else None) and \
                K.poly_mentions(e[1], lambda z: z[0] == 'attr' and z[2] == (
                    'forces_skin' if nm == 'skin' else 'forces_flange')):
            return True
    return False


def extent(fl, v, depth=0):
    a = v.single_atom()
    while a is not None and a[0] in ('loopout', 'phi') and depth < 6:
        lp = fl.loop_end.get(a[2])
        rec = None
        if lp is not None:
            for k, r in lp[1].items():
                if r[0].single_atom() == a or r[0] == a[1] or k == ('e', a[1]) or r[0].single_atom() == a[1]:
                    rec = r
        if rec is None:
            return None
        a = rec[1].single_atom()
        depth += 1
    if a is None:
        for i in v.atoms():
            b = atom_of(i)
            if b[0] == 'buf':
                shp = shape_of(fl, b)
                return shp[0] if shp and len(shp) == 1 else None
        return None
    if a[0] == 'buf':
        shp = shape_of(fl, a)
        return shp[0] if shp and len(shp) == 1 else None
    return None


def pieces(fl, ret):
    """(skin vector, flange vector, loop over stiffeners) of a vector concatenated in a loop"""
    a = ret.single_atom()
    if a is None or a[0] != 'loopout' or a[2] not in fl.loop_end:
        return None, None, None
    lp, recs = fl.loop_end[a[2]]
    rec = None
    for k, v in recs.items():
        if v[0] == a[1] or k == ('e', a[1]) or v[0].single_atom() == a[1]:
            rec = v
    if rec is None:
        return None, None, None
    phi, v0, vend = rec
    if lp.iterable != attr('self', 'bladestiff2ds'):
        q = vend.single_atom()
        # an inner loop that leaves the vector alone
        return None, None, None
    flange = None
    for m, c in vend.t.items():
        for i, e in m:
            b = atom_of(i)
            if b[0] == 'call' and PL.callee_name(b) in ('concatenate', 'hstack', 'append') and b[2]:
                it = b[2][0].single_atom()
                parts = it[1] if it is not None and it[0] == 'tuple' else b[2][:2]
                o = fl.getobj(b[2][0], fl.final) if hasattr(fl, 'final') else None
                if len(parts) == 2 and parts[0] == phi:
                    flange = parts[1]
                elif len(parts) == 2:
                    return v0, None, lp
    return v0, flange, lp


def c22(tier):
    ck = Check('C22', 'Value numbering of the force vector: each store into it as forces times the rows of the load '
               'shape vector last evaluated; elements of the load lists, integration loops, scale and range of every '
               'store compared with the virtual work; what every add_* method appends')
    shell_fext(ck)
    registration(ck)
    from . import bay
    bay_forces(ck, bay.run, bay.BAYATTRS)
    ck.need('force vector evaluations', 3)
    ck.need('registrations', 12)
    return ck


REGISTRY = {'C22': c22}
