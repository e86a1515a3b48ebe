"""C10, C11: recovery of displacements and strains, and the load shape vector."""
from .. import kernels as K
from .. import specs as SP
from .. import flow as FL
from .. import proj
from ..kernels import sym, attr, A, Q, S
from ..poly import Poly, ONE, ZERO, show, atom_of, close, show_mono
from ..report import Check
from . import results as RS

REL = 'panels/models/clpt_bardell_field.pyx'
C = Poly.const
COPY = {'numpy.reshape', 'numpy.ravel', 'numpy.ascontiguousarray', 'numpy.asarray', 'numpy.array',
        'numpy.atleast_1d', 'numpy.require', 'numpy.copy', 'numpy.asanyarray'}
COPYM = {'reshape', 'ravel', 'flatten', 'copy', 'astype'}
FRONT = {'numpy.hstack', 'numpy.concatenate'}


def order_ok(kw):
    d = dict(kw)
    return 'order' not in d or d['order'] == FL.sstr('C')


def rowmajor(p):
    """array with the elements of the result at the front, in the same row-major order -> base"""
    a = p.single_atom()
    while a is not None and a[0] == 'call':
        f = a[1].single_atom()
        if f is None or not order_ok(a[3]):
            return None
        if f[0] == 'attr' and f[2] in COPYM:
            p = f[1]
        elif f[0] == 'ext' and f[1] in COPY and a[2]:
            p = a[2][0]
        elif f[0] == 'ext' and f[1] in FRONT and a[2]:
            t = a[2][0].single_atom()
            if t is None or t[0] != 'tuple' or not t[1]:
                return None
            p = t[1][0]
        elif f[0] == 'ext' and f[1] == 'numpy.append' and a[2]:
            p = a[2][0]
        elif f[0] == 'ext' and f[1] == 'numpy.pad' and len(a[2]) > 1:
            t = a[2][1].single_atom()
            if t is None or t[0] != 'tuple' or t[1][0] != ZERO:
                return None
            p = a[2][0]
        else:
            return None
        a = p.single_atom()
    return p


class Pts:
    """location of the shape functions = the point stored at"""

    def __init__(self, owner, index):
        self.o, self.index = owner, index

    def loc(self, p, axis):
        half, src = (attr(self.o, 'a'), 'xs') if axis == 'x' else (attr(self.o, 'b'), 'ys')
        q = (p + ONE) * half.scale(K.Fraction(1, 2))
        a = q.single_atom()
        if a is None:
            return None
        if a[0] == 'idx' and a[2] == self.index and rowmajor(a[1]) == sym(src):
            return 'q'
        return None

    def atom(self, n, args):
        return None


def mod_assume(v):
    def pred(a):
        return a[0] == 'ind' and a[1] in ('eq', 'truth') and isinstance(a[2], Poly) and K.poly_mentions(
            a[2], lambda y: y == ('fn', 'mod'))

    def val(a):
        return v if a[1] == 'eq' else not v
    return {pred: val}


def r_assume(cyl):
    def one(a):
        return isinstance(a, tuple) and len(a) == 3 and a[0] == 'attr' and a[2] == 'r'

    def pred(a):
        return a[0] == 'ind' and a[1] in ('eq', 'truth') and isinstance(a[2], Poly) and \
            a[2].single_atom() is not None and one(a[2].single_atom())

    def val(a):
        return (not cyl) if a[1] == 'eq' else cyl
    return {pred: val}


def where(e):
    return K.where_of(e)


def final_value(ck, fl, buf, fn, case):
    """value of one output buffer after the call, at its own indices -> (poly, index, event)"""
    evs = [e for e in fl.events if e.kind == 'store' and e.base == buf]
    if not evs:
        ck.und('%s: no stores into a returned array' % fn)
        return None
    cur = ZERO
    shape = fl.bufs[buf.single_atom()[1]]['shape']
    last = None
    zero = fl.bufs[buf.single_atom()[1]]['init'] == 'zero'
    groups = []
    for e in evs:
        ids = tuple(l.id for l in e.loops)
        if groups and groups[-1][0] == ids:
            groups[-1][1].append(e)
        else:
            groups.append((ids, [e]))
    idx0 = None
    for ids, es in groups:
        val = None
        for e in es:
            if e.cond() != ONE:
                if FL.deps(e.cond()):
                    ck.bad('every-point', where(e), '%s:%s' % (fn, case), '%s: an output is only written '
                           'when %s' % (fn, show(e.cond())))
                else:
                    ck.und('%s: an output is only written when %s' % (fn, show(e.cond())))
                return None
            dims = tuple(shape.single_atom()[1]) if shape.single_atom() and \
                shape.single_atom()[0] == 'tuple' else (shape,)
            want = tuple(l.lv() for l in e.loops)
            trips = tuple(l.trip for l in e.loops)
            if len(e.index) != len(dims) or set(e.index) != set(want) or len(want) != len(dims):
                ck.und('%s: output index %s not recognised' % (fn, [show(i) for i in e.index]))
                return None
            tr = {l.lv(): l.trip for l in e.loops}
            for i, d in zip(e.index, dims):
                if tr[i] != d:
                    ck.bad('every-point', where(e), '%s:trip' % fn, '%s: output index runs over %s, '
                           'the array has %s' % (fn, show(tr[i]), show(d)))
                    return None
            idx = e.index
            prev = cur if val is None else val
            if idx0 is not None and idx != idx0:
                sub = {a.single_atom(): b for a, b in zip(idx0, idx)}
                prev = FL.rebuild(prev, lambda x: sub.get(x))
            v = e.full if e.full is not None else e.value
            if e.op in ('+=', '-=') and e.full is None:
                v = A(('idx', buf, idx)) + e.value
            if e.op == '=':
                v = e.value
            self_at = ('idx', buf, idx)

            def rb(x, self_at=self_at, prev=prev):
                return prev if x == self_at else None
            val = FL.rebuild(v, rb)
            idx0 = idx
            last = e
        cur = val
    return cur, idx0, last, dims if evs else None


def check_outputs(ck, fn, fl, ret, names, spec, case, canon_for):
    """names in return order; spec: name -> canonical polynomial"""
    t = ret.single_atom() if ret is not None else None
    if t is None or t[0] != 'tuple':
        ck.und('%s: return value not a tuple of arrays' % fn)
        return
    if len(t[1]) != len(names):
        ck.bad('returned', REL, '%s:count' % fn, '%s returns %d arrays, expected %d' %
               (fn, len(t[1]), len(names)))
        return
    for k, (nm, r) in enumerate(zip(names, t[1])):
        coef, a = ONE, r.single_atom()
        if a is None and len(r.t) == 1:
            (m, c), = r.t.items()
            if len(m) == 1 and m[0][1] == 1:
                coef, a = C(c), atom_of(m[0][0])
        if a is not None and a[0] == 'idx' and len(a[2]) == 1:
            s = a[2][0].single_atom()
            if s is not None and s[0] == 'slice':
                if s[1] not in (FL.NONE, ZERO) or s[3] not in (FL.NONE, ONE):
                    ck.bad('every-point', REL, '%s:%s:slice' % (fn, nm), '%s: the returned %s is the '
                           'slice %s' % (fn, nm, show(a[2][0])))
                    continue
                n = s[2].single_atom()
                if not (n is not None and ((n[0] == 'idx' and n[1].single_atom() in
                        (('attr', sym('xs'), 'shape'), ('attr', sym('ys'), 'shape')) and n[2] == (ZERO,))
                        or n in (('attr', sym('xs'), 'size'), ('attr', sym('ys'), 'size')) or
                        (n[0] == 'call' and n[1] == A(('fn', 'len'))))):
                    ck.bad('every-point', REL, '%s:%s:slice' % (fn, nm), '%s: the returned %s is cut to '
                           '%s elements' % (fn, nm, show(s[2])))
                    continue
                a = a[1].single_atom()
        b = rowmajor(A(a)) if a is not None else None
        ba = b.single_atom() if b is not None else None
        if ba is None or ba[0] != 'buf':
            ck.und('%s: returned %s not recognised: %s' % (fn, nm, show(r)[:120]))
            continue
        got = final_value(ck, fl, b, fn, case)
        if got is None:
            continue
        val, idx, ev, dims = got
        cn = canon_for(idx)
        v = cn(val) * coef
        df = close(v, spec[nm])
        ck.count('field outputs')
        if df is None:
            ck.ok(sample='%s:%s [%s] %s = %s' % (REL, fn, case, nm, show(v, limit=3)))
            continue
        unk = [x for x in K.unknown_atoms(v) if x[0] not in ('Sbad', 'qbad')]
        if unk:
            txt = K.settle(v, spec[nm], unk, fl)
            if txt:
                ck.bad('field', where(ev), '%s:%s:part' % (fn, nm), '%s [%s]: %s %s' % (fn, case, nm, txt))
                continue
            ck.und('%s [%s]: %s contains %s' % (fn, case, nm, K.show_atom_short(unk[0])))
            continue
        m, cg, ce = df
        ck.bad('field', where(ev), '%s:%s' % (fn, nm), '%s [%s]: %s differs from its definition: term %s '
               'has factor %s, expected %s' % (fn, case, nm, show_mono(m), K.fr(cg), K.fr(ce)))
    # every worker writes a row of its own
    for e in fl.events:
        pr = [l for l in e.loops if l.prange]
        if e.kind != 'store' or not pr or e.base.single_atom() is None or \
                e.base.single_atom()[0] != 'buf':
            continue
        if fl.bufs[e.base.single_atom()[1]].get('kind') != 'numpy':
            continue
        if not any(i == pr[0].lv() for i in e.index):
            ck.bad('race', where(e), '%s:race' % fn, '%s: concurrent workers write the same elements' % fn)
        else:
            ck.ok()


def run(fn, assume, args=None):
    f = proj.func(REL, fn)
    fl = FL.Flow(proj.RESOLVE, assume=assume, externs=dict(K.EXTERNS))
    st, ret = fl.run(f, args)
    return f, fl, st, ret


def canon(idx):
    cn = K.Canon({}, gauss=Pts('s', idx), u='c', ubase=ZERO)
    return cn


CASES = (('points a multiple of the workers', True), ('padded points', False))


def c10(tier):
    ck = Check('C10', 'Value numbering of the field kernels and of their worker loops gives each recovered '
               'quantity at the index it is stored at; compared with the Ritz sums; the load shape vector '
               'stores are compared with the derivatives of the same five quantities')
    a, b = attr('s', 'a'), attr('s', 'b')
    qq = lambda al, p, q: Q(al, 'uvw'[al], p, q, 's')
    spec = {'u': qq(0, 0, 0), 'v': qq(1, 0, 0), 'w': qq(2, 0, 0),
            'phix': C(-2) / a * qq(2, 1, 0), 'phiy': C(-2) / b * qq(2, 0, 1)}
    for case, v in CASES:
        f, fl, st, ret = run('fuvw', mod_assume(v))
        check_outputs(ck, 'fuvw', fl, ret, ('u', 'v', 'w', 'phix', 'phiy'), spec, case, canon)
    # load shape vector
    f, fl, st, ret = run('fg', {})
    sh = lambda al, p, q: S('A', 'x', 's', 'uvw'[al], p, 'pt') * S('A', 'y', 's', 'uvw'[al], q, 'pt')
    want = {(0, 0): sh(0, 0, 0), (1, 1): sh(1, 0, 0), (2, 2): sh(2, 0, 0),
            (3, 2): C(-2) / a * sh(2, 1, 0), (4, 2): C(-2) / b * sh(2, 0, 1)}

    class Pt:
        def loc(self, p, axis):
            half, src = (a, 'x') if axis == 'x' else (b, 'y')
            return 'pt' if (p + ONE) * half.scale(K.Fraction(1, 2)) == sym(src) else None

        def atom(self, n, args):
            return None
    got = {}
    for e in fl.events:
        if e.kind != 'store' or e.base != sym('g'):
            continue
        ix = e.index
        row = ix[0].as_int() if ix else None
        d = K.decode_index(ix[1]) if len(ix) == 2 else None
        if row is None or d is None:
            ck.und('fg: store index %s not decoded' % [show(i) for i in ix])
            continue
        if d['base'] != ZERO or d['xc'] != 3 or d['yc'] != 3 or d['stride'] != attr('s', 'm') or \
                K.trip_of(d['x'], e.loops) != attr('s', 'm') or \
                K.trip_of(d['y'], e.loops) != attr('s', 'n'):
            ck.bad('amplitude-index', where(e), 'fg:index', 'fg: column %s is not the amplitude '
                   '3*(m*j + i) + component with i over m, j over n' % show(ix[1]))
            continue
        if e.cond() != ONE:
            ck.und('fg: store conditional on %s' % show(e.cond()))
            continue
        cn = K.Canon({d['x']: ('A', 'x'), d['y']: ('A', 'y')}, gauss=Pt())
        k = (row, d['alpha'])
        v = cn(e.value)
        if e.op == '+=':
            v = v + got.get(k, (ZERO, e))[0]
        got[k] = (v, e)
    for k in sorted(set(want) | set(got)):
        ck.count('load shape entries')
        nm = '%s row, %s amplitude' % (('u', 'v', 'w', 'phix', 'phiy')[k[0]] if 0 <= k[0] < 5 else k[0],
                                       'uvw'[k[1]] if 0 <= k[1] < 3 else k[1])
        if k not in got:
            if ck.undecided or any(v[0] == 'amplitude-index' for v in ck.violations):
                ck.und('fg: %s not found' % nm)
            else:
                ck.bad('missing', REL, 'fg:%s' % nm, 'fg: %s is never set' % nm)
            continue
        v, e = got[k]
        df = close(v, want.get(k, ZERO))
        if df is None:
            ck.ok(sample='fg %s = %s' % (nm, show(v)))
            continue
        unk = [x for x in K.unknown_atoms(v) if x[0] not in ('Sbad', 'qbad')]
        if unk:
            ck.und('fg: %s contains %s' % (nm, K.show_atom_short(unk[0])))
            continue
        m, cg, ce = df
        ck.bad('field', where(e), 'fg:%s' % nm, 'fg: %s: term %s has factor %s, expected %s' %
               (nm, show_mono(m), K.fr(cg), K.fr(ce)))
    RS.shell_fields(ck, 'uvw')
    ck.need('result methods', 2)
    ck.need('field outputs', 10)
    ck.need('load shape entries', 5)
    return ck


def c11(tier):
    ck = Check('C11', 'Value numbering of the strain kernel for zero and non-zero radius and for both '
               'nonlinear options; each output compared with the Donnell / von Karman relations')
    names = ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')
    for cyl in (False, True):
        for nl in (0, 1):
            P = SP.Panel('s', r=attr('s', 'r'))
            sp = [FL.rebuild(e, lambda x: A(('q',) + x[1:5] + ('s',)) if x[0] == 'q' else None)
                  for e in SP.state_strains(P, cyl, bool(nl))]
            spec = dict(zip(names, sp))
            for case, v in CASES:
                if not v and (cyl, nl) != (True, 1):
                    continue
                asm = dict(mod_assume(v))
                asm.update(r_assume(cyl))
                f, fl, st, ret = run('fstrain', asm, {'NLgeom': C(nl)})
                lab = '%s, NLgeom=%d, %s' % ('r != 0' if cyl else 'r = 0', nl, case)
                check_outputs(ck, 'fstrain', fl, ret, names, spec, lab, canon)
    RS.shell_fields(ck, 'strain')
    ck.need('result methods', 2)
    ck.need('field outputs', 30)
    return ck


REGISTRY = {'C10': c10, 'C11': c11}
