"""C12 stress resultants, C25 multi-panel results, and the result methods of Shell (C10, C11)."""
from .. import flow as FL
from .. import kernels as K
from .. import proj
from .. import pylayer as PL
from ..kernels import sym, attr, A
from ..pylayer import NONE, S_, strip
from ..poly import Poly, ONE, ZERO, show, atom_of, close, show_mono
from ..report import Check

C = Poly.const
SHELL = 'panels/shell.py'
MD = 'panels/multidomain/multidomain.py'
FIELD = 'panels/models/clpt_bardell_field.pyx'
KER = {'fuvw': ('u', 'v', 'w', 'phix', 'phiy'),
       'fstrain': ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')}
STRESS = ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')


class Reader:
    """normalises a result value: field-kernel outputs become ('field', kernel, k) atoms"""

    def __init__(self):
        self.calls = {}         # call atom -> kernel name
        self.shapes = []

    def norm(self, v):
        v = strip(v, self.shapes)

        def fn(a):
            if a[0] == 'idx' and len(a[2]) == 1:
                c = a[1].single_atom()
                k = a[2][0].as_int()
                if c is not None and c[0] == 'call' and k is not None:
                    f = c[1].single_atom()
                    if f is not None and f[0] in ('attr', 'func', 'ext') and f[-1].split('.')[-1] in KER:
                        n = f[-1].split('.')[-1]
                        self.calls[c] = n
                        if k < 0:
                            k += len(KER[n])
                        return A(('field', n, k))
            return None
        return FL.rebuild(v, fn)


def mesh(v):
    """coordinate array -> (grid x, grid y, which) from a meshgrid call"""
    a = v.single_atom()
    if a is None or a[0] != 'idx' or len(a[2]) != 1:
        return None
    c = a[1].single_atom()
    if c is None or c[0] != 'call' or c[1] != A(('ext', 'numpy.meshgrid')) or len(c[2]) != 2:
        return None
    return c[2][0], c[2][1], a[2][0].as_int(), c


def linspace_of(v):
    c = v.single_atom()
    if c is None or c[0] != 'call' or c[1] != A(('ext', 'numpy.linspace')):
        return None
    return PL.bind_args(['start', 'stop', 'num'], c[2], c[3])


class Site:
    """what one method has to hand to the field kernel"""

    def __init__(self, ck, inst, wh, fl=None):
        self.ck, self.inst, self.wh, self.fl = ck, inst, wh, fl

    def bad(self, what, msg):
        self.ck.bad('result', self.wh, '%s:%s' % (self.inst, what), '%s: %s' % (self.inst, msg))

    def und(self, msg):
        self.ck.und('%s: %s' % (self.inst, msg))


def phi_like(p):
    return K.poly_mentions(p, lambda y: y[0] in ('phi', 'loopout', 'brk'))


def check_kernel_call(s, call, kern, panel, cvec, X, Y, nl):
    """arguments of the kernel call -> number of discharged obligations"""
    f = call[1].single_atom()
    params = proj.func(FIELD, kern).param_names()
    b = PL.bind_args(params, call[2], call[3])
    if b is None:
        s.bad('args', 'the call of %s does not match its parameters %s' % (kern, params))
        return
    # the field module of this panel's own model
    if f[0] == 'attr':
        m = f[1].single_atom()
        ok = m is not None and m[0] == 'idx' and m[2][-1:] == (S_('field'),) and m[2][0] == attr(panel, 'model')
        if not ok:
            m_ = strip(f[1])
            s.bad('model', 'the field functions are taken from %s, not from the panel\'s own model'
                  % show(m_)) if K.poly_mentions(f[1], lambda y: y[0] == 'attr' and y[2] == 'model') else \
                s.und('field module %s not recognised' % show(f[1]))
        else:
            s.ck.ok()
    names = dict(zip(params, ('c', 's', 'xs', 'ys', 'num_cores', 'NLgeom')))
    got = {names[k]: v for k, v in b.items()}
    for k, exp in (('c', cvec), ('s', panel)):
        v = strip(got.get(k, ZERO))
        if v == exp:
            s.ck.ok(sample='%s: %s receives %s = %s' % (s.inst, kern, k, show(v)))
        else:
            s.bad(k, '%s receives %s as %s, expected %s' %
                  (kern, show(v), {'c': 'amplitudes', 's': 'panel'}[k], show(exp)))
    for k, exp in (('xs', X), ('ys', Y)):
        v = strip(got.get(k, ZERO))
        exp(s, k, v)
    if kern == 'fstrain':
        v = got.get('NLgeom')
        if v is None:
            s.bad('NLgeom', 'the nonlinear option is not handed to %s' % kern)
        else:
            a = v.single_atom()
            while a is not None and a[0] == 'call' and a[1].single_atom() in (('fn', 'int'), ('fn', 'bool')):
                v = a[2][0]
                a = v.single_atom()
            if v == nl:
                s.ck.ok()
            else:
                s.bad('NLgeom', '%s receives %s as nonlinear option, expected %s' % (kern, show(v), show(nl)))
    return got


def given(name):
    def f(s, k, v):
        if v == sym(name):
            s.ck.ok()
        else:
            s.bad(k, '%s are %s, expected the requested %s' % (k, show(v)[:160], name))
    return f


def grid(which, panel, gx, gy):
    """coordinates from a grid; gx, gy: expected 1-D grids, as ('lin', length, num) or a Poly"""
    def one(s, k, v, spec):
        if isinstance(spec, Poly):
            if strip(v) == spec:
                s.ck.ok()
            else:
                s.bad(k, 'sampling points are %s, expected %s' % (show(strip(v))[:160], show(spec)))
            return
        b = linspace_of(v)
        if b is None:
            (s.bad if phi_like(v) else (lambda w, m: s.und(m)))(
                k, 'sampling points %s are not a range over this panel' % show(v)[:160])
            return
        stop, num = spec[1], spec[2]
        if b.get('start') != ZERO or b.get('stop') != stop:
            s.bad(k, 'sampling points run from %s to %s, expected 0 to %s' %
                  (show(b.get('start')), show(b.get('stop')), show(stop)))
        elif num is not None and b.get('num') != num:
            s.bad(k, '%s points, expected %s' % (show(b.get('num')), show(num)))
        else:
            s.ck.ok()

    def f(s, k, v):
        m = mesh(v)
        if m is None:
            if phi_like(v):
                s.bad(k, 'coordinates %s depend on an earlier panel' % show(v)[:120])
            else:
                s.und('coordinates %s not recognised' % show(v)[:160])
            return
        if m[2] != which:
            s.bad(k, 'coordinate arrays are exchanged')
            return
        one(s, k, m[0], gx)
        one(s, k, m[1], gy)
    return f


def never_stored(fl, a):
    """the entry of a new array that no store reaches"""
    if fl is None or a[0] != 'idx' or a[1].single_atom() is None or a[1].single_atom()[0] != 'buf':
        return False
    last = a[2][-1].as_int()
    st = [e for e in fl.events if e.kind == 'store' and e.base == a[1]]
    if last is None or not st:
        return False
    if any(e.kind == 'call' and isinstance(e.extra, tuple) and any(x == a[1] for x in list(e.extra[0]) + [
            k[1] for k in e.extra[1]]) and PL.callee(e) not in ('zeros', 'reshape', 'append') for e in fl.events):
        return False
    return all(e.index and isinstance(e.index[-1], Poly) and len(e.index) == len(a[2]) and
               e.index[-1].as_int() is not None and e.index[-1].as_int() != last for e in st)


def compare(s, nm, got, exp, extra=()):
    df = close(got, exp)
    if df is None:
        s.ck.ok(sample='%s: %s = %s' % (s.inst, nm, show(got, limit=3)))
        return True
    known = {'field', 'F'} | set(extra)
    unk = [atom_of(a) for a in got.atoms() if atom_of(a)[0] not in known]
    if unk and not any(phi_like(Poly.atom(u)) for u in unk):
        bare = got.single_atom()
        if bare is not None and bare[0] in ('none',) or got == ZERO:
            s.bad(nm, '%s is %s' % (nm, show(got)))
            return False
        if any(never_stored(s.fl, atom_of(u) if isinstance(u, int) else u) for u in unk):
            s.bad(nm, '%s is read from a part of an array that is never computed' % nm)
            return False
        s.und('%s is %s' % (nm, show(got)[:160]))
        return False
    m, cg, ce = df
    s.bad(nm, '%s: term %s has factor %s, expected %s' % (nm, show_mono(m), K.fr(cg), K.fr(ce)))
    return False


def stress_row(i):
    t = ZERO
    for j in range(6):
        t = t + A(('ABD', i, j)) * A(('field', 'fstrain', j))
    return t


def abd(owner):
    def fn(a):
        if a[0] == 'idx' and a[1] == owner and len(a[2]) == 2:
            i, j = a[2][0].as_int(), a[2][1].as_int()
            if i is not None and j is not None:
                return A(('ABD', i, j))
        if a[0] == 'idx' and len(a[2]) == 1:
            b = a[1].single_atom()
            if b is not None and b[0] == 'idx' and b[1] == owner and len(b[2]) == 1:
                i, j = b[2][0].as_int(), a[2][0].as_int()
                if i is not None and j is not None:
                    return A(('ABD', i, j))
        return None
    return fn


def own_laminate(s, key, v, owner, given=False):
    """the laminate object itself knows nothing of force_orthotropic_laminate"""
    lam = PL.attr_of(owner, 'lam')
    if given or not K.poly_mentions(v, lambda z: isinstance(z, tuple) and z[:1] == ('attr',) and
                                    z[1] == lam and z[2] in ('ABD', 'ABDE', 'A', 'B', 'D')):
        return True
    s.bad(key, '%s is calculated with the laminate object (lam.ABD) instead of the stiffness of the panel '
          '(ABD), where force_orthotropic_laminate and changes by the user take effect' % key)
    return False


def full(e):
    return e.full if e.full is not None else e.value


# ------------------------------------------------------------------ Shell
def last_store(fl, base, key):
    out = None
    for e in fl.events:
        if e.kind == 'store' and e.base == base and e.index == (S_(key),):
            out = e
    return out


def shell_method(ck, name, kern, keys, given_points, abd_given=None):
    asm = PL.none_assume({sym('xs'): not given_points, sym('ys'): not given_points})
    if abd_given is not None:
        asm = PL.merge(asm, PL.none_assume({sym('ABD'): not abd_given}))
    f, fl, st, ret = PL.method(SHELL, 'Shell', name, asm)
    me = sym('self')
    inst = 'Shell.%s' % name
    lab = 'points given' if given_points else 'default grid'
    s = Site(ck, inst, PL.wf(f), fl)
    rd = Reader()
    ck.count('result methods')
    for i, key in enumerate(keys):
        e = last_store(fl, attr(me, 'fields'), key)
        if e is None:
            ru = [x for x in fl.events if x.kind == 'store' and x.base == attr(me, 'fields')]
            (s.bad(key, 'field %s is never stored' % key) if len(ru) >= 3 else
             s.und('field %s not found' % key))
            continue
        if e.cond() != ONE:
            s.und('field %s stored under %s' % (key, show(e.cond())))
            continue
        ck.count('result components')
        s.wh = PL.where(e)
        v = rd.norm(full(e))
        if name == 'stress':
            own = sym('ABD') if abd_given else attr(me, 'ABD')
            if not own_laminate(s, key, v, me, abd_given):
                continue
            v = FL.rebuild(v, abd(own))
            compare(s, key, v, stress_row(i), ('ABD',))
        else:
            compare(s, key, v, A(('field', kern, i)))
    s.wh = PL.wf(f)
    cs = [c for c, n in rd.calls.items() if n == kern]
    if len(cs) != 1:
        s.und('%d calls of %s feed the results' % (len(cs), kern))
        return
    if given_points:
        X, Y = given('xs'), given('ys')
    else:
        gx, gy = ('lin', attr(me, 'a'), sym('gridx')), ('lin', attr(me, 'b'), sym('gridy'))
        X, Y = grid(0, me, gx, gy), grid(1, me, gx, gy)
    check_kernel_call(s, cs[0], kern, me, sym('c'), X, Y, sym('NLgeom'))
    b = PL.bind_args(proj.func(FIELD, kern).param_names(), cs[0][2], cs[0][3]) or {}
    for key, arg in (('Xs', 'xs'), ('Ys', 'ys')):
        e = last_store(fl, attr(me, 'plot_mesh'), key)
        if e is None:
            s.und('plot_mesh %s not found' % key)
            continue
        if strip(full(e)) == strip(b.get(arg, ZERO)):
            ck.ok()
        else:
            s.wh = PL.where(e)
            s.bad(key, 'plot_mesh[%r] is %s, not the %s the fields were computed at' %
                  (key, show(strip(full(e)))[:120], arg))
    shapes_ok(s, rd, strip(b.get('xs', ZERO)), strip(b.get('ys', ZERO)))


def shapes_ok(s, rd, X, Y):
    for sh in set(rd.shapes):
        a = sh.single_atom()
        if a is not None and a[0] == 'attr' and a[2] == 'shape' and strip(a[1]) in (X, Y):
            s.ck.ok()
            continue
        m = mesh(X)
        if a is not None and a[0] == 'tuple' and m is not None and len(a[1]) == 2:
            lx, ly = linspace_of(m[0]), linspace_of(m[1])
            if lx and ly:
                if a[1] == (ly.get('num'), lx.get('num')):
                    s.ck.ok()
                    continue
                if a[1] == (lx.get('num'), ly.get('num')):
                    s.bad('shape', 'results are shaped (points in x, points in y) but the grid is '
                          '(points in y, points in x)')
                    continue
        s.und('result shape %s not recognised' % show(sh)[:120])


# ------------------------------------------------------------------ MultiDomain
def md_method(ck, name, kern, keys, gauss=None):
    """gauss: None or (x_gauss given?, y_gauss given?)"""
    asm = {}
    if gauss is not None:
        asm = PL.none_assume({sym('x_gauss'): not gauss[0], sym('y_gauss'): not gauss[1]})
    f, fl, st, ret = PL.method(MD, 'MultiDomain', name, asm)
    inst = 'MultiDomain.%s' % name
    s = Site(ck, inst, PL.wf(f), fl)
    ck.count('result methods')
    d = PL.obj(st, ret)
    if d is None or d[0] != 'dict':
        s.und('returned value %s is not a dict of lists' % (show(ret) if ret is not None else None))
        return
    items = {}
    for k, v in d[1]:
        a = k.single_atom()
        if a is not None and a[0] == 'str':
            items[a[1]] = v
    rd = Reader()
    loops = {}
    panel = None
    vals = {}
    me = sym('self')
    for key in ('x', 'y') + keys:
        if key not in items:
            s.bad(key, 'the result %r is not returned' % key)
            continue
        l = PL.obj(st, items[key])
        if l is None or l[0] != 'list':
            s.und('result %r is not a list built in a loop: %s' % (key, show(items[key])[:100]))
            continue
        if not l[1]:
            s.bad(key, 'the result %r stays empty' % key)
            continue
        if len(l[1]) != 1:
            s.und('result %r has several kinds of elements' % key)
            continue
        u = PL.unrep(l[1][0], fl)
        if u is None or u[0] is None:
            s.und('result %r: %s' % (key, show(l[1][0])[:120]))
            continue
        lid, cond, v = u
        lp = next((i[0] for i in fl.loopinfo.values() if i[0].id == lid), None)
        if lp is None or lp.iterable is None:
            s.und('loop of result %r not recognised' % key)
            continue
        if lp.iterable != attr(me, 'panels'):
            a = lp.iterable.single_atom()
            if a is not None and (a[0] == 'call' or a[0] == 'idx'):
                s.bad('order', 'results are collected over %s instead of self.panels in order' %
                      show(lp.iterable)) if a[0] == 'call' and K.poly_mentions(
                          lp.iterable, lambda y: y == ('fn', 'reversed')) else \
                    s.und('loop over %s' % show(lp.iterable))
            else:
                s.und('loop over %s' % show(lp.iterable)[:100])
            continue
        P = A(('elem', lp.iterable, lid))
        want = FL.ind_eq_diff(attr(P, 'group') - sym('group'))
        if cond != want:
            s.bad('group', 'result %r of a panel is collected when %s, expected panel.group == group' %
                  (key, show(cond)))
            continue
        loops[lid] = lp
        panel = P
        vals[key] = rd.norm(v)
        ck.count('result components')
    if panel is None:
        return
    for i, key in enumerate(keys):
        if key not in vals:
            continue
        v = vals[key]
        if keys == STRESS:
            v = FL.rebuild(v, abd(attr(panel, 'ABD')))
            if not own_laminate(s, key, v, panel):
                continue
            other = []
            K.poly_mentions(v, lambda z: other.append(z[1]) if isinstance(z, tuple) and z[:1] == ('attr',) and
                            z[2] in ('ABD', 'lam') and fixed_panel(z[1]) else None)
            if other:
                s.bad(key, '%s of every panel is calculated with the laminate of %s' % (key, show(other[0])))
                continue
            compare(s, key, v, stress_row(i), ('ABD',))
        else:
            compare(s, key, v, A(('field', kern, i)))
    cs = [c for c, n in rd.calls.items() if n == kern]
    if len(cs) != 1:
        s.und('%d calls of %s feed the results' % (len(cs), kern))
        return
    if gauss is None:
        gx, gy = ('lin', attr(panel, 'a'), sym('gridx')), ('lin', attr(panel, 'b'), sym('gridy'))
    else:
        gx = sym('x_gauss') if gauss[0] else ('lin', attr(panel, 'a'), None)
        gy = sym('y_gauss') if gauss[1] else ('lin', attr(panel, 'b'), None)
    cvec = A(('idx', sym('c'), (A(('slice', attr(panel, 'col_start'), attr(panel, 'col_end'), NONE)),)))
    got = check_kernel_call(s, cs[0], kern, panel, cvec, grid(0, panel, gx, gy), grid(1, panel, gx, gy),
                            sym('NLterms'))
    if got:
        for key, arg in (('x', 'xs'), ('y', 'ys')):
            if key in vals:
                if vals[key] == strip(got.get(arg, ZERO)):
                    ck.ok()
                else:
                    s.bad(key, 'returned %r is %s, not the points the fields were computed at' %
                          (key, show(vals[key])[:120]))
        shapes_ok(s, rd, strip(got.get('xs', ZERO)), strip(got.get('ys', ZERO)))


def fixed_panel(o):
    """one particular panel of the assembly, the same for every panel of the loop"""
    a = o.single_atom() if isinstance(o, Poly) else None
    return a is not None and a[0] == 'idx' and a[1] == attr(sym('self'), 'panels') and len(a[2]) == 1 and \
        a[2][0].cval() is not None


def shell_fields(ck, name):
    kern = {'uvw': 'fuvw', 'strain': 'fstrain'}[name]
    for gp in (True, False):
        shell_method(ck, name, kern, KER[kern], gp)


def c12(tier):
    ck = Check('C12', 'Value numbering of the stress recovery methods; every stored resultant compared with '
               'the row of the laminate matrix times the six strain outputs of the field kernel')
    for gp in (True, False):
        for ab in (True, False):
            shell_method(ck, 'stress', 'fstrain', STRESS, gp, ab)
    md_method(ck, 'stress', 'fstrain', STRESS)
    md_method(ck, 'stress_gauss_points', 'fstrain', STRESS, (True, True))
    ck.need('result methods', 6)
    return ck


def c25(tier):
    ck = Check('C25', 'Value numbering of the multi-panel result methods: the loop over the panels, the group '
               'condition, and each argument of the field kernel (amplitude slice, panel, points, model) '
               'compared with the panel\'s own data')
    for nm, kern, keys in (('uvw', 'fuvw', KER['fuvw']), ('strain', 'fstrain', KER['fstrain']),
                           ('stress', 'fstrain', STRESS)):
        md_method(ck, nm, kern, keys)
        for g in ((True, True), (False, True), (True, False)):
            md_method(ck, nm + '_gauss_points', kern, keys, g)
    ck.need('result methods', 12)
    return ck


REGISTRY = {'C12': c12, 'C25': c25}
