"""C01, C02, C03: shape-function, integral and quadrature tables."""
import decimal
from fractions import Fraction as Fr
from .. import cfront as CF
from .. import proj
from .. import flow as FL
from ..frontend import AnalysisBroken
from ..report import Check
from ..kernels import sym
from .. import pylayer as PL

SRC = 'panels/core/src/'
INC = 'panels/core/include/'
NUM = 30
FLAGS = ['xi1t', 'xi1r', 'xi2t', 'xi2r']


def program(rel):
    p = proj.path(rel)
    try:
        return CF.parse(open(p).read())
    except OSError:
        raise AnalysisBroken('anchor file missing: ' + rel)
    except CF.CError as e:
        raise FL.Give('%s: %s' % (rel, e))


# ---- the definitions, in exact arithmetic; polynomial = list of coefficients by power
def dfact(n):
    """double factorial with (-1)!! = 1 and the usual extension to the negative odd numbers needed"""
    r = Fr(1)
    if n >= -1:
        while n > 1:
            r *= n
            n -= 2
        return r
    # n!! = (n+2)!!/(n+2)
    while n < -1:
        n += 2
        r /= n
    return r


def fact(n):
    r = 1
    for k in range(2, n + 1):
        r *= k
    return r


def bardell(r):
    """coefficients of the r-th (0-based) function, edge flags left out"""
    H = [[Fr(1, 2), Fr(-3, 4), 0, Fr(1, 4)], [Fr(1, 8), Fr(-1, 8), Fr(-1, 8), Fr(1, 8)],
         [Fr(1, 2), Fr(3, 4), 0, Fr(-1, 4)], [Fr(-1, 8), Fr(-1, 8), Fr(1, 8), Fr(1, 8)]]
    if r < 4:
        return [Fr(x) for x in H[r]]
    q = r + 1
    c = [Fr(0)] * (r + 1)
    for n in range(q // 2 + 1):
        if q - 2 * n - 1 < 0:
            continue
        c[q - 2 * n - 1] += Fr((-1) ** n) * dfact(2 * q - 2 * n - 7) / (2 ** n * fact(n) * fact(q - 2 * n - 1))
    return c


def der(c):
    return [k * c[k] for k in range(1, len(c))] or [Fr(0)]


def pint(a, b):
    """integral over [-1, 1] of the product"""
    t = Fr(0)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                if y and (i + j) % 2 == 0:
                    t += x * y * Fr(2, i + j + 1)
    return t


BASIS = [bardell(r) for r in range(NUM)]
DER = {0: BASIS, 1: [der(c) for c in BASIS], 2: [der(der(c)) for c in BASIS]}
REL = Fr(4, 10 ** 14)          # tables are printed with 15 significant digits


def near(got, want, scale):
    if want:
        return abs(got - want) <= REL * abs(want)
    return abs(got) <= Fr(1, 10 ** 13) * scale


def flagname(r):
    return FLAGS[r] if r < 4 else None


def check_poly(ck, val, r, d, where, inst, xi='xi', flags=FLAGS):
    """val: polynomial value computed from the source for term r, derivative d"""
    want = DER[d][r]
    fl = flags[r] if r < 4 else None
    exp = {}
    for k, c in enumerate(want):
        if c:
            m = ()
            if fl:
                m = CF.mmul(m, ((fl, 1),))
            if k:
                m = CF.mmul(m, ((xi, k),))
            exp[m] = c
    got = CF.P(val)
    scale = max([abs(c) for c in exp.values()] or [Fr(1)])
    good = 0
    for m in sorted(set(exp) | set(got)):
        g, e = got.get(m, Fr(0)), exp.get(m, Fr(0))
        if near(g, e, scale):
            good += 1
        else:
            ck.bad('table', where, inst, '%s: coefficient of %s is %.16g, the definition gives %.16g' % (
                inst, '*'.join('%s^%d' % x for x in m) or '1', float(g), float(e)))
            return
    ck.ok(1)


SCALAR = [('f', 0), ('fp', 1), ('fpp', 2)]
VEC = [('vec_f', 0), ('vec_fp', 1), ('vec_fpp', 2)]


def need_fn(prog, rel, name):
    if name not in prog.fns:
        raise AnalysisBroken('anchor function missing: %s in %s' % (name, rel))
    return prog.fns[name]


def c01(tier):
    ck = Check('C01', 'Constant propagation of every term index through the shape-function sources, in a domain of '
               'exact rational polynomials of the coordinate and the edge flags; every coefficient compared with '
               'the hierarchic definition, and the interface layers (headers, extern blocks, wrappers) bound to them')
    rel = SRC + 'bardell_functions.cpp'
    prog = program(rel)
    args = [CF.S('xi')] + [CF.S(x) for x in FLAGS]
    for name, d in SCALAR:
        need_fn(prog, rel, name)
        ck.count('scalar evaluators')
        for i in range(NUM):
            ev = CF.Eval(prog)
            inst = '%s[%d]' % (name, i)
            try:
                v = ev.run(name, [i] + args)
            except CF.CError as e:
                ck.und('%s: %s' % (inst, e))
                continue
            check_poly(ck, v, i, d, '%s:%d' % (rel, ev.at), inst)
            ck.count('polynomials')
    for name, d in VEC:
        f = need_fn(prog, rel, name)
        ck.count('vector evaluators')
        out = CF.Arr('out')
        ev = CF.Eval(prog)
        try:
            ev.run(name, [CF.Ptr(out)] + args)
        except CF.CError as e:
            ck.und('%s: %s' % (name, e))
            continue
        lines = dict(out.writes)
        for i in range(NUM):
            inst = '%s[%d]' % (name, i)
            where = '%s:%d' % (rel, lines.get(i, f.line))
            if i not in out.data:
                ck.bad('table', where, inst, '%s is never written' % inst)
                continue
            check_poly(ck, out.data[i], i, d, where, inst)
            ck.count('polynomials')
        extra = sorted(k for k in out.data if not 0 <= k < NUM)
        if extra:
            ck.bad('slots', '%s:%d' % (rel, lines[extra[0]]), name + ':slots',
                   '%s writes slot %d outside the %d terms' % (name, extra[0], NUM))
        else:
            ck.ok()
    interface(ck, rel, prog, INC + 'bardell_functions.hpp', [n for n, _ in SCALAR + VEC])
    wrappers(ck, 'panels/bardell.pyx', [('calc_' + n, n) for n, _ in SCALAR], 0)
    wrappers(ck, 'panels/bardell.pyx', [('calc_' + n, n) for n, _ in VEC], 1)
    ck.need('polynomials', 180)
    ck.need('externs', 20)
    ck.need('wrappers', 6)
    return ck


INTEGRALS = [('integral_ff', 0, 0), ('integral_ffp', 0, 1), ('integral_ffpp', 0, 2), ('integral_fpfp', 1, 1),
             ('integral_fpfpp', 1, 2), ('integral_fppfpp', 2, 2)]


def c02(tier):
    ck = Check('C02', 'Constant propagation of every index pair through the integral tables (exact polynomials of the '
               'eight edge flags); each compared with the exact rational integral of the product of the defining '
               'polynomials over [-1, 1]')
    rel = SRC + 'bardell.cpp'
    prog = program(rel)
    fx = ['x1t', 'x1r', 'x2t', 'x2r']
    fy = ['y1t', 'y1r', 'y2t', 'y2r']
    args = [CF.S(x) for x in fx + fy]
    for name, p, q in INTEGRALS:
        f = need_fn(prog, rel, name)
        ck.count('tables')
        for i in range(NUM):
            for j in range(NUM):
                ev = CF.Eval(prog)
                inst = '%s[%d,%d]' % (name, i, j)
                try:
                    v = ev.run(name, [i, j] + args)
                except CF.CError as e:
                    ck.und('%s: %s' % (inst, e))
                    continue
                ck.count('entries')
                want = pint(DER[p][i], DER[q][j])
                m = ()
                if i < 4:
                    m = CF.mmul(m, ((fx[i], 1),))
                if j < 4:
                    m = CF.mmul(m, ((fy[j], 1),))
                exp = {m: want} if want else {}
                got = CF.P(v)
                scale = max(abs(want), Fr(1, 10 ** 6))
                for mm in set(exp) | set(got):
                    g, e = got.get(mm, Fr(0)), exp.get(mm, Fr(0))
                    if not near(g, e, scale):
                        ck.bad('table', '%s:%d' % (rel, ev.at), inst,
                               '%s: factor of %s is %.16g, the exact integral is %.16g' % (
                                   inst, '*'.join(x for x, _ in mm) or '1', float(g), float(e)))
                        break
                else:
                    ck.ok()
    interface(ck, rel, prog, INC + 'bardell.hpp', [n for n, _, _ in INTEGRALS])
    wrappers(ck, 'panels/bardell.pyx', [('calc_' + n, n) for n, _, _ in INTEGRALS], 0)
    ck.need('entries', 5400)
    ck.need('externs', 20)
    ck.need('wrappers', 6)
    return ck


def legendre(n, x, D):
    """P_n(x), P_n'(x) by the three-term recurrence"""
    p0, p1 = D(1), x
    for k in range(2, n + 1):
        p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
    return p1, n * (x * p1 - p0) / (x * x - 1)


def c03(tier):
    ck = Check('C03', 'Constant propagation of every order through the quadrature source (which slot receives which '
               'literal on the path of that order); each point must bracket a root of the Legendre polynomial and each '
               'weight must match 2/((1-x^2) P_n\'(x)^2), in 90-digit arithmetic')
    rel = SRC + 'legendre_gauss_quadrature.cpp'
    prog = program(rel)
    f = need_fn(prog, rel, 'leggauss_quad')
    decimal.getcontext().prec = 90
    D = decimal.Decimal
    dec = lambda v: D(v.numerator) / D(v.denominator)
    for n in range(2, 65):
        x, w = CF.Arr('points'), CF.Arr('weights')
        ev = CF.Eval(prog)
        ev2 = None
        try:
            ev.run('leggauss_quad', [n, CF.Ptr(x), CF.Ptr(w)])
        except CF.CError as e:
            ck.und('order %d: %s' % (n, e))
            continue
        ck.count('orders')
        lx, lw = dict(x.writes), dict(w.writes)
        for arr, what, ls in ((x, 'points', lx), (w, 'weights', lw)):
            if set(arr.data) != set(range(n)):
                extra = sorted(set(arr.data) ^ set(range(n)))[0]
                ck.bad('slots', '%s:%d' % (rel, ls.get(extra, f.line)), 'order %d %s' % (n, what),
                       'order %d: slot %d of the %s is %s' % (
                           n, extra, what, 'written' if extra in arr.data else 'never written'))
            else:
                ck.ok()
        pts = {}
        eps = D('2e-15')
        for k in range(n):
            if k not in x.data or k not in w.data:
                continue
            xv, wv = dec(x.data[k]), dec(w.data[k])
            inst = 'order %d point %d' % (n, k)
            where = '%s:%d' % (rel, lx[k])
            if not -1 < xv < 1:
                ck.bad('point', where, inst, '%s lies outside (-1, 1)' % inst)
                continue
            # one Newton step from the literal gives the distance to the root
            p, dp = legendre(n, xv, D)
            root = xv - p / dp
            p2, dp2 = legendre(n, root, D)
            root -= p2 / dp2
            p2, dp2 = legendre(n, root, D)
            if abs(xv - root) > D('1e-16') + eps * abs(root) or abs(p2) > D('1e-50'):
                ck.bad('point', where, inst, '%s is not a root of the Legendre polynomial (off by %.3g)' % (
                    inst, float(abs(xv - root))))
                continue
            close = [j for j, r in pts.items() if abs(r - root) < D('1e-12')]
            if close:
                ck.bad('point', where, inst, '%s repeats point %d' % (inst, close[0]))
                continue
            pts[k] = root
            ck.ok()
            want = 2 / ((1 - root * root) * dp2 * dp2)
            if abs(wv - want) > D('2e-14') * want:
                ck.bad('weight', '%s:%d' % (rel, lw[k]), inst,
                       'weight %d of order %d is %.17g, the rule needs %.17g' % (k, n, float(wv), float(want)))
            else:
                ck.ok()
            ck.count('points', 1)
    interface(ck, rel, prog, INC + 'legendre_gauss_quadrature.hpp', ['leggauss_quad'])
    gauss_wrapper(ck)
    ck.need('orders', 63)
    ck.need('points', 2079)
    ck.need('externs', 2)
    return ck


def ctype(t):
    return '%s%s' % (t[0], '*' * t[1])


def interface(ck, rel, prog, hpp, names):
    """the header and every extern block of the Cython sources declare what the C++ source defines"""
    head = program(hpp)
    for n in names:
        d = prog.fns[n]
        want = [ctype(t) for t, _ in d.params]
        h = head.protos.get(n) or head.fns.get(n)
        if h is None:
            ck.bad('interface', hpp, 'header:' + n, 'the header does not declare %s' % n)
        else:
            got = [ctype(t) for t, _ in h.params]
            if got != want:
                ck.bad('interface', '%s:%d' % (hpp, h.line), 'header:' + n, '%s: header (%s), definition (%s)' % (
                    n, ', '.join(got), ', '.join(want)))
            else:
                ck.ok()
    for path in proj.sources(('.pyx',)):
        m = proj.FE.load(path)
        rp = proj.relpath(path)
        for n, (c, line) in sorted(m.extern_lines.items()):
            if c not in names and n not in names:
                continue
            ck.count('externs')
            where = '%s:%d' % (rp, line)
            if n != c:
                ck.bad('interface', where, '%s:%s' % (rp, n), 'the name %s is bound to the C++ function %s' % (n, c))
                continue
            sig = m.extern_sigs.get(n)
            got = [str(t).replace(' ', '') for t in sig[1]] if sig else None
            want = [ctype(t) for t, _ in prog.fns[n].params]
            if got != want:
                ck.bad('interface', where, '%s:%s' % (rp, n), '%s declared with (%s), defined with (%s)' % (
                    n, ', '.join(got or ['?']), ', '.join(want)))
            else:
                ck.ok()


ALLC = {n for n, _ in SCALAR + VEC} | {n for n, _, _ in INTEGRALS} | {'leggauss_quad'}


def fname(e):
    a = e.value.single_atom() if e.value is not None else None
    if a and a[0] == 'call':
        a = a[1].single_atom()
        if a and a[0] == 'fn':
            return a[1]
    return None


def start_of(p):
    """&x[0] or x -> x"""
    a = p.single_atom()
    if a and a[0] == 'ptr':
        return a[1] if tuple(a[2]) == (FL.ZERO,) else None
    return p


def wrappers(ck, rel, pairs, vec):
    """the Python-visible evaluator hands its own arguments over in order and returns what it got"""
    for py, c in pairs:
        fn = proj.func(rel, py)
        fl = FL.Flow(proj.RESOLVE)
        st, ret = fl.run(fn)
        ck.count('wrappers')
        evs = [(e, fname(e)) for e in fl.events if e.kind == 'call' and fname(e) in ALLC]
        where = '%s:%d' % (rel, fn.lineno)
        if len(evs) != 1:
            ck.und('%s: %d calls of table functions' % (py, len(evs)))
            continue
        e, got = evs[0]
        where = PL.where(e)
        if got != c:
            ck.bad('wrapper', where, py, '%s evaluates %s instead of %s' % (py, got, c))
            continue
        args = list(e.extra[0])
        want = [sym(x) for x in fn.param_names()]
        if (args[1:] if vec else args) != want:
            ck.bad('wrapper', where, py, '%s hands its arguments to %s in another order' % (py, c))
            continue
        if not vec:
            if ret != e.value:
                ck.bad('wrapper', where, py, '%s does not return the value of %s' % (py, c))
            else:
                ck.ok()
            continue
        b = start_of(args[0])
        a = b.single_atom() if b is not None else None
        if a is None or a[0] != 'buf':
            ck.und('%s: the output array of %s is not an array of its own' % (py, c))
            continue
        info = fl.bufs[a[1]]
        shape = info.get('shape')
        n = shape[0] if isinstance(shape, (tuple, list)) else shape
        n = n.cval() if n is not None and n.is_const() else None
        if n is None:
            ck.und('%s: size of the output array' % py)
        elif n < NUM:
            ck.bad('wrapper', where, py + ':size', '%s allocates %s slots for %d terms' % (py, n, NUM))
        elif ret != b and PL.strip(ret) != b:
            ck.bad('wrapper', where, py, '%s does not return the array filled by %s' % (py, c))
        else:
            ck.ok()


def gauss_wrapper(ck):
    rel, py = 'panels/legendre_gauss_quadrature.pyx', 'get_points_weights'
    fn = proj.func(rel, py)
    fl = FL.Flow(proj.RESOLVE)
    fl.run(fn)
    evs = [e for e in fl.events if e.kind == 'call' and fname(e) == 'leggauss_quad']
    if len(evs) != 1:
        ck.und('%s: %d calls of leggauss_quad' % (py, len(evs)))
        return
    a = list(evs[0].extra[0])
    names = fn.param_names()
    if len(a) != 3 or a[0] != sym(names[0]) or [start_of(x) for x in a[1:]] != [sym(x) for x in names[1:]]:
        ck.bad('wrapper', PL.where(evs[0]), py, '%s hands its arguments to the table in another order' % py)
    else:
        ck.ok()
    ck.count('wrappers')


REGISTRY = {'C01': c01, 'C02': c02, 'C03': c03}
