"""C04..C09: matrices and vectors of the panel models."""
from fractions import Fraction as Fr
from .. import kernels as K
from .. import specs as SP
from ..kernels import sym, attr
from ..poly import Poly, ONE, ZERO, show
from ..report import Check

PLATE = 'panels/models/plate_clpt_donnell_bardell.pyx'
CYL = 'panels/models/cylshell_clpt_donnell_bardell.pyx'
PLATEN = 'panels/models/plate_clpt_donnell_bardell_num.pyx'
CYLN = 'panels/models/cylshell_clpt_donnell_bardell_num.pyx'

SIG = {
    'fk0': ['shell', 'size', 'row0', 'col0'],
    'fkG0': ['Nxx', 'Nyy', 'Nxy', 'shell', 'size', 'row0', 'col0'],
    'fkM': ['shell', 'd', 'size', 'row0', 'col0'],
    'fkAx': ['beta', 'gamma', 'shell', 'size', 'row0', 'col0'],
    'fkAy': ['beta', 'shell', 'size', 'row0', 'col0'],
    'fcA': ['aeromu', 'shell', 'size', 'row0', 'col0'],
    'fkC_num': ['cs', 'Finput', 'shell', 'size', 'row0', 'col0', 'nx', 'ny', 'NLgeom'],
    'fkG_num': ['cs', 'Finput', 'shell', 'size', 'row0', 'col0', 'nx', 'ny', 'NLgeom',
                'Nxx0', 'Nyy0', 'Nxy0'],
    'fkM_num': ['shell', 'offset', 'hrho_input', 'size', 'row0', 'col0', 'nx', 'ny'],
    'fkAx_num': ['shell', 'size', 'row0', 'col0', 'nx', 'ny'],
    'fkAy_num': ['shell', 'size', 'row0', 'col0', 'nx', 'ny'],
    'calc_fint': ['cs', 'Finput', 'shell', 'size', 'col0', 'nx', 'ny'],
}

# edge cases of the sub-domain limits: (name, {limit: is "not set"}, x restricted, y restricted)
DOMS = [
    ('whole domain', dict(x1=True, x2=True, y1=True, y2=True), False, False),
    ('x sub-domain', dict(x1=False, x2=False, y1=True, y2=True), True, False),
    ('y sub-domain', dict(x1=True, x2=True, y1=False, y2=False), False, True),
    ('x and y sub-domain', dict(x1=False, x2=False, y1=False, y2=False), True, True),
    ('x2 not set', dict(x1=False, x2=True, y1=True, y2=True), False, False),
    ('x1 not set', dict(x1=True, x2=False, y1=True, y2=True), False, False),
    ('y2 not set', dict(x1=True, x2=True, y1=False, y2=True), False, False),
    ('y1 not set', dict(x1=True, x2=True, y1=True, y2=False), False, False),
]
sh = 'shell'
a, b = attr(sh, 'a'), attr(sh, 'b')


def limits(dom):
    name, lim, sx, sy = dom
    C = Poly.const
    lx = (C(2) * attr(sh, 'x1') / a - ONE, C(2) * attr(sh, 'x2') / a - ONE) if sx else (-ONE, ONE)
    ly = (C(2) * attr(sh, 'y1') / b - ONE, C(2) * attr(sh, 'y2') / b - ONE) if sy else (-ONE, ONE)
    dx = attr(sh, 'x2') - attr(sh, 'x1') if sx else a
    dy = attr(sh, 'y2') - attr(sh, 'y1') if sy else b
    return {'x': lx, 'y': ly}, dx, dy


def assume(dom, dims=None, **flags):
    A = {}
    A.update(K.lim_assume(dom[1]))
    if dims is not None:
        A.update(K.shape_assume(dims))
    for n, v in flags.items():
        A.update(K.flag_assume(n, v))
    return A


def matrix(ck, rel, fn, spec, assume_=None, key='', num=None, label=''):
    kw = {}
    if num is not None:
        kw = dict(nx=sym('nx'), ny=sym('ny'), lims=num)
    mx = K.decode_matrix(rel, fn, assume_, key=(fn, key), row_owner=sh, col_owner=sh,
                         names=SIG[fn], **kw)
    n = K.compare(mx, spec)
    record(ck, mx, n, rel, fn, label)
    return mx


def vector(ck, rel, fn, spec, assume_, key, num, label, alts=()):
    mx = K.decode_vector(rel, fn, assume_, key=(fn, key), owner=sh, nx=sym('nx'), ny=sym('ny'),
                         lims=num, names=SIG[fn])
    n = K.compare(mx, spec, 'entry', alts)
    record(ck, mx, n, rel, fn, label)
    return mx


def record(ck, mx, n, rel, fn, label):
    before = len(ck.violations) + len(ck.undecided)
    lab = ' [%s]' % label if label else ''
    for p in mx.problems:
        ck.bad(p.rule, p.where, p.inst, p.msg + lab)
    for u in mx.undecided:
        ck.und(u + lab)
    bad = len(mx.problems) + len(mx.undecided)
    ck.ok(max(0, n - bad))
    ck.count('kernel analyses')
    ck.count('triplet stores', mx.stores)
    ck.count('coefficients compared', n)
    if not bad:
        for k, e in sorted(mx.entries.items())[:1]:
            ck.samples.append('%s:%s%s %s = %s' % (rel, fn, lab, k, show(e.value, limit=3))) \
                if len(ck.samples) < 8 else None


def c04(tier):
    ck = Check('C04', 'Each triplet of the closed-form stiffness kernels is decoded from its value-numbered '
               'row, column and value stores and compared, as a polynomial identity in shape-function '
               'integrals, with (ab/4) B^T ABD B')
    for rel, cyl in ((PLATE, False), (CYL, True)):
        P = SP.Panel(sh, r=attr(sh, 'r'))
        matrix(ck, rel, 'fk0', SP.linear_stiffness(P, cyl), key='fk0')
    ck.need('kernel analyses', 2)
    return ck


def num_cases(tier, nls, dims):
    out = []
    for nl in nls:
        for dm in dims:
            out.append((DOMS[0], nl, dm))
    doms = DOMS[1:4] + (DOMS[4:] if tier else [])
    for d in doms:
        out.append((d, nls[-1], dims[0]))
    out.append((DOMS[3], nls[0], dims[-1]))
    return out


def c05(tier):
    ck = Check('C05', 'Value numbering of the numeric stiffness kernels under each combination of '
               'nonlinear switch, laminate shape and sub-domain; coefficients compared with '
               'weight*jacobian*B(state)^T ABD B(state)')
    for rel, cyl in ((PLATEN, False), (CYLN, True)):
        P = SP.Panel(sh, r=attr(sh, 'r'))
        for dom, nl, dm in num_cases(tier, (0, 1), (2, 4)):
            lims, dx, dy = limits(dom)
            spec = SP.numeric_stiffness(P, cyl, bool(nl), dx, dy)
            lab = '%s, NLgeom=%d, %s laminate' % (dom[0], nl, 'uniform' if dm == 2 else 'pointwise')
            matrix(ck, rel, 'fkC_num', spec, assume(dom, dm, NLgeom=nl), lab, lims, lab)
    ck.need('kernel analyses', 20)
    return ck


def c06(tier):
    ck = Check('C06', 'Value numbering of the geometric stiffness kernels; coefficients compared with '
               'the work of the membrane resultants, which in the numeric kernels are compared with '
               'constant part + ABD * strains of the state')
    for rel, cyl in ((PLATE, False), (CYL, True)):
        P = SP.Panel(sh, r=attr(sh, 'r'))
        matrix(ck, rel, 'fkG0', SP.analytic_geometric(P), key='fkG0')
    for rel, cyl in ((PLATEN, False), (CYLN, True)):
        P = SP.Panel(sh, r=attr(sh, 'r'))
        for dom, nl, dm in num_cases(tier, (0, 1), (2, 4)):
            lims, dx, dy = limits(dom)
            spec = SP.numeric_geometric(P, cyl, bool(nl), dx, dy)
            lab = '%s, NLgeom=%d, %s laminate' % (dom[0], nl, 'uniform' if dm == 2 else 'pointwise')
            matrix(ck, rel, 'fkG_num', spec, assume(dom, dm, NLgeom=nl), lab, lims, lab)
    ck.need('kernel analyses', 22)
    return ck


def c07(tier):
    ck = Check('C07', 'Value numbering of the internal force kernels; entries compared with '
               'weight*jacobian*(ABD*strains(state)).B(state)')
    for rel, cyl in ((PLATEN, False), (CYLN, True)):
        P = SP.Panel(sh, r=attr(sh, 'r'))
        for dom in DOMS:
            for dm in (2, 4):
                if dm == 4 and dom is not DOMS[0] and dom is not DOMS[3]:
                    continue
                lims, dx, dy = limits(dom)
                spec = SP.internal_force(P, cyl, True, dx, dy)
                lab = '%s, %s laminate' % (dom[0], 'uniform' if dm == 2 else 'pointwise')
                alt = SP.internal_force(P, cyl, True, dx, dy, shear=8)
                vector(ck, rel, 'calc_fint', spec, assume(dom, dm), lab, lims, lab,
                       [('shear-strain-doubled', alt)])
    ck.need('kernel analyses', 20)
    return ck


def c08(tier):
    ck = Check('C08', 'Value numbering of the mass kernels; coefficients compared with the kinetic '
               'energy of a plate occupying [d - h/2, d + h/2]')
    rho = attr(sh, 'rho')
    h = None
    for rel in (PLATE, CYL):
        P = SP.Panel(sh)
        hh = Poly.atom(('call', Poly.atom(('fn', 'sum')), (attr(sh, 'plyts'),), ()))
        spec = SP.mass(P, rho, hh, sym('d'), a * b.scale(Fr(1, 4)), 'int')
        matrix(ck, rel, 'fkM', spec, key='fkM')
    for rel in (PLATEN, CYLN):
        P = SP.Panel(sh)
        for dom in DOMS:
            for dm in (1, 3):
                if dm == 3 and dom is not DOMS[0] and dom is not DOMS[3]:
                    continue
                lims, dx, dy = limits(dom)
                spec = SP.mass(P, Poly.atom(('hrho', 1)), Poly.atom(('hrho', 0)), sym('offset'),
                               K.WT * dx * dy.scale(Fr(1, 4)), 'q')
                lab = '%s, %s thickness' % (dom[0], 'uniform' if dm == 1 else 'pointwise')
                matrix(ck, rel, 'fkM_num', spec, assume(dom, dm), lab, lims, lab)
    ck.need('kernel analyses', 22)
    return ck


def c09(tier):
    ck = Check('C09', 'Value numbering of the aerodynamic kernels; coefficients compared with the '
               'piston-theory work (slope term along the flow axis in its integrated-by-parts form, '
               'curvature term -gamma, damping term); the beta and gamma Shell.calc_kA hands to them '
               'compared with those of the air flow')
    P = SP.Panel(sh)
    J = a * b.scale(Fr(1, 4))
    beta, gamma = sym('beta'), sym('gamma')
    matrix(ck, PLATE, 'fkAx', SP.aero(P, 'x', beta, None, J, 'int'), key='fkAx')
    matrix(ck, CYL, 'fkAx', SP.aero(P, 'x', beta, gamma, J, 'int'), key='fkAx')
    for rel in (PLATE, CYL):
        matrix(ck, rel, 'fkAy', SP.aero(P, 'y', beta, None, J, 'int'), key='fkAy')
        matrix(ck, rel, 'fcA', SP.aero_damping(P, sym('aeromu'), J), key='fcA')
    for rel in (PLATEN, CYLN):
        for dom in DOMS:
            lims, dx, dy = limits(dom)
            J = K.WT * dx * dy.scale(Fr(1, 4))
            matrix(ck, rel, 'fkAx_num', SP.aero(P, 'x', attr(sh, 'beta'), attr(sh, 'gamma'), J, 'q'),
                   assume(dom), dom[0], lims, dom[0])
            matrix(ck, rel, 'fkAy_num', SP.aero(P, 'y', attr(sh, 'beta'), None, J, 'q'),
                   assume(dom), dom[0], lims, dom[0])
    ck.need('kernel analyses', 38)
    # the pressure parameters of the air flow the kernels receive
    from vp.checks.options import aero_parameters
    aero_parameters(ck)
    return ck


REGISTRY = {'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09}
