"""Required coefficients, derived from the energies (the oracle side).

Nothing in here is read from the analysed sources: each matrix entry is built
from strain-displacement relations and energy densities.
"""
from fractions import Fraction as Fr
from .poly import Poly, ZERO, ONE
from .kernels import S, Q, F, WT, A, sym, attr

C = Poly.const


class Panel:
    def __init__(self, owner='shell', a=None, b=None, r=None):
        self.o = owner
        self.a = a if a is not None else attr(owner, 'a')
        self.b = b if b is not None else attr(owner, 'b')
        self.r = r


# a linear operator: {field index: [(coef, dx, dy)]}
def strain_ops(P, cyl=False, nl=False):
    """six strains; derivatives with respect to natural coordinates, state slopes wxi, weta"""
    a, b = P.a, P.b
    two = C(2)
    wxi, weta = Q(2, 'w', 1, 0), Q(2, 'w', 0, 1)
    exx = {0: [(two / a, 1, 0)]}
    eyy = {1: [(two / b, 0, 1)]}
    gxy = {0: [(two / b, 0, 1)], 1: [(two / a, 1, 0)]}
    if cyl:
        eyy[2] = [(ONE / P.r, 0, 0)]
    if nl:
        exx[2] = [(C(4) / a / a * wxi, 1, 0)]
        eyy[2] = eyy.get(2, []) + [(C(4) / b / b * weta, 0, 1)]
        gxy[2] = [(C(4) / a / b * weta, 1, 0), (C(4) / a / b * wxi, 0, 1)]
    kxx = {2: [(-C(4) / a / a, 2, 0)]}
    kyy = {2: [(-C(4) / b / b, 0, 2)]}
    kxy = {2: [(-C(8) / a / b, 1, 1)]}
    return [exx, eyy, gxy, kxx, kyy, kxy]


def state_strains(P, cyl=False, nl=False, shear=4):
    a, b = P.a, P.b
    wxi, weta = Q(2, 'w', 1, 0), Q(2, 'w', 0, 1)
    exx = C(2) / a * Q(0, 'u', 1, 0)
    eyy = C(2) / b * Q(1, 'v', 0, 1)
    gxy = C(2) / b * Q(0, 'u', 0, 1) + C(2) / a * Q(1, 'v', 1, 0)
    if cyl:
        eyy = eyy + Q(2, 'w', 0, 0) / P.r
    if nl:
        exx = exx + C(2) / a / a * wxi * wxi
        eyy = eyy + C(2) / b / b * weta * weta
        gxy = gxy + C(shear) / a / b * wxi * weta
    kxx = -C(4) / a / a * Q(2, 'w', 2, 0)
    kyy = -C(4) / b / b * Q(2, 'w', 0, 2)
    kxy = -C(8) / a / b * Q(2, 'w', 1, 1)
    return [exx, eyy, gxy, kxx, kyy, kxy]


FN = 'uvw'


def shp(side, owner, fld, dx, dy, lx, ly):
    return S(side, 'x', owner, FN[fld], dx, lx) * S(side, 'y', owner, FN[fld], dy, ly)


def opval(op, fld, side, owner, lx, ly):
    t = ZERO
    for c, dx, dy in op.get(fld, []):
        t = t + c * shp(side, owner, fld, dx, dy, lx, ly)
    return t


def bilinear(opsA, opsB, D, ownA='shell', ownB='shell', lx='int', ly='int', lxB=None, lyB=None):
    """sum_pq opA_p D_pq opB_q  for every pair of fields"""
    lxB = lx if lxB is None else lxB
    lyB = ly if lyB is None else lyB
    out = {}
    for al in range(3):
        va = [opval(o, al, 'A', ownA, lx, ly) for o in opsA]
        if not any(v != ZERO for v in va):
            continue
        for be in range(3):
            vb = [opval(o, be, 'B', ownB, lxB, lyB) for o in opsB]
            t = ZERO
            for p in range(len(opsA)):
                if va[p] == ZERO:
                    continue
                for q in range(len(opsB)):
                    if vb[q] == ZERO or D(p, q) is None:
                        continue
                    t = t + va[p] * D(p, q) * vb[q]
            if t != ZERO:
                out[(al, be)] = t
    return out


def scaled(d, c):
    return {k: v * c for k, v in d.items()}


def diag(*cs):
    def D(p, q):
        return cs[p] if p == q else None
    return D


# ---------------------------------------------------------------- panel matrices
def linear_stiffness(P, cyl):
    ops = strain_ops(P, cyl)
    return scaled(bilinear(ops, ops, lambda p, q: F(p, q)), P.a * P.b.scale(Fr(1, 4)))


def numeric_stiffness(P, cyl, nl, dx, dy):
    ops = strain_ops(P, cyl, nl)
    return scaled(bilinear(ops, ops, lambda p, q: F(p, q), lx='q', ly='q'),
                  WT * dx * dy.scale(Fr(1, 4)))


def geometric(P, N, jac, loc):
    a, b = P.a, P.b
    sx = {2: [(C(2) / a, 1, 0)]}
    sy = {2: [(C(2) / b, 0, 1)]}

    def D(p, q):
        return {(0, 0): N[0], (1, 1): N[1]}.get((p, q), N[2])
    return scaled(bilinear([sx, sy], [sx, sy], D, lx=loc, ly=loc), jac)


def analytic_geometric(P):
    return geometric(P, (sym('Nxx'), sym('Nyy'), sym('Nxy')), P.a * P.b.scale(Fr(1, 4)), 'int')


def numeric_geometric(P, cyl, nl, dx, dy):
    e = state_strains(P, cyl, nl)
    N = []
    for i, nm in enumerate(('Nxx0', 'Nyy0', 'Nxy0')):
        t = sym(nm)
        for j in range(6):
            t = t + F(i, j) * e[j]
        N.append(t)
    return geometric(P, N, WT * dx * dy.scale(Fr(1, 4)), 'q')


def internal_force(P, cyl, nl, dx, dy, shear=4):
    e = state_strains(P, cyl, nl, shear)
    ops = strain_ops(P, cyl, nl)
    out = {}
    for al in range(3):
        t = ZERO
        for i in range(6):
            v = opval(ops[i], al, 'A', P.o, 'q', 'q')
            if v == ZERO:
                continue
            Ni = ZERO
            for j in range(6):
                Ni = Ni + F(i, j) * e[j]
            t = t + Ni * v
        out[(al,)] = t * WT * dx * dy.scale(Fr(1, 4))
    return out


def mass(P, rho, h, d, jac, loc):
    """kinetic energy of  u - z w,x ; v - z w,y ; w  with z in [d - h/2, d + h/2]"""
    a, b = P.a, P.b
    u = {0: [(ONE, 0, 0)]}
    v = {1: [(ONE, 0, 0)]}
    w = {2: [(ONE, 0, 0)]}
    sx = {2: [(C(2) / a, 1, 0)]}
    sy = {2: [(C(2) / b, 0, 1)]}
    I0 = rho * h
    I1 = rho * h * d
    I2 = rho * h * (d * d + h * h.scale(Fr(1, 12)))

    def D(p, q):
        t = {(0, 0): I0, (1, 1): I0, (2, 2): I0, (3, 3): I2, (4, 4): I2,
             (0, 3): -I1, (3, 0): -I1, (1, 4): -I1, (4, 1): -I1}
        return t.get((p, q))
    ops = [u, v, w, sx, sy]
    return scaled(bilinear(ops, ops, D, lx=loc, ly=loc), jac)


def slope_x(P):
    return {2: [(C(2) / P.a, 1, 0)]}


def slope_y(P):
    return {2: [(C(2) / P.b, 0, 1)]}


def wop():
    return {2: [(ONE, 0, 0)]}


def aero(P, ax, beta, gamma, jac, loc):
    """-beta w_A,s w_B - gamma w_A w_B  (slope term integrated by parts)"""
    s = slope_x(P) if ax == 'x' else slope_y(P)
    o1 = scaled(bilinear([s], [wop()], lambda p, q: -beta, lx=loc, ly=loc), jac)
    if gamma is not None:
        o2 = scaled(bilinear([wop()], [wop()], lambda p, q: -gamma, lx=loc, ly=loc), jac)
        o1 = {k: o1.get(k, ZERO) + o2.get(k, ZERO) for k in set(o1) | set(o2)}
    return o1


def aero_damping(P, mu, jac):
    return scaled(bilinear([wop()], [wop()], lambda p, q: -mu), jac)
