"""C13..C18: connection and stiffener matrices."""
import ast
from fractions import Fraction as Fr
from .. import kernels as K
from .. import specs as SP
from .. import flow as FL
from .. import pylayer as PL
from ..kernels import sym, attr, A
from ..poly import Poly, ONE, ZERO, show
from ..report import Check
from .panel_kernels import record

D = 'panels/multidomain/connections/'
ST = 'panels/stiffener/models/'
C = Poly.const
half, quart = Fr(1, 2), Fr(1, 4)

U, V, W = {0: [(ONE, 0, 0)]}, {1: [(ONE, 0, 0)]}, {2: [(ONE, 0, 0)]}


def neg(op):
    return {f: [(-c, i, j) for c, i, j in t] for f, t in op.items()}


def wx(a):
    return {2: [(C(2) / a, 1, 0)]}


def wy(b):
    return {2: [(C(2) / b, 0, 1)]}


def add(*ops):
    out = {}
    for o in ops:
        for f, t in o.items():
            out[f] = out.get(f, []) + t
    return out


def mul(op, c):
    return {f: [(k * c, i, j) for k, i, j in t] for f, t in op.items()}


def blocks(jump1, jump2, k, jac, own1, own2, loc1, loc2):
    """jump_q = jump1_q(first) + jump2_q(second); energy 1/2 sum k_q jump_q^2"""
    d = SP.diag(*k)
    sc = lambda m: SP.scaled(m, jac)
    return {
        '11': sc(SP.bilinear(jump1, jump1, d, own1, own1, *loc1)),
        '12': sc(SP.bilinear(jump1, jump2, d, own1, own2, loc1[0], loc1[1], loc2[0], loc2[1])),
        '22': sc(SP.bilinear(jump2, jump2, d, own2, own2, *loc2)),
    }


def subst(mx, table):
    """replace atoms whose equality the property presupposes (panels that share an edge)"""
    if not table:
        return

    def one(a):
        return table.get(a)
    for e in mx.entries.values():
        e.value = FL.rebuild(e.value, one, {})


def block(ck, rel, fn, names, which, spec, own, same=()):
    ro, co = {'1': own[0], '2': own[1]}[which[0]], {'1': own[0], '2': own[1]}[which[1]]
    mx = K.decode_matrix(rel, fn, None, key=(fn, which), row_owner=ro, col_owner=co,
                         symmetric=(which != '12'), names=names)
    subst(mx, dict(same))
    n = K.compare(mx, spec[which])
    record(ck, mx, n, rel, fn, 'block ' + which)


def at(p):
    return attr(p, 'a'), attr(p, 'b')


a1, b1 = at('p1')
a2, b2 = at('p2')
same_a = {('attr', sym('p2'), 'a'): a1}
same_b = {('attr', sym('p2'), 'b'): b1}


def same(*ds):
    out = {}
    for d in ds:
        out.update(d)
    return out


def edge(axis):
    if axis == 'x':
        l1 = (C(2) * sym('xcte1') / a1 - ONE, 'int')
        l2 = (C(2) * sym('xcte2') / a2 - ONE, 'int')
        return l1, l2, b1.scale(half), wx(a1), wx(a2), same_b
    l1 = ('int', C(2) * sym('ycte1') / b1 - ONE)
    l2 = ('int', C(2) * sym('ycte2') / b2 - ONE)
    return l1, l2, a1.scale(half), wy(b1), wy(b2), same_a


def names_edge(axis):
    c1, c2 = axis + 'cte1', axis + 'cte2'
    tail = ['size', 'row0', 'col0']
    return {'11': ['kt', 'kr', 'p1', c1] + tail, '12': ['kt', 'kr', 'p1', 'p2', c1, c2] + tail,
            '22': ['kt', 'kr', 'p1', 'p2', c2] + tail}


def edge_check(ck, kind, axis, j1, j2):
    l1, l2, jac, r1, r2, eq = edge(axis)
    kt, kr = sym('kt'), sym('kr')
    spec = blocks(j1 + [r1], j2 + [neg(r2)], (kt, kt, kt, kr), jac, 'p1', 'p2', l1, l2)
    nm = names_edge(axis)
    mod = D + 'kC%s%scte.pyx' % (kind, axis)
    for w in ('11', '12', '22'):
        block(ck, mod, 'fkC%s%scte%s' % (kind, axis, w), nm[w], w, spec, ('p1', 'p2'), eq)


def c13(tier):
    ck = Check('C13', 'Value numbering of the edge connection kernels; every coefficient compared with the '
               'second derivative of 1/2 int kt |jump|^2 + kr (rotation jump)^2 along the edge')
    for ax in 'xy':
        edge_check(ck, 'SS', ax, [U, V, W], [neg(U), neg(V), neg(W)])
    ck.need('kernel analyses', 6)
    return ck


def c14(tier):
    ck = Check('C14', 'Value numbering of the base-flange kernels; every coefficient compared with the '
               'second derivative of the penalty energy of the jump of displacements expressed in the '
               'base frame')
    # flange turned by 90 degrees about the joint: joint along y (x constant): u1 = w2, v1 = v2, w1 = -u2
    edge_check(ck, 'BF', 'x', [U, V, W], [neg(W), neg(V), U])
    edge_check(ck, 'BF', 'y', [U, V, W], [neg(U), neg(W), V])
    ck.need('kernel analyses', 6)
    return ck


def c15(tier):
    ck = Check('C15', 'Value numbering of the surface connection kernels; every coefficient compared with '
               'the second derivative of 1/2 int kt |jump of the facing surfaces|^2 over the area')
    kt, d = sym('kt'), sym('dsb')
    loc = ('int', 'int')
    spec = blocks([add(U, mul(wx(a1), d)), add(V, mul(wy(b1), d)), W], [neg(U), neg(V), neg(W)],
                  (kt, kt, kt), a1 * b1.scale(quart), 'p1', 'p2', loc, loc)
    tail = ['size', 'row0', 'col0']
    nm = {'11': ['kt', 'dsb', 'p1'] + tail, '12': ['kt', 'dsb', 'p1', 'p2'] + tail,
          '22': ['kt', 'p1', 'p2'] + tail}
    for w in ('11', '12', '22'):
        block(ck, D + 'kCSB.pyx', 'fkCSB' + w, nm[w], w, spec, ('p1', 'p2'), same(same_a, same_b))
    ck.need('kernel analyses', 3)
    return ck


def c16(tier):
    ck = Check('C16', 'Value numbering of the prescribed-displacement penalty kernels; every coefficient '
               'compared with the second derivative of 1/2 (ku u^2 + kv v^2 + kw w^2) at the point or '
               'along the line')
    a, b = at('p')
    ku, kv, kw = sym('ku'), sym('kv'), sym('kw')
    lx, ly = C(2) * sym('xp') / a - ONE, C(2) * sym('yp') / b - ONE
    tail = ['size', 'row0', 'col0']
    for fn, nm, loc, jac in (
            ('fkCpd', ['ku', 'kv', 'kw', 'p', 'xp', 'yp'], (lx, ly), ONE),
            ('fkCld_xcte', ['ku', 'kv', 'kw', 'p', 'xp'], (lx, 'int'), b.scale(half)),
            ('fkCld_ycte', ['ku', 'kv', 'kw', 'p', 'yp'], ('int', ly), a.scale(half))):
        spec = SP.scaled(SP.bilinear([U, V, W], [U, V, W], SP.diag(ku, kv, kw), 'p', 'p', *loc), jac)
        mx = K.decode_matrix(D + 'kCpd.pyx', fn, None, key=(fn,), row_owner='p', col_owner='p',
                             names=nm + tail)
        record(ck, mx, K.compare(mx, spec), D + 'kCpd.pyx', fn, '')
    from .loads import point_constraint
    point_constraint(ck)
    ck.need('kernel analyses', 3)
    return ck


SK = ['x1u', 'x1ur', 'x2u', 'x2ur', 'x1v', 'x1vr', 'x2v', 'x2vr', 'x1w', 'x1wr', 'x2w', 'x2wr',
      'y1u', 'y1ur', 'y2u', 'y2ur', 'y1v', 'y1vr', 'y2v', 'y2vr', 'y1w', 'y1wr', 'y2w', 'y2wr']
SKF = [x + 'f' for x in SK]
a, b, bf, df = sym('a'), sym('b'), sym('bf'), sym('df')


def c17(tier):
    ck = Check('C17', 'Value numbering of the blade beam kernels; every coefficient compared with the '
               'second derivative of the strain, load and kinetic energies of a beam at y = ys whose '
               'axis is at the distance df from the skin')
    rel = ST + 'bladestiff1d_clt_donnell_bardell.pyx'
    loc = ('int', C(2) * sym('ys') / b - ONE)
    jac = a.scale(half) * bf
    tail = ['size', 'row0', 'col0']
    uw = [x for x in SK if 'v' not in x]
    ax = {0: [(C(2) / a, 1, 0)], 2: [(df * C(4) / a / a, 2, 0)]}        # u,x + df w,xx
    cur = {2: [(C(4) / a / a, 2, 0)]}                                   # w,xx
    tw = {2: [(C(4) / a / b, 1, 1)]}                                    # w,xy
    E1, F1, S1, J = sym('E1'), sym('F1'), sym('S1'), sym('Jxx')

    def Dm(p, q):
        return {(0, 0): E1, (1, 1): F1, (2, 2): J, (0, 2): -S1, (2, 0): -S1}.get((p, q))
    o = ''
    spec = SP.scaled(SP.bilinear([ax, cur, tw], [ax, cur, tw], Dm, o, o, *loc), jac)
    todo = [('fkCf', ['ys', 'a', 'b', 'bf', 'df', 'E1', 'F1', 'S1', 'Jxx', 'm', 'n'] + uw + tail, spec)]
    Fx = sym('Fx')
    spec = SP.scaled(SP.bilinear([wx(a)], [wx(a)], SP.diag(Fx), o, o, *loc), a.scale(half))
    todo.append(('fkGf', ['ys', 'Fx', 'a', 'b', 'bf', 'm', 'n'] + [x for x in SK if 'w' in x] + tail, spec))
    rho, h, hb, hf = sym('rho'), sym('h'), sym('hb'), sym('hf')
    z0 = h.scale(half) + hb                        # the blade spans z0 .. z0 + bf below the skin
    z2 = z0 * z0 + z0 * bf + bf * bf.scale(Fr(1, 3))
    ops = [U, V, W, wx(a), wy(b)]

    def Mm(p, q):
        if p == q:
            return ONE if p < 3 else z2
        if (p, q) in ((0, 3), (3, 0), (1, 4), (4, 1)):
            return df
        return None
    spec = SP.scaled(SP.bilinear(ops, ops, Mm, o, o, *loc), jac * hf * rho)
    todo.append(('fkMf', ['ys', 'rho', 'h', 'hb', 'hf', 'a', 'b', 'bf', 'df', 'm', 'n'] + SK + tail, spec))
    for fn, nm, spec in todo:
        mx = K.decode_matrix(rel, fn, None, key=(fn,), row_owner=o, col_owner=o, names=nm)
        record(ck, mx, K.compare(mx, spec), rel, fn, '')
    ck.need('kernel analyses', 3)
    beam_constants(ck)
    return ck


# ------------------------------------------------------------------ constants handed to the kernels
def beam_constants(ck):
    rel, cname = 'panels/stiffener/bladestiff1d.py', 'BladeStiff1D'
    lam = sym('$lam')
    s = lambda k: PL.attr_of(sym('self'), k)
    halfh = (A(('call', A(('fn', 'sum')), (PL.attr_of(s('panel1'), 'plyts'),), ())) +
             A(('call', A(('fn', 'sum')), (PL.attr_of(s('panel2'), 'plyts'),), ()))).scale(quart)
    tot = lambda k: A(('call', A(('fn', 'sum')), (s(k),), ()))
    ini = PL.cls(rel, cname).methods.get('__init__')
    starts = {t.attr for x in (ini.body if ini else ()) for y in ast.walk(x) if isinstance(y, ast.Assign) and
              isinstance(y.value, ast.Constant) and y.value.value is None for t in y.targets if isinstance(t, ast.Attribute)}
    for nply in (1, 2, 3, 4):
        plies = [sym('$ply%d' % i) for i in range(nply)]

        def laminate(fl, args, kw, st, node):
            st.heap[('attr', lam, 'plies')] = FL.tup(*plies)
            return lam
        for fst, bst in ((True, True), (True, False)):
            asm = PL.none_assume({s('fstack'): not fst, s('bstack'): not bst} | {
                x: False for x in (s('bf') * tot('fplyts'), s('bf') * s('hf'), s('bb') * tot('bplyts'), s('bb') * s('hb'))})
            f, fl, st, ret = PL.method(rel, cname, '_rebuild', assume=asm,
                                       externs={'composites.laminated_plate': laminate})
            ck.count('beam constant analyses')
            wh = '%s:%d' % (rel, f.lineno)

            def val(k, wh=wh):
                v = st.heap.get(('attr', sym('self'), k))
                ev = [e for e in fl.events if e.kind == 'setattr' and e.index == (k,) and e.base == sym('self')]
                return v, PL.where(ev[-1]) if ev else wh
            q = lambda i, k: PL.attr_of(plies[i], k)
            E1 = ZERO
            mid, pos = ZERO, ZERO
            ymid, ybot = ZERO, ZERO
            bt = ZERO
            for i in range(nply):
                h = q(i, 'h')
                E1 = E1 + h * (q(i, 'q11L') - q(i, 'q12L') * q(i, 'q12L') / q(i, 'q22L'))
                t = h * (q(i, 'q16L') - q(i, 'q12L') * q(i, 'q26L') / q(i, 'q22L'))
                y = pos + h.scale(half)
                pos = pos + h
                ybot = ybot - y * t
                bt = bt + t
            tops = [ybot, ybot + pos.scale(half) * bt, ybot + tot('fplyts').scale(half) * bt,
                    ybot + s('hf').scale(half) * bt]
            hb = tot('bplyts') if bst else ZERO
            case = '%s:%d' % ('base' if bst else 'no-base', nply)
            want = {'E1': [E1], 'F1': [E1 * s('bf') * s('bf') * C(Fr(1, 12))], 'S1': tops,
                    'dbf': [s('bf').scale(half) + hb + halfh]}
            for k, ws in want.items():
                v, w = val(k)
                inst = 'beam:%s' % k
                if v is None:
                    ck.und('%s (%s): value not found' % (inst, case))
                    continue
                if any(v == x for x in ws):
                    ck.ok(sample='%s: %s.%s for %d plies' % (w, cname, k, nply) if nply == 2 else None)
                elif unread(v, plies, s):
                    ck.und('%s (%s): %s' % (inst, case, show(v)[:80]))
                else:
                    ck.bad('constant', w, inst, '%s.%s for a flange of %d plies is %s, must be %s' % (
                        cname, k, nply, show(v)[:160], show(ws[0])[:160]))
            # section properties kept with the stiffener
            hf = tot('fplyts')
            areas = {'Asf': [s('bf') * x for x in (hf, s('hf'))],
                     'Iyy': [x * s('bf') * s('bf') * s('bf') * C(Fr(1, 12)) for x in (hf, s('hf'))]}
            if bst:
                areas['Asb'] = [s('bb') * x for x in (hb, s('hb'))]
                areas['As'] = [x + y for x in areas['Asb'] for y in areas['Asf']]
            for k, ws in sorted(areas.items()):
                v, w = val(k)
                if v is None:
                    if k in starts:
                        ck.bad('constant', wh, 'beam:%s' % k, '%s.%s starts as None and is never computed' % (cname, k))
                elif any(v == x for x in ws):
                    ck.ok()
                elif unread(v, plies, s):
                    ck.und('beam:%s (%s): %s' % (k, case, show(v)[:80]))
                else:
                    ck.bad('constant', w, 'beam:%s' % k, '%s.%s is %s, must be %s' % (cname, k, show(v)[:160], show(ws[0])[:160]))
            v, w = val('Jxx')
            if v is None and 'Jxx' in starts:
                ck.bad('constant', wh, 'beam:Jxx', '%s.Jxx starts as None and is never computed' % cname)
            if v is not None:
                ok = K.poly_mentions(v, lambda z: z[0] == 'attr' and (z[2].startswith('q') and z[2].endswith('L') or z[2] in (
                    'flaminaprops', 'D', 'ABD', 'A', 'g12', 'G12', 'Gxy')) or z == ('sym', '$lam'))
                if ok:
                    ck.ok()
                else:
                    ck.bad('constant', w, 'bladestiff1d:Jxx', '%s.Jxx, used as the torsional stiffness of the flange, has no '
                           'shear modulus: %s' % (cname, show(v)[:120]))
    ck.need('beam constant analyses', 8)


def unread(v, plies, s):
    """the value contains something the analysis has no meaning for"""
    known = {'self', '$lam', 'bf', 'bb'} | {p.single_atom()[1] for p in plies}

    def odd(z):
        if z[0] in ('attr', 'fn', 'str', 'ext', 'num', 'none'):
            return False
        if z[0] == 'sym':
            return z[1] not in known
        if z[0] == 'call':
            fn = z[1].single_atom()
            return not (fn is not None and fn[0] == 'fn' and fn[1] == 'sum')
        return True
    return K.poly_mentions(v, odd)


def c18(tier):
    ck = Check('C18', 'Value numbering of the skin-flange connection kernels; every coefficient compared '
               'with the second derivative of the penalty energy of the jumps along the stiffener line')
    rel = ST + 'bladestiff2d_clt_donnell_bardell.pyx'
    l1 = ('int', C(2) * sym('ys') / b - ONE)
    l2 = ('int', -ONE)
    kt, kr = sym('kt'), sym('kr')
    spec = blocks([U, V, W, wy(b)], [neg(U), neg(W), V, neg(wy(bf))], (kt, kt, kt, kr),
                  a.scale(half), '', '.f', l1, l2)
    tail = ['size', 'row0', 'col0']
    for fn, w, nm in (
            ('fkCss', '11', ['kt', 'kr', 'ys', 'a', 'b', 'm', 'n'] + SK),
            ('fkCsf', '12', ['kt', 'kr', 'ys', 'a', 'b', 'bf', 'm', 'n', 'm1', 'n1'] + SK + SKF),
            ('fkCff', '22', ['kt', 'kr', 'a', 'bf', 'm1', 'n1'] + SKF)):
        block(ck, rel, fn, nm + tail, w, spec, ('', '.f'))
    ck.need('kernel analyses', 3)
    return ck


REGISTRY = {'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18}
