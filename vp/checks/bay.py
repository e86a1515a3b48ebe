"""C32 stiffened bays: assembly of skins, stiffener bases, flanges and couplings."""
from fractions import Fraction
from .. import flow as FL
from .. import kernels as K
from .. import proj
from .. import pylayer as PL
from ..kernels import sym, attr, A
from ..pylayer import NONE, S_, strip, BAY, BS1, BS2, SHELL, attr_of
from ..poly import Poly, ONE, ZERO, show, atom_of
from ..report import Check
from . import kept as KE
from .connections import SK, SKF
from .options import default_of, completion, any_of, strip_int, mentions_heap, PL_args, is_half, NONSYM

C = Poly.const
half = C(Fraction(1, 2))
me = sym('self')
LISTS = {'panels': (SHELL, 'Shell'), 'bladestiff1ds': (BS1, 'BladeStiff1D'),
         'bladestiff2ds': (BS2, 'BladeStiff2D')}
CALC = ('calc_kC', 'calc_kG', 'calc_kM', 'calc_kA', 'calc_cA', 'calc_kT')
PLATE_M = 'plate_clpt_donnell_bardell'
POST = {}
for _x in ('kC', 'kG', 'kM', 'kA', 'cA', 'kT'):
    POST[('Shell', 'calc_' + _x)] = ('item', 'matrices', _x)
    POST[('BladeStiff1D', 'calc_' + _x)] = ('attr', _x)
    POST[('BladeStiff2D', 'calc_' + _x)] = ('attr', _x)
TAIL = ['size', 'row0', 'col0']
KSIG = {
    'fkCf': ['ys', 'a', 'b', 'bf', 'df', 'E1', 'F1', 'S1', 'Jxx', 'm', 'n'] + [x for x in SK if 'v' not in x] + TAIL,
    'fkGf': ['ys', 'Fx', 'a', 'b', 'bf', 'm', 'n'] + [x for x in SK if 'w' in x] + TAIL,
    'fkMf': ['ys', 'rho', 'h', 'hb', 'hf', 'a', 'b', 'bf', 'df', 'm', 'n'] + SK + TAIL,
    'fkCss': ['kt', 'kr', 'ys', 'a', 'b', 'm', 'n'] + SK + TAIL,
    'fkCsf': ['kt', 'kr', 'ys', 'a', 'b', 'bf', 'm', 'n', 'm1', 'n1'] + SK + SKF + TAIL,
    'fkCff': ['kt', 'kr', 'a', 'bf', 'm1', 'n1'] + SKF + TAIL,
}


def sattr(n):
    return attr('self', n)


def bay_typer(a):
    for it, (rel, cn) in LISTS.items():
        if PL.elem_of(a, sattr(it)):
            return PL.cls(rel, cn)
    if a[0] == 'attr' and a[2] in ('base', 'flange', 'panel1', 'panel2'):
        return PL.cls(SHELL, 'Shell')
    return None


OPAQUE = CALC + ('_rebuild', 'get_size', 'calc_kt_kr', 'calc_kw_tsl', 'check_c', '_default_field', 'msg', 'warn')


def run(rel, cname, name, attrs=None, args=None, assume=None, opaque=(), typer=bay_typer):
    c = PL.cls(rel, cname)
    if name not in c.methods:
        return None
    f = c.methods[name]
    op = set(OPAQUE) | set(opaque)
    fl = FL.Flow(proj.RESOLVE, assume=assume, self_class=c, inline=lambda g: g is f or (
        not g.module.path.endswith('.pyx') and g.name not in op))
    fl.typer = typer
    fl.post = POST
    fl.fold_globals = True
    at = dict(attrs or {})
    st = FL.State({}, {('attr', me, k): v for k, v in at.items()}, ())
    st, ret = fl.run(f, args, st)
    return f, fl, st, ret


BAYATTRS = dict(tstiff2ds=FL.tup(), model=S_(PLATE_M))
BSIZE = [A(('call', sattr('get_size'), (), (('self', me),))), sattr('size')]


def vague(v):
    return K.poly_mentions(v, lambda z: isinstance(z, tuple) and z[:1] in (('unk',), ('join',), ('loopout',)))


def expect(ck, rule, wh, inst, what, v, alts):
    """one argument"""
    ck.count('component arguments')
    v = strip(v)
    if v in alts or strip_int(v) in alts or any(PL.same_ratio(v, x) for x in alts):
        ck.ok(sample='%s = %s' % (what, show(v)))
        return True
    if vague(v):
        ck.und('%s = %s' % (what, show(v)[:100]))
        return None
    ck.bad(rule, wh, inst, '%s is %s, expected %s' % (what, show(v)[:120], show(alts[0])[:120]))
    return False


# ------------------------------------------------------------------ the bay
def assembled(ck, name, kinds, extra=()):
    """pieces of a matrix of the bay"""
    r = run(BAY, 'StiffPanelBay', name, BAYATTRS)
    if r is None:
        ck.und('StiffPanelBay.%s does not exist' % name)
        return None
    f, fl, st, ret = r
    wh = PL.wf(f)
    ck.count('bay methods')
    if ret is None or ret == NONE:
        ck.bad('result', wh, 'bay:%s:none' % name, 'StiffPanelBay.%s returns nothing' % name)
        return None
    if name.startswith('calc_k'):
        KE.kept(ck, 'StiffPanelBay', name, fl, f, ret, name[5:])
    got = {}
    unknown = False
    for lf in PL.rec_leaves(fl, ret):
        unit, atom = PL.split_prod(lf)
        if atom is None or atom[0] != 'call' or PL.callee_name(atom) not in CALC:
            txt = repr(lf)[:200]
            stale = stale_read(atom)
            if stale:
                ck.bad('result', wh, 'bay:%s:%s' % (name, stale), 'StiffPanelBay.%s adds the %s left on the '
                       'component by an earlier call' % (name, stale))
            else:
                ck.und('StiffPanelBay.%s: piece not recognised: %s' % (name, txt))
                unknown = True
            continue
        kw = dict(atom[3])
        o = kw.get('self', ZERO)
        it = None
        oa = o.single_atom()
        if oa is not None and oa[0] in ('elem', 'belem'):
            it = next((k for k in LISTS if oa[1] == sattr(k)), None)
        if it is None:
            ck.und('StiffPanelBay.%s: %s of %s' % (name, PL.callee_name(atom), show(o)[:60]))
            unknown = True
            continue
        cn = LISTS[it][1]
        inst = 'bay:%s:%s' % (name, it)
        if PL.callee_name(atom) != kinds:
            ck.bad('matrix', wh, inst + ':' + PL.callee_name(atom), 'StiffPanelBay.%s adds %s of the %s' %
                   (name, PL.callee_name(atom), it))
        if len(lf.loops) != 1 or lf.loops[0][0] != sattr(it):
            ck.bad('component', wh, inst + ':loop', 'StiffPanelBay.%s adds the %s once for every element of %s' %
                   (name, it, ', '.join(show(x[0]) for x in lf.loops) or 'nothing'))
            continue
        if lf.inds:
            if K.poly_mentions(lf.cond, lambda z: isinstance(z, tuple) and z[:1] in (('elem',), ('belem',))):
                ck.bad('component', wh, inst + ':cond', 'StiffPanelBay.%s adds the %s only when %s' %
                       (name, it, show(lf.cond)[:100]))
            else:
                ck.und('%s: added under %s' % (inst, show(lf.cond)[:80]))
            continue
        c = unit.scale(lf.coef)
        if c != ONE:
            ck.bad('component', wh, inst + ':factor', 'StiffPanelBay.%s adds %s times the %s' % (name, show(c), it))
        got[it] = got.get(it, 0) + 1
        what = 'StiffPanelBay.%s: ' % name + '%s of ' + it
        expect(ck, 'range', wh, inst + ':size', what % 'size', kw.get('size', NONE), BSIZE)
        for ax in ('row0', 'col0'):
            v = kw.get(ax, ZERO)
            if it != 'bladestiff2ds':
                expect(ck, 'range', wh, '%s:%s' % (inst, ax), what % ax, v, [ZERO])
                continue
            ck.count('component arguments')
            rec = PL.recurrence(fl, v)
            if rec is None:
                if v == ZERO or v.cval() is not None or not vague(v) and not K.poly_mentions(
                        v, lambda z: isinstance(z, tuple) and z[:1] in (('phi',), ('sum',), ('call',))):
                    ck.bad('range', wh, '%s:%s' % (inst, ax), '%s of every stiffener is %s' % (ax, show(v)[:80]))
                else:
                    ck.und('%s: %s = %s' % (inst, ax, show(v)[:100]))
                continue
            v0, step = rec
            if v0 not in (C(3) * sattr('m') * sattr('n'),):
                ck.bad('range', wh, '%s:%s:first' % (inst, ax), 'the first stiffener starts at %s %s, expected '
                       'after the skin' % (ax, show(v0)[:80]))
            else:
                ck.ok(sample='%s starts at %s' % (inst, show(v0)))
            if flange_step(step, o):
                ck.ok(sample='%s advances by %s' % (inst, show(step)))
            else:
                ck.bad('range', wh, '%s:%s:step' % (inst, ax), 'the range of the next stiffener starts %s '
                       'further, expected the size of the flange' % show(step)[:140])
        for k, alts in dict(extra).items():
            if k in PL.cls(*LISTS[it]).methods[PL.callee_name(atom)].param_names():
                expect(ck, 'argument', wh, '%s:%s' % (inst, k), what % k, kw.get(k, NONE), alts)
        done = 'finalize' in kw and kw['finalize'].cval() not in (0, None) or 'finalize' not in kw
        if not done and 'sym' not in lf.wrap and kinds not in ('calc_kA',):
            ck.bad('half', wh, inst + ':half', 'the half matrix of the %s is not completed in StiffPanelBay.%s' %
                   (it, name))
        if kinds == 'calc_kA' and ('sym' in lf.wrap or 'skew' in lf.wrap):
            ck.bad('half', wh, inst + ':forced', 'the aerodynamic matrix is made symmetric')
    return f, fl, st, got, unknown, wh


def stale_read(atom):
    if atom is None:
        return None
    if atom[0] == 'attr' and atom[2] in ('kC', 'kG', 'kM', 'kA', 'cA'):
        return atom[2]
    if atom[0] == 'idx' and len(atom[2]) == 1:
        b = atom[1].single_atom()
        k = atom[2][0].single_atom()
        if b is not None and b[0] == 'attr' and b[2] == 'matrices' and k is not None and k[0] == 'str':
            return 'matrices[%r]' % k[1]
    return None


def flange_size(v, s):
    fl_ = attr_of(s, 'flange')
    a = v.single_atom()
    if a is not None and a[0] == 'call' and PL.callee_name(a) == 'get_size':
        return dict(a[3]).get('self') == fl_ or (a[1].single_atom() or ('',))[0] == 'attr' and \
            a[1].single_atom()[1] == fl_
    return v in (C(3) * attr_of(fl_, 'm') * attr_of(fl_, 'n'), attr_of(fl_, 'size'))


def flange_step(step, s):
    """flange.get_size() when there is a flange, else 0"""
    fl_ = attr_of(s, 'flange')
    none = ('is', fl_, NONE)

    def on(val):
        def fn(i):
            a = atom_of(i)
            if a[0] == 'ind' and a[1] == 'is' and {a[2], a[3]} == {fl_, NONE}:
                return ONE if val else ZERO
            if a[0] == 'ind' and a[1] == 'truth' and a[2] == fl_:
                return ZERO if val else ONE
            return None
        return step.map_atoms(fn)
    return on(True) == ZERO and flange_size(on(False), s)


def bay_matrix(ck, name, need, extra=()):
    r = assembled(ck, name, name, extra)
    if r is None:
        return
    f, fl, st, got, unknown, wh = r
    for it in need:
        n = got.get(it, 0)
        if n == 1:
            ck.ok()
        elif not unknown:
            ck.bad('component', wh, 'bay:%s:%s:count' % (name, it), 'StiffPanelBay.%s adds %s of the %s %d times' %
                   (name, name[5:], it, n))
    for it in got:
        if it not in need:
            ck.bad('component', wh, 'bay:%s:%s:extra' % (name, it), 'StiffPanelBay.%s adds the %s' % (name, it))


def bay_size(ck):
    r = run(BAY, 'StiffPanelBay', 'get_size', BAYATTRS)
    f, fl, st, ret = r
    ck.count('bay methods')
    wh = PL.wf(f)
    base = C(3) * sattr('m') * sattr('n')
    ok = skin = False
    und = False
    for lf in PL.rec_leaves(fl, ret):
        if lf.loops:
            if lf.loops[0][0] == sattr('bladestiff2ds') and len(lf.loops) == 1:
                continue
            und = True
    # rebuild the step of the sum
    for lf_set in [PL.rec_leaves(fl, ret)]:
        step = ZERO
        const = ZERO
        elem = None
        for lf in lf_set:
            v = (A(lf.atom) if lf.atom is not None and lf.atom[0] != 'prod' else
                 lf.atom[1] if lf.atom is not None else ONE).scale(lf.coef) * lf.cond
            if lf.loops:
                step = step + v
                elem = lf.loops[0]
            else:
                const = const + v
        if elem is None:
            ck.bad('size', wh, 'bay:get_size:flanges', 'the size of the bay does not contain the flanges: %s' %
                   show(ret)[:120])
            return
        s = A(('belem', elem[0], 0)) if elem[1] == 0 or elem[1] == (0,) else A(('elem', elem[0], elem[1][1]))
        if und:
            ck.und('StiffPanelBay.get_size: %s' % show(ret)[:120])
            return
        if const == base:
            ck.ok(sample='skin size %s' % show(const))
        else:
            ck.bad('size', wh, 'bay:get_size:skin', 'the size of the skin is %s, expected 3 m n' % show(const)[:80])
        if flange_step(step, s):
            ck.ok(sample='flange size %s' % show(step))
        else:
            ck.bad('size', wh, 'bay:get_size:step', 'each stiffener adds %s to the size, expected the size of its '
                   'flange' % show(step)[:140])


# ------------------------------------------------------------------ stiffeners
SIZE_ARGS = dict(size=[sym('size')], row0=[sym('row0')], col0=[sym('col0')])


def fval(k):
    """expected value of a kernel argument of a stiffener kernel by its canonical name"""
    bay = sattr('bay')
    fla = attr_of(me, 'flange')
    if k in SK or k in ('a', 'b', 'm', 'n'):
        return [attr_of(bay, k)]
    if k in SKF:
        return [attr_of(fla, k[:-1])]
    return None


def stiff_run(ck, rel, cn, name, base, part, args=None):
    """base, part: presence of the base and of the flange"""
    pn = 'flam' if cn == 'BladeStiff1D' else 'flange'
    asm = PL.merge(PL.none_assume({sattr('base'): not base, sattr(pn): not part, sym('c'): True,
                                   sym('size'): False}),
                   PL.truth_assume({sym('finalize'): True, sattr('base'): base, sattr(pn): part}))
    at = dict(model=S_('bladestiff1d_clt_donnell_bardell')) if cn == 'BladeStiff1D' else None
    r = run(rel, cn, name, at, args, asm)
    if r is None:
        ck.und('%s.%s does not exist' % (cn, name))
        return None
    f, fl, st, ret = r
    key = name[5:]
    val = st.heap.get(('attr', me, key)) if st is not None else None
    ck.count('stiffener methods')
    return f, fl, val


def stiffener(ck, rel, cn, name, spec):
    """spec(base, part) -> {piece name: {argument: alternatives}}"""
    for base in (True, False):
        for part in (True, False):
            if not base and not part:
                continue
            r = stiff_run(ck, rel, cn, name, base, part, {'c': NONE} if name == 'calc_kG' else None)
            if r is None:
                return
            f, fl, val = r
            wh = PL.wf(f)
            cfg = '%s%s' % ('base' if base else 'no base', ', flange' if part else ', no flange')
            inst0 = '%s:%s' % (cn, name)
            if val is None:
                ck.bad('result', wh, inst0 + ':store', '%s.%s does not leave the matrix on the stiffener' % (cn, name))
                continue
            want = spec(base, part)
            got = {}
            unknown = False
            for lf in PL.rec_leaves(fl, val):
                unit, atom = PL.split_prod(lf)
                if atom is None and lf.coef == 0:
                    continue
                if atom is None or atom[0] != 'call':
                    ck.und('%s (%s): piece not recognised: %s' % (inst0, cfg, repr(lf)[:140]))
                    unknown = True
                    continue
                fa = atom[1].single_atom()
                nm = PL.callee_name(atom)
                kw = dict(atom[3])
                if fa is not None and fa[0] == 'ext' and fa[1].startswith('panels.'):
                    ck.bad('missing', wh, inst0 + ':missing:' + nm, '%s.%s uses %s, which does not exist' %
                           (cn, name, fa[1]))
                    continue
                if fa is not None and fa[0] == 'func' and nm in KSIG:
                    fn = FL.FE.load(fa[1]).funcs[fa[2]]
                    b = PL.kbind(fn, KSIG[nm], atom[2], atom[3])
                    if b is None:
                        ck.bad('binding', wh, inst0 + ':binding:' + nm, '%s.%s calls %s with arguments that do '
                               'not bind' % (cn, name, nm))
                        continue
                    kw = b
                    piece = nm
                elif nm in CALC:
                    o = kw.get('self', ZERO)
                    piece = 'base' if o == sattr('base') else 'flange' if o == sattr('flange') else show(o)
                    if nm != name:
                        ck.bad('matrix', wh, '%s:%s:%s' % (inst0, piece, nm), '%s.%s adds %s of the %s' %
                               (cn, name, nm, piece))
                else:
                    ck.und('%s (%s): %s' % (inst0, cfg, nm))
                    unknown = True
                    continue
                if lf.inds or lf.loops:
                    ck.und('%s (%s): %s added under %s' % (inst0, cfg, piece, show(lf.cond)[:80]))
                    unknown = True
                    continue
                if 'sym' not in lf.wrap:
                    done = piece in ('base', 'flange') and ('finalize' not in kw or kw['finalize'].cval())
                    if not done:
                        ck.bad('half', wh, '%s:%s:half' % (inst0, piece), '%s.%s leaves the half matrix of the %s '
                               'incomplete' % (cn, name, piece))
                if unit.scale(lf.coef) != ONE:
                    ck.bad('component', wh, '%s:%s:factor' % (inst0, piece), '%s.%s adds %s times the %s' %
                           (cn, name, show(unit.scale(lf.coef)), piece))
                got[piece] = got.get(piece, 0) + 1
                if piece not in want:
                    ck.bad('component', wh, '%s:%s:extra' % (inst0, piece), '%s.%s adds %s for a stiffener with %s' %
                           (cn, name, piece, cfg))
                    continue
                for k, alts in want[piece].items():
                    if k not in kw:
                        if k == 'c' and NONE in alts:
                            continue
                        ck.bad('argument', wh, '%s:%s:%s' % (inst0, piece, k), '%s.%s does not pass %s to the %s' %
                               (cn, name, k, piece))
                        continue
                    expect(ck, 'argument', wh, '%s:%s:%s' % (inst0, piece, k), '%s.%s: %s of the %s' %
                           (cn, name, k, piece), kw[k], alts)
            for piece in want:
                n = got.get(piece, 0)
                if n == 1:
                    ck.ok()
                elif not unknown:
                    ck.bad('component', wh, '%s:%s:count' % (inst0, piece), '%s.%s adds the %s %d times (%s)' %
                           (cn, name, piece, n, cfg))


def kernel_args(nm, over):
    out = {}
    for k in KSIG[nm]:
        v = over.get(k) or fval(k)
        if v is not None:
            out[k] = v
    return out


def halfsum():
    p1, p2 = (A(('call', A(('fn', 'sum')), (attr_of(sattr(p), 'plyts'),), ())) for p in ('panel1', 'panel2'))
    return (p1 + p2) * half


def stiffeners(ck):
    s = SIZE_ARGS
    own = {k: [sattr(k)] for k in ('ys', 'bf', 'E1', 'F1', 'S1', 'Jxx', 'hb', 'hf', 'rho')}
    own['df'] = [sattr('dbf')]
    h = [halfsum()]
    Fx = sattr('Fx')
    isn = FL.ind('is', Fx, NONE) if hasattr(FL, 'ind') else None

    def k1(nm):
        def spec(base, part):
            out = {}
            if base:
                out['base'] = s
            if part:
                out[nm] = kernel_args(nm, dict(own, h=h, **s))
            return out
        return spec
    stiffener(ck, BS1, 'BladeStiff1D', 'calc_kC', k1('fkCf'))
    stiffener(ck, BS1, 'BladeStiff1D', 'calc_kM', k1('fkMf'))

    def g1(base, part):
        out = {'base': s} if base else {}
        if part:
            d = kernel_args('fkGf', dict(own, **s))
            d.pop('Fx', None)
            out['fkGf'] = d
        return out
    stiffener(ck, BS1, 'BladeStiff1D', 'calc_kG', g1)

    skin = dict(size=[sym('size')], row0=[ZERO], col0=[ZERO])

    def kc2(base, part):
        out = {}
        if base:
            out['base'] = skin
        if part:
            out['flange'] = s
            o = sattr('base') if base else sattr('panel1')
            kk = lambda i: [A(('idx', A(('call', A(('func', proj.path('panels/multidomain/connections/penalties.py'),
                                                    'calc_kt_kr')), (),
                                         tuple(sorted(dict(p1=o, p2=sattr('flange'),
                                                           connection_type=S_('ycte')).items())))), (C(i),)))]
            flg = attr_of(me, 'flange')
            own2 = dict(ys=[sattr('ys')], kt=kk(0), kr=kk(1), bf=[attr_of(flg, 'b')], m1=[attr_of(flg, 'm')],
                        n1=[attr_of(flg, 'n')], size=[sym('size')])
            out['fkCss'] = kernel_args('fkCss', dict(own2, row0=[ZERO], col0=[ZERO]))
            out['fkCsf'] = kernel_args('fkCsf', dict(own2, row0=[ZERO], col0=[sym('col0')]))
            out['fkCff'] = kernel_args('fkCff', dict(own2, row0=[sym('row0')], col0=[sym('col0')]))
        return out
    stiffener(ck, BS2, 'BladeStiff2D', 'calc_kC', kc2)

    def plain(base, part):
        out = {'base': skin} if base else {}
        if part:
            out['flange'] = s
        return out

    stiffener(ck, BS2, 'BladeStiff2D', 'calc_kM', plain)

    def g2(base, part):
        out = {'base': skin} if base else {}
        if part:
            out['flange'] = dict(s, NLgeom=[sym('NLgeom')])
        return out
    stiffener(ck, BS2, 'BladeStiff2D', 'calc_kG', g2)


# ------------------------------------------------------------------ panels built by the bay and the stiffeners
def new_shell(fl, want=None):
    return [e for e in fl.events if e.kind == 'new' and e.op == 'Shell' and e.cond() != ZERO]


def shell_args(e):
    """constructor arguments by name, keywords of **kwargs included"""
    args, kw = e.extra[0], e.extra[1]
    names = PL.cls(SHELL, 'Shell').methods['__init__'].param_names()[1:]
    out = dict(zip(names, args))
    out.update({k: v for k, v in kw if isinstance(k, str)})
    return out


def attr_writes(fl, o):
    out = {}
    for e in fl.events:
        if e.kind == 'setattr' and e.base == o and e.index and e.cond() == ONE:
            out[e.index[0]] = e
    return out


def built_panel(ck, fl, e, what, inst, want):
    args = shell_args(e)
    wr = attr_writes(fl, e.base)
    for k, alts in want.items():
        v = wr[k].value if k in wr else args.get(k)
        wh = PL.where(wr[k]) if k in wr else PL.where(e)
        if v is None:
            ck.bad('panel', wh, '%s:%s' % (inst, k), '%s is built without %s' % (what, k))
            continue
        expect(ck, 'panel', wh, '%s:%s' % (inst, k), '%s: %s' % (what, k), v, alts)


def built(ck):
    bay = sym('bay')
    plys = PL.truth_assume({})
    # base and flange of the 2D blade
    given = {sym(k): False for k in ('bstack', 'fstack')}
    r = run(BS2, 'BladeStiff2D', '__init__', None, None, PL.none_assume(given), ('__init__',))
    if r is not None:
        f, fl, st, ret = r
        ck.count('panels built')
        es = new_shell(fl)
        a = st.heap.get(('attr', me, 'base')), st.heap.get(('attr', me, 'flange'))
        for nm, v in zip(('base', 'flange'), a):
            e = next((x for x in es if x.base == v), None)
            if e is None:
                ck.und('BladeStiff2D.%s: %s' % (nm, show(v)[:80] if v is not None else None))
                continue
            p = lambda n: A(('call', A(('fn', 'sum')), (attr_of(sym(n), 'plyts'),), ()))
            h = (p('panel1') + p('panel2')) * half
            hb = A(('call', A(('fn', 'sum')), (sym('bplyts'),), ()))
            if nm == 'base':
                want = {k: [attr_of(bay, k)] for k in SK + ['a', 'b', 'm', 'n', 'r']}
                want.update(stack=[sym('bstack')], plyts=[sym('bplyts')], laminaprops=[sym('blaminaprops')],
                            rho=[sym('rho')], y1=[sym('ys') - sym('bb') * half], y2=[sym('ys') + sym('bb') * half],
                            offset=[(h + hb).scale(Fraction(-1, 2))])
            else:
                want = dict(a=[attr_of(bay, 'a')], b=[sym('bf')], m=[sym('mf')], n=[sym('nf')], rho=[sym('rho')],
                            stack=[sym('fstack')], plyts=[sym('fplyts')], laminaprops=[sym('flaminaprops')],
                            model=[S_(PLATE_M)])
                # held at the two ends, free along its length
                for d in 'uvw':
                    for k in ('x1' + d, 'x2' + d):
                        want[k], want[k + 'r'] = [ZERO], [ONE if d == 'w' else ZERO]
                    for k in ('y1' + d, 'y2' + d):
                        want[k], want[k + 'r'] = [ONE], [ONE if d == 'w' else ZERO]
            built_panel(ck, fl, e, '%s of BladeStiff2D' % nm, 'BladeStiff2D:%s' % nm, want)
    # the offset follows the skin
    asm = PL.merge(PL.none_assume({sattr('base'): False, sattr('flange'): False}),
                   PL.truth_assume({sattr('base'): True, sattr('flange'): True}))
    c = PL.cls(BS2, 'BladeStiff2D')
    if '_rebuild' in c.methods:
        f = c.methods['_rebuild']
        fl = FL.Flow(proj.RESOLVE, assume=asm, self_class=c, inline=lambda g: g is f or
                     (g.module is f.module and g.name != '__init__' and not g.name.startswith('calc')))
        st, ret = fl.run(f)
        ck.count('panels built')
        base = sattr('base')
        hb = A(('call', A(('fn', 'sum')), (sattr('bplyts'),), ()))
        want = (halfsum() + hb).scale(Fraction(-1, 2))
        v = st.heap.get(('attr', base, 'offset'))
        if v is None:
            nb = st.heap.get(('attr', me, 'base'))
            if nb is None or nb == base:
                ck.bad('panel', PL.wf(f), 'BladeStiff2D:base:offset:kept', 'the offset of the base is not brought up '
                       'to date with the thickness of the skin panels')
        else:
            expect(ck, 'panel', PL.wf(f), 'BladeStiff2D:base:offset:rebuild', 'offset of the base', v, [want])
    # base of the 1D blade
    asm = PL.none_assume({sattr('bstack'): False, sattr('fstack'): False})
    c = PL.cls(BS1, 'BladeStiff1D')
    if '_rebuild' in c.methods:
        f = c.methods['_rebuild']
        fl = FL.Flow(proj.RESOLVE, assume=asm, self_class=c, inline=lambda g: g is f or
                     (g.module is f.module and g.name != '__init__' and not g.name.startswith('calc')))
        st, ret = fl.run(f)
        ck.count('panels built')
        v = st.heap.get(('attr', me, 'base'))
        e = next((x for x in new_shell(fl) if x.base == v), None)
        if e is None:
            ck.und('BladeStiff1D.base: %s' % (show(v)[:80] if v is not None else None))
        else:
            hb = A(('call', A(('fn', 'sum')), (sattr('bplyts'),), ()))
            b_ = sattr('bay')
            want = {k: [attr_of(b_, k)] for k in SK + ['a', 'b', 'm', 'n', 'r']}
            want.update(stack=[sattr('bstack')], plyts=[sattr('bplyts')], laminaprops=[sattr('blaminaprops')],
                        rho=[sattr('rho')], y1=[sattr('ys') - sattr('bb') * half],
                        y2=[sattr('ys') + sattr('bb') * half], offset=[(halfsum() + hb).scale(Fraction(-1, 2))])
            built_panel(ck, fl, e, 'base of BladeStiff1D', 'BladeStiff1D:base', want)
    # skin panels
    opt = ('stack', 'plyts', 'plyt', 'laminaprops', 'laminaprop', 'model', 'rho')
    for given_ in (True, False):
        r = run(BAY, 'StiffPanelBay', 'add_panel', None, None,
                PL.none_assume({sym(k): not given_ for k in opt}), ('__init__',))
        if r is None:
            break
        f, fl, st, ret = r
        ck.count('panels built')
        es = new_shell(fl)
        e = next((x for x in es if x.base == ret), es[0] if len(es) == 1 else None)
        if e is None:
            ck.und('StiffPanelBay.add_panel: %d panels built' % len(es))
            continue
        want = {k: [sattr(k)] for k in SK + ['a', 'b', 'm', 'n', 'r']}
        want.update(y1=[sym('y1')], y2=[sym('y2')])
        want.update({k: [sym(k) if given_ else sattr(k)] for k in opt})
        built_panel(ck, fl, e, 'panel of the bay', 'bay:add_panel', want)
        registered(ck, f, fl, st, e.base, ('panels',), 'add_panel')
    # stiffeners
    for nm, cn in (('add_bladestiff1d', 'BladeStiff1D'), ('add_bladestiff2d', 'BladeStiff2D')):
        asm = PL.none_assume({sym(k): False for k in ('rho', 'bstack', 'fstack', 'bplyts', 'blaminaprops', 'fplyts',
                                                      'flaminaprops')})
        r = run(BAY, 'StiffPanelBay', nm, None, None, asm, ('__init__',))
        if r is None:
            continue
        f, fl, st, ret = r
        ck.count('panels built')
        es = [e for e in fl.events if e.kind == 'new' and e.op == cn]
        if len(es) != 1:
            ck.und('StiffPanelBay.%s: %d stiffeners built' % (nm, len(es)))
            continue
        e = es[0]
        b = e.extra[2] or {}
        for k in ('rho', 'ys', 'bb', 'bf', 'bstack', 'bplyts', 'blaminaprops', 'fstack', 'fplyts', 'flaminaprops',
                  'mf', 'nf'):
            if k not in PL.cls(*((BS1 if cn == 'BladeStiff1D' else BS2), cn)).methods['__init__'].param_names():
                continue
            if k not in b:
                ck.bad('panel', PL.where(e), 'bay:%s:%s' % (nm, k), '%s does not hand %s to the stiffener' % (nm, k))
            else:
                expect(ck, 'panel', PL.where(e), 'bay:%s:%s' % (nm, k), '%s: %s' % (nm, k), b[k], [sym(k)])
        if b.get('bay') is not None and b['bay'] != me:
            ck.bad('panel', PL.where(e), 'bay:%s:bay' % nm, 'the stiffener gets %s as its bay' % show(b['bay'])[:60])
        registered(ck, f, fl, st, e.base, (cn.lower() + 's', 'stiffeners'), nm)


def close_assume():
    """isclose and allclose of two numbers"""
    def val(a):
        if a[0] != 'ind' or a[1] != 'truth':
            return None
        b = a[2].single_atom()
        if b is None or b[0] != 'call' or PL.callee_name(b) not in ('isclose', 'allclose') or len(b[2]) < 2:
            return None
        x, y = [v.cval() if isinstance(v, Poly) else None for v in b[2][:2]]
        return None if x is None or y is None else x == y
    return {(lambda a: val(a) is not None): val}


# strips of skin in the order in which they were added to the bay
STRIPS = (((0, 3), (3, 7), (7, 9)), ((3, 7), (0, 3), (7, 9)), ((7, 9), (3, 7), (0, 3)), ((0, 9),))


def skin_of_stiffener(ck):
    """a stiffener lies between the strip that ends at its position and the one that starts there; at an
    edge of the bay both are the strip of this edge"""
    given = ('rho', 'bstack', 'fstack', 'bplyts', 'blaminaprops', 'fplyts', 'flaminaprops')
    for nm, cn in (('add_bladestiff1d', 'BladeStiff1D'), ('add_bladestiff2d', 'BladeStiff2D')):
        c = PL.cls(BAY, 'StiffPanelBay')
        if nm not in c.methods:
            continue
        f = c.methods[nm]
        for strips in STRIPS:
            P = [sym('P%d' % i) for i in range(len(strips))]
            for ys in (0, 3, 7, 9, 5):
                there = {x: False for x in [sym(k) for k in given] + P}
                fl = FL.Flow(proj.RESOLVE, assume=PL.merge(PL.none_assume(there), close_assume()), self_class=c,
                             inline=lambda g: g is f or not g.module.path.endswith('.pyx') and g.name not in
                    set(OPAQUE) | {'__init__'})
                fl.typer, fl.post, fl.fold_globals = bay_typer, POST, True
                heap = {('attr', me, 'panels'): FL.tup(*P), ('attr', me, 'b'): C(9)}
                for p, (y1, y2) in zip(P, strips):
                    heap[('attr', p, 'y1')], heap[('attr', p, 'y2')] = C(y1), C(y2)
                st, ret = fl.run(f, {'ys': C(ys)}, FL.State({}, heap, ()))
                ck.count('stiffener positions')
                ends = [p for p, s in zip(P, strips) if s[1] == ys]
                starts = [p for p, s in zip(P, strips) if s[0] == ys]
                want = (starts * 2 if ys == 0 else ends * 2 if ys == 9 else ends + starts)
                lab = 'at %s of strips %s' % (ys, ', '.join('%d-%d' % s for s in strips))
                new = [e for e in fl.events if e.kind == 'new' and e.op == cn and e.cond() != ZERO]
                inst = 'bay:%s:%s' % (nm, 'edge' if ys in (0, 9) else 'joint' if len(want) == 2 else 'nowhere')
                if len(want) < 2:
                    if ret is None:
                        ck.ok()
                    elif new and new[0].cond() == ONE and not any(
                            e.kind == 'raise' and e.cond() != ZERO for e in fl.events):
                        ck.bad('skin', PL.where(new[0]), inst, '%s puts a stiffener %s, where no strip ends' % (nm, lab))
                    else:
                        ck.und('%s %s' % (nm, lab))
                    continue
                if ret is None:
                    ck.bad('skin', PL.wf(f), inst + ':raises', '%s rejects a stiffener %s' % (nm, lab))
                    continue
                if len(new) != 1:
                    ck.und('%s: %d stiffeners built' % (nm, len(new)))
                    continue
                b = new[0].extra[2] or {}
                for k, w in zip(('panel1', 'panel2'), want):
                    v = b.get(k)
                    if v == w:
                        ck.ok()
                    elif v is None or v not in P + [NONE]:
                        ck.und('%s %s: %s is %s' % (nm, lab, k, show(v)[:100] if v is not None else 'not given'))
                    else:
                        ck.bad('skin', PL.where(new[0]), '%s:%s' % (inst, k), '%s %s: %s is the strip %s, expected '
                               '%d-%d' % (nm, lab, k, '%d-%d' % strips[P.index(v)] if v in P else 'None',
                                          *strips[P.index(w)]))


def ply_lists(ck):
    """one thickness and material given for all plies: one value per ply of the laminate in question"""
    for nm, cn in (('add_bladestiff1d', 'BladeStiff1D'), ('add_bladestiff2d', 'BladeStiff2D')):
        given = {sym(k): False for k in ('rho', 'bstack', 'fstack', 'bplyt', 'blaminaprop', 'fplyt', 'flaminaprop')}
        gone = ('bplyts', 'blaminaprops', 'fplyts', 'flaminaprops')
        r = run(BAY, 'StiffPanelBay', nm, None, {k: NONE for k in gone}, PL.none_assume(given), ('__init__',))
        if r is None:
            continue
        f, fl, st, ret = r
        es = [e for e in fl.events if e.kind == 'new' and e.op == cn]
        if len(es) != 1:
            ck.und('StiffPanelBay.%s: %d stiffeners built' % (nm, len(es)))
            continue
        b = es[0].extra[2] or {}
        for k in gone:
            ck.count('component arguments')
            one, stack = sym(k[:-1]), sym(k[0] + 'stack')
            v = b.get(k)
            o = fl.getobj(v, st) if v is not None else None
            # what the loop of a comprehension runs over
            for it in (o[1] if o is not None and o[0] in ('list', 'tuple') else ()):
                a = it.single_atom() if isinstance(it, Poly) else None
                if a is not None and a[0] == 'rep':
                    o = (o, [i[0].iterable for i in fl.loopinfo.values() if i[0].id == a[1]])
            txt = show(v)[:100] if v is not None else 'not given'
            other = sym(('f' if k[0] == 'b' else 'b') + 'stack')
            holds = lambda w: v is not None and (K.poly_mentions(v, lambda z: A(z) == w if isinstance(z, tuple) else False)
                                                 or mention_obj(o, w))
            if not holds(one) and v is not None and o is None and not K.poly_mentions(
                    v, lambda z: isinstance(z, tuple) and z[:1] in (('unk',), ('obj',), ('call',))):
                ck.bad('panel', PL.where(es[0]), 'bay:%s:%s' % (nm, k), '%s: %s is %s, expected %s for every ply of '
                       '%s' % (nm, k, txt, show(one), show(stack)))
            elif holds(other):
                ck.bad('panel', PL.where(es[0]), 'bay:%s:%s' % (nm, k), '%s: %s has one value for each ply of %s, '
                       'expected of %s' % (nm, k, show(other), show(stack)))
            elif holds(one) and holds(stack):
                ck.ok()
            else:
                ck.und('%s: %s = %s' % (nm, k, txt))


def mention_obj(o, w):
    """does a container mention w"""
    if isinstance(o, Poly):
        return o == w or K.poly_mentions(o, lambda z: isinstance(z, tuple) and A(z) == w)
    if isinstance(o, (tuple, list)):
        return any(mention_obj(x, w) for x in o)
    if isinstance(o, dict):
        return any(mention_obj(x, w) for x in o.values())
    return False


def registered(ck, f, fl, st, o, lists, nm):
    for l in lists:
        ck.count('component arguments')
        hits = [e for e in fl.events if mentions_append(e, o, l)]
        if any(e.cond() == ONE for e in hits):
            ck.ok()
        elif hits:
            ck.bad('register', PL.wf(f), 'bay:%s:%s:cond' % (nm, l), '%s registers the new component in self.%s only '
                   'when %s' % (nm, l, show(hits[0].cond())[:100]))
        else:
            ck.bad('register', PL.wf(f), 'bay:%s:%s' % (nm, l), '%s does not register the new component in self.%s' %
                   (nm, l))


def mentions_append(e, o, l):
    if e.kind in ('append', 'mutate') and e.base == sattr(l):
        return e.value == o or isinstance(e.extra, tuple) and o in e.extra[0] or e.op in ('extend', 'insert')
    if e.kind == 'setattr' and e.base == me and e.index == (l,):
        return o is not None and K.poly_mentions(e.value, lambda z: isinstance(z, tuple) and A(z) == o)
    return False


# ------------------------------------------------------------------ aerodynamics of the bay
def bay_aero(ck):
    from .options import powers, samepow
    bay_matrix(ck, 'calc_kA', ('panels',))
    r = run(BAY, 'StiffPanelBay', 'calc_kA', dict(BAYATTRS, beta=sym('beta_user'), gamma=sym('gamma_user')), None,
            PL.none_assume({sym('beta_user'): False, sym('gamma_user'): False}))
    if r is None:
        return
    f, fl, st, ret = r
    cur, used, last = {}, [], {}
    for e in fl.events:
        if e.kind == 'setattr' and e.index and e.index[0] in ('flow', 'beta', 'gamma'):
            a = e.base.single_atom()
            if a is not None and PL.elem_of(a, sattr('panels')):
                cur[e.index[0]] = e
        if e.kind == 'call' and PL.callee(e) == 'calc_kA':
            used.append(dict(cur))
    ck.count('bay methods')
    if len(used) != 1:
        ck.und('StiffPanelBay.calc_kA: %d calls of Shell.calc_kA' % len(used))
        return
    want = dict(flow=sattr('flow'), beta=sym('beta_user'), gamma=sym('gamma_user'))
    for k in want:
        if k not in used[0]:
            ck.bad('airflow', PL.wf(f), 'bay:calc_kA:%s' % k, 'the panels do not get the %s of the bay before their '
                   'aerodynamic matrix is calculated' % k)
        else:
            expect(ck, 'airflow', PL.where(used[0][k]), 'bay:calc_kA:%s' % k, 'panel.%s' % k, used[0][k].value,
                   [want[k]])
        if k in used[0]:
            v = cur[k].value
            a = v.single_atom()
            if a == ('attr', cur[k].base, k) or cur[k] is not used[0][k] and v == attr_of(cur[k].base, k):
                ck.ok()
            elif cur[k] is used[0][k]:
                ck.bad('airflow', PL.where(cur[k]), 'bay:calc_kA:%s:restore' % k, 'the %s of the panels is left '
                       'changed' % k)
            else:
                ck.und('panel.%s after calc_kA: %s' % (k, show(v)[:80]))
    r = run(BAY, 'StiffPanelBay', 'calc_cA', dict(BAYATTRS, beta=NONE), None, None)
    if r is None:
        return
    f, fl, st, ret = r
    ck.count('bay methods')
    if ret is None:
        ck.bad('result', PL.wf(f), 'bay:calc_cA:none', 'StiffPanelBay.calc_cA returns nothing')
        return
    n = 0
    for lf in PL.rec_leaves(fl, ret):
        unit, atom = PL.split_prod(lf)
        if atom is None or atom[0] != 'call' or PL.callee_name(atom) != 'calc_cA':
            ck.und('StiffPanelBay.calc_cA: %s' % repr(lf)[:140])
            return
        if lf.loops:
            ck.bad('component', PL.wf(f), 'bay:calc_cA:loop', 'StiffPanelBay.calc_cA adds the damping once for every '
                   'panel, although each covers the full bay')
            return
        n += 1
        kw = dict(atom[3])
        expect(ck, 'range', PL.wf(f), 'bay:calc_cA:size', 'size', kw.get('size', NONE), BSIZE)
        for ax in ('row0', 'col0'):
            expect(ck, 'range', PL.wf(f), 'bay:calc_cA:%s' % ax, ax, kw.get(ax, ZERO), [ZERO])
    if n == 1:
        ck.ok()
    else:
        ck.bad('component', PL.wf(f), 'bay:calc_cA:count', 'StiffPanelBay.calc_cA adds the damping %d times' % n)


# ------------------------------------------------------------------ forces and displacements
def bay_fext(ck):
    """skin forces on the skin range, then the flanges of the 2D blades in order"""
    from . import loads
    loads.bay_forces(ck, run, BAYATTRS)


def bay_fields(ck):
    """displacement recovery of the skin and of a flange"""
    from . import results as R
    c = sym('c')
    out = ('u', 'v', 'w', 'phix', 'phiy')
    skin = C(3) * sattr('m') * sattr('n')
    for name in ('uvw_skin', 'uvw_stiffener'):
        for given in (True, False):
            asm = PL.none_assume({sym('xs'): not given, sym('ys'): not given})
            r = run(BAY, 'StiffPanelBay', name, BAYATTRS, {'region': S_('flange')} if 'stiff' in name else None, asm)
            if r is None:
                continue
            f, fl, st, ret = r
            # with the sampling points followed
            cl = PL.cls(BAY, 'StiffPanelBay')
            fl = FL.Flow(proj.RESOLVE, assume=asm, self_class=cl, inline=lambda g: g is f or (
                not g.module.path.endswith('.pyx') and g.name not in OPAQUE) or g.name == '_default_field')
            fl.typer = bay_typer
            fl.fold_globals = True
            at = {('attr', me, k): v for k, v in BAYATTRS.items()}
            st, ret = fl.run(f, {'region': S_('flange')} if 'stiff' in name else None, FL.State({}, at, ()))
            s = R.Site(ck, '%s:%s' % (name, 'points' if given else 'grid'), PL.wf(f))
            ck.count('bay result methods')
            if ret is None:
                s.bad('raises', 'always raises')
                continue
            rd = R.Reader()
            vals = []
            for i, k in enumerate(out):
                v = st.heap.get(('attr', me, k))
                if v is None:
                    if any(e.kind == 'setattr' and (not e.index or e.index[0] == k) for e in fl.events) or \
                            K.poly_mentions(ret, lambda z: z[:1] == ('unk',)) or not K.poly_mentions(
                                ret, lambda z: z[0] == 'attr' and z[1] == me and z[2] == k):
                        s.und('self.%s is not set' % k)
                    else:
                        s.bad('field', 'returns self.%s without setting it: the values of an earlier call or '
                              'nothing' % k)
                    continue
                v = rd.norm(v)
                R.compare(s, k, v, A(('field', 'fuvw', i)))
            a = ret.single_atom()
            if a is not None and a[0] == 'tuple' and len(a[1]) == 5:
                for i, k in enumerate(out):
                    R.compare(s, 'returned ' + k, rd.norm(a[1][i]), A(('field', 'fuvw', i)))
            for call in rd.calls:
                bay_call(ck, fl, s, call, name, given, R)


def bay_call(ck, fl, s, call, name, given, R):
    params = proj.func(R.FIELD, 'fuvw').param_names()
    b = PL.bind_args(params, call[2], call[3])
    if b is None:
        s.bad('args', 'the call of fuvw does not match its parameters')
        return
    got = dict(zip(('c', 's', 'xs', 'ys', 'num_cores'), (b.get(p) for p in params)))
    P = got['s']
    skin = C(3) * sattr('m') * sattr('n')
    stiff = A(('idx', sattr('stiffeners'), (sym('si'),)))
    brk = None
    if name == 'uvw_skin':
        owner = me
        if P == me:
            ck.ok()
        else:
            s.bad('panel', 'fuvw gets %s, expected the bay' % show(P))
            return
    else:
        q = P.single_atom()
        owner = q[1] if q is not None and q[0] == 'attr' and q[2] == 'flange' else None
        oa = owner.single_atom() if owner is not None else None
        if owner is None:
            (s.und if vague(P) else lambda m: s.bad('panel', m))('fuvw gets %s, expected the flange' % show(P))
            return
        if owner == stiff:
            ck.ok()
        elif oa[0] in ('loopout', 'brk') and stops_at(fl, oa[2], stiff):
            ck.ok()
        elif oa[0] in ('loopout', 'brk'):
            s.und('panel %s' % show(P))
        else:
            s.bad('panel', 'fuvw gets the flange of %s, expected the requested stiffener' % show(owner))
    f = call[1].single_atom()
    if f[0] == 'attr':
        m = f[1].single_atom()
        if m is not None and m[0] == 'idx' and m[2][-1:] == (S_('field'),):
            mo = m[2][0] if len(m[2]) == 2 else None
            want = sattr('model') if owner == me else attr_of(P, 'model')
            ok = mo == want or mo == attr_of(attr_of(stiff, 'flange'), 'model')
            ck.ok() if ok else s.bad('model', 'the field functions are those of %s' % (show(mo) if mo is not None else m))
        else:
            s.und('field module %s' % show(f[1]))
    # amplitudes
    v = strip(got['c'])
    a = v.single_atom()
    sl = a[2][0].single_atom() if a is not None and a[0] == 'idx' and a[1] == sym('c') and len(a[2]) == 1 else None
    if sl is None or sl[0] != 'slice':
        (s.und if vague(v) else lambda m: s.bad('amplitudes', m))('fuvw gets %s as amplitudes' % show(v)[:120])
        return
    lo, hi = sl[1], sl[2]
    if lo == NONE:
        lo = ZERO
    if name == 'uvw_skin':
        if lo == ZERO and hi == skin:
            ck.ok(sample='skin amplitudes %s:%s' % (show(lo), show(hi)))
        elif vague(lo) or vague(hi):
            s.und('amplitudes %s:%s' % (show(lo), show(hi)))
        else:
            s.bad('amplitudes', 'the skin gets the amplitudes %s:%s, expected 0:%s' % (show(lo), show(hi), show(skin)))
        L = sattr('b')
    else:
        L = attr_of(P, 'b')
        d = hi - lo if hi != NONE else None
        fo = d is not None and flange_size(d, owner)
        if not fo:
            if d is None or not vague(d):
                s.bad('amplitudes', 'the flange gets %s amplitudes' % (show(d)[:100] if d is not None else 'all later'))
            else:
                s.und('number of amplitudes %s' % show(d)[:100])
        else:
            ck.ok()
        la = lo.single_atom()
        if la is not None and la[0] == 'brk' and la[2] in fl.loop_brk:
            br = fl.loop_brk[la[2]]
            lp, recs = fl.loop_end[la[2]]
            rec = recs.get(('e', la[1]))
            ok = rec is not None and lp.iterable == sattr('bladestiff2ds')
            if not ok:
                s.und('first amplitude %s' % show(lo)[:100])
            else:
                phi, v0, vend = rec
                el = A(('elem', lp.iterable, lp.id))
                if v0 == skin:
                    ck.ok()
                else:
                    s.bad('first', 'the flange amplitudes are counted from %s, expected after the skin' % show(v0)[:80])
                if flange_step(vend - phi, el):
                    ck.ok()
                else:
                    s.bad('step', 'each earlier stiffener moves the flange amplitudes by %s' % show(vend - phi)[:120])
                if all(env.get(la[1]) == phi for g, env in br):
                    ck.ok()
                else:
                    s.bad('first', 'the flange amplitudes start after the flange itself')
                if stops_at(fl, la[2], stiff):
                    ck.ok()
                else:
                    s.und('counting stops when %s' % [show(x[0])[:80] for g, e in br for x in g[-1:]])
        elif vague(lo) or K.poly_mentions(lo, lambda z: z[0] in ('sum', 'call')):
            s.und('first amplitude %s' % show(lo)[:100])
        else:
            s.bad('first', 'the flange amplitudes start at %s' % show(lo)[:100])
    for k, X in (('xs', 0), ('ys', 1)):
        v = strip(got[k])
        if given:
            R.given(k)(s, k, v)
        else:
            Ls = [L] if name == 'uvw_skin' else [L, attr_of(attr_of(stiff, 'flange'), 'b')]
            m = R.mesh(v)
            ln = R.linspace_of(m[1]) if m is not None else None
            if ln is not None and ln.get('stop') in Ls:
                Ls = [ln.get('stop')]
            R.grid(X, None, ('lin', sattr('a'), sym('gridx')), ('lin', Ls[0], sym('gridy')))(s, k, v)


def stops_at(fl, lid, stiff):
    br = fl.loop_brk.get(lid)
    lp = fl.loop_end.get(lid)
    if not br or lp is None:
        return False
    el = A(('elem', lp[0].iterable, lid))
    for g, env in br:
        c = ONE
        for x, k in g:
            if k == 'branch' and K.poly_mentions(x, lambda z: A(z) == el):
                c = c * x
        a = c.single_atom()
        if a is None or a[0] != 'ind' or a[1] != 'is' or {a[2], a[3]} != {el, stiff}:
            return False
    return True


def bay_completion(ck):
    """C21: every piece of the bay's matrices is completed"""
    for name in ('calc_kC', 'calc_kG', 'calc_kM', 'calc_cA', 'calc_kA'):
        r = run(BAY, 'StiffPanelBay', name, BAYATTRS)
        if r is None:
            continue
        f, fl, st, ret = r
        ck.count('matrix methods')
        if ret is None or ret == NONE:
            continue

        def kind(lf):
            unit, atom = PL.split_prod(lf)
            if atom is None or atom[0] != 'call' or PL.callee_name(atom) not in CALC:
                return None
            kw = dict(atom[3])
            nm = PL.callee_name(atom)
            o = (kw.get('self', ZERO)).single_atom()
            who = next((k for k in LISTS if o is not None and PL.elem_of(o, sattr(k))), 'component')
            if nm == 'calc_kA':
                return who, 'nonsym'
            fin = kw.get('finalize')
            if fin is None:
                return who, 'done'
            v = fin.cval()
            return None if v is None else (who, 'done' if v else 'half')
        completion(ck, 'StiffPanelBay.' + name, PL.wf(f), PL.rec_leaves(fl, ret), kind)
    for rel, cn in ((BS1, 'BladeStiff1D'), (BS2, 'BladeStiff2D')):
        for name in ('calc_kC', 'calc_kG', 'calc_kM'):
            r = stiff_run(ck, rel, cn, name, True, True, {'c': NONE} if name == 'calc_kG' else None)
            if r is None:
                continue
            f, fl, val = r
            ck.count('matrix methods')
            d = default_of(f, 'finalize')
            if d not in (True, 1, 'absent', '?'):
                ck.bad('default', PL.wf(f), '%s.%s:default' % (cn, name), '%s.%s leaves a half matrix by default' %
                       (cn, name))
            if val is None:
                continue

            def kind(lf):
                unit, atom = PL.split_prod(lf)
                if atom is None or atom[0] != 'call':
                    return None
                fa = atom[1].single_atom()
                if fa is not None and fa[0] == 'func' and fa[2] in KSIG:
                    return fa[2], 'half'
                if PL.callee_name(atom) in CALC:
                    fin = dict(atom[3]).get('finalize')
                    v = 1 if fin is None else fin.cval()
                    return None if v is None else (PL.callee_name(atom), 'done' if v else 'half')
                return None
            completion(ck, '%s.%s' % (cn, name), PL.wf(f), PL.rec_leaves(fl, val), kind)


def c32(tier):
    ck = Check('C32', 'Value numbering of the matrix methods of StiffPanelBay and of the two blade stiffeners: '
               'additive pieces of the result (skins, bases, flanges, couplings), each with its offsets as '
               'recurrences over the list of stiffeners, its size and every kernel argument; constructor '
               'arguments of every panel that the bay and the stiffeners build')
    both = ('panels', 'bladestiff1ds', 'bladestiff2ds')
    bay_matrix(ck, 'calc_kC', both)
    bay_matrix(ck, 'calc_kM', both)
    bay_matrix(ck, 'calc_kG', both, dict(c=[sym('c')]))
    bay_size(ck)
    stiffeners(ck)
    built(ck)
    skin_of_stiffener(ck)
    ply_lists(ck)
    bay_aero(ck)
    bay_fext(ck)
    bay_fields(ck)
    ck.need('bay methods', 6)
    ck.need('stiffener methods', 6)
    return ck


REGISTRY = {'C32': c32}
