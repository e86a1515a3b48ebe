"""C26 options reach the kernels, C21 symmetric completion, C20 assembly placement."""
import ast
from fractions import Fraction
from .. import flow as FL
from .. import kernels as K
from .. import proj
from .. import pylayer as PL
from ..kernels import sym, attr, A
from ..pylayer import NONE, S_, strip, MD, SHELL, leaves, attr_of
from ..poly import Poly, ONE, ZERO, show, atom_of
from ..report import Check
from .panel_kernels import SIG

C = Poly.const
me = sym('self')
PLATE_M, CYL_M = 'plate_clpt_donnell_bardell', 'cylshell_clpt_donnell_bardell'
WHOLE = dict(x1=C(-1), x2=C(-1), y1=C(-1), y2=C(-1))
XSUB = dict(x1=C(Fraction(1, 7)), x2=C(Fraction(3, 7)), y1=C(-1), y2=C(1))
XSUB0 = dict(x1=C(0), x2=C(Fraction(3, 7)), y1=C(-1), y2=C(1))
YSUB0 = dict(x1=C(-1), x2=C(1), y1=C(0), y2=C(Fraction(3, 7)))
YSUB = dict(x1=C(-1), x2=C(1), y1=C(Fraction(1, 7)), y2=C(Fraction(3, 7)))
DEFAULT = dict(x1=C(-1), x2=C(1), y1=C(-1), y2=C(1))
IMAG = A(('imag',))
OPAQUE = ('_rebuild', 'get_size', 'check_c', '_get_lam_ABD')
GIVEN = 'given'


def sattr(n):
    return attr('self', n)


def is_half(fn):
    """does the kernel skip one triangle of the matrix"""
    for n in (x for s in fn.body for x in ast.walk(s)):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and \
                isinstance(n.test.ops[0], (ast.Gt, ast.Lt, ast.GtE, ast.LtE)) and \
                isinstance(n.test.left, ast.Name) and isinstance(n.test.comparators[0], ast.Name):
            return True
    return False


class Run:
    """one configured run of a Shell entry point"""

    def __init__(self, name, attrs, args, assume=None, extra_opaque=()):
        at = dict(attrs)
        self.name = name
        self.f, self.fl, self.st, self.ret = PL.configured(
            SHELL, 'Shell', name, at, args, None, OPAQUE + tuple(extra_opaque), assume)
        self.wh = PL.wf(self.f)

    def zero(self, v):
        """is v a vector of zeros"""
        v = strip(v)
        a = v.single_atom()
        if a is None:
            return v == ZERO
        if a[0] == 'buf':
            b = self.fl.bufs.get(a[1])
            return b is not None and b['init'] == 'zero' and not any(
                e.kind in ('store', 'setitem') and e.base == v for e in self.fl.events)
        return a[0] == 'call' and PL.callee_name(a) in ('zeros', 'zeros_like')

    def filled(self, v, want):
        """is v an array filled with the value want"""
        a = strip(v).single_atom()
        if a is None:
            return None
        if a[0] == 'buf':
            es = [e for e in self.fl.events if e.kind in ('store', 'setitem') and e.base == A(a)]
            if len(es) == 1 and es[0].op in (None, '=') and not es[0].loops:
                ix = es[0].index
                full = all(_fullslice(i) for i in (ix or ()))
                return full and PL.same_ratio(es[0].value, want)
            return None
        if a[0] == 'call' and PL.callee_name(a) in ('full', 'full_like') and len(a[2]) > 1:
            return PL.same_ratio(a[2][1], want)
        return None


def _fullslice(i):
    a = i.single_atom()
    if a is None:
        return False
    if a[0] == 'slice':
        return all(x == NONE or x == ZERO for x in a[1:3]) and True
    if a == ('ellipsis',) or a == ('const', 'Ellipsis'):
        return True
    return show(i) in ('Ellipsis', '...', 'slice')


# ------------------------------------------------------------------ C26 specification of each entry
def any_of(*alts):
    def t(run, v):
        v = strip(v)
        return v in alts or any(PL.same_ratio(v, x) for x in alts)
    t.text = ' or '.join(show(x) for x in alts[:2])
    return t


def zero_vec():
    def t(run, v):
        return run.zero(v)
    t.text = 'a vector of zeros'
    return t


def text(fn, s):
    fn.text = s
    return fn


SIZE_DEFAULT = any_of(A(('call', sattr('get_size'), (), (('self', me),))), sattr('size'))
# not self.lam.ABD: the laminate object knows nothing of force_orthotropic_laminate
SELF_ABD = any_of(sattr('ABD'), A(('call', sattr('_get_lam_ABD'), (), (('self', me),))))


def common(cfg, args):
    w = {'shell': any_of(me), 'row0': any_of(sym('row0')), 'col0': any_of(sym('col0')),
         'size': any_of(sym('size')) if cfg.get('size') is GIVEN else SIZE_DEFAULT}
    for n in ('nx', 'ny'):
        w[n] = any_of(sym(n)) if cfg.get(n) is GIVEN and n in args else any_of(sattr(n))
    return w


def state(cfg, n='c'):
    return any_of(sym(n)) if cfg.get(n) is GIVEN else zero_vec()


def wABD(cfg):
    return any_of(sym('ABDnxny')) if cfg.get('ABDnxny') is GIVEN else SELF_ABD


NLOADS = {'Nxx': any_of(sattr('Nxx')), 'Nyy': any_of(sattr('Nyy')), 'Nxy': any_of(sattr('Nxy')),
          'Nxx0': any_of(sattr('Nxx')), 'Nyy0': any_of(sattr('Nyy')), 'Nxy0': any_of(sattr('Nxy'))}
NCTE = {k: any_of(sattr(k[:3] + '_cte')) for k in NLOADS}


def ncte(cfg):
    v = cfg.get('cte')
    return given_loads(v) if isinstance(v, tuple) else NCTE


def given_loads(v):
    return {k: any_of(C(v[i % 3])) for i, k in enumerate(NLOADS)}


def kc_part(cfg, args, nl):
    """constitutive part: admissible kernels"""
    w = common(cfg, args)
    num = dict(w, cs=state(cfg), Finput=wABD(cfg), NLgeom=any_of(nl))
    out = {'fkC_num': num}
    if cfg.get('c') is not GIVEN and cfg.get('ABDnxny') is not GIVEN and nl == ZERO and not cfg['sub']:
        out['fk0'] = w
    return out


def kg_part(cfg, args, nl, cname='c', loads=NLOADS):
    w = common(cfg, args)
    num = dict(w, cs=state(cfg, cname), Finput=wABD(cfg), NLgeom=any_of(nl), **loads)
    out = {'fkG_num': num}
    # without a state the nonlinear switch has no influence on the geometric stiffness
    if cfg.get(cname) is not GIVEN and not cfg['sub']:
        out['fkG0'] = dict(w, **loads)
    return out


def km_part(cfg, args):
    w = common(cfg, args)

    def hrho(run, v):
        a = strip(v).single_atom()
        if a is None or a[0] != 'call':
            return None
        n = PL.callee_name(a)
        kw = dict(a[3])
        parts = None
        if n in ('concatenate', 'stack', 'dstack') and a[2]:
            t = a[2][0].single_atom()
            if t is not None and t[0] in ('tuple',):
                parts = t[1]
            elif t is not None and t[0] == 'obj':
                o = PL.obj(run.st, a[2][0])
                parts = o[1] if o and o[0] == 'list' else None
        if n in ('concatenate', 'stack'):
            ax = kw.get('axis', a[2][1] if len(a[2]) > 1 else ZERO)
            if ax not in (C(2), C(-1)):
                return False
        if parts is None or len(parts) != 2:
            return None
        res = []
        for p, nm, want in ((parts[0], 'h_nxny', attr_of(sattr('lam'), 'h')),
                            (parts[1], 'rho_nxny',
                             attr_of(sattr('lam'), 'intrho') / attr_of(sattr('lam'), 'h'))):
            p = strip(p)
            b = p.single_atom()
            if b is not None and b[0] == 'idx':
                p = strip(b[1])
            if cfg.get(nm) is GIVEN:
                res.append(p == sym(nm))
            else:
                res.append(run.filled(p, want))
        if False in res:
            return False
        return None if None in res else True
    text(hrho, 'thickness and density of each point in this order')
    out = {'fkM_num': dict(w, offset=any_of(sattr('offset')), hrho_input=hrho)}
    if cfg.get('h_nxny') is not GIVEN and cfg.get('rho_nxny') is not GIVEN and not cfg['sub']:
        out['fkM'] = dict(w, d=any_of(sattr('offset')))
    return out


def ka_part(cfg, args):
    w = common(dict(cfg, nx=None, ny=None), args)
    f = cfg['flow'].lower()
    return {'fkA%s_num' % f: w}


def parts_of(name, cfg, args):
    """{part: {kernel: wants}}"""
    nl = C(1) if cfg.get('NLgeom') else ZERO
    if name == 'calc_kC':
        out = {'constitutive': kc_part(cfg, args, nl)}
        if cfg.get('cte') or cfg.get('c_cte') is GIVEN:
            out['initial stress'] = kg_part(cfg, args, nl, 'c_cte', ncte(cfg))
        return out
    if name == 'calc_kG':
        return {'geometric': kg_part(cfg, args, nl, 'c', given_loads(cfg['loads']) if 'loads' in cfg else NLOADS)}
    if name == 'calc_kT':
        out = {'constitutive': kc_part(cfg, args, C(1)), 'geometric': kg_part(cfg, args, C(1))}
        if cfg.get('cte'):
            out['initial stress'] = kg_part(dict(cfg, c_cte=None), args, C(1), 'c_cte', ncte(cfg))
        return out
    if name == 'calc_kM':
        return {'mass': km_part(cfg, args)}
    if name == 'calc_kA':
        return {'aerodynamic': ka_part(cfg, args)}
    if name == 'calc_cA':
        return {'damping': {'fcA': dict(common(cfg, args), aeromu=any_of(sym('aeromu')))}}
    if name == 'calc_fint':
        w = common(cfg, args)
        w.pop('row0')
        return {'internal force': {'calc_fint': dict(w, cs=any_of(sym('c')), Finput=wABD(cfg))}}
    raise KeyError(name)


PART_OF_KERNEL = {'fk0': 'constitutive', 'fkC_num': 'constitutive', 'fkM': 'mass', 'fkM_num': 'mass',
                  'fcA': 'damping', 'calc_fint': 'internal force', 'fkAx_num': 'aerodynamic',
                  'fkAy_num': 'aerodynamic', 'fkAx': 'aerodynamic', 'fkAy': 'aerodynamic'}


def prod(*axes):
    out = [{}]
    for ax in axes:
        out = [dict(o, **x) for o in out for x in ax]
    return out


DOMS = [dict(sub=False, dom=WHOLE, dn='whole'), dict(sub=True, dom=XSUB, dn='x sub-domain'),
        dict(sub=True, dom=YSUB, dn='y sub-domain'), dict(sub=False, dom=DEFAULT, dn='default limits')]
# parts of the panel that start at its edge
EDGE = [dict(sub=True, dom=XSUB0, dn='x sub-domain from the edge'),
        dict(sub=True, dom=YSUB0, dn='y sub-domain from the edge')]
OPT = lambda n: [{n: None}, {n: GIVEN}]
# loads of which some are zero, negative or cancel in a sum
CTES = [{'cte': v} for v in ((-3, 0, 0), (0, 2, 0), (0, 0, 5), (2, -2, 0), (-1, -1, 2))]
ENTRIES = {
    'calc_kC': prod(DOMS, OPT('c'), OPT('ABDnxny'), [{'NLgeom': False}, {'NLgeom': True}],
                    [{'cte': False, 'c_cte': None}, {'cte': True, 'c_cte': None},
                     {'cte': False, 'c_cte': GIVEN}, {'cte': True, 'c_cte': GIVEN}]) +
    prod(DOMS[:2], CTES) + prod(EDGE, [{'cte': False}, {'cte': True}]),
    'calc_kG': prod(DOMS, OPT('c'), OPT('ABDnxny'), [{'NLgeom': False}, {'NLgeom': True}]) +
    prod(DOMS[:2], OPT('c'), [{'loads': x['cte']} for x in CTES]) + prod(EDGE),
    'calc_kT': prod(DOMS, OPT('c'), OPT('ABDnxny'), [{'cte': False}, {'cte': True}]) +
    prod(DOMS[:2], CTES) + prod(EDGE),
    'calc_kM': prod(DOMS, OPT('h_nxny'), OPT('rho_nxny')) + prod(EDGE),
    'calc_kA': prod(DOMS[:1], [{'flow': 'x'}, {'flow': 'y'}, {'flow': 'X'}, {'flow': 'Y'}]),
    'calc_cA': prod(DOMS[:1]),
    'calc_fint': prod(DOMS, OPT('ABDnxny')),
}
OPTIONAL = ('c', 'c_cte', 'ABDnxny', 'h_nxny', 'rho_nxny', 'nx', 'ny', 'size')


def describe(cfg):
    out = [cfg['model'].split('_')[0], cfg['dn']]
    out += ['%s given' % k for k in OPTIONAL if cfg.get(k) is GIVEN]
    out += [k if cfg[k] in (True, GIVEN) else '%s=%s' % (k, cfg[k]) for k in ('NLgeom', 'cte') if cfg.get(k)]
    if 'loads' in cfg:
        out.append('loads=%s' % (cfg['loads'],))
    if 'flow' in cfg:
        out.append('flow ' + cfg['flow'])
    return ', '.join(out)


def cte_assume(on):
    """whether the constant membrane loads are non-zero"""
    names = [sattr(n) for n in ('Nxx_cte', 'Nyy_cte', 'Nxy_cte')]
    if isinstance(on, tuple):
        return {}
    if on:
        return PL.truth_assume({names[0]: True, names[1]: True, names[2]: True})
    return PL.truth_assume({n: False for n in names})


def configurations(name, deep=True):
    for model in (PLATE_M, CYL_M):
        for k, cfg in enumerate(ENTRIES[name]):
            # default and given integration orders and sizes alternate over the configurations
            for j, extra in enumerate(({}, {'nx': GIVEN, 'ny': GIVEN, 'size': GIVEN})):
                if not deep and (k + j) % 2:
                    continue
                yield dict(cfg, model=model, **extra)


def run_entry(name, cfg, finalize):
    f = PL.cls(SHELL, 'Shell').methods[name]
    have = f.param_names()
    attrs = dict(cfg['dom'])
    attrs['model'] = S_(cfg['model'])
    if 'loads' in cfg:
        attrs.update(zip(('Nxx', 'Nyy', 'Nxy'), map(C, cfg['loads'])))
    if isinstance(cfg.get('cte'), tuple):
        attrs.update(zip(('Nxx_cte', 'Nyy_cte', 'Nxy_cte'), map(C, cfg['cte'])))
    if 'flow' in cfg:
        attrs['flow'] = S_(cfg['flow'])
    if 'plate' in cfg['model']:
        attrs['r'] = ZERO
    args = {}
    for n in OPTIONAL:
        if n in have and cfg.get(n) is not GIVEN and not (n == 'c' and name == 'calc_fint'):
            args[n] = NONE
    if 'NLgeom' in have:
        args['NLgeom'] = ONE if cfg.get('NLgeom') else ZERO
    if 'finalize' in have:
        args['finalize'] = ONE if finalize else ZERO
    if 'silent' in have:
        args['silent'] = ONE
    asm = cte_assume(cfg.get('cte', False))
    if name == 'calc_kA':
        # user supplied beta and gamma; the formula is checked separately
        asm = PL.merge(asm, PL.none_assume({sattr('beta'): False, sattr('gamma'): False}))
        attrs['beta'], attrs['gamma'] = sym('beta_user'), sym('gamma_user')
    return Run(name, attrs, args, asm), have


def c26(tier):
    ck = Check('C26', 'Each Shell analysis method is value-numbered once per configuration of its options '
               '(model x sub-domain x state x laminate field x nonlinear switch x constant loads x '
               'integration order); every piece of the result is matched with the kernel it must come from '
               'and every argument of that kernel with the option it must carry')
    for name in ENTRIES:
        for cfg in configurations(name, tier == 'thorough' or name not in ('calc_kC',)):
            run, have = run_entry(name, cfg, True)
            ck.count('configurations')
            check_run(ck, name, cfg, run, have)
    aero_parameters(ck)
    rebuild_rules(ck)
    laminate_rules(ck)
    constructor(ck)
    read_before_rebuild(ck)
    ck.need('configurations', 100)
    ck.need('kernel arguments', 500)
    return ck


def check_run(ck, name, cfg, run, have):
    want = parts_of(name, cfg, have)
    desc = describe(cfg)
    if run.ret is None:
        ck.bad('raises', run.wh, '%s:raises:%s' % (name, desc), '%s always raises (%s)' % (name, desc))
        return
    got = {}
    for lf in leaves(run.ret):
        unit, atom = PL.split_prod(lf)
        if atom is None or atom[0] != 'call':
            ck.und('%s: piece of the result not recognised: %s (%s)' % (name, repr(lf)[:120], desc))
            return
        f = atom[1].single_atom()
        if f is not None and f[0] == 'ext' and f[1].startswith('panels.'):
            ck.bad('missing', run.wh, '%s:missing:%s' % (name, f[1].split('.')[-1]),
                   '%s uses %s, which does not exist (%s)' % (name, f[1], desc))
            return
        if f is None or f[0] != 'func':
            ck.und('%s: callee of %s not resolved (%s)' % (name, show(atom[1])[:80], desc))
            return
        fn = FL.FE.load(f[1]).funcs.get(f[2])
        kn = f[2]
        if lf.inds or lf.loops:
            ck.und('%s: %s is added under an undecided condition %s (%s)' %
                   (name, kn, show(lf.cond)[:100], desc))
            return
        if cfg['model'] not in f[1]:
            ck.bad('model', run.wh, '%s:model:%s' % (name, kn), '%s with the model %s calls %s of %s' %
                   (name, cfg['model'], kn, proj.relpath(f[1])))
            continue
        part = PART_OF_KERNEL.get(kn)
        if part is None and kn in ('fkG0', 'fkG_num'):
            b = PL.kbind(fn, SIG[kn], atom[2], atom[3]) or {}
            part = [p for p in want if p in ('geometric', 'initial stress')]
            if len(part) == 2:
                x = b.get('Nxx', b.get('Nxx0', ZERO))
                first = '_cte' in show(x)
                if isinstance(cfg.get('cte'), tuple):
                    first = not (x == sattr('Nxx'))
                part = ['initial stress' if first else 'geometric']
            part = part[0] if part else 'geometric'
        if part is None:
            ck.und('%s: kernel %s is not specified here (%s)' % (name, kn, desc))
            return
        c = unit.scale(lf.coef)
        ok_coef = c == (IMAG if kn == 'fcA' else ONE)
        got.setdefault(part, 0)
        got[part] += 1
        if part not in want:
            ck.bad('part', run.wh, '%s:%s:unwanted:%s' % (name, kn, part),
                   '%s adds the %s part (%s) although nothing asks for it (%s)' % (name, part, kn, desc))
            continue
        if not ok_coef:
            ck.bad('part', run.wh, '%s:%s:factor' % (name, kn), '%s adds %s times %s (%s)' %
                   (name, show(c), kn, desc))
        if kn not in want[part]:
            ck.bad('kernel', run.wh, '%s:%s:%s' % (name, kn, why(cfg, name)),
                   '%s uses %s, which ignores an option in effect (%s); admissible: %s' %
                   (name, kn, desc, ', '.join(sorted(want[part]))))
            continue
        b = PL.kbind(fn, SIG[kn], atom[2], atom[3])
        if b is None:
            ck.bad('binding', run.wh, '%s:%s:binding' % (name, kn),
                   '%s calls %s with arguments that do not bind' % (name, kn))
            continue
        for p, test in want[part][kn].items():
            if p not in SIG[kn]:
                continue
            ck.count('kernel arguments')
            if p not in b:
                if p in ('NLgeom',) and test(run, ZERO):
                    ck.ok()
                    continue
                ck.bad('argument', run.wh, '%s:%s:%s:%s' % (name, kn, p, why(cfg, name)),
                       '%s does not pass %s to %s (%s)' % (name, p, kn, desc))
                continue
            r = test(run, b[p])
            if r is None:
                ck.und('%s: argument %s of %s: %s (%s)' % (name, p, kn, show(b[p])[:100], desc))
            elif r:
                ck.ok(sample='%s (%s): %s(%s = %s)' % (name, desc, kn, p, show(b[p])))
            else:
                ck.bad('argument', run.wh, '%s:%s:%s:%s' % (name, kn, p, why(cfg, name)),
                       '%s passes %s as %s of %s, expected %s (%s)' %
                       (name, show(b[p])[:120], p, kn, test.text, desc))
    for part in want:
        n = got.get(part, 0)
        if n == 1:
            ck.ok()
        else:
            ck.bad('part', run.wh, '%s:%s:count%d' % (name, part, n),
                   '%s adds the %s part %d times (%s)' % (name, part, n, desc))


def why(cfg, name):
    """options that matter, for a stable finding name"""
    out = [k for k in ('c', 'c_cte', 'ABDnxny', 'h_nxny', 'rho_nxny') if cfg.get(k) is GIVEN]
    out += [k for k in ('NLgeom', 'cte') if cfg.get(k)]
    if cfg['sub']:
        out.append('sub')
    return '+'.join(out) or 'default'


# ------------------------------------------------------------------ aerodynamic parameters
def powers(p):
    """sqrt(x) -> x**(1/2) and rational powers in one notation"""
    half = C(Fraction(1, 2))

    def fn(a):
        if a[0] == 'call' and PL.callee_name(a) == 'sqrt' and len(a[2]) == 1:
            return A(('pow', FL.rebuild(a[2][0], fn), half))
        if a[0] in ('fun', 'fn') and len(a) > 2 and a[1] == 'sqrt':
            return A(('pow', FL.rebuild(a[2][0], fn), half))
        return None
    return FL.rebuild(p, fn)


# sample orders of the radius and of the Mach number against the constants of the code
RADII = (Fraction(7, 3), Fraction(1, 9), Fraction(12345))
MACHS = (Fraction(2), Fraction(10011, 10000), Fraction(25))


def aero_parameters(ck):
    """beta and gamma of the piston theory, read by the kernel from the shell at the call"""
    for curved in (False, True):
        for flow, rad, mach in [('x', r, m) for r in (RADII if curved else RADII[:1]) for m in MACHS
                                if r == RADII[0] or m == MACHS[0]] + [('y', RADII[0], MACHS[0])]:
            attrs = dict(WHOLE, model=S_(CYL_M if curved else PLATE_M), flow=S_(flow))
            attrs['r'] = sym('radius') if curved else ZERO
            attrs['beta'] = NONE
            attrs['gamma'] = NONE
            attrs['Mach'] = sym('mach')
            args = {'size': NONE, 'finalize': ONE, 'silent': ONE}

            def cmpv(a):
                """mach > 1, radius != 0"""
                if a[0] == 'ind' and a[1] in ('lt', 'eq', 'eqv', 'truth'):
                    q = a[2]
                    at = {('sym', 'mach'): C(mach), ('sym', 'radius'): C(rad)}
                    v = q.map_atoms(lambda i: at.get(atom_of(i)))
                    if a[1] == 'eqv':
                        w = a[3].map_atoms(lambda i: at.get(atom_of(i)))
                        if v.cval() is not None and w.cval() is not None:
                            return v.cval() == w.cval()
                        return None
                    v = v.cval()
                    if v is None:
                        return None
                    return v < 0 if a[1] == 'lt' else v == 0 if a[1] == 'eq' else v != 0
                return None
            run = Run('calc_kA', attrs, args, {(lambda a: cmpv(a) is not None): cmpv})
            inst = 'calc_kA:%s:%s' % ('curved' if curved else 'flat', flow)
            if mach != MACHS[0]:
                inst += ':Mach=%s' % mach
            if rad != RADII[0]:
                inst += ':r=%s' % rad
            ck.count('configurations')
            if run.ret is None:
                ck.bad('raises', run.wh, inst + ':raises', 'calc_kA always raises with a Mach number')
                continue
            # value of self.beta, self.gamma when the kernel is called
            cur = dict(beta=NONE, gamma=NONE)
            seen = None
            for e in run.fl.events:
                if e.kind == 'setattr' and e.base == me and e.index and e.index[0] in cur:
                    cur[e.index[0]] = e.value
                if e.kind == 'call' and (PL.callee(e) or '').startswith('fkA') and e.cond() != ZERO:
                    seen = dict(cur)
            if seen is None:
                ck.und('%s: no call of an aerodynamic kernel' % inst)
                continue
            M = sym('mach')
            root = A(('pow', M * M - ONE, C(Fraction(1, 2))))
            beta = sattr('rho_air') * sattr('V') * sattr('V') / root
            gamma = beta / (C(2) * sym('radius') * root) if curved else ZERO
            for nm, want in (('beta', beta), ('gamma', gamma)):
                if nm == 'gamma' and flow == 'y':
                    continue
                v = powers(seen[nm])
                ck.count('kernel arguments')
                if samepow(v, want):
                    ck.ok(sample='%s: %s = %s' % (inst, nm, show(v)))
                elif undecidable(v):
                    ck.und('%s: %s = %s' % (inst, nm, show(v)[:160]))
                else:
                    ck.bad('aero', run.wh, '%s:%s' % (inst, nm), '%s used by the kernel is %s, expected %s' %
                           (nm, show(v)[:160], show(want)))
            if cur['beta'] != NONE or cur['gamma'] != NONE:
                ck.bad('aero', run.wh, 'calc_kA:restore', 'the derived beta and gamma (%s, %s) stay on the '
                       'panel: a later change of Mach, V or rho_air has no effect' %
                       (show(cur['beta'])[:60], show(cur['gamma'])[:60]))
            else:
                ck.ok()
        # user supplied values
        for nm, g in (('beta_user, gamma_user', sym('gamma_user')), ('beta_user', NONE)):
            attrs = dict(WHOLE, model=S_(CYL_M if curved else PLATE_M), flow=S_('x'), beta=sym('beta_user'), gamma=g)
            attrs['r'] = sym('radius') if curved else ZERO
            run = Run('calc_kA', attrs, {'size': NONE, 'finalize': ONE, 'silent': ONE})
            cur = dict(beta=sym('beta_user'), gamma=g)
            inst = 'calc_kA:%s:user %s' % ('curved' if curved else 'flat', nm.replace('_user', ''))
            if run.ret is None:
                ck.bad('raises', run.wh, inst + ':raises', 'calc_kA always raises with the %s set by the user' % nm)
                continue
            for e in run.fl.events:
                if e.kind == 'setattr' and e.base == me and e.index and e.index[0] in cur:
                    cur[e.index[0]] = e.value
                if e.kind == 'call' and (PL.callee(e) or '').startswith('fkA') and e.cond() != ZERO:
                    for k in cur:
                        ck.count('kernel arguments')
                        if k == 'gamma' and g == NONE:
                            if cur[k] == NONE:
                                ck.bad('aero', run.wh, inst + ':gamma', 'the kernel gets no gamma when the user only '
                                       'sets beta')
                            elif cur[k] == ZERO:
                                ck.ok()
                            else:
                                ck.und('%s: gamma = %s' % (inst, show(cur[k])[:100]))
                        elif cur[k] == sym(k + '_user'):
                            ck.ok()
                        elif undecidable(cur[k]):
                            ck.und('%s: %s = %s' % (inst, k, show(cur[k])[:100]))
                        else:
                            ck.bad('aero', run.wh, '%s:%s' % (inst, k), 'the %s set by the user is replaced '
                                   'by %s' % (k, show(cur[k])[:100]))


def samepow(v, want):
    """equal as rational functions with the root as an indeterminate r, r*r = M^2-1"""
    M = sym('mach')
    d = M * M - ONE
    half = C(Fraction(1, 2))

    def fn(a):
        if a[0] == 'pow' and a[1] == d:
            e = a[2].cval() if isinstance(a[2], Poly) else a[2]
            if e is not None and (e * 2).denominator == 1:
                k = int(e * 2)
                r = sym('ROOT')
                return r.pow(k) if k >= 0 else ONE / r.pow(-k)
        if a[0] == 'inv':
            return ONE / FL.rebuild(a[1], fn)
        return None
    v, want = FL.rebuild(v, fn), FL.rebuild(want, fn)
    a, b = PL.ratio(v)
    c, e = PL.ratio(want)
    diff = a * e - c * b
    # reduce powers of ROOT by ROOT^2 = M^2-1
    iR = FL.intern_atom(('sym', 'ROOT'))
    out = ZERO
    for m, cf in diff.t.items():
        t = Poly.const(cf)
        for i, ex in m:
            if i == iR:
                t = t * d.pow(ex // 2) * (sym('ROOT') if ex % 2 else ONE)
            else:
                t = t * A(atom_of(i)).pow(ex)
        out = out + t
    return out == ZERO


def undecidable(v):
    """contains values that this analysis does not understand"""
    return K.poly_mentions(v, lambda z: isinstance(z, tuple) and z and z[0] in (
        'unk', 'phi', 'join', 'call', 'opq'))


# ------------------------------------------------------------------ _rebuild
LAM = {'stack': 'stack', 'plyts': 'plyts', 'laminaprops': 'laminaprops', 'rhos': 'rhos', 'offset': 'offset'}
LAMPOS = ['stack', 'plyt', 'laminaprop', 'rho', 'plyts', 'laminaprops', 'rhos', 'offset']


def rebuild_rules(ck):
    c = PL.cls(SHELL, 'Shell')
    if '_rebuild' not in c.methods:
        ck.und('no _rebuild method')
        return
    # model selected from the radius
    for r, want in ((NONE, PLATE_M), (sym('radius'), CYL_M)):
        f, fl, st, ret = PL.configured(SHELL, 'Shell', '_rebuild', dict(r=r, model=NONE), {}, None,
                                       ('get_size', '_get_lam_ABD'))
        v = None
        for e in fl.events:
            if e.kind == 'setattr' and e.base == me and e.index[0] == 'model' and e.cond() != ZERO:
                v = e.value
                break
        if v is None:
            ck.und('_rebuild: no model is chosen')
        elif v == S_(want):
            ck.ok(sample='_rebuild: model %s' % want)
        elif FL.const_kind(v) == 'str':
            ck.bad('model', PL.wf(f), '_rebuild:model:%s' % want, 'a panel %s radius gets the model %s, '
                   'expected %s' % ('without' if r == NONE else 'with a', show(v), want))
        else:
            ck.und('_rebuild: model is %s' % show(v)[:100])
    # explicit model kept
    f, fl, st, ret = PL.configured(SHELL, 'Shell', '_rebuild', dict(r=sym('radius'), model=S_(PLATE_M)), {},
                                   None, ('get_size', '_get_lam_ABD'))
    ws = [e for e in fl.events if e.kind == 'setattr' and e.base == me and e.index[0] == 'model' and
          e.cond() != ZERO]
    if ws and any(e.value != S_(PLATE_M) for e in ws):
        ck.bad('model', PL.where(ws[0]), '_rebuild:model:explicit', 'the model chosen by the user is replaced')
    else:
        ck.ok()
    # the laminate
    attrs = dict(model=S_(PLATE_M), r=ZERO)
    full = {k: sym('user_' + k) for k in ('stack', 'plyts', 'laminaprops', 'rhos', 'offset')}
    f, fl, st, ret = PL.configured(SHELL, 'Shell', '_rebuild', dict(attrs, **full), {}, None,
                                   ('get_size', '_get_lam_ABD'),
                                   PL.truth_assume({v: True for v in full.values()}))
    done = False
    for e in fl.events:
        if e.kind in ('call', 'enter') and PL.callee(e) == 'laminated_plate' and e.cond() != ZERO:
            a = PL_args(e)
            b = PL.bind_args(LAMPOS, *a) if a else None
            if b is None:
                ck.und('_rebuild: arguments of laminated_plate not recognised')
                done = True
                break
            done = True
            for k in LAM:
                ck.count('kernel arguments')
                want = full[k]
                if k not in b:
                    ck.bad('laminate', PL.where(e), '_rebuild:%s' % k, 'the laminate is built without %s' % k)
                elif b[k] == want:
                    ck.ok(sample='laminated_plate(%s=self.%s)' % (k, k))
                else:
                    ck.bad('laminate', PL.where(e), '_rebuild:%s' % k, 'the laminate gets %s as %s' %
                           (show(b[k])[:80], k))
    if not done:
        ck.und('_rebuild: laminated_plate is not called in a recognised way')
    # lists built from the single values
    one = dict(stack=sym('user_stack'), plyts=NONE, laminaprops=NONE, rhos=NONE, plyt=sym('user_plyt'),
               laminaprop=sym('user_laminaprop'), rho=sym('user_rho'), offset=sym('user_offset'))
    f, fl, st, ret = PL.configured(SHELL, 'Shell', '_rebuild', dict(attrs, **one), {}, None,
                                   ('get_size', '_get_lam_ABD'),
                                   PL.truth_assume({one['stack']: True, one['laminaprop']: True,
                                                    NONE: False}))
    for lst, src in (('plyts', 'plyt'), ('laminaprops', 'laminaprop'), ('rhos', 'rho')):
        es = [e for e in fl.events if e.kind == 'setattr' and e.base == me and e.index[0] == lst]
        if not es:
            # may be passed directly
            ck.und('_rebuild: %s is not stored' % lst)
            continue
        v = es[-1].value
        srcs = {s for s in ('plyt', 'laminaprop', 'rho') if
                K.poly_mentions_deep(v, st, ('sym', 'user_' + s))} if hasattr(K, 'poly_mentions_deep') else \
            mentions_heap(v, st)
        ck.count('kernel arguments')
        if srcs == {src}:
            ck.ok(sample='self.%s from self.%s' % (lst, src))
        elif not srcs:
            ck.und('_rebuild: %s = %s' % (lst, show(v)[:80]))
        else:
            ck.bad('laminate', PL.where(es[-1]), '_rebuild:%s:source' % lst, '%s is built from %s, expected '
                   '%s' % (lst, ', '.join(sorted(srcs)), src))
    # integration orders never below the number of terms
    f, fl, st, ret = PL.configured(SHELL, 'Shell', '_rebuild', dict(attrs, **full), {}, None,
                                   ('get_size', '_get_lam_ABD'))
    for nm, term, other in (('nx', 'm', 'n'), ('ny', 'n', 'm')):
        es = [e for e in fl.events if e.kind == 'setattr' and e.base == me and e.index[0] == nm]
        ck.count('kernel arguments')
        if not es:
            ck.und('_rebuild: %s is not adjusted' % nm)
            continue
        v = es[-1].value
        ms = lambda n: K.poly_mentions(v, lambda z, n=n: z == ('attr', me, n))
        if ms(nm) and ms(term) and not ms(other):
            ck.ok(sample='%s = %s' % (nm, show(v)))
        elif v == sattr(nm):
            ck.ok()
        else:
            ck.bad('order', PL.where(es[-1]), '_rebuild:%s' % nm, 'the number of integration points %s becomes '
                   '%s (terms along this direction: self.%s)' % (nm, show(v)[:100], term))


def mentions_heap(v, st, depth=0):
    """names of the user_* symbols inside a value, looking into lists"""
    out = set()

    def see(z):
        if isinstance(z, tuple) and len(z) == 2 and z[0] == 'sym' and isinstance(z[1], str) and \
                z[1].startswith('user_'):
            n = z[1][5:]
            if n != 'stack':
                out.add(n)
        return False
    K.poly_mentions(v, see)
    o = PL.obj(st, v)
    if o is not None and depth < 3:
        for x in (o[1].values() if isinstance(o[1], dict) else o[1]):
            if isinstance(x, Poly):
                out |= mentions_heap(x, st, depth + 1)
    return out


def PL_args(e):
    """(args, kw) of a call event"""
    ex = e.extra
    if isinstance(ex, dict):
        return ex.get('args'), ex.get('kw')
    if isinstance(ex, tuple) and len(ex) >= 2:
        return ex[0], ex[1]
    return None


ORTHO6 = {(0, 2), (1, 2), (2, 0), (2, 1), (0, 5), (5, 0), (1, 5), (5, 1), (3, 2), (2, 3), (4, 2), (2, 4),
          (3, 5), (4, 5), (5, 3), (5, 4)}


def laminate_rules(ck):
    """the stiffness matrix handed to the kernels; orthotropic option"""
    for ortho in (False, True):
        attrs = dict(model=S_(PLATE_M), lam=sym('laminate'))
        f, fl, st, ret = PL.configured(
            SHELL, 'Shell', '_get_lam_ABD', attrs, {}, None, (),
            PL.truth_assume({sattr('force_orthotropic_laminate'): ortho}))
        ABD = attr('laminate', 'ABD')
        inst = '_get_lam_ABD:%s' % ('orthotropic' if ortho else 'default')
        ck.count('configurations')
        if ret is None:
            ck.bad('raises', PL.wf(f), inst, '_get_lam_ABD always raises')
            continue
        if strip(ret) != ABD:
            ck.und('%s: returns %s' % (inst, show(ret)[:100]))
            continue
        got = {}
        weird = False
        for e in fl.events:
            if e.kind in ('setitem', 'store') and strip(e.base) == ABD and e.cond() != ZERO:
                ix = [i.cval() if isinstance(i, Poly) else None for i in (e.index or ())]
                if len(ix) == 1 and isinstance(e.index[0], Poly):
                    t = e.index[0].single_atom()
                    if t is not None and t[0] == 'tuple':
                        ix = [x.cval() for x in t[1]]
                if e.cond() != ONE and len(ix) == 2 and None not in ix and min(ix) >= 6:
                    continue
                if len(ix) != 2 or None in ix or e.loops:
                    weird = True
                    continue
                got[(int(ix[0]), int(ix[1]))] = e
        if weird:
            ck.und('%s: stores not recognised' % inst)
            continue
        got = {k: e for k, e in got.items() if max(k) < 6}
        want = ORTHO6 if ortho else set()
        for k in sorted(set(got) | want):
            ck.count('kernel arguments')
            if k not in got:
                ck.bad('orthotropic', PL.wf(f), '%s:%s' % (inst, k), 'entry %s of the laminate stiffness is not '
                       'set to zero by force_orthotropic_laminate' % (k,))
            elif k not in want:
                ck.bad('orthotropic', PL.where(got[k]), '%s:%s' % (inst, k), 'entry %s of the laminate '
                       'stiffness is overwritten' % (k,))
            elif got[k].value != ZERO:
                ck.bad('orthotropic', PL.where(got[k]), '%s:%s' % (inst, k), 'entry %s is set to %s' %
                       (k, show(got[k].value)))
            else:
                ck.ok()
        if not ortho:
            ck.ok(sample='without the option the laminate stiffness is returned unchanged')


# ------------------------------------------------------------------ constructor
def constructor(ck):
    """each argument of the constructor is stored in the attribute of the same name"""
    for rel, cn in ((SHELL, 'Shell'), (PL.MD, 'MultiDomain'), (PL.BAY, 'StiffPanelBay'),
                    (PL.BS1, 'BladeStiff1D'), (PL.BS2, 'BladeStiff2D')):
        m = proj.mod(rel)
        if cn not in m.classes or '__init__' not in m.classes[cn].methods:
            continue
        c = m.classes[cn]
        f = c.methods['__init__']
        fl = FL.Flow(proj.RESOLVE, self_class=c)
        try:
            fl.run(f)
        except (FL.Give, Exception) as e:
            ck.und('constructor of %s: %s' % (cn, str(e)[:80]))
            continue
        last = {}
        for e in fl.events:
            if e.kind == 'setattr' and e.base == me and e.index and e.func is f:
                last[e.index[0]] = e
        names = [p for p in f.param_names() if p not in ('self', 'kwargs', 'args')]
        for p in names:
            if p not in last:
                continue
            ck.count('constructor arguments')
            e = last[p]
            if K.poly_mentions(e.value, lambda z: z == ('sym', p)):
                ck.ok()
            else:
                ck.bad('constructor', PL.where(e), '%s:__init__:%s' % (cn, p),
                       'the constructor of %s stores %s in the attribute %s instead of its argument %s' %
                       (cn, show(e.value)[:80], p, p))
        # an argument stored under another argument's name only
        for p in names:
            if p not in last:
                hits = [k for k, e in last.items() if k in names and
                        e.value == sym(p)]
                for k in hits:
                    ck.bad('constructor', PL.where(last[k]), '%s:__init__:%s' % (cn, p),
                           'the constructor of %s stores the argument %s in the attribute %s' % (cn, p, k))


REBUILT = ('nx', 'ny', 'lam', 'ABD', 'model', 'size', 'plyts', 'laminaprops', 'rhos')


def read_before_rebuild(ck):
    """the derived attributes are read only after they were brought up to date"""
    c = PL.cls(SHELL, 'Shell')
    for name in list(ENTRIES) + ['calc_fext']:
        if name not in c.methods:
            continue
        cfg = dict(ENTRIES[name][0] if name in ENTRIES else dict(DOMS[0]), model=PLATE_M)
        if name == 'calc_fext':
            run = Run(name, dict(WHOLE, model=S_(PLATE_M)), {'size': NONE}, None, ('shell_fext',))
        else:
            run, have = run_entry(name, cfg, True)
        at = None
        ck.count('entry points brought up to date')
        for e in run.fl.events:
            if e.kind in ('call', 'enter') and PL.callee(e) == '_rebuild':
                at = e
                break
            if e.kind == 'getattr' and e.base == me and e.index and e.index[0] in REBUILT:
                ck.bad('stale', PL.where(e), '%s:stale:%s' % (name, e.index[0]),
                       '%s reads self.%s before _rebuild brings it up to date with the options' %
                       (name, e.index[0]))
                break
            if e.kind in ('call',) and (PL.callee(e) or '') in SIG:
                break
        if at is None:
            if name == 'calc_kT':
                continue
            direct = any(e.kind == 'call' and PL.callee(e) == '_rebuild' for e in run.fl.events)
            if not direct:
                ck.bad('stale', run.wh, '%s:norebuild' % name, '%s does not bring the derived attributes up to '
                       'date (_rebuild is not called)' % name)
        else:
            ck.ok()


REGISTRY = {'C26': c26}


# ------------------------------------------------------------------ C21 symmetric completion
NONSYM = {'fkAx', 'fkAy', 'fkAx_num', 'fkAy_num'}


def completion(ck, what, wh, leafs, resolve):
    """resolve(leaf) -> None (undecided) | (name, 'half'|'full'|'done'|'nonsym')"""
    for lf in leafs:
        r = resolve(lf)
        if r is None:
            ck.und('%s: piece not recognised: %s' % (what, repr(lf)[:140]))
            continue
        name, kind = r
        ck.count('pieces of returned matrices')
        nsym, nskew = lf.wrap.count('sym'), lf.wrap.count('skew')
        if kind == 'nonsym':
            if nsym or nskew:
                ck.bad('forced', wh, '%s:%s:forced' % (what, name), '%s: the non-symmetric matrix of %s is made '
                       '%s' % (what, name, 'symmetric' if nsym else 'skew-symmetric'))
            else:
                ck.ok(sample='%s: %s returned as computed' % (what, name))
            continue
        if nskew:
            ck.bad('forced', wh, '%s:%s:skew' % (what, name), '%s: the symmetric matrix of %s is made '
                   'skew-symmetric' % (what, name))
            continue
        if kind == 'half' and not nsym:
            ck.bad('half', wh, '%s:%s:half' % (what, name), '%s: %s gives the upper triangle only and is '
                   'returned without being completed' % (what, name))
        else:
            ck.ok(sample='%s: %s completed' % (what, name))


def kernel_kind(lf):
    unit, atom = PL.split_prod(lf)
    if atom is None or atom[0] != 'call':
        return None
    f = atom[1].single_atom()
    if f is None or f[0] != 'func':
        return None
    fn = FL.FE.load(f[1]).funcs.get(f[2])
    if fn is None:
        return None
    if f[2] in NONSYM:
        return f[2], 'nonsym'
    return f[2], 'half' if is_half(fn) else 'full'


def default_of(f, name):
    for p in f.params:
        if p[0] == name:
            d = p[2]
            return d.value if isinstance(d, ast.Constant) else None if d is None else '?'
    return 'absent'


def method_kind(lf):
    """a matrix obtained from a method that has its own completion option"""
    unit, atom = PL.split_prod(lf)
    if atom is None or atom[0] != 'call':
        return None
    f = atom[1].single_atom()
    if f is None:
        return None
    nm = PL.callee_name(atom)
    kw = dict(atom[3])
    if nm in ('calc_kA',):
        return nm, 'nonsym'
    if nm not in ('calc_kC', 'calc_kG', 'calc_kM', 'calc_kT', 'calc_cA', 'get_kC_conn'):
        return None
    if 'finalize' in kw:
        v = kw['finalize'].cval()
        if v is None:
            return None
        return nm, 'done' if v else 'half'
    cn, rel = ('MultiDomain', MD) if nm == 'get_kC_conn' else ('Shell', SHELL)
    m = PL.cls(rel, cn).methods.get(nm)
    d = default_of(m, 'finalize') if m is not None else None
    if d is True or d == 1:
        return nm, 'done'
    if d is False or d == 0:
        return nm, 'half'
    return None


def c21(tier):
    from . import assembly as AS
    from . import bay as BY
    ck = Check('C21', 'Every public method that returns a matrix is value-numbered with its default options; each '
               'additive piece of the returned value is traced to its kernel (which skips one triangle or not) '
               'and to the completions applied on the way')
    for name in ('calc_kC', 'calc_kG', 'calc_kT', 'calc_kM', 'calc_kA', 'calc_cA'):
        f = PL.cls(SHELL, 'Shell').methods.get(name)
        ck.count('matrix methods')
        if f is None:
            ck.und('Shell.%s does not exist' % name)
            continue
        d = default_of(f, 'finalize')
        if d in (True, 1, 'absent'):
            ck.ok()
        elif d == '?':
            ck.und('default of finalize in Shell.%s' % name)
        else:
            ck.bad('default', PL.wf(f), 'Shell.%s:default' % name, 'Shell.%s returns a half matrix by default' %
                   name)
        for cfg in configurations(name):
            if cfg.get('nx') is GIVEN or cfg['dn'] == 'default limits':
                continue
            run, have = run_entry(name, cfg, True)
            if run.ret is None:
                continue
            completion(ck, 'Shell.' + name, run.wh, leaves(run.ret), kernel_kind)
    for name in ('calc_kC', 'calc_kG', 'calc_kM', 'calc_kT'):
        f, fl, st, ret = AS.run_md(name, PL.truth_assume({sym('finalize'): True}))
        ck.count('matrix methods')
        d = default_of(f, 'finalize')
        if d not in (True, 1, 'absent', '?'):
            ck.bad('default', PL.wf(f), 'MultiDomain.%s:default' % name, 'MultiDomain.%s returns a half matrix by '
                   'default' % name)
        if ret is None:
            continue
        completion(ck, 'MultiDomain.' + name, PL.wf(f), leaves(ret), method_kind)
    f = PL.cls(MD, 'MultiDomain').methods.get('get_kC_conn')
    if f is not None:
        ck.count('matrix methods')
        d = default_of(f, 'finalize')
        if d in (True, 1, 'absent'):
            ck.ok()
        elif d != '?':
            ck.bad('default', PL.wf(f), 'MultiDomain.get_kC_conn:default', 'the connection matrix is not '
                   'completed by default')
    AS.conn_completion(ck)
    BY.bay_completion(ck)
    own_completion(ck)
    ck.need('matrix methods', 12)
    ck.need('pieces of returned matrices', 60)
    return ck


def own_completion(ck):
    """package functions that complete a matrix themselves: upper triangle plus mirrored strict
    upper triangle"""
    for m in proj.sources(('.py',)):
        if '/dev/' in m or '/tests/' in m:
            continue
        mod = FL.FE.load(m)
        for n in ('finalize_symmetric_matrix', 'make_symmetric', 'make_skew_symmetric'):
            if n in mod.funcs:
                ck.und('%s is redefined in %s' % (n, proj.relpath(m)))


# ------------------------------------------------------------------ C20 placement
def c20(tier):
    from . import assembly as AS, kept as KE
    ck = Check('C20', 'Value numbering of the assembly methods of MultiDomain: every additive piece of the result '
               'is the contribution of one panel (once per panel, at the range of that panel, with the size of '
               'the assembly) or the connection matrix; the ranges are the running sums of the panels\' own '
               'sizes; Shell methods forward size and offsets to the kernels')
    panels = attr('self', 'panels')
    size = AS.md_size()
    check_size(ck, size, panels)
    check_ranges(ck, panels)
    P = A(('belem', panels, 0))
    rng = dict(row0=[attr_of(P, 'row_start')], col0=[attr_of(P, 'col_start')])
    par = sym
    conn_forward = {'conn': [sym('conn')]}
    spec = {
        'calc_kC': ([('calc_kC', dict(rng, c=[par('c')], NLgeom=[par('NLgeom')]))], ('conn', ONE, conn_forward)),
        'calc_kG': ([('calc_kG', dict(rng, c=[par('c')], NLgeom=[par('NLgeom')]))], None),
        'calc_kM': ([('calc_kM', dict(rng))], None),
        'calc_kT': ([('calc_kC', dict(rng, c=[par('c')], NLgeom=[ONE])),
                     ('calc_kG', dict(rng, c=[par('c')], NLgeom=[ONE]))], ('conn', ONE, {})),
        'calc_fint': ([('calc_fint', dict(col0=rng['col0'], c=[par('c')]))], ('conn', par('c'), {})),
        'calc_fext': ([('calc_fext', dict(col0=rng['col0'], inc=[par('inc')]))], None),
    }
    alt = {'calc_kT': ([('calc_kT', dict(rng, c=[par('c')]))], ('conn', ONE, {}))}
    for name, sp in spec.items():
        asm = PL.truth_assume({sym('finalize'): True})
        f, fl, st, ret = AS.run_md(name, asm)
        wh = PL.wf(f)
        ck.count('assembly methods')
        if ret is None:
            ck.bad('raises', wh, 'MultiDomain.%s:raises' % name, 'MultiDomain.%s always raises' % name)
            continue
        if name.startswith('calc_k'):
            KE.kept(ck, 'MultiDomain', name, fl, f, ret, name[5:])
        lfs = leaves(ret)
        if name in alt and any((lf.atom or ('',))[0] == 'call' and PL.callee_name(lf.atom) == 'calc_kT'
                               for lf in lfs):
            sp = alt[name]
        panel_specs, cn = sp
        got = {}
        nconn = 0
        for lf in lfs:
            unit, atom = PL.split_prod(lf)
            if atom is None or atom[0] != 'call':
                ck.und('MultiDomain.%s: piece not recognised: %s' % (name, repr(lf)[:140]))
                continue
            nm = PL.callee_name(atom)
            kw = dict(atom[3])
            if nm == 'dot' and len(atom[2]) == 1:
                inner = atom[1].single_atom()[1].single_atom()
                if inner is not None and inner[0] == 'call':
                    unit, atom = atom[2][0] * unit, inner
                    nm, kw = PL.callee_name(atom), dict(atom[3])
            if nm == 'get_kC_conn':
                if lf.inds:
                    ck.und('MultiDomain.%s: connections added under %s' % (name, show(lf.cond)[:80]))
                    nconn = -9
                    continue
                nconn += 1
                check_conn_leaf(ck, name, wh, lf, unit, kw, cn, panels)
                continue
            want = dict(panel_specs).get(nm)
            if want is None:
                if nm in AS.SHELL_METHODS:
                    ck.bad('placement', wh, 'MultiDomain.%s:%s' % (name, nm), 'MultiDomain.%s adds %s of the '
                           'panels' % (name, nm))
                else:
                    ck.und('MultiDomain.%s: piece not recognised: %s' % (name, repr(lf)[:140]))
                    got[None] = 1
                continue
            check_panel_leaf(ck, name, nm, wh, lf, unit, kw, want, panels, P, size)
            got[nm] = got.get(nm, 0) + 1
        for nm, _ in panel_specs:
            n = got.get(nm, 0)
            if n == 1:
                ck.ok()
            elif None not in got:
                ck.bad('placement', wh, 'MultiDomain.%s:%s:count' % (name, nm), 'MultiDomain.%s adds %s of every '
                       'panel %d times' % (name, nm, n))
        if cn is not None and nconn == 0:
            ck.bad('connections', wh, 'MultiDomain.%s:conn:missing' % name, 'MultiDomain.%s leaves out the '
                   'connection stiffness' % name)
        elif cn is None and nconn > 0:
            ck.bad('connections', wh, 'MultiDomain.%s:conn:extra' % name, 'MultiDomain.%s adds the connection '
                   'stiffness' % name)
        elif nconn > 1:
            ck.bad('connections', wh, 'MultiDomain.%s:conn:count' % name, 'MultiDomain.%s adds the connection '
                   'stiffness %d times' % (name, nconn))
        # ranges brought up to date before the panels are called
        order = [PL.callee(e) for e in fl.events if e.kind in ('call', 'enter')]
        first = next((i for i, x in enumerate(order) if x in dict(panel_specs)), None)
        upd = next((i for i, x in enumerate(order) if x in ('_set_ranges', 'get_size')), None)
        if first is not None and (upd is None or upd > first):
            direct = any(e.kind == 'setattr' and e.index and e.index[0] == 'col_start' for e in fl.events)
            if not direct:
                ck.bad('ranges', wh, 'MultiDomain.%s:stale' % name, 'MultiDomain.%s uses ranges that are not '
                       'brought up to date (panels may be shared or have changed their number of terms)' % name)
        else:
            ck.ok()
    shell_forwards(ck)
    for name in ('calc_kC', 'calc_kG', 'calc_kT', 'calc_kM', 'calc_kA', 'calc_cA'):
        for cfg in configurations(name):
            if cfg.get('nx') is GIVEN or cfg['dn'] == 'default limits' or name not in PL.cls(SHELL, 'Shell').methods:
                continue
            run, have = run_entry(name, cfg, True)
            if run.ret is not None:
                KE.kept(ck, 'Shell', name, run.fl, run.f, run.ret, name[5:])
                break
    ck.need('assembly methods', 6)
    return ck


def check_conn_leaf(ck, name, wh, lf, unit, kw, cn, panels):
    if lf.loops:
        ck.bad('connections', wh, 'MultiDomain.%s:conn:loop' % name, 'MultiDomain.%s adds the connection '
               'stiffness once per element of %s' % (name, show(lf.loops[0][0])))
        return
    if cn is None:
        return
    c = unit.scale(lf.coef)
    if c != cn[1]:
        ck.bad('connections', wh, 'MultiDomain.%s:conn:factor' % name, 'MultiDomain.%s adds %s times the '
               'connection stiffness, expected %s' % (name, show(c), show(cn[1])))
    else:
        ck.ok()
    for k, alts in cn[2].items():
        if k in kw and kw[k] in alts:
            ck.ok()
        elif k not in kw or kw[k] != NONE and not K.poly_mentions(kw[k], lambda z: z == ('sym', k)):
            ck.bad('connections', wh, 'MultiDomain.%s:conn:%s' % (name, k), 'MultiDomain.%s does not hand %s to '
                   'the connection stiffness' % (name, k))


def check_panel_leaf(ck, name, nm, wh, lf, unit, kw, want, panels, P, size):
    inst = 'MultiDomain.%s:%s' % (name, nm)
    if lf.loops != ((panels, 0),):
        if not lf.loops:
            ck.bad('placement', wh, inst + ':loop', 'MultiDomain.%s adds %s of a single panel' % (name, nm))
        elif len(lf.loops) > 1:
            ck.bad('placement', wh, inst + ':loop', 'MultiDomain.%s adds %s once for every combination of %s' %
                   (name, nm, ', '.join(show(x[0]) for x in lf.loops)))
        else:
            it = lf.loops[0][0].single_atom()
            if it is not None and it[0] == 'idx' and it[1] == panels:
                ck.bad('placement', wh, inst + ':loop', 'MultiDomain.%s adds %s of the panels %s only' %
                       (name, nm, show(lf.loops[0][0])))
            else:
                ck.und('%s: loop over %s' % (inst, show(lf.loops[0][0])[:80]))
        return
    if lf.inds:
        cond = lf.cond
        if K.poly_mentions(cond, lambda z: isinstance(z, tuple) and z[:1] == ('belem',)):
            ck.bad('placement', wh, inst + ':cond', 'MultiDomain.%s adds %s only for panels with %s' %
                   (name, nm, show(cond)[:100]))
        else:
            ck.und('%s: added under %s' % (inst, show(cond)[:80]))
        return
    c = unit.scale(lf.coef)
    if c != ONE:
        ck.bad('placement', wh, inst + ':factor', 'MultiDomain.%s adds %s times %s' % (name, show(c), nm))
    if kw.get('self') != P:
        ck.bad('placement', wh, inst + ':panel', '%s is called on %s' % (nm, show(kw.get('self', ZERO))))
    for k, alts in dict(want, size=[size, attr('self', 'size'),
                                    A(('call', attr('self', 'get_size'), (), (('self', me),)))]).items():
        ck.count('placement arguments')
        if k not in kw:
            ck.bad('placement', wh, '%s:%s' % (inst, k), 'MultiDomain.%s does not pass %s to %s of the panel' %
                   (name, k, nm))
        elif kw[k] in alts or any(PL.same_ratio(kw[k], x) for x in alts):
            ck.ok(sample='%s(%s=%s)' % (inst, k, show(kw[k])))
        elif k == 'c' and strip(kw[k]) in alts:
            ck.ok()
        elif k == 'NLgeom' and strip_int(kw[k]) in alts:
            ck.ok()
        else:
            v = kw[k]
            if K.poly_mentions(v, lambda z: isinstance(z, tuple) and z[:1] in (('unk',), ('join',), ('call',))):
                ck.und('%s: %s=%s' % (inst, k, show(v)[:100]))
            else:
                ck.bad('placement', wh, '%s:%s' % (inst, k), 'MultiDomain.%s passes %s as %s of %s, expected %s' %
                       (name, show(v)[:100], k, nm, show(alts[0])))


def strip_int(v):
    a = v.single_atom()
    if a is not None and a[0] == 'call' and a[1] in (A(('fn', 'int')), A(('fn', 'bool'))) and a[2]:
        return a[2][0]
    return v


def check_size(ck, size, panels):
    wh = PL.wf(PL.cls(MD, 'MultiDomain').methods['get_size'])
    ck.count('assembly sizes')
    P = A(('belem', panels, 0))
    ds = [C(3)]
    ok = False
    if size is not None:
        lfs = leaves(size)
        if len(lfs) == 1 and lfs[0].loops == ((panels, 0),) and not lfs[0].inds:
            v = lfs[0].atom[1].scale(lfs[0].coef) if lfs[0].atom and lfs[0].atom[0] == 'prod' else \
                A(lfs[0].atom).scale(lfs[0].coef) if lfs[0].atom else None
            dof = [C(3) * attr_of(P, 'm') * attr_of(P, 'n')]
            if v is not None and v in dof:
                ok = True
            elif v is not None:
                b = lfs[0].atom
                if b[0] == 'call' and PL.callee_name(b) == 'get_size' and lfs[0].coef == 1:
                    ok = True
    if ok:
        ck.ok(sample='get_size = %s' % show(size))
    elif size is None or K.poly_mentions(size, lambda z: isinstance(z, tuple) and z[:1] in (
            ('unk',), ('join',))):
        ck.und('MultiDomain.get_size: %s' % (show(size)[:100] if size is not None else None))
    else:
        ck.bad('size', wh, 'MultiDomain.get_size', 'the size of the assembly is %s, expected the sum over the '
               'panels of 3 m n' % show(size)[:160])


def check_ranges(ck, panels):
    from . import assembly as AS
    f, fl, st, ret = PL.typed(MD, 'MultiDomain', 'get_size', AS.shell_typer(), ())
    wh = PL.wf(f)
    es = {}
    for e in fl.events:
        if e.kind == 'setattr' and e.index and e.index[0] in ('row_start', 'col_start', 'row_end', 'col_end'):
            es.setdefault(e.index[0], []).append(e)
    for axis in ('row', 'col'):
        ck.count('assembly ranges')
        s, t = es.get(axis + '_start', []), es.get(axis + '_end', [])
        if len(s) != 1 or len(t) != 1:
            ck.und('MultiDomain.get_size: %d writes of %s_start, %d of %s_end' % (len(s), axis, len(t), axis))
            continue
        s, t = s[0], t[0]
        wh = PL.where(s)
        P = s.base
        a = P.single_atom()
        if a is None or a[0] not in ('elem', 'idx') or a[1] != panels:
            ck.und('ranges written on %s' % show(P)[:80])
            continue
        n = C(3) * attr_of(P, 'm') * attr_of(P, 'n')
        rec = None
        if s.loops and s.loops[-1].id in fl.loop_end:
            for k, v in fl.loop_end[s.loops[-1].id][1].items():
                if v[0] == s.value:
                    rec = v
        if rec is None:
            # start at zero for all panels, or not a running sum
            before = [nm for nm in ('row_start', 'col_start', 'row_end', 'col_end')
                      if any(lf.atom == attr_of(P, nm).single_atom() for lf in leaves(s.value))]
            if before:
                ck.bad('ranges', wh, 'ranges:%s_start:before' % axis, '%s_start of a panel may stay at the %s it had '
                       'before (other number of terms, other assembly)' % (axis, before[0]))
            elif s.value.cval() is not None or not K.poly_mentions(
                    s.value, lambda z: isinstance(z, tuple) and z[:1] in (('phi',), ('unk',), ('join',), ('call',),
                                                                         ('sum',))):
                ck.bad('ranges', wh, 'ranges:%s_start' % axis, '%s_start of every panel is %s, not the end of the '
                       'panel before' % (axis, show(s.value)[:100]))
            else:
                ck.und('%s_start = %s' % (axis, show(s.value)[:100]))
            continue
        phi, v0, vend = rec
        step = vend - phi
        if v0 != ZERO:
            ck.bad('ranges', wh, 'ranges:%s:first' % axis, 'the first panel starts at %s %s' %
                   (axis, show(v0)[:60]))
        elif not same_size(step, n, P):
            ck.bad('ranges', wh, 'ranges:%s:step' % axis, 'the %s range advances by %s per panel, expected 3 m n' %
                   (axis, show(step)[:100]))
        else:
            ck.ok(sample='%s_start: 0, advanced by %s' % (axis, show(step)))
        if same_size(t.value - s.value, n, P):
            ck.ok(sample='%s_end = %s_start + %s' % (axis, axis, show(t.value - s.value)))
        else:
            ck.bad('ranges', PL.where(t), 'ranges:%s_end' % axis, '%s_end - %s_start is %s, expected 3 m n' %
                   (axis, axis, show(t.value - s.value)[:100]))
        for e in (s, t):
            old = attr_of(P, e.index[0])
            if e.cond() != ONE and e.cond() == ONE - FL.ind_eq_diff(old - e.value):
                ck.ok()         # only skipped when it is already there
            elif e.cond() != ONE and PL.none_cond(e.cond()) is not None and \
                    PL.none_cond(e.cond()) in (old, attr('self', 'size')):
                ck.bad('ranges', PL.where(e), 'ranges:%s:before' % e.index[0], '%s of a panel stays as it was before '
                       'unless it was never set (other number of terms, other assembly)' % e.index[0])
            elif e.cond() != ONE:
                ck.und('ranges written under %s' % show(e.cond())[:80])


def same_size(step, n, P):
    if step == n:
        return True
    a = step.single_atom()
    return a is not None and a[0] == 'call' and PL.callee_name(a) == 'get_size' and dict(a[3]).get('self', P) == P


def shell_forwards(ck):
    """size and offsets of every Shell method reach the kernels (all configurations of C26)"""
    for name in ENTRIES:
        for cfg in configurations(name):
            if cfg['dn'] == 'default limits':
                continue
            run, have = run_entry(name, cfg, False)
            if run.ret is None:
                continue
            want = common(cfg, have)
            for lf in leaves(run.ret):
                unit, atom = PL.split_prod(lf)
                f = atom[1].single_atom() if atom is not None and atom[0] == 'call' else None
                if f is None or f[0] != 'func' or f[2] not in SIG:
                    ck.und('Shell.%s: piece not recognised: %s' % (name, repr(lf)[:100]))
                    continue
                fn = FL.FE.load(f[1]).funcs[f[2]]
                b = PL.kbind(fn, SIG[f[2]], atom[2], atom[3])
                if b is None:
                    continue            # reported by C26
                for p in ('size', 'row0', 'col0'):
                    if p not in SIG[f[2]]:
                        continue
                    ck.count('placement arguments')
                    if p in b and want[p](run, b[p]):
                        ck.ok()
                    else:
                        ck.bad('placement', run.wh, 'Shell.%s:%s:%s' % (name, f[2], p), 'Shell.%s passes %s as %s '
                               'of %s, expected %s' % (name, show(b[p])[:80] if p in b else 'nothing', p, f[2],
                                                       want[p].text))
    # the size of a panel
    for model in (PLATE_M, CYL_M):
        f, fl, st, ret = PL.configured(SHELL, 'Shell', 'get_size', dict(model=S_(model)), {}, None, ())
        ck.count('assembly sizes')
        want = C(3) * sattr('m') * sattr('n')
        if ret == want:
            ck.ok(sample='Shell.get_size = %s' % show(ret))
        elif ret is None or K.poly_mentions(ret, lambda z: isinstance(z, tuple) and z[:1] in (
                ('unk',), ('join',), ('call',), ('idx',))):
            ck.und('Shell.get_size = %s' % (show(ret)[:80] if ret is not None else None))
        else:
            ck.bad('size', PL.wf(f), 'Shell.get_size:%s' % model, 'the size of a panel is %s, expected 3 m n' %
                   show(ret)[:100])




REGISTRY = {'C26': c26, 'C20': c20, 'C21': c21}
