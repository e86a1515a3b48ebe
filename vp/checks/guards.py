"""C29: invalid input is rejected."""
from .. import flow as FL
from .. import kernels as K
from .. import proj
from .. import pylayer as PL
from ..flow import NONE, ONE, ZERO
from ..kernels import sym, attr, A
from ..poly import Poly, TooBig, show, atom_of
from ..pylayer import S_, attr_of
from ..report import Check
from . import assembly as AS

SHELL = 'panels/shell.py'
MD = 'panels/multidomain/multidomain.py'
BAY = 'panels/stiffpanelbay/stiffpanelbay.py'
PEN = 'panels/multidomain/connections/penalties.py'
EXT = 'panels/shell_fext.py'


def native_names():
    out = set()
    for p in proj.sources(('.pyx',)):
        out |= set(proj.mod(proj.relpath(p)).funcs)
    return out


def is_native(e):
    a = e.base.single_atom() if isinstance(e.base, Poly) else None
    if e.kind != 'call' or a is None:
        return False
    if a[0] == 'func':
        return a[1].endswith('.pyx')
    if a[0] == 'attr' and a[2] in NATIVE:
        o = a[1].single_atom()
        # attribute of a module of the registry, not a method of an object
        return o is not None and (o[0] == 'module' or K.poly_mentions(a[1], lambda z: z[0] in ('global', 'module')))
    return False


NATIVE = set()


def size_of(v, subj):
    """v is the number of elements of the vector subj"""
    a = v.single_atom() if isinstance(v, Poly) else None
    if a is None:
        return False
    if a[0] == 'attr' and a[2] == 'size':
        return same_vec(a[1], subj)
    if a[0] == 'idx' and a[2] == (ZERO,):
        b = a[1].single_atom()
        if b is not None and b[0] == 'attr' and b[2] == 'shape':
            return same_vec(b[1], subj)
        if b is not None and b[0] == 'call' and PL.callee_name(b) == 'shape':
            return same_vec(b[2][0], subj)
    if a[0] == 'len':
        return same_vec(a[1], subj)
    if a[0] == 'call' and PL.callee_name(a) in ('len', 'size') and len(a[2]) == 1:
        return same_vec(a[2][0], subj)
    return False


def same_vec(v, subj):
    return PL.strip(v) == subj


def norm(p):
    """number of degrees of freedom of the model, whichever expression names the model"""
    def fn(a):
        if a[0] == 'idx' and len(a[2]) == 2 and a[2][1] == S_('dofs'):
            return sym('$dofs')
        return None
    return FL.rebuild(p, fn)


def arithmetic(v):
    """a number: the result of arithmetic"""
    a = v.single_atom()
    return v != NONE and (a is None or a[0] == 'sum')


class SizeFacts:
    """the vector subj has fewer (small) or more elements than the size required"""

    def __init__(self, subj, wants, small):
        self.subj, self.wants, self.small = subj, wants, small
        self.used = []
        self.other = []

    def parts(self, p):
        """p = s*size(subj) + rest -> (s, rest)"""
        for i in p.atoms():
            at = atom_of(i)
            if size_of(A(at), self.subj):
                for s in (1, -1):
                    rest = p - A(at).scale(s)
                    if i not in rest.atoms():
                        return s, rest
                return 0, p
        return None

    def decide(self, a):
        if a[0] == 'ind' and a[1] == 'is' and NONE in a[2:4]:
            return False if any(w in a[2:4] or arithmetic(a[2] if a[3] == NONE else a[3]) for w in self.wants) else None
        if a[0] == 'ind' and a[1] == 'truth':
            b = a[2].single_atom()
            if b is not None and b[0] == 'call' and PL.callee_name(b) == 'isinstance' and b[2] and \
                    (b[2][0] in self.wants or arithmetic(b[2][0])) and b[2][1:] == (A(('fn', 'str')),):
                return False
        if a[0] != 'ind' or a[1] not in ('eq', 'lt', 'eqv', 'cmp'):
            return None
        if a[1] == 'eqv':
            d = a[2] - a[3]
        elif a[1] in ('eq', 'lt'):
            d = a[2]
        else:
            return None
        r = self.parts(d)
        if r is None:
            return None
        s, rest = r
        if s == 0:
            self.other.append(d)
            return None
        want = rest.scale(-s)
        if not any(norm(want) == norm(w) for w in self.wants):
            self.other.append(want)
            return None
        self.used.append(want)
        if a[1] in ('eq', 'eqv'):
            return False
        # lt: d < 0 with d = s (size - want)
        return (s > 0) == self.small

    def assume(self):
        return {(lambda a: self.decide(a) is not None): self.decide}


def mentions(p, subj):
    sa = subj.single_atom()
    return K.poly_mentions(p, lambda z: z == sa)


def handed(e, subj):
    return any(mentions(v, subj) for v in list(e.extra[0]) + [x[1] for x in e.extra[1]] if isinstance(v, Poly))


def guard_on(e_guard, subj):
    """an undecided condition about the value in question stands on the path"""
    for g in e_guard:
        p = g[0] if isinstance(g, tuple) else g
        if isinstance(p, Poly) and mentions(p, subj):
            return p
    return None


def simple(p):
    """made only of attributes, parameters and registry entries"""
    return not K.poly_mentions(p, lambda z: z[0] in ('call', 'phi', 'unk', 'join', 'loopout', 'buf', 'obj', 'idx') and
                               not (z[0] == 'idx' and K.poly_mentions(A(z), lambda y: y[0] == 'global')))


def run(rel, cname, name, attrs, args, assume, typer=None):
    f, fl, st, ret = PL.configured(rel, cname, name, attrs=attrs, args=args, assume=assume, typer=typer,
                                   opaque=('_get_lam_ABD', 'laminated_plate', 'finalize_symmetric_matrix'))
    return f, fl, st, ret


def size_case(ck, rel, cname, name, par, wants, attrs=None, args=None, typer=None, label=''):
    subj = sym(par)
    inst = '%s.%s:%s%s' % (cname, name, par, label)
    for small in (True, False):
        fx = SizeFacts(subj, wants, small)
        try:
            f, fl, st, ret = run(rel, cname, name, attrs, args, fx.assume(), typer)
        except (FL.Give, TooBig) as g:
            f, fl, st, ret = g.func, g.flow, None, None
            if not any(is_native(e) and handed(e, subj) for e in fl.events):
                ck.und('%s: %s' % (inst, g))
                return
        ck.count('size cases')
        nat = [e for e in fl.events if is_native(e) and handed(e, subj)]
        bad = None
        if nat:
            bad = (PL.where(nat[0]), 'the native function %s is reached' % PL.callee(nat[0]), nat[0].guard)
        elif st is not None and ret is not None and ret != NONE and mentions(ret, subj) and not fx.used:
            bad = (PL.wf(f), 'a result is returned', st.guard)
        if bad is None:
            ck.ok(sample='%s: rejected when too %s' % (inst, 'short' if small else 'long'))
            continue
        why = [w for w in fx.other if not simple(w)]
        g = guard_on(bad[2], subj)
        if why or (g is not None and not fx.used and not fx.other):
            ck.und('%s: compared with %s' % (inst, show(why[0] if why else g)[:1000]))
            continue
        ck.bad('size', bad[0], inst, '%s.%s: with %s too %s, %s%s' % (
            cname, name, par, 'short' if small else 'long', bad[1],
            ' (its size is compared with %s)' % show(fx.other[0])[:80] if fx.other else ''))


def bay_typer():
    shell = PL.cls(SHELL, 'Shell')
    b1 = PL.cls('panels/stiffener/bladestiff1d.py', 'BladeStiff1D')
    b2 = PL.cls('panels/stiffener/bladestiff2d.py', 'BladeStiff2D')

    def t(a):
        for k, c in (('panels', shell), ('bladestiff1ds', b1), ('bladestiff2ds', b2)):
            if PL.elem_of(a, attr('self', k)):
                return c
        if a[0] == 'attr' and a[2] in ('base', 'flange', 'panel1', 'panel2'):
            return shell
        return None
    return t


def sizes(ck):
    """every method with an amplitude vector"""
    shell_size = PL.method(SHELL, 'Shell', 'get_size')[3]
    md = PL.typed(MD, 'MultiDomain', 'get_size', AS.shell_typer(), ('_set_ranges',))[3]
    bay = PL.typed(BAY, 'StiffPanelBay', 'get_size', bay_typer(), ())[3]

    for rel, cname, want, typer in ((SHELL, 'Shell', shell_size, None), (MD, 'MultiDomain', md, AS.shell_typer()),
                                    (BAY, 'StiffPanelBay', bay, bay_typer())):
        c = PL.cls(rel, cname)
        for n, f in sorted(c.methods.items()):
            for p in ('c', 'c_cte'):
                if p in f.param_names() and not n.startswith('_'):
                    size_case(ck, rel, cname, n, p, [sym('size'), want], typer=typer)


# ------------------------------------------------------------------ missing or unknown data
def undecided_on(fl, subjects):
    """a condition about the bad value that could not be evaluated"""
    for e in fl.events:
        if e.kind == 'if':
            v = e.value
            if isinstance(v, Poly) and v.cval() is None and any(mentions(v, x) for x in subjects):
                return e
    return None


def raise_case(ck, inst, what, rel, cname, name, attrs=None, args=None, assume=None, typer=None, subjects=(), owner='self',
               native_only=False, keep=None, heap=None):
    """the call must not return; native_only: must not reach a native function"""
    try:
        f, fl, st, ret = PL.configured(rel, cname, name, attrs=attrs, args=args, assume=assume, typer=typer, owner=owner, heap=heap,
                                       opaque=('_get_lam_ABD', 'laminated_plate', 'finalize_symmetric_matrix'))
    except (FL.Give, TooBig) as g:
        f, fl, st, ret = g.func, g.flow, None, None
        if not any(is_native(e) and (keep is None or keep(e)) for e in fl.events):
            ck.und('%s: %s' % (inst, g))
            return
    ck.count('rejection cases')
    bad = None
    nat = [e for e in fl.events if is_native(e) and (keep is None or keep(e))]
    if nat:
        bad = PL.where(nat[0]), 'the native function %s is reached' % PL.callee(nat[0])
    elif not native_only and st is not None:
        bad = PL.wf(f), 'nothing is raised'
    if bad is None:
        ck.ok(sample='%s: %s is rejected' % (inst, what))
        return
    u = undecided_on(fl, subjects)
    if u is not None:
        ck.und('%s: %s: condition %s' % (inst, what, show(u.value)[:80]))
        return
    label = '%s.%s' % (cname, name) if cname else name
    ck.bad('reject', bad[0], inst, '%s with %s: %s' % (label, what, bad[1]))


def not_in(v):
    def pred(a):
        return a[0] == 'ind' and a[1] == 'in' and a[2] == v
    return {pred: lambda a: False}


def shell_cases(ck):
    no = lambda *ks: {k: NONE for k in ks}
    bogus = S_('no_such_model')
    for m in ('calc_kC', 'calc_kG', 'calc_kM', 'calc_fint'):
        for lab, at in (('stack', no('stack')), ('laminaprop', no('laminaprop', 'laminaprops')), ('plyt', no('plyt', 'plyts'))):
            raise_case(ck, 'Shell.%s:%s' % (m, lab), 'no %s' % lab, SHELL, 'Shell', m, attrs=at)
    for m in ('calc_kC', 'calc_kG', 'calc_kM', 'calc_kA', 'calc_cA', 'calc_fint', 'calc_fext', 'uvw', 'strain', 'stress'):
        # looking the model up in the registry fails with KeyError
        raise_case(ck, 'Shell.%s:model' % m, 'an unknown model', SHELL, 'Shell', m, attrs={'model': bogus},
                   assume=not_in(bogus), native_only=True, keep=lambda e: not mentions(e.base, bogus))
    raise_case(ck, 'Shell.calc_kA:Mach', 'neither beta nor Mach', SHELL, 'Shell', 'calc_kA', attrs=no('beta', 'Mach'))
    for v in (Poly.const(0), Poly.const(FL.Fraction(1, 2) if hasattr(FL, 'Fraction') else 0)):
        raise_case(ck, 'Shell.calc_kA:subsonic', 'a Mach number below 1', SHELL, 'Shell', 'calc_kA',
                   attrs={'beta': NONE, 'Mach': v})
    raise_case(ck, 'Shell.calc_kA:flow', 'an unknown flow direction', SHELL, 'Shell', 'calc_kA', attrs={'flow': S_('z')})
    for ax in 'xy':
        nm = 'add_distr_load_fixed_' + ax
        for cte in (ONE, ZERO):
            raise_case(ck, 'Shell.%s:none' % nm, 'no load function', SHELL, 'Shell', nm,
                       args=dict(no('funcx', 'funcy', 'funcz'), cte=cte))
        nm = 'add_distr_pd_fixed_' + ax
        ks, fs = ('ku', 'kv', 'kw'), ('funcu', 'funcv', 'funcw')
        for cte in (ONE, ZERO):
            raise_case(ck, 'Shell.%s:no-k' % nm, 'no penalty constant', SHELL, 'Shell', nm, args=dict(no(*ks), cte=cte))
            raise_case(ck, 'Shell.%s:no-func' % nm, 'no function', SHELL, 'Shell', nm, args=dict(no(*fs), cte=cte))
            for i in range(3):
                for missing in (ks[i], fs[i]):
                    raise_case(ck, 'Shell.%s:only:%s' % (nm, ks[i] if missing == fs[i] else fs[i]), 'no %s' % missing,
                               SHELL, 'Shell', nm, args=dict(no(missing), cte=cte))
    raise_case(ck, 'Shell.stress:ABD', 'no laminate matrix', SHELL, 'Shell', 'stress', attrs=no('ABD'), args=no('ABD'),
               keep=lambda e: False)


def shapes_differ(x, y):
    """arrays like (2, 3) and (3, 2): the shapes differ, the number of dimensions and of elements does not"""
    def fact(a):
        if a[0] != 'ind' or a[1] not in ('eq', 'eqv') or not (mentions(A(a), x) and mentions(A(a), y)):
            return None
        ps = (a[2], a[3]) if a[1] == 'eqv' else (a[2],)
        tops = [atom_of(i) for p in ps for i in p.atoms()]
        if len(tops) != 2:
            return None
        kind = [shape_kind(t) for t in tops]
        if None in kind or kind[0] != kind[1]:
            return None
        return kind[0] == 'count'
    return {(lambda a: fact(a) is not None): fact}


def shape_kind(t):
    if t[0] == 'idx' and t[2] in ((ZERO,), (ONE,)):
        t = t[1].single_atom()
        return 'shape' if t is not None and shape_kind(t) == 'shape' else None
    if t[0] == 'attr':
        return 'shape' if t[2] == 'shape' else 'count' if t[2] in ('ndim', 'size') else None
    if t[0] == 'len':
        t = t[1].single_atom()
        return 'count' if t is not None and shape_kind(t) == 'shape' else None
    if t[0] == 'call':
        return {'shape': 'shape', 'size': 'count', 'ndim': 'count'}.get(PL.callee_name(t))
    return None


def point_cases(ck):
    """coordinate arrays of different shape never reach a kernel, which walks over both"""
    xs, ys = sym('xs'), sym('ys')
    for rel, cname, typer in ((SHELL, 'Shell', None), (BAY, 'StiffPanelBay', bay_typer())):
        c = PL.cls(rel, cname)
        for n, f in sorted(c.methods.items()):
            ps = f.param_names()
            if n.startswith('_') or n.startswith('plot') or not {'xs', 'ys'} <= set(ps):
                continue
            raise_case(ck, '%s.%s:points' % (cname, n), 'coordinate arrays of different shape', rel, cname, n,
                       assume=shapes_differ(xs, ys), typer=typer, subjects=(xs, ys), native_only=True,
                       keep=lambda e: handed(e, xs) or handed(e, ys))


LOADS = ('point_loads', 'point_loads_inc', 'distr_loads', 'distr_loads_inc', 'point_pds', 'point_pds_inc', 'distr_pds',
         'distr_pds_inc')


def fext_cases(ck):
    """a line load is given on exactly one coordinate"""
    for lst in LOADS:
        if not lst.startswith('distr'):
            continue
        for both in (True, False):
            # the edge at zero counts as a coordinate
            x, y = (ZERO, ZERO) if both else (NONE, NONE)
            heap, at = {}, {}
            for k, name in enumerate(LOADS):
                items = ()
                if name == lst:
                    heap[('obj', -99)] = ('list', (x, y, sym('f1'), sym('f2'), sym('f3')), False)
                    items = (A(('obj', -99)),)
                heap[('obj', -1 - k)] = ('list', items, False)
                at[name] = A(('obj', -1 - k))
            raise_case(ck, 'shell_fext:%s:%s' % (lst, 'both' if both else 'none'), 'an entry of %s that gives %s coordinates' % (
                lst, 'both' if both else 'no'), EXT, None, 'shell_fext', attrs=at, owner='shell', heap=heap)


def domain_cases(ck):
    st = AS.shell_typer()
    no = lambda *ks: {k: NONE for k in ks}
    raise_case(ck, 'MultiDomain.get_kC_conn:none', 'no connections', MD, 'MultiDomain', 'get_kC_conn', attrs=no('conn'),
               args=no('conn'), typer=st)
    bogus = S_('no_such_type')
    raise_case(ck, 'MultiDomain.get_kC_conn:func', 'an unknown connection type', MD, 'MultiDomain', 'get_kC_conn',
               assume=AS.type_assume(None), typer=st, args={'conn': FL.tup(sym('connecti'))})
    raise_case(ck, 'calc_kt_kr:type', 'an unknown connection type', PEN, None, 'calc_kt_kr', args={'connection_type': bogus})
    raise_case(ck, 'calc_kw_tsl:type', 'an unknown law', PEN, None, 'calc_kw_tsl', args={'tsl_type': bogus})
    for k in 'ab':
        pa, pb = attr('pA', k), attr('pB', k)

        def pred(a, pa=pa, pb=pb):
            return a[0] == 'ind' and a[1] == 'eq' and (a[2] == pa - pb or a[2] == pb - pa)
        raise_case(ck, 'calc_kw_tsl:%s' % k, 'panels of different %s' % k, PEN, None, 'calc_kw_tsl', assume={pred: lambda a: False},
                   args={'tsl_type': S_('linear')}, subjects=(pa, pb))
    c = PL.cls(MD, 'MultiDomain')
    for n, f in sorted(c.methods.items()):
        if {'x_gauss', 'y_gauss', 'c'} <= set(f.param_names()) and not n.startswith('plot'):
            raise_case(ck, 'MultiDomain.%s:points' % n, 'no sampling points', MD, 'MultiDomain', n, args=no('x_gauss', 'y_gauss'),
                       typer=st, native_only=True)
    # only panels
    isp = lambda a: a[0] == 'ind' and a[1] == 'truth' and is_panel_test(a[2])
    f, fl, s, ret = PL.configured(MD, 'MultiDomain', '__init__', assume={isp: lambda a: False})
    ck.count('rejection cases')
    if any(e.kind == 'raise' for e in fl.events) or s is None:
        ck.ok()
    elif any(e.kind == 'call' and PL.callee(e) in ('isinstance', 'all', 'any', 'type') for e in fl.events):
        ck.und('MultiDomain(): test of the panels not understood')
    else:
        ck.bad('reject', PL.wf(f), 'MultiDomain.__init__:panels', 'MultiDomain accepts objects that are not panels')


def is_panel_test(v):
    b = v.single_atom()
    return b is not None and b[0] == 'call' and PL.callee_name(b) == 'isinstance' and len(b[2]) == 2 \
        and 'Shell' in show(b[2][1])


def bay_cases(ck):
    ty = bay_typer()
    no = lambda *ks: {k: NONE for k in ks}
    for m in ('calc_kC', 'calc_kG', 'calc_kM', 'calc_kA', 'calc_cA', 'calc_fext'):
        for k in 'ab':
            raise_case(ck, 'StiffPanelBay.%s:%s' % (m, k), 'no %s' % k, BAY, 'StiffPanelBay', m, attrs=no(k), typer=ty)
    raise_case(ck, 'StiffPanelBay.calc_kA:subsonic', 'a Mach number below 1', BAY, 'StiffPanelBay', 'calc_kA',
               attrs={'beta': NONE, 'Mach': ZERO}, typer=ty)
    raise_case(ck, 'StiffPanelBay.calc_cA:subsonic', 'a Mach number below 1', BAY, 'StiffPanelBay', 'calc_cA',
               attrs={'beta': NONE, 'Mach': ZERO}, typer=ty)
    for m in ('add_bladestiff1d', 'add_bladestiff2d'):
        for lab, at in (('bstack or fstack', no('bstack', 'fstack')), ('bplyt', no('bplyts', 'bplyt')), ('fplyt', no('fplyts', 'fplyt')),
                        ('blaminaprop', no('blaminaprops', 'blaminaprop')), ('flaminaprop', no('flaminaprops', 'flaminaprop'))):
            raise_case(ck, 'StiffPanelBay.%s:%s' % (m, lab.replace(' ', '-')), 'no %s' % lab, BAY, 'StiffPanelBay', m, args=at)
        raise_case(ck, 'StiffPanelBay.%s:panels' % m, 'no panels', BAY, 'StiffPanelBay', m, attrs={'panels': FL.tup()})
    for region in ('base', 'no_such_region'):
        raise_case(ck, 'StiffPanelBay.uvw_stiffener:%s' % region, 'region %r' % region, BAY, 'StiffPanelBay', 'uvw_stiffener',
                   args={'region': S_(region)}, typer=ty, assume=two_d(True))
    raise_case(ck, 'StiffPanelBay.uvw_stiffener:1d', 'a one-dimensional stiffener', BAY, 'StiffPanelBay', 'uvw_stiffener', typer=ty,
               assume=two_d(False))


def two_d(yes):
    """class of the chosen stiffener"""
    def kind(a):
        if a[0] != 'ind' or a[1] != 'truth':
            return None
        b = a[2].single_atom()
        if b is None or b[0] != 'call' or PL.callee_name(b) != 'isinstance' or len(b[2]) != 2:
            return None
        t = show(b[2][1])
        if 'BladeStiff1D' in t:
            return not yes
        if 'BladeStiff2D' in t:
            return yes
        return None
    return {(lambda a: kind(a) is not None): kind}


def builder_cases(ck):
    C = Poly.const
    cyl, bl = 'panels/multidomain/cylinder.py', 'panels/multidomain/cylinder_blade_stiffened.py'
    three = FL.tup(sym('n1'), sym('n2'), sym('n3'), sym('n4'))
    two = FL.tup(sym('n1'), sym('n2'), sym('n3'))
    for rel in (cyl, bl):
        m = proj.mod(rel)
        for fn, f in sorted(m.funcs.items()):
            ps = f.param_names()
            if 'npanels' not in ps or not any(fn.startswith(x) for x in ('cylinder_', 'create_cylinder_')):
                continue
            ok = {p: two for p in ps if p.endswith('s_skin') or p.endswith('s_blade') or p.startswith('Nxxs') or p.endswith('_blades')}
            raise_case(ck, '%s:npanels' % fn, 'one panel', rel, None, fn, args={'npanels': ONE})
            for p in ok:
                raise_case(ck, '%s:%s' % (fn, p), '%s longer than npanels' % p, rel, None, fn,
                           args=dict(ok, npanels=C(3), **{p: three}))


def kernel_cases(ck):
    """kernels that read a panel reject other objects before reading it"""
    for p in proj.sources(('.pyx',)):
        rel = proj.relpath(p)
        for fn, f in sorted(proj.mod(rel).funcs.items()):
            ps = f.param_names()
            if 'Finput' not in ps and not {'shell'} & set(ps):
                continue
            if 'shell' in ps:
                cn = A(('attr', A(('attr', sym('shell'), '__class__')), '__name__'))

                def pred(a, cn=cn):
                    return a[0] == 'ind' and a[1] in ('in', 'eq', 'eqv') and mentions(A(a), cn)
                kernel_case(ck, rel, fn, 'shell', 'an object that is not a Shell', {pred: lambda a: False}, sym('shell'))
            if 'Finput' in ps:
                F = sym('Finput')
                for nd, wrong in ((4, 0), (4, 1), (4, 2), (4, 3), (2, 0), (2, 1), (3, None)):
                    kernel_case(ck, rel, fn, 'Finput', 'a laminate matrix of the wrong shape', finput_facts(F, nd, wrong), F)


def finput_facts(F, nd, wrong):
    """Finput has nd dimensions and all but the number 'wrong' have the expected length"""
    six = Poly.const(6)
    want = {4: (sym('nx'), sym('ny'), six, six), 2: (six, six)}.get(nd)

    def shape(v):
        z = v.single_atom()
        if z is not None and z[0] == 'attr' and z[2] == 'shape' and PL.strip(z[1]) == F:
            return True
        return z is not None and z[0] == 'call' and PL.callee_name(z) == 'shape' and PL.strip(z[2][0]) == F

    def fact(a):
        if a[0] != 'ind' or a[1] not in ('eq', 'eqv'):
            return None
        d = a[2] if a[1] == 'eq' else a[2] - a[3]
        for i in d.atoms():
            z = atom_of(i)
            for s in (1, -1):
                other = (d - A(z).scale(s)).scale(-s)
                if shape(A(z)) and other.single_atom() is not None and other.single_atom()[0] == 'tuple':
                    return False
                if z[0] == 'idx' and len(z[2]) == 1 and z[2][0].cval() is not None and shape(z[1]) and want:
                    k = int(z[2][0].cval())
                    if k < 0:
                        k += nd
                    if k < nd and other == want[k]:
                        return k != wrong
                if z[0] == 'attr' and z[2] == 'ndim' and PL.strip(z[1]) == F and other.cval() is not None:
                    return other.cval() == nd
                if z[0] == 'len' and shape(z[1]) and other.cval() is not None:
                    return other.cval() == nd
        return None
    return {(lambda a: fact(a) is not None): fact}


def about_object(v, subj, lab):
    """the condition tests what kind of object was given, or its shape"""
    if lab != 'shell':
        return True
    return K.poly_mentions(v, lambda z: (z[0] == 'attr' and z[2].startswith('__')) or
                           (z[0] == 'call' and subj in z[2] and PL.callee_name(z) in
                            ('isinstance', 'type', 'hasattr', 'getattr', 'callable')))


def kernel_case(ck, rel, fn, lab, what, asm, subj):
    f, fl, st, ret = PL.function(rel, fn, assume=asm)
    ck.count('kernel guards')
    if st is None:
        ck.ok(sample='%s: %s' % (fn, what))
        return
    u = undecided_on(fl, (subj,))
    if u is not None and about_object(u.value, subj, lab):
        ck.und('%s: %s: %s' % (fn, what, show(u.value)[:80]))
        return
    ck.bad('kernel-guard', PL.wf(f), '%s:%s:%s' % (rel.split('/')[-1], fn, lab), '%s (%s) runs with %s' % (fn, rel, what))


def c29(tier):
    global NATIVE
    ck = Check('C29', 'Every public method is value-numbered (abstract evaluation over the syntax tree) with one bad input (amplitude vector of another size, coordinate '
               'arrays of different shape, missing laminate or geometry data, unknown model, direction, connection type '
               'or region, too few panels); no path may reach a native kernel with it or return.')
    NATIVE = native_names()
    sizes(ck)
    shell_cases(ck)
    point_cases(ck)
    fext_cases(ck)
    domain_cases(ck)
    bay_cases(ck)
    builder_cases(ck)
    kernel_cases(ck)
    ck.need('size cases', 20)
    ck.need('rejection cases', 60)
    ck.need('kernel guards', 10)
    return ck


REGISTRY = {'C29': c29}
