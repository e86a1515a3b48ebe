"""C36 contour plots: the field that is drawn, where it is drawn, and the state that plotting leaves."""
import ast
from .. import flow as FL
from .. import kernels as K
from .. import proj
from .. import pylayer as PL
from ..kernels import sym, attr, A
from ..pylayer import NONE, S_, strip, SHELL, MD, BAY, attr_of
from ..poly import Poly, ONE, ZERO, show, TooBig
from ..report import Check
from . import bay as BY, results as R

PSH = 'panels/plot_shell.py'
DISPL = ('u', 'v', 'w', 'phix', 'phiy')
STRAIN = ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')
STRESS = ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')
ALL = DISPL + STRAIN + ('gyz', 'gxz') + STRESS + ('Qy', 'Qx')
BOGUS = 'not_a_component'
KIND = {}
for _k in DISPL:
    KIND[_k] = 'uvw'
for _k in STRAIN:
    KIND[_k] = 'strain'
for _k in STRESS:
    KIND[_k] = 'stress'
shell = sym('shell')
NORNG, RNG = (False, False), (True, True)
RNGS = (NORNG, RNG, (True, False), (False, True))
me = sym('self')


def unsure(v):
    return K.poly_mentions(v, lambda z: isinstance(z, tuple) and z[:1] in (('unk',), ('join',), ('loopout',), ('undef',), ('obj',)))


class Plot:
    """one configured run of a plotting function"""

    def __init__(self, ck, label, f, fl, st, ret):
        self.ck, self.label, self.f, self.fl, self.st, self.ret = ck, label, f, fl, st, ret
        self.wh = PL.wf(f)

    def bad(self, rule, what, text, e=None):
        self.ck.bad(rule, PL.where(e) if e is not None else self.wh, '%s:%s' % (self.label, what), text)

    def draws(self):
        out = []
        for e in self.fl.events:
            if e.kind == 'call' and PL.callee(e) in ('contourf', 'contour', 'tricontourf', 'pcolormesh') and e.cond() != ZERO:
                d = dict(zip(('x', 'y', 'field', 'levels'), e.extra[0]))
                d.update(e.extra[1])
                out.append((e, d))
        return out

    def same(self, rule, what, got, want, e, alts=()):
        self.ck.count('plotted quantities')
        if got is None:
            self.ck.und('%s: %s not given' % (self.label, what))
            return False
        g = strip(got)
        if g == strip(want) or any(g == strip(x) for x in alts):
            self.ck.ok(sample='%s: %s = %s' % (self.label, what, show(g)[:100]))
            return True
        if unsure(got) or unsure(want):
            self.ck.und('%s: %s is %s' % (self.label, what, show(g)[:120]))
            return False
        self.bad(rule, what, '%s is %s, expected %s' % (what, show(g)[:140], show(strip(want))[:140]), e)
        return False

    def opaque_self(self, obj):
        """the object is handed to something that is not followed"""
        return any(e.kind == 'call' and PL.callee(e) not in R.KER and not (e.extra and len(e.extra) > 3) and e.extra and
                   obj in tuple(e.extra[0]) + tuple(v for k, v in e.extra[1]) for e in self.fl.events)

    def levels(self, d, e, field, given):
        lv = d.get('levels')
        a = strip(lv).single_atom() if lv is not None else None
        if a is None or a[0] != 'call' or PL.callee_name(a) != 'linspace' or len(a[2]) > 3:
            self.ck.und('%s: levels are %s' % (self.label, show(lv)[:80] if lv is not None else 'not given'))
            return
        b = dict(zip(('start', 'stop', 'num'), a[2]))
        b.update({k: v for k, v in a[3] if k in ('start', 'stop', 'num')})
        self.same('levels', 'num_levels', b.get('num'), sym('num_levels'), e)
        for k, nm, fn, giv in (('start', 'vecmin', 'min', given[0]), ('stop', 'vecmax', 'max', given[1])):
            v = b.get(k)
            if giv:
                self.same('levels', nm, v, sym(nm), e)
                continue
            want = None
            x = strip(v).single_atom() if v is not None else None
            self.ck.count('plotted quantities')
            if x is not None and x[0] == 'call' and PL.callee_name(x) in (fn, 'a' + fn, 'nan' + fn):
                g = x[1].single_atom()
                arg = g[1] if g is not None and g[0] == 'attr' else x[2][0] if x[2] else None
                if arg is not None and strip(arg) == strip(field):
                    self.ck.ok()
                elif arg is None or unsure(arg):
                    self.ck.und('%s: %s is %s' % (self.label, nm, show(v)[:80]))
                else:
                    self.bad('levels', nm, 'the range of the contour is taken from %s, not from the plotted field' %
                             show(arg)[:100], e)
            elif x is not None and x[0] == 'call' and PL.callee_name(x) in ('min', 'max', 'amin', 'amax'):
                self.bad('levels', nm, '%s of the contour is the %s of the field' % (nm, PL.callee_name(x)), e)
            elif v == sym(nm) or v == NONE:
                self.bad('levels', nm, '%s that is not given is not taken from the field' % nm, e)
            else:
                self.ck.und('%s: %s is %s' % (self.label, nm, show(v)[:80] if v is not None else '?'))

    def kept(self, items, stale_ok=()):
        """items {name: (value before, value after)}: everything is as before, or everything that was
        computed is new"""
        self.ck.count('results kept')
        new = sorted(k for k, (b, a) in items.items() if a is not None and strip(a) != strip(b))
        old = sorted(k for k in items if k not in new)
        mesh = {'Xs', 'Ys'}
        if any(unsure(items[k][1]) for k in new):
            self.ck.und('%s: state after the plot not known' % self.label)
            return
        if not new:
            self.ck.ok(sample='%s: fields and mesh are as before' % self.label)
        elif set(new) & mesh:
            self.bad('state', 'mesh', 'after the plot %s belong to the plotted points while %s are those computed '
                     'before' % (', '.join(new), ', '.join(old)))
        else:
            self.bad('state', 'fields', 'after the plot %s belong to the plotted points while the mesh is the one '
                     'from before' % ', '.join(new))

    def in_place(self, e0, kept_values):
        """arrays that stay on the object and are changed in place"""
        for e in self.fl.events:
            if e.kind == 'augname' and isinstance(e.full, Poly) and e.cond() != ZERO:
                for k, v in kept_values.items():
                    if v is not None and e.full == v and v.single_atom() is not None:
                        self.bad('in place', k, 'the plot changes the values of %s, which stays on the object' % k, e)


def raising(fl):
    out = []
    for e in fl.events:
        if e.kind == 'raise':
            a = e.value.single_atom() if isinstance(e.value, Poly) else None
            n = PL.callee_name(a) if a is not None and a[0] == 'call' else a[1] if a is not None and a[0] in ('fn', 'ext') else \
                a[2] if a is not None and a[0] == 'new' else None
            out.append((e, n))
    return out


def refused(ck, label, f, fl, ret, what):
    """the run must end with ValueError"""
    ck.count('refusals')
    rs = [(e, n) for e, n in raising(fl) if e.cond() != ZERO]
    draws = [e for e in fl.events if e.kind == 'call' and PL.callee(e) == 'contourf' and e.cond() != ZERO]
    if ret is not None and (ret != NONE or draws):
        if any(e.cond() != ONE for e, n in rs):
            ck.und('%s: %s refused only when %s' % (label, what, show(rs[0][0].cond())[:80]))
        else:
            ck.bad('refuse', PL.wf(f), '%s:%s' % (label, what), '%s does not refuse %s' % (label, what))
        return
    names = {n for e, n in rs}
    if not rs:
        ck.und('%s: %s' % (label, what))
    elif 'ValueError' in names:
        ck.ok(sample='%s refuses %s' % (label, what))
    elif None in names:
        ck.und('%s: exception for %s not recognised' % (label, what))
    else:
        ck.bad('refuse', PL.where(rs[0][0]), '%s:%s' % (label, what), '%s raises %s for %s, expected ValueError' %
               (label, sorted(names), what))


def ax_assume(ok):
    """whether the given ax is an Axes object"""
    def p(a):
        if a[0] == 'ind' and a[1] == 'truth':
            b = a[2].single_atom()
            if b is not None and b[0] == 'call' and PL.callee_name(b) == 'isinstance' and len(b[2]) > 1 and \
                    b[2][0] == sym('ax'):
                return ok
        return None
    return {(lambda a: p(a) is not None): p}


def base_assume(given=True, ax=False, rng=NORNG):
    return PL.merge(PL.none_assume({sym('xs'): not given, sym('ys'): not given, sym('ax'): not ax,
                                    sym('vecmin'): not rng[0], sym('vecmax'): not rng[1]}),
                    ax_assume(True) if ax is True else ax_assume(False) if ax else {})


# ------------------------------------------------------------------ plot_shell
def shell_flow(assume, f):
    cl = PL.cls(SHELL, 'Shell')
    fl = FL.Flow(proj.RESOLVE, assume=assume, inline=lambda g: g is f or (
        not g.module.path.endswith('.pyx') and g.name not in ('msg', 'warn', '_rebuild')))
    fl.typer = lambda a: cl if a == ('sym', 'shell') else None
    fl.fold_globals = True
    return fl


def shell_state(fl, fresh):
    st = FL.State({}, {}, ())
    for nm, ks in (('fields', ALL), ('plot_mesh', ('Xs', 'Ys'))):
        st.heap[('attr', shell, nm)] = fl.newobj('dict', tuple(
            (S_(k), NONE if fresh else sym('old_' + k)) for k in ks), st)
    return st


def olds():
    return PL.none_assume({sym('old_' + k): False for k in ALL + ('Xs', 'Ys')})


def contents(fl, st, nm):
    v = st.heap.get(('attr', shell, nm))
    o = fl.getobj(v, st) if v is not None else None
    if o is None or o[0] != 'dict' or o[2]:
        return None
    return {k.single_atom()[1]: x for k, x in o[1] if k.single_atom() is not None and k.single_atom()[0] == 'str'}


def shell_oracle(kind, given):
    """fields and mesh that Shell.<kind> computes from the arguments of the plot"""
    f = PL.cls(SHELL, 'Shell').methods[kind]
    fl = shell_flow(PL.merge(base_assume(given), olds()), f)
    st = shell_state(fl, True)
    args = {'self': shell}
    for p in f.param_names():
        if p in ('c', 'xs', 'ys', 'gridx', 'gridy', 'NLgeom'):
            args[p] = sym(p)
        elif p == 'ABD':
            args[p] = NONE
    st, ret = fl.run(f, args, st)
    return contents(fl, st, 'fields'), contents(fl, st, 'plot_mesh')


def run_shell(vec, deform, fresh, given=True, ax=False, rng=NORNG):
    f = proj.func(PSH, 'plot_shell')
    fl = shell_flow(PL.merge(base_assume(given, ax, rng), olds()), f)
    st = shell_state(fl, fresh)
    st, ret = fl.run(f, {'vec': S_(vec), 'deform_u': ONE if deform else ZERO, 'shell': shell}, st)
    return f, fl, st, ret


def plot_shell(ck):
    f = proj.func(PSH, 'plot_shell')
    orc = {(k, pts): shell_oracle(k, pts) for k in ('uvw', 'strain', 'stress') for pts in (True, False)}
    if any(x[0] is None or x[1] is None for x in orc.values()):
        ck.und('results of Shell not followed')
        return
    for vec in DISPL + STRAIN + STRESS:
        for deform, fresh, rng, pts in ((False, False, (False, True), True), (True, False, RNG, True), (True, True, NORNG, False),
                                        (False, True, (True, False), False)):
            fields, mesh = orc[KIND[vec], pts]
            label = 'plot_shell:%s%s' % (KIND[vec], ':deformed' if deform else '')
            ck.count('configured plots')
            f, fl, st, ret = run_shell(vec, deform, fresh, pts, rng=rng)
            p = Plot(ck, label, f, fl, st, ret)
            if ret is None:
                p.bad('raises', 'raises', 'the plot of %s always raises' % vec)
                continue
            ds = p.draws()
            if len(ds) != 1:
                ck.und('%s: %d contours' % (label, len(ds)))
                continue
            e, d = ds[0]
            if vec not in fields:
                ck.und('%s: Shell.%s does not compute %s' % (label, KIND[vec], vec))
                continue
            p.same('field', 'field', d.get('field'), fields[vec], e)
            x, y = mesh['Ys'] + sym('plot_offset_y'), mesh['Xs'] + sym('plot_offset_x')
            if deform:
                q = orc['uvw', pts][0]
                x = x + sym('deform_u_sf') * q['v']
                y = y - sym('deform_u_sf') * q['u']
            p.same('position', 'vertical position', d.get('x'), x, e)
            p.same('position', 'horizontal position', d.get('y'), y, e)
            p.levels(d, e, d.get('field'), rng)
            fa, ma = contents(fl, st, 'fields'), contents(fl, st, 'plot_mesh')
            if fa is None or ma is None or p.opaque_self(shell):
                ck.und('%s: state after the plot' % label)
            else:
                if not fresh:
                    it = {k: (sym('old_' + k), fa.get(k)) for k in ALL}
                    it.update({k: (sym('old_' + k), ma.get(k)) for k in ('Xs', 'Ys')})
                    p.kept(it)
                p.in_place(e, {k: v for k, v in list(fa.items()) + list(ma.items())})
    for vec, ax, what in ((BOGUS, False, 'unknown components'), ('w', 'no', 'an ax that is no Axes object')):
        f, fl, st, ret = run_shell(vec, False, False, ax=ax)
        refused(ck, 'plot_shell', f, fl, ret, what)
    output(ck, 'plot_shell', run_shell('w', False, False), run_shell('w', False, False, ax=True))


# ------------------------------------------------------------------ common
def output(ck, label, own, given):
    """axes returned; the file of a plot that makes its own figure"""
    f, fl, st, ret = given
    ck.count('plotted quantities')
    r = ret
    a = ret.single_atom() if ret is not None else None
    if a is not None and a[0] == 'tuple' and a[1]:
        r = a[1][0]
    if r is None or unsure(r):
        ck.und('%s: result' % label)
    elif r == sym('ax'):
        ck.ok()
    elif r == NONE or not K.poly_mentions(r, lambda z: z == ('sym', 'ax')):
        ck.bad('axes', PL.wf(f), '%s:axes' % label, '%s returns %s, not the axes that were given' % (label, show(r)[:80]))
    else:
        ck.und('%s: returns %s' % (label, show(r)[:80]))
    for e in fl.events:
        if e.kind == 'call' and PL.callee(e) == 'contourf' and e.cond() != ZERO:
            b = e.base.single_atom()
            ck.count('plotted quantities')
            if b is not None and b[0] == 'attr' and b[1] == sym('ax'):
                ck.ok()
            elif b is not None and b[0] == 'attr' and not unsure(b[1]) and \
                    not K.poly_mentions(b[1], lambda z: z == ('sym', 'ax')):
                ck.bad('axes', PL.where(e), '%s:axes' % label, 'the contour is drawn in %s, not in the axes that '
                       'were given' % show(b[1])[:80])
            else:
                ck.und('%s: axes of the contour' % label)
    f, fl, st, ret = own
    sv = [e for e in fl.events if e.kind == 'call' and PL.callee(e) == 'savefig' and e.cond() != ZERO]
    ck.count('plotted quantities')
    if not sv:
        ck.bad('save', PL.wf(f), '%s:save' % label, '%s never saves the plot' % label)
        return
    for e in sv:
        args = list(e.extra[0]) + [v for k, v in e.extra[1] if k == 'fname']
        if args and K.poly_mentions(args[0], lambda z: z == ('sym', 'filename')):
            ck.ok()
        elif args and not unsure(args[0]):
            ck.bad('save', PL.where(e), '%s:filename' % label, 'the plot is saved as %s, whatever filename is given' %
                   show(args[0])[:60])
        else:
            ck.und('%s: file name' % label)
        for k, v in e.extra[1]:
            if k == 'dpi' and v != sym('dpi') and not unsure(v):
                ck.bad('save', PL.where(e), '%s:dpi' % label, 'the plot is saved with dpi %s' % show(v)[:40])


def unused(ck, rel, cname, name):
    """documented options that the function never reads"""
    f = PL.cls(rel, cname).methods[name] if cname else proj.func(rel, name)
    used = {n.id for s in f.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    if {'locals', 'vars', 'eval', 'exec'} & used:
        return
    lab = ('%s.%s' % (cname, name)) if cname else name
    for p in f.param_names():
        ck.count('options read')
        if p in used or p == 'self':
            ck.ok()
        else:
            ck.bad('ignored', PL.wf(f), '%s:%s' % (lab, p), '%s accepts %s and never uses it' % (lab, p))


# ------------------------------------------------------------------ MultiDomain.plot
MDM = ('uvw', 'strain', 'stress', 'uvw_gauss_points', 'strain_gauss_points', 'stress_gauss_points')


def run_md(vec, gauss, ax=False, rng=NORNG, only=ZERO):
    cl = PL.cls(MD, 'MultiDomain')
    f = cl.methods['plot']
    sh = PL.cls(SHELL, 'Shell')
    asm = PL.merge(base_assume(True, ax, rng), PL.none_assume({sym('x_gauss'): False, sym('y_gauss'): False}))
    fl = FL.Flow(proj.RESOLVE, assume=asm, self_class=cl, inline=lambda g: g is f or (
        not g.module.path.endswith('.pyx') and g.name not in ('msg', 'warn', '_rebuild') + MDM))
    fl.typer = lambda a: sh if PL.elem_of(a, attr('self', 'panels')) else None
    fl.fold_globals = True
    st, ret = fl.run(f, {'vec': S_(vec), 'use_gauss_points': ONE if gauss else ZERO, 'calc_data_only': only})
    return f, fl, st, ret


def peel(v):
    """base[i][j]... -> (base, [i, j, ...])"""
    ix = []
    while True:
        a = strip(v).single_atom()
        if a is None or a[0] != 'idx':
            return strip(v), ix
        ix = list(a[2]) + ix
        v = a[1]


def md_plot(ck):
    f = PL.cls(MD, 'MultiDomain').methods['plot']
    for vec in DISPL + STRAIN + STRESS:
        for gauss in (False, True):
            rng = RNGS[(ALL.index(vec) + gauss) % 4]
            f, fl, st, ret = run_md(vec, gauss, rng=rng)
            meth = KIND[vec] + ('_gauss_points' if gauss else '')
            label = 'MultiDomain.plot:%s' % meth
            ck.count('configured plots')
            p = Plot(ck, label, f, fl, st, ret)
            if ret is None:
                p.bad('raises', 'raises', 'the plot of %s always raises' % vec)
                continue
            cs = [e for e in fl.events if e.kind == 'call' and PL.callee(e) in MDM and e.cond() != ZERO]
            ds = p.draws()
            if not cs or len(ds) != 1:
                ck.und('%s: %d results, %d contours' % (label, len(cs), len(ds)))
                continue
            e, d = ds[0]
            base, ix = peel(d.get('field'))
            src = [c for c in cs if strip(c.value) == base]
            if len(src) != 1 or len(ix) != 2:
                if len(ix) < 2 and base == strip(cs[-1].value):
                    p.bad('field', 'panel', 'the contour of a panel shows %s' % show(d.get('field'))[:120], e)
                else:
                    ck.und('%s: field %s' % (label, show(d.get('field'))[:120] if d.get('field') is not None else None))
                continue
            c = src[0]
            if PL.callee(c) == meth:
                ck.ok()
            else:
                p.bad('field', 'method', '%s is taken from MultiDomain.%s' % (vec, PL.callee(c)), c)
                continue
            b = c.extra[2] if len(c.extra) > 2 and c.extra[2] else {}
            for k in ('c', 'group') + (('x_gauss', 'y_gauss') if gauss else ('gridx', 'gridy')):
                p.same('argument', k, b.get(k, ZERO), sym(k), c)
            ck.count('plotted quantities')
            if ix[0] == S_(vec):
                ck.ok()
            else:
                p.bad('field', 'component', 'the contour of %s shows component %s' % (vec, show(ix[0])[:60]), e)
            P = panel_of(e)
            k = ix[1]
            if P is not None:
                pos = {'x': A(('idx', c.value, (S_('y'), k))) + attr_of(P, 'y0'),
                       'y': A(('idx', c.value, (S_('x'), k))) + attr_of(P, 'x0')}
                for nm in ('x', 'y'):
                    got = d.get(nm)
                    p.same('position', 'vertical position' if nm == 'x' else 'horizontal position',
                           joined(got) if got is not None else None, joined(pos[nm]), e)
                counted(ck, p, fl, e, k, P)
            else:
                ck.und('%s: panel of the contour' % label)
            whole = A(('idx', c.value, (S_(vec),)))
            lv = d.get('levels')
            p.levels(d, e, whole, rng)
    for vec, ax, what in ((BOGUS, False, 'unknown components'), ('w', 'no', 'an ax that is no Axes object')):
        for gauss in (False, True):
            f, fl, st, ret = run_md(vec, gauss, ax=ax)
            refused(ck, 'MultiDomain.plot%s' % (':gauss' if gauss else ''), f, fl, ret, what)
    output(ck, 'MultiDomain.plot', run_md('w', False), run_md('w', False, ax=True))
    # calc_data_only
    f, fl, st, ret = run_md('w', False, rng=RNG, only=ONE)
    ck.count('plotted quantities')
    if any(e.kind == 'call' and PL.callee(e) in ('contourf', 'savefig') and e.cond() != ZERO for e in fl.events):
        ck.bad('data only', PL.wf(f), 'MultiDomain.plot:calc_data_only', 'MultiDomain.plot draws although only the '
               'data was asked for')
    else:
        ck.ok()


def joined(v):
    """nested subscripts of the same base written as one"""
    def fn(a):
        if a[0] == 'idx':
            b, ix = a[1], list(a[2])
            while True:
                q = b.single_atom()
                if q is None or q[0] != 'idx':
                    break
                ix = list(q[2]) + ix
                b = q[1]
            if b is not a[1]:
                return A(('idx', b, tuple(ix)))
        return None
    return FL.rebuild(strip(v), fn)


def panel_of(e):
    for lp in reversed(e.loops):
        if isinstance(lp.iterable, Poly) and lp.iterable == attr('self', 'panels'):
            return A(('elem', lp.iterable, lp.id))
    return None


def counted(ck, p, fl, e, k, P):
    """the k-th entry of the results is that of the k-th panel of the group"""
    ck.count('plotted quantities')
    ats = set()
    K.poly_mentions(k, lambda z: ats.add(z) if isinstance(z, tuple) and z[:1] == ('phi',) else None)
    ats = [a for a in ats if len(a) > 2 and a[2] in fl.loop_end]
    if len(ats) != 1:
        if k.cval() is not None:
            p.bad('panel', 'index', 'every panel shows entry %s of the results' % show(k), e)
        elif any(lp.lv() == k for lp in e.loops):
            p.bad('panel', 'index', 'the results are indexed by the position in all panels', e)
        else:
            ck.und('%s: entry %s of the results' % (p.label, show(k)[:80]))
        return
    r = PL.recurrence(fl, A(ats[0]))
    if r is None:
        ck.und('%s: entry %s of the results' % (p.label, show(k)[:80]))
        return
    v0, step = r
    g = e.cond()
    off = k - A(ats[0])
    first = v0 + off
    if first == ZERO and step == g:
        ck.ok(sample='%s: entry %s' % (p.label, show(k)))
    elif unsure(first) or unsure(step):
        ck.und('%s: entry %s of the results' % (p.label, show(k)[:80]))
    elif first != ZERO:
        p.bad('panel', 'first', 'the first panel of the group shows entry %s of the results' % show(first)[:60], e)
    elif step.cval() is not None:
        p.bad('panel', 'step', 'the entry of the results moves by %s for every panel of the assembly' % show(step), e)
    else:
        ck.und('%s: entry moves by %s' % (p.label, show(step)[:80]))


# ------------------------------------------------------------------ bay
RES = DISPL + ('Xs', 'Ys')


def run_bay(name, vec, deform, fresh, ax=False, rng=NORNG):
    cl = PL.cls(BAY, 'StiffPanelBay')
    f = cl.methods[name]
    asm = PL.merge(base_assume(True, ax, rng), olds())
    fl = FL.Flow(proj.RESOLVE, assume=asm, self_class=cl, inline=lambda g: g is f or (
        not g.module.path.endswith('.pyx') and g.name not in BY.OPAQUE + ('uvw_skin', 'uvw_stiffener')))
    fl.typer = BY.bay_typer
    fl.fold_globals = True
    fl.post = {('StiffPanelBay', 'uvw_skin'): ('attrs', RES), ('StiffPanelBay', 'uvw_stiffener'): ('attrs', RES)}
    st = FL.State({}, {('attr', me, k): NONE if fresh else sym('old_' + k) for k in RES}, ())
    args = {'vec': S_(vec), 'deform_u': ONE if deform else ZERO}
    if 'stiff' in name:
        args['region'] = sym('region')
    st, ret = fl.run(f, args, st)
    return f, fl, st, ret


def bay_plot(ck, name, meth):
    want = ['c', 'xs', 'ys', 'gridx', 'gridy'] + (['si'] if 'stiff' in meth else [])
    for vec in DISPL:
        for deform, fresh, rng in ((False, False, (False, True)), (True, False, RNG), (True, True, NORNG), (False, True, (True, False))):
            label = '%s%s' % (name, ':deformed' if deform else '')
            ck.count('configured plots')
            f, fl, st, ret = run_bay(name, vec, deform, fresh, rng=rng)
            p = Plot(ck, label, f, fl, st, ret)
            if ret is None:
                p.bad('raises', 'raises', 'the plot of %s always raises' % vec)
                continue
            cs = [e for e in fl.events if e.kind == 'call' and PL.callee(e) in ('uvw_skin', 'uvw_stiffener') and
                  e.cond() != ZERO]
            ds = p.draws()
            if len(ds) != 1 or not cs:
                ck.und('%s: %d results, %d contours' % (label, len(cs), len(ds)))
                continue
            e, d = ds[0]
            c = cs[-1]
            for x in cs:
                if PL.callee(x) != meth:
                    p.bad('field', 'method', '%s shows the results of %s' % (name, PL.callee(x)), x)
                b = x.extra[2] if len(x.extra) > 2 and x.extra[2] else {}
                for k in want:
                    p.same('argument', k, b.get(k, ZERO), sym(k), x)
                if 'stiff' in meth:
                    p.same('argument', 'region', b.get('region', ZERO), sym('region'), x)
            out = {k: [A(('idx', x.value, (S_(k),))) for x in cs] for k in RES}
            # the tuple that is returned holds the same fields
            for i, k in enumerate(DISPL):
                out[k] += [A(('idx', x.value, (Poly.const(i),))) for x in cs]
            p.same('field', 'field', d.get('field'), out[vec][0], e, out[vec][1:])
            if deform:
                sf = sym('deform_u_sf')
                X = [a + sf * b for a in out['Ys'] for b in out['v']]
                Y = [a - sf * b for a in out['Xs'] for b in out['u']]
            else:
                X, Y = out['Ys'], out['Xs']
            p.same('position', 'vertical position', d.get('x'), X[0], e, X[1:])
            p.same('position', 'horizontal position', d.get('y'), Y[0], e, Y[1:])
            p.levels(d, e, d.get('field'), rng)
            after = {k: st.heap.get(('attr', me, k)) for k in RES}
            if not fresh:
                p.kept({k: (sym('old_' + k), after[k]) for k in RES})
            p.in_place(e, after)
    for vec, ax, what in ((BOGUS, False, 'unknown components'), ('w', 'no', 'an ax that is no Axes object')):
        f, fl, st, ret = run_bay(name, vec, False, False, ax=ax)
        refused(ck, name, f, fl, ret, what)
    output(ck, name, run_bay(name, 'w', False, False), run_bay(name, 'w', False, False, ax=True))


def c36(tier):
    ck = Check('C36', 'Value numbering of every plotting function for each component it accepts (methods that compute '
               'the fields followed or kept as calls): the field, the two coordinates and the levels handed to '
               'contourf are compared with the results of the Shell / MultiDomain / bay method for the arguments '
               'of the plot; values of the fields and of the mesh left on the object; options never read')
    parts = [('plot_shell', lambda: plot_shell(ck)), ('MultiDomain.plot', lambda: md_plot(ck)),
             ('plot_skin', lambda: bay_plot(ck, 'plot_skin', 'uvw_skin')),
             ('plot_stiffener', lambda: bay_plot(ck, 'plot_stiffener', 'uvw_stiffener'))]
    for nm, fn in parts:
        try:
            fn()
        except (FL.Give, TooBig) as ex:
            ck.und('%s: %s' % (nm, ex))
    unused(ck, PSH, None, 'plot_shell')
    unused(ck, MD, 'MultiDomain', 'plot')
    unused(ck, BAY, 'StiffPanelBay', 'plot_skin')
    unused(ck, BAY, 'StiffPanelBay', 'plot_stiffener')
    ck.need('configured plots', 20)
    return ck


REGISTRY = {'C36': c36}
