"""C20 assembly, C21 symmetric completion, C23 connection dispatch, C24 penalty constants."""
from .. import flow as FL
from .. import kernels as K
from .. import proj
from .. import pylayer as PL
from ..kernels import sym, attr, A
from ..pylayer import NONE, S_, strip, MD, SHELL, leaves
from ..poly import Poly, ONE, ZERO, show, atom_of
from ..report import Check
from . import connections as CN

C = Poly.const
PEN = 'panels/multidomain/connections/penalties.py'
CONN = 'panels/multidomain/connections/'
self_ = sym('self')
panels = attr('self', 'panels')


def get(o, k):
    return A(('idx', o, (S_(k),)))


def norm_get(p):
    """d.get('k') -> d['k']"""
    def fn(a):
        if a[0] == 'call' and len(a[2]) == 1 and not a[3]:
            f = a[1].single_atom()
            if f is not None and f[0] == 'attr' and f[2] == 'get' and FL.const_kind(a[2][0]) == 'str':
                return A(('idx', FL.rebuild(f[1], fn), (FL.rebuild(a[2][0], fn),)))
        return None
    return FL.rebuild(p, fn)


def shell_typer():
    c = PL.cls(SHELL, 'Shell')

    def t(a):
        return c if PL.elem_of(a, panels) else None
    return t


SHELL_METHODS = ('calc_kC', 'calc_kG', 'calc_kM', 'calc_kT', 'calc_kA', 'calc_cA', 'calc_fint', 'calc_fext',
                 '_rebuild', 'uvw', 'strain', 'stress')


def run_md(name, assume=None, opaque=(), args=None):
    return PL.typed(MD, 'MultiDomain', name, shell_typer(),
                    tuple(SHELL_METHODS) + ('check_c', 'get_kC_conn', 'calc_kt_kr', 'calc_kw_tsl',
                                            '_set_ranges') + tuple(opaque), assume, args)


def md_size():
    f, fl, st, ret = run_md('get_size')
    return ret


# ------------------------------------------------------------------ C23
TYPES = {
    'SSycte': ('kCSSycte', 'fkCSSycte', 'y', 'ycte'),
    'SSxcte': ('kCSSxcte', 'fkCSSxcte', 'x', 'xcte'),
    'BFycte': ('kCBFycte', 'fkCBFycte', 'y', 'ycte'),
    'BFxcte': ('kCBFxcte', 'fkCBFxcte', 'x', 'xcte'),
    'SB': ('kCSB', 'fkCSB', None, 'bot-top'),
    'SB_TSL': ('kCSB', 'fkCSB', None, None),
}
SBN = {'11': ['kt', 'dsb', 'p1'], '12': ['kt', 'dsb', 'p1', 'p2'], '22': ['kt', 'p1', 'p2']}
TAIL = ['size', 'row0', 'col0']


def mentions_func(x):
    return K.poly_mentions(x, lambda z: z == ('str', 'func'))


def type_assume(value):
    """value of every comparison of connecti['func'] with a string; None: differs from all"""
    def find(a):
        if a[0] != 'ind' or a[1] not in ('eqv', 'eq'):
            return None
        if a[1] == 'eqv':
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if FL.const_kind(y) == 'str' and mentions_func(x):
                    return y == S_(value) if value is not None else False
        return None

    def isin(a):
        return a[0] == 'ind' and a[1] == 'in' and mentions_func(a[2])

    def pred(a):
        return find(a) is not None or (isin(a) and value is None)

    def val(a):
        return find(a) if find(a) is not None else False
    return {pred: val}


def place_assume(i, j, same=False):
    """the two panels of a connection start at i and j"""
    def panel(a):
        if a[0] != 'idx' or len(a[2]) != 1:
            return None
        s = a[2][0].single_atom()
        return {('str', 'p1'): i, ('str', 'p2'): j}.get(s)

    def val0(a):
        if a[0] != 'ind':
            return None
        if a[1] in ('is', 'eqv'):
            p, q = [panel(norm_get(x).single_atom() or ('none',)) for x in a[2:4]]
            if p is not None and q is not None:
                return p == q if same or p != q else (a[2] == a[3])
            return None
        if a[1] in ('lt', 'eq'):
            bad = []

            def one(i_):
                b = atom_of(i_)
                if b[0] == 'attr' and b[2] in ('row_start', 'col_start', 'row_end', 'col_end'):
                    q = panel(norm_get(b[1]).single_atom() or ('none',))
                    if q is not None:
                        return C(q if 'start' in b[2] else q + 1)
                bad.append(b)
                return None
            c = a[2].map_atoms(one).cval()
            if c is None or bad:
                return None
            return c < 0 if a[1] == 'lt' else c == 0
        return None

    return {(lambda a: val0(a) is not None): val0}


def kernel_of_leaf(atom):
    f = atom[1].single_atom()
    if f is not None and f[0] == 'func':
        return FL.FE.load(f[1]).funcs[f[2]], f
    return None, f


def half_thickness(v, pA, pB):
    """1/2 h(pA) + 1/2 h(pB)"""
    forms = []
    for p in (pA, pB):
        pl = attr_of(p, 'plyts')
        forms.append([A(('call', A(('fn', 'sum')), (pl,), ())),
                      A(('call', A(('ext', 'numpy.sum')), (pl,), ())),
                      attr_of(attr_of(p, 'lam'), 'h')])
    for x in forms[0]:
        for y in forms[1]:
            if PL.same_ratio(v, (x + y).scale(Poly.const(1).cval() / 2)):
                return True
    return False


def attr_of(p, n):
    return A(('attr', p, n))


def c23(tier):
    ck = Check('C23', 'Value numbering of MultiDomain.get_kC_conn once per connection type and per order of the '
               'two panels: additive pieces of the result, callee of each piece, every argument bound '
               'to the kernel parameter that receives it')
    size = md_size()
    conn = sym('conn')
    doc_types(ck)
    for T, (mod, pre, axis, ptype) in TYPES.items():
        names = CN.names_edge(axis) if axis else {k: v + TAIL for k, v in SBN.items()}
        for order, (i, j), exp in (
                ('first panel first', (0, 5), {('11', ''): 1, ('12', ''): 1, ('22', ''): 1}),
                ('first panel last', (5, 0), {('11', ''): 1, ('12', 'T'): 1, ('22', ''): 1}),
                ('next panel first', (1, 0), {('11', ''): 1, ('12', 'T'): 1, ('22', ''): 1}),
                ('next panel last', (0, 1), {('11', ''): 1, ('12', ''): 1, ('22', ''): 1}),
                ('panel with itself', (0, 0), {('11', ''): 1, ('12', ''): 1, ('12', 'T'): 1, ('22', ''): 1})):
            inst = '%s:%s' % (T, order)
            asm = PL.merge(PL.none_assume({conn: False}), PL.truth_assume({sym('finalize'): True}),
                           type_assume(T), place_assume(i, j, order.endswith('itself')))
            f, fl, st, ret = PL.typed(MD, 'MultiDomain', 'get_kC_conn', shell_typer(),
                                      SHELL_METHODS + ('calc_kt_kr', 'calc_kw_tsl', '_set_ranges'), asm)
            wh = PL.wf(f)
            ck.count('dispatch runs')
            if ret is None:
                ck.bad('dispatch', wh, inst + ':raises', 'a connection of the type %s always raises' % T)
                continue
            ret = norm_get(ret)
            if i < j:
                up_to_date(ck, T, fl)
            got, unk = {}, []
            for lf in leaves(ret):
                if lf.atom is None or lf.atom[0] != 'call':
                    unk.append(lf)
                    continue
                fn, fa = kernel_of_leaf(lf.atom)
                nm = PL.callee_name(lf.atom)
                if fn is None:
                    if fa is not None and fa[0] == 'ext' and fa[1].startswith('panels.'):
                        ck.bad('dispatch', wh, '%s:missing' % T, '%s: %s does not exist' % (T, fa[1]))
                    else:
                        unk.append(lf)
                    continue
                if lf.inds:
                    unk.append(lf)
                    continue
                blk = nm[-2:]
                if not nm.startswith(pre) or blk not in ('11', '12', '22') or \
                        proj.relpath(fn.module.path) != CONN + mod + '.pyx':
                    ck.bad('dispatch', wh, '%s:kernel:%s' % (T, nm),
                           '%s: calls %s, not a kernel of this type' % (T, nm))
                    continue
                w = ''.join(x for x in lf.wrap if x == 'T')
                w = w if len(w) % 2 else ''
                if 'sym' not in lf.wrap or 'skew' in lf.wrap:
                    ck.bad('symmetry', wh, '%s:%s:sym' % (T, blk), '%s: block %s is %s' % (
                               T, blk, 'made skew-symmetric' if 'skew' in lf.wrap else
                               'never completed by symmetry'))
                got[(blk, 'T' if w else '')] = got.get((blk, 'T' if w else ''), 0) + lf.coef
                if lf.loops != ((conn, 0),):
                    if len(lf.loops) == 1 and K.poly_mentions(lf.loops[0][0], lambda z: z == ('sym', 'conn')):
                        ck.und('%s: loop over %s' % (inst, show(lf.loops[0][0])))
                    else:
                        ck.bad('dispatch', wh, '%s:%s:loop' % (T, blk), '%s: block %s is added once for every '
                               'element of %s, expected once per connection' %
                               (T, blk, [show(x[0]) for x in lf.loops]))
                    continue
                check_block(ck, inst, T, blk, fn, lf.atom, names[blk], axis, ptype, size, wh)
            for lf in [x for x in unk if PL.last_only(fl, x)]:
                unk.remove(lf)
                ck.bad('blocks', wh, inst + ':replaced', '%s, %s: a connection replaces what the connections '
                       'before it added' % (T, order))
                got = exp
            for lf in unk:
                ck.und('%s: contribution not recognised: %s' % (inst, repr(lf)[:160]))
            if got == exp:
                ck.ok(sample='%s (%s): blocks %s' % (T, order, sorted(got)))
            elif not unk:
                ck.bad('blocks', wh, inst + ':blocks', '%s, %s: blocks added %s, expected %s' %
                       (T, order, fmt(got), fmt(exp)))
    # unknown type
    asm = PL.merge(PL.none_assume({conn: False}), type_assume(None))
    f, fl, st, ret = PL.typed(MD, 'MultiDomain', 'get_kC_conn', shell_typer(), SHELL_METHODS + (
        'calc_kt_kr', 'calc_kw_tsl', '_set_ranges'), asm)
    rs = [e for e in fl.events if e.kind == 'raise' and e.loops and e.cond() == ONE]
    ks = [e for e in fl.events if e.kind == 'call' and (PL.callee(e) or '').startswith('fkC') and
          e.cond() != ZERO]
    if rs and not ks:
        ck.ok(sample='unknown type: raises at %s' % PL.where(rs[0]))
    elif ks:
        ck.bad('unknown-type', PL.where(ks[0]), 'unknown type', 'an unknown connection type reaches %s' %
               PL.callee(ks[0]))
    else:
        ck.bad('unknown-type', PL.wf(f), 'unknown type', 'an unknown connection type does not raise')
    ck.need('dispatch runs', 18)
    ck.need('kernel arguments', 1)
    return ck


DERIVED = ('plyts', 'lam', 'ABD', 'laminaprops', 'rhos', 'model')


def up_to_date(ck, T, fl):
    """what _rebuild derives is read from a panel after the panel was brought up to date"""
    done, seen = set(), set()

    def end(v):
        a = norm_get(v).single_atom() if isinstance(v, Poly) else None
        if a is None or a[0] != 'idx' or len(a[2]) != 1:
            return None
        return {('str', 'p1'): 'first', ('str', 'p2'): 'second'}.get(a[2][0].single_atom())
    for e in fl.events:
        if e.cond() == ZERO:
            continue
        if e.kind == 'call':
            nm = PL.callee(e) or ''
            at = e.value.single_atom() if isinstance(e.value, Poly) else None
            vals = []
            if isinstance(e.extra, tuple):
                vals += list(e.extra[0]) + [v for v in (e.extra[1] or {}).values()] if isinstance(
                    e.extra[1], dict) else list(e.extra[0]) + [v for _, v in (e.extra[1] or ())]
            if at is not None and at[0] == 'call':
                vals += list(at[2]) + [v for _, v in at[3]]
                fa = at[1].single_atom()
                if fa is not None and fa[0] == 'attr':
                    vals.append(fa[1])
            if nm in ('_rebuild', 'calc_kt_kr') or not nm.startswith('fk') and nm not in (
                    'sum', 'calc_kw_tsl', 'get', 'len', 'print'):
                got = {end(v) for v in vals}
                # a receiver that is not recognised may be either panel
                done |= {'first', 'second'} if nm == '_rebuild' and not got - {None} else got
        if e.kind == 'getattr' and e.index and e.index[0] in DERIVED:
            b = end(e.base)
            if b and b not in done and (b, e.index[0]) not in seen:
                seen.add((b, e.index[0]))
                ck.bad('stale', PL.where(e), '%s:%s:%s' % (T, e.index[0], b), '%s: %s of the %s panel is read '
                       'before the panel is brought up to date with its options (_rebuild)' %
                       (T, e.index[0], b))
            elif b:
                ck.ok()


def doc_types(ck):
    """types named in the class documentation must be among the analysed ones"""
    import ast
    import re
    c = PL.cls(MD, 'MultiDomain')
    src = open(proj.path(MD)).read()
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.ClassDef) and n.name == 'MultiDomain':
            for t in re.findall(r"^\s*- '(\w+)'\s*:", ast.get_docstring(n) or '', re.M):
                ck.count('documented types')
                if t not in TYPES:
                    ck.und('documented connection type %s has no specification here' % t)


def fmt(d):
    return ', '.join('%s%s%s' % (b, w and '^T', '' if n == 1 else ' x%s' % n) for (b, w), n in sorted(d.items()))


def check_block(ck, inst, T, blk, fn, atom, names, axis, ptype, size, wh):
    b = PL.kbind(fn, names, atom[2], atom[3])
    if b is None:
        ck.bad('args', wh, '%s:%s:args' % (T, blk), '%s: the call of %s does not match its parameters' %
               (T, fn.name))
        return
    E = A(('belem', sym('conn'), 0))
    pA, pB = get(E, 'p1'), get(E, 'p2')
    own = {'1': pA, '2': pB}
    r, c = own[blk[0]], own[blk[1]]
    st = lambda p: [attr_of(p, 'row_start'), attr_of(p, 'col_start')]
    exp = {'p1': [pA], 'p2': [pB], 'size': [size], 'row0': st(r), 'col0': st(c)}
    if axis:
        for k in ('1', '2'):
            exp[axis + 'cte' + k] = [get(E, axis + 'cte' + k)]
    for k, v in sorted(b.items()):
        ck.count('kernel arguments')
        what = '%s: %s receives %s = ' % (T, fn.name, k)
        iid = '%s:%s:%s' % (T, blk, k)
        if k in exp:
            if v in exp[k]:
                ck.ok()
            elif v.single_atom() is not None and v.single_atom()[0] == 'undef':
                ck.bad('args', wh, iid, what + 'a variable that is not set for this connection')
            elif K.poly_mentions(v, lambda z: z[0] in ('loopout', 'brk', 'phi', 'opt')):
                ck.und(what + show(v))
            else:
                ck.bad('args', wh, iid, what + '%s, expected %s' % (show(v), show(exp[k][0])))
        elif k in ('kt', 'kr'):
            check_penalty(ck, what, iid, v, k, pA, pB, E, ptype, wh)
        elif k == 'dsb':
            if half_thickness(v, pA, pB):
                ck.ok()
            else:
                ck.bad('args', wh, iid, what + '%s, expected half the thickness of both panels' % show(v))
        else:
            ck.und(what + 'unexpected parameter')
    dflt = {p[0] for p in fn.params if p[2] is not None}
    for k in names:
        if k not in b and k not in dflt:
            ck.bad('args', wh, '%s:%s:%s' % (T, blk, k), '%s: %s does not receive %s' % (T, fn.name, k))


def check_penalty(ck, what, iid, v, k, pA, pB, E, ptype, wh):
    a = v.single_atom()
    i = None
    if a is not None and a[0] == 'undef':
        return ck.bad('penalty', wh, iid, what + 'a variable that is not set for this connection')
    if a is not None and a[0] == 'idx' and len(a[2]) == 1:
        i = a[2][0].as_int()
        a = a[1].single_atom()
    if a is None or a[0] != 'call':
        return ck.und(what + show(v)) if not v.cval() and v != ZERO else \
            ck.bad('penalty', wh, iid, what + show(v))
    n = PL.callee_name(a)
    if ptype is None:
        fn = proj.func(PEN, 'calc_kw_tsl')
        b = PL.kbind(fn, ['pA', 'pB', 'tsl_type'], a[2], a[3])
        exp = {'pA': pA, 'pB': pB, 'tsl_type': get(E, 'tsl_type')}
        sw = {'pA': pB, 'pB': pA, 'tsl_type': get(E, 'tsl_type')}
        if n == 'calc_kw_tsl' and i is None and b in (exp, sw):
            return ck.ok()
        return ck.bad('penalty', wh, iid, what + '%s, expected the cohesive stiffness of the connection' % show(v))
    fn = proj.func(PEN, 'calc_kt_kr')
    b = PL.kbind(fn, ['p1', 'p2', 'connection_type'], a[2], a[3])
    sym_ok = ptype in ('xcte', 'ycte', 'bot-top')
    if n == 'calc_kt_kr' and b is not None and i == {'kt': 0, 'kr': 1}[k]:
        t = b.get('connection_type')
        pair = (b.get('p1'), b.get('p2'))
        tv = t.single_atom()[1].lower() if t is not None and FL.const_kind(t) == 'str' else None
        if tv == ptype and (pair == (pA, pB) or (sym_ok and pair == (pB, pA))):
            return ck.ok()
        return ck.bad('penalty', wh, iid, what + 'the constant of %s, expected that of %r for the two '
                      'connected panels' % (show(t) if t is not None else '?', ptype))
    ck.bad('penalty', wh, iid, what + '%s, expected calc_kt_kr(p1, p2, %r)[%d]' %
           (show(v), ptype, {'kt': 0, 'kr': 1}[k]))


# ------------------------------------------------------------------ C24
def lam(p, m, i):
    return A(('idx', attr_of(attr_of(sym(p), 'lam'), m), (C(i), C(i))))


def items(v, st, fl):
    s = fl.iter_value(v, st)
    return list(s[1]) if s[0] == 'items' else None


def c24(tier):
    ck = Check('C24', 'Value numbering of the penalty formulas per connection type; rational identity '
               'with 4 K1 K2 / ((K1 + K2)(h1 + h2))')
    h1, h2 = attr_of(attr_of(sym('p1'), 'lam'), 'h'), attr_of(attr_of(sym('p2'), 'lam'), 'h')
    lamn = PL.none_assume({attr_of(sym('p1'), 'lam'): False, attr_of(sym('p2'), 'lam'): False})
    fn = proj.func(PEN, 'calc_kt_kr')
    P = fn.param_names()
    if set(P) != {'p1', 'p2', 'connection_type'}:
        args = {P[0]: sym('p1'), P[1]: sym('p2')}
        tp = P[2]
    else:
        args, tp = {}, 'connection_type'
    idx = {'x': 0, 'y': 1}
    for t, (d1, d2) in {'xcte': 'xx', 'ycte': 'yy', 'bot-top': 'xx', 'xcte-ycte': 'xy',
                        'ycte-xcte': 'yx'}.items():
        for spell in (t, t.upper()):
            f, fl, st, ret = PL.function(PEN, 'calc_kt_kr', lamn, dict(args, **{tp: S_(spell)}),
                                         inline=lambda g: g.name != '_rebuild')
            ck.count('formula evaluations')
            wh = PL.wf(f)
            if ret is None:
                ck.bad('formula', wh, '%s:raises' % spell, 'connection type %r is rejected' % spell)
                continue
            it = items(ret, st, fl)
            if it is None or len(it) != 2:
                ck.und('calc_kt_kr(%r) returns %s' % (spell, show(ret)))
                continue
            for k, name, mat in ((0, 'kt', 'A'), (1, 'kr', 'D')):
                k1, k2 = lam('p1', mat, idx[d1]), lam('p2', mat, idx[d2])
                e = C(4) * k1 * k2 / ((k1 + k2) * (h1 + h2))
                iid = '%s:%s' % (t, name)
                if t == 'bot-top' and name == 'kr':
                    ck.ok()
                    continue
                v = it[k]
                if t == 'bot-top':
                    okv = False
                    for q in ('p1', 'p2'):
                        for o in ((('a', 'b')), ('b', 'a')):
                            mn = A(('call', A(('fn', 'min')), tuple(attr_of(sym(q), x) for x in o), ()))
                            okv = okv or PL.same_ratio(v, e / mn)
                    if not okv and K.poly_mentions(v, lambda z: z[0] in ('call', 'ind') and not is_min(z)):
                        ck.und('%s of %r is %s' % (name, t, show(v)))
                        continue
                else:
                    okv = PL.same_ratio(v, e)
                if okv:
                    ck.ok(sample='%s %s' % (spell, name))
                elif K.poly_mentions(v, lambda z: z[0] in ('phi', 'loopout', 'brk', 'undef')):
                    ck.und('%s of %r is %s' % (name, t, show(v)))
                else:
                    ck.bad('formula', wh, iid, '%s of %r is %s, expected 4 K1 K2/((K1 + K2)(h1 + h2))%s with '
                           '%s%s of the first and %s%s of the second panel' %
                           (name, t, show(v), ' / min(a, b)' if t == 'bot-top' else '', mat,
                            '11' if d1 == 'x' else '22', mat, '11' if d2 == 'x' else '22'))
    # unknown type
    f, fl, st, ret = PL.function(PEN, 'calc_kt_kr', lamn, dict(args, **{tp: S_('no such type')}),
                                 inline=lambda g: g.name != '_rebuild')
    if ret is None:
        ck.ok(sample='unknown connection type raises')
    else:
        ck.bad('unknown-type', PL.wf(f), 'unknown type', 'an unknown connection type returns %s' % show(ret))
    # ... and follow what the panels hold now, also when they already carry a laminate
    f, fl, st, ret = PL.function(PEN, 'calc_kt_kr', lamn, dict(args, **{tp: S_('xcte')}),
                                 inline=lambda g: g.name != '_rebuild')
    for p in ('p1', 'p2'):
        es = [e for e in fl.events if e.kind == 'call' and PL.callee(e) == '_rebuild' and
              attr_of(sym(p), '_rebuild') == e.base]
        ls = [e for e in fl.events if e.kind == 'call' and PL.callee(e) == 'laminated_plate']
        if any(e.cond() == ONE for e in es) or len(ls) >= 2:
            ck.ok()
        elif any(K.poly_mentions(e.cond(), lambda z: z[0] in ('phi', 'loopout', 'brk')) for e in es):
            ck.und('condition of the rebuild of %s' % p)
        else:
            others = [e for e in fl.events if e.kind == 'call' and e.base is not None and
                      PL.callee(e) not in ('_rebuild', 'ValueError') and
                      (K.poly_mentions(e.base, lambda z: z == sym(p).single_atom()) or
                       any(K.poly_mentions(x, lambda z: z == sym(p).single_atom()) for x in e.extra[0]))]
            if others and not es:
                ck.und('whether %s is rebuilt by %s' % (p, PL.callee(others[0])))
            else:
                ck.bad('laminate', PL.wf(f), 'laminate:current:' + p, 'a panel that already carries a laminate is '
                       'not rebuilt: %s joins with the laminate of an earlier stacking sequence' % p)
    # laminates come from the panels themselves
    for p in ('p1', 'p2'):
        lamless = PL.none_assume({attr_of(sym(x), 'lam'): x == p for x in ('p1', 'p2')})
        f, fl, st, ret = PL.function(PEN, 'calc_kt_kr', lamless, dict(args, **{tp: S_('xcte')}),
                                     inline=lambda g: g.name != '_rebuild')
        es = [e for e in fl.events if e.kind == 'call' and PL.callee(e) == '_rebuild' and
              attr_of(sym(p), '_rebuild') == e.base]
        ls = [e for e in fl.events if e.kind == 'call' and PL.callee(e) == 'laminated_plate']
        if es and any(e.cond() == ONE for e in es):
            ck.ok()
        elif ls:
            ck.ok()
        else:
            ck.bad('laminate', PL.wf(f), 'laminate:' + p, 'the laminate of %s is not built before it is used' % p)
        for e in ls:
            b = PL.bind_args(['stack', 'plyt', 'laminaprop', 'rho', 'plyts', 'laminaprops', 'rhos', 'offset'],
                             e.extra[0], e.extra[1])
            for k in ('stack', 'plyts', 'laminaprops'):
                v = (b or {}).get(k)
                if v == attr_of(sym(p), k):
                    ck.ok()
                elif v is not None:
                    ck.bad('laminate', PL.where(e), 'laminate:%s:%s' % (p, k),
                           'the laminate of %s is built with %s = %s' % (p, k, show(v)))
    # prescribed displacements
    for fname, length in (('calc_ku_kv_kw_point_pd', None), ('calc_ku_kv_kw_line_pd_xcte', 'b'),
                          ('calc_ku_kv_kw_line_pd_ycte', 'a')):
        fn = proj.func(PEN, fname)
        f, fl, st, ret = PL.function(PEN, fname, None, {fn.param_names()[0]: sym('p')})
        ck.count('formula evaluations')
        it = items(ret, st, fl) if ret is not None else None
        if it is None or len(it) != 3:
            ck.und('%s returns %s' % (fname, show(ret) if ret is not None else None))
            continue
        L = attr_of(sym('p'), length) if length else ONE
        for v, nm, i in zip(it, ('ku', 'kv', 'kw'), (0, 1, 0)):
            e = lam('p', 'A', i) / L
            if PL.same_ratio(v, e):
                ck.ok()
            else:
                ck.bad('formula', PL.wf(f), '%s:%s' % (fname, nm), '%s: %s is %s, expected %s' %
                       (fname, nm, show(v), show(e)))
    # cohesive stiffness: constant per unit area of two panels of equal size
    fn = proj.func(PEN, 'calc_kw_tsl')
    pa, pb, tt = fn.param_names()[:3]
    f, fl, st, ret = PL.function(PEN, 'calc_kw_tsl', None, {tt: S_('linear')})
    ck.count('formula evaluations')
    if ret is None:
        ck.bad('formula', PL.wf(f), 'tsl:raises', 'the linear law is rejected')
    else:
        def same(i):
            a = atom_of(i)
            if a[0] == 'attr' and a[1] == sym(pb) and a[2] in ('a', 'b'):
                return attr_of(sym(pa), a[2])
            return None
        c = (ret.map_atoms(same) * attr(pa, 'a') * attr(pa, 'b')).cval()
        if c is not None and c > 0:
            ck.ok(sample='cohesive stiffness %s/(a b)' % c)
        elif not K.poly_mentions(ret, lambda z: z[0] in ('call', 'ind', 'phi')):
            ck.bad('formula', PL.wf(f), 'tsl', 'the cohesive stiffness is %s, expected a constant divided by the '
                   'common area' % show(ret))
        else:
            ck.und('cohesive stiffness %s' % show(ret))
        for d in ('a', 'b'):
            asm = {(lambda a, d=d: a[0] == 'ind' and a[1] == 'eq' and
                    {atom_of(i) for i in a[2].atoms()} == {('attr', sym(pa), d), ('attr', sym(pb), d)}):
                   (lambda a: False)}
            f, fl, st, r2 = PL.function(PEN, 'calc_kw_tsl', asm, {tt: S_('linear')})
            if r2 is None:
                ck.ok()
            else:
                ck.bad('guard', PL.wf(f), 'tsl:size:' + d, 'panels with different %s are accepted' % d)
        f, fl, st, r3 = PL.function(PEN, 'calc_kw_tsl', None, {tt: S_('no such law')})
        if r3 is None:
            ck.ok()
        else:
            ck.bad('unknown-type', PL.wf(f), 'tsl:unknown', 'an unknown traction separation law returns %s' % show(r3))
    ck.need('formula evaluations', 14)
    return ck


def is_min(z):
    return z[0] == 'call' and z[1] == A(('fn', 'min'))


REGISTRY = {'C23': c23, 'C24': c24}


def conn_completion(ck):
    """C21: every block of the connection matrix is completed"""
    from .options import completion
    for T in TYPES:
        asm = PL.merge(PL.none_assume({sym('conn'): False}), PL.truth_assume({sym('finalize'): True}),
                       type_assume(T), place_assume(0, 5))
        f, fl, st, ret = PL.typed(MD, 'MultiDomain', 'get_kC_conn', shell_typer(),
                                  SHELL_METHODS + ('calc_kt_kr', 'calc_kw_tsl', '_set_ranges'), asm)
        if ret is None:
            continue

        def kind(lf):
            if lf.atom is None or lf.atom[0] != 'call':
                return None
            fn, fa = kernel_of_leaf(lf.atom)
            return (fa[2], 'half') if fn is not None else None
        completion(ck, 'get_kC_conn %s' % T, PL.wf(f), leaves(ret), kind)
