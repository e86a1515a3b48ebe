"""results of the calc_* methods are kept on the object under their own name"""
from .. import pylayer as PL, kernels as K
from ..pylayer import attr, S_, sym, strip, show, NONE
from ..poly import Poly, ONE, ZERO

NAMES = ('kC', 'kG', 'kM', 'kA', 'kT', 'cA')


def slot(e):
    """name of the result that an event writes ('?' when not known)"""
    if e.kind == 'setattr' and e.base == sym('self') and e.index:
        return e.index[0] if e.index[0] in NAMES else None
    if e.kind in ('setitem', 'store') and isinstance(e.base, Poly) and e.base == attr('self', 'matrices') and e.index:
        for n in NAMES:
            if e.index[0] == S_(n):
                return n
        return '?'
    return None


def pieces(v):
    """names of the functions whose results v is made of"""
    out = set()

    def see(z):
        if isinstance(z, tuple) and z[:1] == ('call',) and len(z) > 3:
            out.add(PL.callee_name(z))
        if isinstance(z, tuple) and z[:1] in (('unk',), ('undef',)):
            out.add('?')
        return False
    K.poly_mentions(v, see)
    return out


def always(fl):
    """the condition under which the method does not raise"""
    c = ONE
    for e in fl.events:
        if e.kind == 'raise':
            c = c - e.cond()
    return c


def kept(ck, cname, name, fl, f, ret, own):
    """own: the name the result of this method goes under"""
    ck.count('kept results')
    inst = '%s.%s:kept' % (cname, name)
    ws = [(slot(e), e) for e in fl.events]
    ws = [(n, e) for n, e in ws if n is not None and e.cond() != ZERO and e.value != NONE]
    mine = [e for n, e in ws if n == own]
    for n, e in ws:
        if n not in (own, '?') and isinstance(e.value, Poly) and strip(e.value) == strip(ret):
            ck.bad('kept', PL.where(e), '%s:%s' % (inst, n), '%s.%s leaves its result in place of the %s of the '
                   'object' % (cname, name, n))
    if not mine:
        if any(n == '?' for n, e in ws) or any(
                e.kind == 'call' and PL.callee(e) in ('setattr', 'update', '__setattr__', 'setdefault', 'vars')
                for e in fl.events):
            ck.und('%s.%s may keep its result elsewhere' % (cname, name))
        else:
            ck.bad('kept', PL.wf(f), inst, '%s.%s does not keep its result as %s' % (cname, name, own))
        return
    last = mine[-1]
    got = strip(last.value) if isinstance(last.value, Poly) else None
    if got == strip(ret):
        if last.cond() == ONE or last.cond() == always(fl):
            ck.ok(sample='%s.%s keeps its result as %s' % (cname, name, own))
        else:
            ck.und('%s.%s keeps its result only when %s' % (cname, name, show(last.cond())[:80]))
    elif got is not None and last.cond() in (ONE, always(fl)) and len(mine) == 1 and \
            not ({'?'} & (pieces(got) | pieces(ret))) and pieces(got) != pieces(ret):
        ck.bad('kept', PL.where(last), inst + ':value', '%s.%s keeps %s as %s but returns %s' %
               (cname, name, show(got)[:80], own, show(ret)[:80]))
    else:
        ck.und('%s.%s keeps %s as %s' % (cname, name, show(last.value)[:60], own))
