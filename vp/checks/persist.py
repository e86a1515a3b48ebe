"""C30: saving and loading."""
import ast

from .. import flow as FL
from .. import names as N
from .. import proj
from .. import pylayer as PL
from ..frontend import AnalysisBroken
from ..kernels import sym, attr, A
from ..poly import show, atom_of
from ..report import Check
from ..pylayer import S_

FLAGS = {a + b + c for a in ('x1', 'x2', 'y1', 'y2') for b in 'uvw' for c in ('', 'r')}
USER = {
    'Shell': FLAGS | set(
        'a x1 x2 b y1 y2 r stack plyt laminaprop rho offset group x0 y0 row_start col_start row_end col_end name bay '
        'model fsdt_shear_correction m n nx ny point_loads point_loads_inc distr_loads distr_loads_inc point_pds '
        'point_pds_inc distr_pds distr_pds_inc Nxx Nyy Nxy Nxx_cte Nyy_cte Nxy_cte plyts laminaprops rhos flow beta '
        'gamma aeromu rho_air speed_sound Mach V force_orthotropic_laminate num_eigvalues num_eigvalues_print '
        'out_num_cores'.split()),
    'StiffPanelBay': FLAGS | set(
        'Mach V a aeromu b bc beta bladestiff1ds bladestiff2ds flow forces_skin gamma laminaprop laminaprops m model n '
        'name out_num_cores panels plyt plyts r rho rho_air speed_sound stack stiffeners tstiff2ds'.split()),
    'BladeStiff1D': set('Fx base bay bb bf blaminaprops bplyts bstack flaminaprops fplyts fstack hb hf model panel1 '
                        'panel2 rho ys'.split()),
    'BladeStiff2D': set('base bay bb blaminaprops bplyts bstack flange forces_flange panel1 panel2 rho ys'.split()),
}
SITES = (('panels/shell.py', 'Shell', '.Shell'),
         ('panels/stiffpanelbay/stiffpanelbay.py', 'StiffPanelBay', '.StiffPanelBay'))
ELEMS = {'panels': 'Shell', 'bladestiff1ds': 'BladeStiff1D', 'bladestiff2ds': 'BladeStiff2D',
         'base': 'Shell', 'flange': 'Shell', 'stiffeners': None, 'tstiff2ds': 'BladeStiff2D'}


def callee(e):
    a = e.base.single_atom() if hasattr(e.base, 'single_atom') else None
    if a is not None and a[0] in ('ext', 'fn') and 'pickle' in a[1]:
        return a[1].split('.')[-1]
    return None


def is_open(v):
    a = v.single_atom()
    if a is None or a[0] != 'call':
        return None
    f = a[1].single_atom()
    if f is not None and f[0] in ('fn', 'ext') and f[1].split('.')[-1] == 'open':
        d = PL.bind_args(['file', 'mode'], a[2], a[3])
        return d
    if f is not None and f[0] == 'attr' and f[2] == 'open':        # pathlib
        return None
    return None


def cat_of(v):
    """(stem, suffix) when v is a string built as stem + suffix"""
    a = v.single_atom()
    if a is None:
        return None
    if a[0] == 'cat':
        parts = a[1] if len(a) == 2 and isinstance(a[1], tuple) else a[1:]
        if len(parts) == 2:
            s = parts[1].single_atom()
            if s is not None and s[0] == 'str':
                return parts[0], s[1]
    if a[0] == 'call':
        f = a[1].single_atom()
        if f is not None and f[0] == 'attr' and f[2] == 'format' and len(a[2]) == 1 and not a[3]:
            t = f[1].single_atom()
            if t is not None and t[0] == 'str' and t[1].replace('{0}', '{}').startswith('{}') and t[1].count('{') == 1:
                return a[2][0], t[1].replace('{0}', '{}')[2:]
    return None


def owner(base):
    """class of the object whose attribute is written"""
    if base == sym('self'):
        return 'self'
    a = base.single_atom()
    while a is not None:
        if a[0] == 'elem':
            b = a[1].single_atom()
            if b is not None and b[0] == 'attr':
                return ELEMS.get(b[2])
            return None
        if a[0] == 'attr':
            return ELEMS.get(a[2])
        return None
    return None


def save(ck, rel, cname, suffix):
    f, fl, st, ret = PL.method(rel, cname, 'save')
    wh = '%s:%d' % (rel, f.lineno)
    inst = '%s.save' % cname
    dumps = []
    for e in fl.events:
        if e.kind == 'call':
            nm = callee(e)
            if nm in ('dump', 'dumps'):
                dumps.append(e)
        effects(ck, cname, inst, e)
    ck.count('save methods')
    if not dumps:
        # a helper the analysis does not follow
        ck.und('%s: no pickle.dump call found' % inst)
        return None
    name = None
    for e in dumps:
        args = PL.bind_args(['obj', 'file', 'protocol'], e.extra[0], e.extra[1])
        w = PL.where(e)
        if any(g[1] in ('branch',) and not trivially(g) for g in e.guard):
            ck.bad('save', w, inst + ':guard', '%s writes the object on some paths only' % inst)
        else:
            ck.ok()
        if e.loops:
            ck.und('%s: dump inside a loop' % inst)
        if args.get('obj') != sym('self'):
            ck.bad('save', w, inst + ':object', '%s writes %s instead of the object itself' % (inst, show(args.get('obj'))[:60]))
        else:
            ck.ok()
        pr = args.get('protocol')
        k = pr.as_int() if pr is not None else None
        if k is not None and 0 <= k < 2:
            c = PL.cls(rel, cname)
            if '__slots__' in c.consts and '__getstate__' not in c.methods and '__reduce__' not in c.methods:
                ck.bad('save', w, inst + ':protocol', '%s uses pickle protocol %d, which cannot store objects with __slots__' % (inst, k))
        else:
            ck.ok()
        if callee(e) == 'dumps':
            ck.und('%s: pickles to a string' % inst)
            continue
        op = is_open(args.get('file', FL.NONE))
        if op is None:
            ck.und('%s: which file is written' % inst)
            continue
        md = op.get('mode')
        m = md.single_atom() if md is not None else None
        if m is None or m[0] != 'str' or 'w' not in m[1] or 'b' not in m[1]:
            ck.bad('save', w, inst + ':mode', '%s opens the file with mode %s, not for writing bytes' % (inst, m[1] if m else 'default'))
        else:
            ck.ok()
        c2 = cat_of(op['file'])
        if c2 is None:
            ck.und('%s: name of the file: %s' % (inst, show(op['file'])[:60]))
            continue
        if c2[0] != attr('self', 'name'):
            ck.bad('save', w, inst + ':name', '%s writes to %s instead of the name of the object plus the extension' % (inst, show(op['file'])[:80]))
        else:
            ck.ok()
        name = c2[1]
        if name != suffix:
            ck.bad('save', w, inst + ':suffix', '%s uses the extension %r, documented is %r' % (inst, name, suffix))
        else:
            ck.ok()
    return name


def trivially(g):
    return g[0].cval() is not None


def effects(ck, cname, inst, e):
    """saving may drop computed quantities only"""
    if e.kind not in ('setattr', 'mutate', 'setitem', 'store', 'append', 'delattr'):
        return
    if e.kind == 'setattr':
        o = owner(e.base)
        c = cname if o == 'self' else o
        n = e.index[0] if e.index else None
        if c is None or n not in USER.get(c, ()):
            ck.ok()
            return
        if e.value == PL.attr_of(e.base, n):
            ck.ok()
            return
        ck.bad('save', PL.where(e), '%s:%s' % (inst, n), '%s changes %r, which the user defines' % (inst, n))
        return
    b = e.base
    while b is not None:
        a = b.single_atom() if hasattr(b, 'single_atom') else None
        if a is None:
            return
        if a[0] == 'attr':
            o = owner(a[1])
            c = cname if o == 'self' else o
            if c is not None and a[2] in USER.get(c, ()):
                if e.kind == 'mutate' and e.op in ('copy', 'index', 'count'):
                    return
                ck.bad('save', PL.where(e), '%s:%s' % (inst, a[2]), '%s changes the contents of %r, which the user defines' % (inst, a[2]))
                return
            b = a[1]
            continue
        if a[0] in ('idx', 'elem', 'item'):
            b = a[1]
            continue
        return


def deletes(ck, rel, cname):
    """del self.x, reached from save"""
    c = PL.cls(rel, cname)
    seen, todo = set(), ['save', '_clear_matrices']
    while todo:
        n = todo.pop()
        if n in seen or n not in c.methods:
            continue
        seen.add(n)
        f = c.methods[n]
        for x in ast.walk(f.node):
            if isinstance(x, ast.Delete):
                for t in x.targets:
                    at = t.attr if isinstance(t, ast.Attribute) else None
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute):
                        at = t.value.attr
                    if at in USER[cname]:
                        ck.bad('save', '%s:%d' % (rel, x.lineno), '%s.%s:del:%s' % (cname, n, at),
                               '%s.%s deletes %r, which the user defines' % (cname, n, at))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) \
                    and x.func.value.id == f.param_names()[0]:
                todo.append(x.func.attr)
        ck.count('methods reached from save')


def hooks(ck, rel, cname):
    """user-written pickling hooks must keep what the user defined"""
    c = PL.cls(rel, cname)
    for n in ('__getstate__', '__reduce__', '__reduce_ex__', '__getnewargs__', '__setstate__', '__copy__'):
        if n not in c.methods:
            continue
        if n == '__copy__':
            continue
        f = c.methods[n]
        drop = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'pop' and x.args \
                    and isinstance(x.args[0], ast.Constant):
                drop.add(x.args[0].value)
            elif isinstance(x, ast.Delete):
                for t in x.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant):
                        drop.add(t.slice.value)
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) \
                            and isinstance(x.value, ast.Constant) and x.value.value is None:
                        drop.add(t.slice.value)
            elif isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.NotIn, ast.NotEq)):
                for y in ast.walk(x):
                    if isinstance(y, ast.Constant) and isinstance(y.value, str):
                        drop.add(y.value)
        lost = {d for d in drop if d in USER[cname]}
        for d in sorted(lost):
            ck.bad('hook', '%s:%d' % (rel, f.lineno), '%s.%s:%s' % (cname, n, d), '%s.%s drops %r, which the user defines' % (cname, n, d))
        if not lost:
            ck.und('%s.%s: whether the hook keeps every attribute' % (cname, n))


def ends_assume(val):
    def pred(a):
        if a[0] != 'ind' or a[1] != 'truth':
            return False
        c = a[2].single_atom()
        if c is None or c[0] != 'call':
            return False
        f = c[1].single_atom()
        return f is not None and f[0] == 'attr' and f[2] == 'endswith'
    return {pred: lambda a: val}


def load(ck, rel, cname, suffix):
    inst = 'load:%s' % cname
    for ends in (True, False):
        f, fl, st, ret = PL.function(rel, 'load', assume=ends_assume(ends))
        wh = '%s:%d' % (rel, f.lineno)
        par = sym(f.param_names()[0])
        ck.count('load cases')
        # the test itself
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'endswith' and n.args:
                if isinstance(n.args[0], ast.Constant) and n.args[0].value != suffix:
                    ck.bad('load', '%s:%d' % (rel, n.lineno), inst + ':test', '%s tests for the extension %r, files are saved with %r' % (
                        inst, n.args[0].value, suffix))
                else:
                    ck.ok()
        a = ret.single_atom() if ret is not None else None
        c = a[1].single_atom() if a is not None and a[0] == 'call' else None
        if c is None or not (c[0] in ('ext', 'fn') and c[1].split('.')[-1] == 'load'):
            if ret is None or ret == FL.NONE:
                ck.bad('load', wh, inst + ':return', '%s does not return the object it reads' % inst)
            else:
                ck.und('%s: what it returns: %s' % (inst, show(ret)[:60]))
            continue
        args = PL.bind_args(['file'], a[2], a[3])
        op = is_open(args.get('file', FL.NONE))
        if op is None:
            ck.und('%s: which file is read' % inst)
            continue
        m = op['mode'].single_atom() if 'mode' in op else None
        if m is None or m[0] != 'str' or 'b' not in m[1] or 'r' not in m[1] and '+' not in m[1]:
            ck.bad('load', wh, inst + ':mode', '%s opens the file with mode %s, not for reading bytes' % (inst, m[1] if m else 'default'))
        else:
            ck.ok()
        if ends:
            good = op['file'] == par
        else:
            c2 = cat_of(op['file'])
            good = None if c2 is None and op['file'] != par else c2 == (par, suffix)
        if good is None:
            ck.und('%s: name of the file read: %s' % (inst, show(op['file'])[:60]))
        elif not good:
            ck.bad('load', wh, '%s:name:%s' % (inst, 'full' if ends else 'stem'),
                   '%s reads %s for a name %s the extension %r' % (inst, show(op['file'])[:60], 'with' if ends else 'without', suffix))
        else:
            ck.ok(sample='%s reads what save wrote (name %s extension)' % (inst, 'with' if ends else 'without'))


# --------------------------------------------------------------------------------- what gets stored
class Stored:
    """values the package stores on saved objects must be picklable"""

    def __init__(self, ck, pkg):
        self.ck, self.pkg = ck, pkg
        self.busy = set()

    def unpick(self, e, f, local, depth=0):
        """reason why the value of e cannot be pickled, or None"""
        if depth > 8:
            return None
        if isinstance(e, ast.Lambda):
            return 'a lambda'
        if isinstance(e, ast.GeneratorExp):
            return 'a generator'
        if isinstance(e, ast.Name):
            k = (id(f), e.id)
            if k in self.busy:
                return None
            self.busy.add(k)
            try:
                for v in local.get(e.id, ()):
                    if v == 'def':
                        return 'the local function %s' % e.id
                    r = self.unpick(v, f, local, depth + 1)
                    if r:
                        return r
            finally:
                self.busy.discard(k)
            return None
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return self.first(e.elts, f, local, depth)
        if isinstance(e, ast.Dict):
            return self.first(e.values, f, local, depth)
        if isinstance(e, ast.IfExp):
            return self.first([e.body, e.orelse], f, local, depth)
        if isinstance(e, ast.BoolOp):
            return self.first(e.values, f, local, depth)
        if isinstance(e, (ast.ListComp, ast.SetComp)):
            return self.unpick(e.elt, f, local, depth + 1)
        if isinstance(e, ast.DictComp):
            return self.unpick(e.value, f, local, depth + 1)
        if isinstance(e, ast.Starred):
            return self.unpick(e.value, f, local, depth + 1)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult)):
            return self.first([x for x in (e.left, e.right) if isinstance(x, (ast.List, ast.Tuple))], f, local, depth)
        if isinstance(e, ast.Call):
            nm = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ''
            if nm == 'open':
                return 'an open file'
            if nm in ('partial', 'dict', 'list', 'tuple', 'copy', 'deepcopy'):
                return self.first(list(e.args) + [k.value for k in e.keywords], f, local, depth)
            if isinstance(e.func, ast.Name) and e.func.id in local:
                return None
            g = None
            if isinstance(e.func, ast.Name):
                t = self.pkg.member(f.module, e.func.id)
                g = t[1] if t is not None and not isinstance(t, N.One) and t[0] == 'fn' else None
            elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and f.cls is not None \
                    and f.params and e.func.value.id == f.param_names()[0]:
                g = f.cls.methods.get(e.func.attr)
            if g is not None and g.module.lang == 'py' and id(g) not in self.busy:
                self.busy.add(id(g))
                try:
                    lg = locals_of(g)
                    for st in g.body:
                        for n in N.own_nodes(st):
                            if isinstance(n, ast.Return) and n.value is not None:
                                r = self.unpick(n.value, g, lg, depth + 1)
                                if r:
                                    return r
                finally:
                    self.busy.discard(id(g))
        return None

    def first(self, es, f, local, depth):
        for x in es:
            r = self.unpick(x, f, local, depth + 1)
            if r:
                return r
        return None

    def scan(self, f):
        if not f.params:
            return
        local = locals_of(f)
        rel = proj.relpath(f.module.path)
        s = f.param_names()[0]
        for st in f.body:
            for n in N.own_nodes(st):
                vals, at = [], None
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and n.value is not None:
                    for t in N.targets(n):
                        at = at or self.chain(t, s, local)
                    if at:
                        vals = [n.value]
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                        and n.func.attr in ('append', 'extend', 'insert', 'update', 'setdefault', 'add'):
                    at = self.chain(n.func.value, s, local)
                    if at:
                        vals = list(n.args) + [k.value for k in n.keywords]
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3:
                    at = self.chain(n.args[0], s, local) or (isinstance(n.args[0], ast.Name) and n.args[0].id == s and 'attribute')
                    vals = [n.args[2]] if at else []
                for v in vals:
                    self.ck.count('stores examined')
                    r = self.unpick(v, f, local)
                    lab = '%s.%s' % (f.cls.name, f.name)
                    if r:
                        self.ck.bad('picklable', '%s:%d' % (rel, n.lineno), '%s:%s' % (lab, at),
                                    '%s stores %s in %r: the object cannot be saved afterwards' % (lab, r, at))
                    else:
                        self.ck.ok()

    def chain(self, t, s, local, depth=0):
        """name of the attribute of self that t lies in"""
        at = None
        while isinstance(t, (ast.Attribute, ast.Subscript, ast.Call)):
            if isinstance(t, ast.Call):
                t = t.func
                continue
            if isinstance(t, ast.Attribute):
                at = t.attr
            t = t.value
        if isinstance(t, ast.Name):
            if t.id == s:
                return at
            if depth < 3:
                for v in local.get(t.id, ()):
                    if isinstance(v, (ast.Attribute, ast.IfExp)):
                        vs = [v.body, v.orelse] if isinstance(v, ast.IfExp) else [v]
                        for x in vs:
                            r = self.chain(x, s, local, depth + 1)
                            if r:
                                return r
        return None


def locals_of(f):
    out = {}
    for st in f.body:
        for n in N.own_nodes(st):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        out.setdefault(t.id, []).append(n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) \
                            and len(t.elts) == len(n.value.elts):
                        for a, b in zip(t.elts, n.value.elts):
                            if isinstance(a, ast.Name):
                                out.setdefault(a.id, []).append(b)
            elif isinstance(n, ast.FunctionDef):
                out.setdefault(n.name, []).append('def')
            elif isinstance(n, ast.ClassDef):
                out.setdefault(n.name, []).append('def')
    return out


def c30(tier):
    ck = Check('C30', 'save must write the object itself, as bytes, on every path, to its name plus the extension that '
               'load tests and appends; nothing save does before may change what the user defines; no value the '
               'package stores on such an object may be one pickle rejects (lambda, local function, file, '
               'generator); pickling hooks must keep user data.')
    pkg = N.Package()
    for rel, cname, suffix in SITES:
        s = save(ck, rel, cname, suffix)
        load(ck, rel, cname, s or suffix)
        deletes(ck, rel, cname)
        hooks(ck, rel, cname)
    # what bays drop of their panels
    f, fl, st, ret = PL.method('panels/shell.py', 'Shell', '_clear_matrices')
    for e in fl.events:
        effects(ck, 'Shell', 'Shell._clear_matrices', e)
    sc = Stored(ck, pkg)
    for cn in USER:
        c = pkg.classes.get(cn)
        if c is None:
            continue
        if cn not in ('Shell', 'StiffPanelBay'):
            hooks(ck, proj.relpath(c.module.path), cn)
        for g in c.methods.values():
            sc.scan(g)
    ck.need('save methods', 2)
    ck.need('stores examined', 100)
    return ck


REGISTRY = {'C30': c30}
