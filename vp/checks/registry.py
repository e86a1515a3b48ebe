"""C31: the model registries."""
import ast
import os

from .. import flow as FL
from .. import frontend as FE
from .. import names as N
from .. import proj
from ..poly import atom_of
from ..report import Check
from . import calls

SHELL_DB = 'panels/modelDB.py'
STIFF_DB = 'panels/stiffener/modelDB.py'
# what analyses of the package rely on, confirmed by hand on the pinned commit
KERNELS = {
    SHELL_DB: {'field': ('fuvw', 'fstrain', 'fg'),
               'matrices': ('fk0', 'fkG0', 'fkM', 'fkAx', 'fkAy', 'fcA'),
               'matrices_num': ('fkC_num', 'fkG_num', 'fkM_num', 'fkAx_num', 'fkAy_num', 'calc_fint')},
}
SHELL_MODELS = ('cylshell_clpt_donnell_bardell', 'plate_clpt_donnell_bardell')
FILES = {SHELL_DB: {'field': lambda k: 'panels/models/clpt_bardell_field.pyx',
                    'matrices': lambda k: 'panels/models/%s.pyx' % k,
                    'matrices_num': lambda k: 'panels/models/%s_num.pyx' % k},
         STIFF_DB: {'matrices': lambda k: 'panels/stiffener/models/%s.pyx' % k,
                    'connections': lambda k: 'panels/stiffener/models/%s.pyx' % k}}
DOFS = 3            # u, v, w amplitudes per term of the classical plate theory
STRAINS = 6


def fold(rel):
    """content of the registry after the module has run: {model: {key: value}}, lines by key"""
    m = proj.mod(rel)
    if 'db' not in m.consts:
        raise FE.AnalysisBroken('anchor missing: db in %s' % rel)
    body = [s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))]
    f = FE.Func('<module>', [], body + [FE.L(ast.Return(value=FE._name('db', 1)), 1)], 1, m)
    fl = FL.Flow(proj.RESOLVE)
    st, r = fl.run(f)
    out = {}
    o = fl.getobj(r, st)
    if o is None or o[0] != 'dict' or o[2]:
        return None
    for k, v in o[1]:
        e = fl.getobj(v, st)
        if text(k) is None or e is None or e[0] != 'dict':
            return None
        out[text(k)] = None if e[2] else {text(x): y for x, y in e[1]}
    return out


def text(k):
    if isinstance(k, str):
        return k
    if isinstance(k, tuple):
        return k[1] if len(k) == 2 and k[0] == 'str' else None
    a = k.single_atom() if hasattr(k, 'single_atom') else None
    return a[1] if a is not None and a[0] == 'str' else None


def line_of(rel, key):
    m = proj.mod(rel)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Constant) and n.value == key:
            return n.lineno
    return 1


def module_rel(v):
    a = v.single_atom() if v is not None else None
    if a is None or a[0] not in ('module', 'ext'):
        return None
    p = proj.find(a[1])
    return proj.relpath(p) if p else None


class Lookup:
    """which functions analyses fetch through the registries"""

    def __init__(self, pkg):
        self.pkg = pkg
        self.dbs = {}
        for rel in (SHELL_DB, STIFF_DB):
            m = proj.mod(rel)
            self.dbs[id(m.consts.get('db'))] = rel

    def dict_of(self, e, sc, depth=0):
        """(registry file, entry key or None) of an expression that is a registry or one of its entries"""
        if depth > 6:
            return None
        if isinstance(e, ast.Name):
            ds = getattr(sc, 'defs', {}).get(e.id)
            if ds:
                rs = [self.dict_of(d, sc, depth + 1) if isinstance(d, ast.AST) else None for d in ds]
                return rs[0] if all(r == rs[0] for r in rs) else None
        if isinstance(e, (ast.Name, ast.Attribute)):
            t = sc.type(e)
            if t is not None and not isinstance(t, N.One) and t[0] == 'dictlit' and id(t[1]) in self.dbs:
                return ('db', self.dbs[id(t[1])], None)
            return None
        k = self.key(e)
        if k is not None:
            base = self.dict_of(k[0], sc, depth + 1)
            if base is not None and base[0] == 'db':
                return ('entry', base[1], k[1].value if isinstance(k[1], ast.Constant) else None)
        return None

    def key(self, e):
        if isinstance(e, ast.Subscript):
            return e.value, e.slice
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get' and e.args:
            return e.func.value, e.args[0]
        return None

    def item(self, e, sc, depth=0):
        """(registry, entry, key) of an expression that is an entry's value"""
        if depth > 6:
            return None
        if isinstance(e, ast.Name):
            ds = getattr(sc, 'defs', {}).get(e.id)
            if not ds:
                return None
            rs = [self.item(d, sc, depth + 1) if isinstance(d, ast.AST) else None for d in ds]
            return rs[0] if all(r == rs[0] for r in rs) else None
        k = self.key(e)
        if k is not None and isinstance(k[1], ast.Constant):
            d = self.dict_of(k[0], sc)
            if d is not None and d[0] == 'entry':
                return d[1], d[2], k[1].value
        return None

    def uses(self):
        """[(registry, entry or None, key, function or None, where, class)]"""
        out = []
        for f in self.pkg.funcs():
            if proj.relpath(f.module.path).startswith(calls.SKIP):
                continue
            sc = N.Scope(self.pkg, f, f.module, f.cls)
            for st in f.body:
                for n in ast.walk(st):
                    wh = '%s:%d' % (proj.relpath(f.module.path), getattr(n, 'lineno', 0))
                    if isinstance(n, ast.Attribute):
                        i = self.item(n.value, sc)
                        if i is not None and n.attr not in ('get', 'keys'):
                            out.append(i + (n.attr, wh, f.cls))
                    elif isinstance(n, (ast.Subscript, ast.Call)):
                        i = self.item(n, sc)
                        if i is not None:
                            out.append(i + (None, wh, f.cls))
        return out


def model_of(c):
    """the model name a class fixes in its constructor"""
    init = c.methods.get('__init__') if c is not None else None
    for n in ast.walk(init.node) if init else ():
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str) \
                and any(isinstance(t, ast.Attribute) and t.attr == 'model' for t in n.targets):
            return n.value.value
    return None


def visible(m, fn):
    f = m.funcs.get(fn)
    return f is not None and (f.kind != 'cdef' or f.cpdef)


def dof_const(m):
    v = m.consts.get('DOF')
    return v.value if isinstance(v, ast.Constant) else None


def c31(tier):
    ck = Check('C31', 'The registries are folded to their final content; every lookup in the package (registry, '
               'entry, key, function) must exist in every entry it can meet, in a module the package imports; '
               'each model must refer to its own kernel files, whose degrees of freedom per term and parameter '
               'lists must agree.')
    pkg = N.Package()
    dbs = {}
    for rel in (SHELL_DB, STIFF_DB):
        dbs[rel] = fold(rel)
        if dbs[rel] is None:
            ck.und('content of the registry of %s' % rel)
    lk = Lookup(pkg)
    uses = lk.uses()
    required = {}
    for rel, entry, key, fn, wh, c in uses:
        ck.count('lookups')
        db = dbs.get(rel)
        if db is None:
            continue
        entries = [entry] if entry is not None else list(db)
        if entry is None and rel == STIFF_DB:
            m = model_of(c)
            if m is None:
                ck.und('%s: which stiffener model is looked up' % wh)
                continue
            entries = [m]
        for e in entries:
            ent = db.get(e, False)
            if ent is False:
                ck.bad('entry', wh, '%s:%s' % (rel, e), 'the model %r looked up here is not registered in %s' % (e, rel))
                continue
            if ent is None:
                ck.und('%s: entry %s' % (rel, e))
                continue
            if key not in ent:
                ck.bad('key', wh, '%s:%s:%s' % (rel, e, key), 'the registry entry %r of %s has no %r, which is looked up here' % (e, rel, key))
                continue
            ck.ok()
            if fn is not None:
                required.setdefault((rel, e, key), {}).setdefault(fn, wh)
    for rel, ks in KERNELS.items():
        for e in SHELL_MODELS:
            for key, fns in ks.items():
                for fn in fns:
                    required.setdefault((rel, e, key), {}).setdefault(fn, '%s:%d' % (rel, line_of(rel, e)))
    for e in SHELL_MODELS:
        if dbs[SHELL_DB] is not None and e not in dbs[SHELL_DB]:
            ck.bad('entry', '%s:1' % SHELL_DB, '%s:%s' % (SHELL_DB, e), 'the model %r is not registered' % e)
        else:
            ck.ok()
    sigs = {}
    for (rel, e, key), fns in sorted(required.items()):
        db = dbs[rel]
        if db is None or not db.get(e):
            continue
        v = db[e].get(key)
        if v is None:
            wh = sorted(fns.values())[0]
            ck.bad('key', wh, '%s:%s:%s' % (rel, e, key), 'the registry entry %r of %s has no %r' % (e, rel, key))
            continue
        mr = module_rel(v)
        if mr is None:
            ck.und('%s: the %r of model %s' % (rel, key, e))
            continue
        m = proj.mod(mr)
        own = FILES.get(rel, {}).get(key)
        if own is not None:
            ck.count('kernel modules')
            if mr != own(e):
                ck.bad('module', '%s:%d' % (rel, line_of(rel, e)), '%s:%s:%s' % (rel, e, key),
                       'model %r has %s as its %r instead of its own kernels %s' % (e, mr, key, own(e)))
            else:
                ck.ok()
        for fn, wh in sorted(fns.items()):
            ck.count('kernels')
            if not visible(m, fn):
                ck.bad('kernel', wh, '%s:%s:%s:%s' % (rel, e, key, fn),
                       '%s, looked up as %r of model %r, does not define %s' % (mr, key, e, fn))
                continue
            ck.ok(sample='%s[%s][%s].%s in %s' % (rel, e, key, fn, mr))
            sigs.setdefault((rel, key, fn), {})[e] = (m.funcs[fn], mr)
    for (rel, key, fn), d in sorted(sigs.items()):
        if len(d) < 2:
            continue
        ref = None
        for e, (f, mr) in sorted(d.items()):
            sg = tuple(f.param_names())
            df = {p[0]: ast.dump(p[2]) for p in f.params if p[2] is not None}
            if ref is None:
                ref = (sg, df, mr)
            elif sg != ref[0] or df != ref[1]:
                ck.bad('interface', '%s:%d' % (mr, f.lineno), '%s:%s:%s' % (rel, key, fn),
                       '%s has other parameters or defaults in %s (%s) than in %s (%s)' % (
                           fn, mr, diff(sg, df), ref[2], diff(ref[0], ref[1])))
            else:
                ck.ok()
    # degrees of freedom
    for rel, db in sorted(dbs.items()):
        for e, ent in sorted((db or {}).items()):
            if not ent:
                continue
            for nm, want in (('dofs', DOFS), ('num1', DOFS), ('e_num', STRAINS)):
                if nm not in ent:
                    continue
                v = ent[nm].as_int()
                if v != want:
                    ck.bad('dofs', '%s:%d' % (rel, line_of(rel, e)), '%s:%s:%s' % (rel, e, nm),
                           'model %r declares %s = %s, the kernels have %d' % (e, nm, v, want))
                else:
                    ck.ok()
            for key, own in FILES[rel].items():
                mr = module_rel(ent.get(key))
                if mr is None:
                    continue
                d = dof_const(proj.mod(mr))
                if d is None:
                    ck.und('%s: degrees of freedom per term' % mr)
                elif d != DOFS:
                    ck.bad('dofs', '%s:1' % mr, '%s:%s:%s:DOF' % (rel, e, key), '%s uses %s degrees of freedom per term' % (mr, d))
                else:
                    ck.ok()
    # validation and defaults use registered names
    m = proj.mod('panels/shell.py')
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str) and any(
                isinstance(t, ast.Attribute) and t.attr == 'model' for t in n.targets):
            ck.count('default models')
            if dbs[SHELL_DB] is not None and n.value.value not in dbs[SHELL_DB]:
                ck.bad('entry', 'panels/shell.py:%d' % n.lineno, 'default:%s' % n.value.value,
                       'the default model %r is not registered' % n.value.value)
            else:
                ck.ok()
    ck.need('lookups', 15)
    ck.need('kernels', 20)
    return ck


def diff(sg, df):
    return ', '.join(s + ('=...' if s in df else '') for s in sg)


REGISTRY = {'C31': c31}
