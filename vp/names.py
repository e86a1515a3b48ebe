"""Static name, attribute and call resolution over the package: which object every name, attribute
and call of a Python module refers to, and the attributes kernels read from the objects they get."""
import ast
import builtins
import glob
import os

from . import frontend as FE
from . import proj

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__path__', '__spec__'}

# what the parameters of this package's functions hold when no call in the package tells
PARAMS = {'panel': 'Shell', 'p': 'Shell', 'p1': 'Shell', 'p2': 'Shell', 'shell': 'Shell', 'panel1': 'Shell',
          'panel2': 'Shell', 'p01': 'Shell', 'p02': 'Shell', 'panels': 'list:Shell', 'bay': 'StiffPanelBay',
          'base': 'Shell', 'flange': 'Shell'}
SITE = None


def site():
    global SITE
    if SITE is None:
        c = sorted(glob.glob('/opt/venv/lib/python3*/site-packages'))
        SITE = c[0] if c else ''
    return SITE


class One(tuple):
    """one of several possible values"""


def uniq(ts):
    out = []
    for t in ts:
        if t is None:
            return None
        for x in (t if isinstance(t, One) else (t,)):
            if x not in out:
                out.append(x)
    if not out:
        return None
    return out[0] if len(out) == 1 else One(out)


def alts(t):
    return list(t) if isinstance(t, One) else ([] if t is None else [t])


# ------------------------------------------------------------------------------ external packages
_EXT = {}


def ext_file(dotted):
    base = os.path.join(site(), *dotted.split('.'))
    for c in (base + '.py', os.path.join(base, '__init__.py'), base + '.pyi',
              os.path.join(base, '__init__.pyi'), base + '.pyx'):
        if os.path.isfile(c):
            return c
    return None


def ext_names(dotted):
    """names a module of an installed package defines, or None when its source cannot tell"""
    if dotted in _EXT:
        return _EXT[dotted]
    _EXT[dotted] = None
    out = set()
    known = False
    base = os.path.join(site(), *dotted.split('.'))
    files = [f for f in (base + '.py', os.path.join(base, '__init__.py'), base + '.pyi',
                         os.path.join(base, '__init__.pyi')) if os.path.isfile(f)]
    for f in files:
        try:
            tree = ast.parse(open(f).read())
        except (SyntaxError, UnicodeDecodeError):
            return None
        known = True
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
                if n.name == '__getattr__':
                    known = False if not f.endswith('numpy/__init__.py') else known
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.Import):
                out.update((a.asname or a.name).split('.')[0] for a in n.names)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name == '*':
                        sub = None
                        if n.level:
                            pk = dotted.split('.') if f.endswith(('__init__.py', '__init__.pyi')) else dotted.split('.')[:-1]
                            if n.level > 1:
                                pk = pk[:-(n.level - 1)]
                            sub = ext_names('.'.join(pk + ([n.module] if n.module else [])))
                        elif n.module:
                            sub = ext_names(n.module)
                        if sub is None:
                            known = False
                        else:
                            out |= sub
                    else:
                        out.add(a.asname or a.name)
    if os.path.isdir(base):
        for f in os.listdir(base):
            out.add(f.split('.')[0])
    _EXT[dotted] = out if known else None
    return _EXT[dotted]


_EXTF = {}


def ext_func(dotted):
    """the Python function or class an external dotted name refers to"""
    if dotted not in _EXTF:
        _EXTF[dotted] = ext_func0(dotted)
    return _EXTF[dotted]


def ext_func0(dotted):
    seen = set()
    while dotted not in seen:
        seen.add(dotted)
        mod, _, name = dotted.rpartition('.')
        f = ext_file(mod) if mod else None
        if not f or not f.endswith('.py'):
            return None
        try:
            m = FE.load_python(f)
        except FE.AnalysisBroken:
            return None
        if name in m.funcs:
            return ('fn', m.funcs[name]) if not m.funcs[name].decorators else None
        if name in m.classes:
            return ('cls', m.classes[name])
        imp = m.imports.get(name)
        if imp is None or imp[0] != 'from':
            return None
        pk = mod.split('.') if f.endswith('__init__.py') else mod.split('.')[:-1]
        d = imp[1]
        k = len(d) - len(d.lstrip('.'))
        if k:
            if k > 1:
                pk = pk[:-(k - 1)]
            d = '.'.join(pk + ([d[k:]] if d[k:] else []))
        dotted = d + '.' + imp[2]
    return None


# ----------------------------------------------------------------------------------------- package
def handed(module, call, s):
    """[(function of the module, parameter)] that a call gives the instance named s to"""
    if not isinstance(call.func, ast.Name):
        return []
    g = module.funcs.get(call.func.id)
    if g is None or any(isinstance(a, ast.Starred) for a in call.args):
        return []
    names = g.param_names()
    out = [names[i] for i, a in enumerate(call.args) if i < len(names) and isinstance(a, ast.Name) and a.id == s]
    out += [k.arg for k in call.keywords if isinstance(k.value, ast.Name) and k.value.id == s and k.arg in names]
    return [(g, out[0])] if out else []


class Package:
    def __init__(self):
        self.mods = {}
        for p in proj.sources():
            rel = proj.relpath(p)
            dotted = rel.rsplit('.', 1)[0].replace(os.sep, '.')
            if dotted.endswith('.__init__'):
                dotted = dotted[:-len('.__init__')]
            if dotted in self.mods and not p.endswith('.py'):
                continue
            try:
                self.mods[dotted] = proj.mod(rel)
            except FE.AnalysisBroken:
                self.mods[dotted] = None
        self.dotted = {id(m): d for d, m in self.mods.items() if m is not None}
        self.classes = {}
        for d, m in self.mods.items():
            for n, c in (m.classes if m else {}).items():
                self.classes.setdefault(n, c)
        self.exporting = set()
        self.attr_cache = {}
        self.open_cache = {}
        self.body_cache = {}
        self.sites = {}             # id(Func) -> {param: [types]}
        self.ret_busy = set()
        self.scopes = {}

    def rel(self, m):
        return proj.relpath(m.path)

    # module members ---------------------------------------------------------------------------
    def exports(self, m, star=False):
        """names a package module binds"""
        if m is None:
            return None
        k = id(m)
        if k in self.exporting:
            return set()
        self.exporting.add(k)
        try:
            out = {n for n, f in m.funcs.items() if f.kind != 'cdef' or f.cpdef} | set(m.classes) | set(m.consts) | set(m.imports) | set(m.externs)
            if m.tree is not None and m.lang == 'py':
                for n in module_stores(m.tree):
                    out.add(n)
            for s in m.stars:
                t = self.mods.get(proj.RESOLVE.absolute(m, s) if s.startswith('.') else s)
                if t is None:
                    e = ext_names(s) if not s.startswith('.') else None
                    if e is None:
                        return None
                    out |= e
                    continue
                sub = self.exports(t)
                if sub is None:
                    return None
                al = self.dunder_all(t)
                out |= (al if al is not None else {x for x in sub if not x.startswith('_')})
            d = self.dotted[k]
            for x in self.mods:
                if x.startswith(d + '.') and '.' not in x[len(d) + 1:]:
                    out.add(x[len(d) + 1:])      # submodules
            return out
        finally:
            self.exporting.discard(k)

    def dunder_all(self, m):
        v = m.consts.get('__all__')
        if isinstance(v, (ast.List, ast.Tuple)):
            return {e.value for e in v.elts if isinstance(e, ast.Constant)}
        return None

    def member(self, m, name, depth=0):
        """type of a module's name"""
        if m is None or depth > 12:
            return None
        if name in m.funcs:
            f = m.funcs[name]
            if f.kind == 'cdef' and not f.cpdef:
                return None
            return ('fn', f) if not f.decorators else None
        if name in m.classes:
            return ('cls', m.classes[name])
        if name in m.consts:
            return Scope(self, None, m).type(m.consts[name])
        if name in m.imports:
            i = m.imports[name]
            if i[0] == 'module':
                return self.module(i[1])
            d = proj.RESOLVE.absolute(m, i[1]) if i[1].startswith('.') else i[1]
            if d + '.' + i[2] in self.mods:
                t = self.mods.get(d)
                if t is None or i[2] not in (set(t.funcs) | set(t.classes) | set(t.consts)):
                    return ('mod', self.mods[d + '.' + i[2]])
            if d in self.mods:
                return self.member(self.mods[d], i[2], depth + 1)
            return ('ext', d + '.' + i[2])
        for s in m.stars:
            d = proj.RESOLVE.absolute(m, s) if s.startswith('.') else s
            t = self.mods.get(d)
            if t is not None:
                ex = self.exports(t)
                if ex and name in ex:
                    return self.member(t, name, depth + 1)
        d = self.dotted.get(id(m))
        if d and d + '.' + name in self.mods:
            return ('mod', self.mods[d + '.' + name])
        return None

    def module(self, dotted):
        if dotted in self.mods:
            return ('mod', self.mods[dotted])
        return ('ext', dotted)

    # classes ------------------------------------------------------------------------------------
    def class_attrs(self, c):
        """every attribute some code of the package gives instances of the class"""
        if c in self.attr_cache:
            return self.attr_cache[c]
        out = set(c.methods) | set(c.consts) | {'__class__', '__dict__', '__doc__', '__module__'}
        sl = self.slots(c)
        for f, s in self.bodies(c):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) \
                        and isinstance(n.value, ast.Name) and n.value.id == s:
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' \
                        and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        out.add(n.args[1].value)
                    else:
                        out.update(self.setattr_names(f, n)[0])
        if sl is not None:
            out |= sl
        self.attr_cache[c] = out
        return out

    def opened(self, c):
        """attributes can come from places this analysis does not read"""
        if c not in self.open_cache:
            self.open_cache[c] = self.opened0(c)
        return self.open_cache[c]

    def opened0(self, c):
        if c.bases and not set(c.bases) <= {'object'} or '__getattr__' in c.methods or '__getattribute__' in c.methods:
            return True
        if c.node is None or c.node.decorator_list or c.node.keywords:
            return True
        for f, s in self.bodies(c):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.value, ast.Name) \
                        and n.value.id == s:
                    return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' \
                        and len(n.args) > 1 and not isinstance(n.args[1], ast.Constant):
                    names, known = self.setattr_names(f, n)
                    if not known:
                        return True
        return False

    def setattr_names(self, f, call):
        """the names a setattr(self, k, ...) in a loop over literals can write"""
        out = set()
        for lp in ast.walk(f.node):
            if isinstance(lp, ast.For) and any(x is call for b in lp.body for x in ast.walk(b)):
                it = lp.iter
                roots = {x.id for x in ast.walk(it) if isinstance(x, ast.Name)}
                if f.kwarg in roots:
                    return out, True
                todo = [it]
                for r in roots:
                    v = f.module.consts.get(r) or (f.cls.consts.get(r) if f.cls else None)
                    if v is not None:
                        todo.append(v)
                for x in ast.walk(it):
                    if isinstance(x, ast.Attribute) and f.cls and x.attr in f.cls.consts:
                        todo.append(f.cls.consts[x.attr])
                for t in todo:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Constant) and isinstance(x.value, str):
                            out.add(x.value)
                        if isinstance(x, ast.keyword) and x.arg:
                            out.add(x.arg)
                return out, bool(out)
        return out, False

    def slots(self, c):
        v = c.consts.get('__slots__')
        if isinstance(v, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in v.elts):
            return {e.value for e in v.elts}
        return None

    def bodies(self, c):
        """(function, name of the instance): methods, and functions of the module they hand the instance to"""
        if c in self.body_cache:
            return self.body_cache[c]
        out = [(f, f.param_names()[0] if f.params else None) for f in c.methods.values()]
        done = set()
        for f, s in out:            # grows
            if s is None or len(out) > 400:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    for g, p in handed(f.module, n, s):
                        if (g, p) not in done:
                            done.add((g, p))
                            out.append((g, p))
        self.body_cache[c] = out
        return out

    def init_attrs(self, c):
        """attributes assigned on every construction (no conditions)"""
        out = set(c.consts) | set(c.methods)

        def go(f, depth, s=None):
            if f is None or depth > 3:
                return
            s = s or f.param_names()[0]
            for st in f.body:
                for t in targets(st):
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == s:
                        out.add(t.attr)
                if isinstance(st, ast.If):
                    out.update(both(st, s))
                for n in ast.walk(st) if isinstance(st, ast.For) else ():
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' \
                            and len(n.args) > 1:
                        out.update(self.setattr_names(f, n)[0])
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                    g = st.value.func
                    if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) and g.value.id == s:
                        go(c.methods.get(g.attr), depth + 1)
                    for h, p in handed(f.module, st.value, s):
                        go(h, depth + 1, p)
        if '__init__' in c.methods:
            go(c.methods['__init__'], 0)
        return out

    def attr_type(self, c, name):
        """type of an instance attribute, from the values the class assigns to it"""
        key = (c, name)
        if key in self.scopes:
            return self.scopes[key]
        self.scopes[key] = None
        ts = []
        app = []
        for f, s in self.bodies(c):
            sc = None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr == name \
                                and isinstance(t.value, ast.Name) and t.value.id == s:
                            if isinstance(n.value, ast.Constant) and n.value.value is None:
                                continue
                            sc = sc or Scope(self, f, f.module, c if f in c.methods.values() else None)
                            ts.append(sc.type(n.value))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' \
                        and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == name \
                        and isinstance(n.func.value.value, ast.Name) and n.func.value.value.id == s and n.args:
                    sc = sc or Scope(self, f, f.module, c if f in c.methods.values() else None)
                    app.append(sc.type(n.args[0]))
        r = uniq(ts) if ts else None
        if app and all(t is None or (isinstance(t, tuple) and t and t[0] == 'list' and t[1] is None) for t in ts):
            known = [t for t in app if t is not None]
            if known:
                r = ('list', uniq(known))
        elif r is None and ts:
            known = [t for t in ts if t is not None]
            if known and all(isinstance(t, tuple) and t[0] in ('inst', 'list') for t in known) \
                    and len(known) == len(ts):
                r = uniq(known)
        if r is None or r == ('list', None):
            t = PARAMS.get(name)
            if t:
                r = self.named(t)
        self.scopes[key] = r
        return r

    def named(self, t):
        if t.startswith('list:'):
            c = self.classes.get(t[5:])
            return ('list', ('inst', c)) if c else None
        c = self.classes.get(t)
        return ('inst', c) if c else None

    # call sites -----------------------------------------------------------------------------------
    def funcs(self):
        for d in sorted(self.mods):
            m = self.mods[d]
            if m is None or m.lang != 'py':
                continue
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f

    def collect_sites(self):
        for f in self.funcs():
            sc = Scope(self, f, f.module, f.cls)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    for t in alts(sc.type(n.func)):
                        g = None
                        shift = 0
                        if t[0] == 'fn':
                            g = t[1]
                        elif t[0] == 'bound':
                            g, shift = t[2], 1
                        if g is None or any(isinstance(a, ast.Starred) for a in n.args):
                            continue
                        names = g.param_names()[shift:]
                        d = self.sites.setdefault(id(g), {})
                        for a, nm in zip(n.args, names):
                            d.setdefault(nm, []).append(sc.type(a))
                        for k in n.keywords:
                            if k.arg:
                                d.setdefault(k.arg, []).append(sc.type(k.value))


def targets(st):
    ts = []
    if isinstance(st, ast.Assign):
        ts = list(st.targets)
    elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
        ts = [st.target]
    elif isinstance(st, ast.For):
        ts = [st.target]
    elif isinstance(st, ast.With):
        ts = [i.optional_vars for i in st.items if i.optional_vars is not None]
    out = []
    while ts:
        t = ts.pop(0)
        if isinstance(t, (ast.Tuple, ast.List)):
            ts = list(t.elts) + ts
        elif isinstance(t, ast.Starred):
            ts.insert(0, t.value)
        else:
            out.append(t)
    return out


def both(st, s):
    """attributes of s assigned by both branches of an if"""
    def block(b):
        out = set()
        for x in b:
            for t in targets(x):
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == s:
                    out.add(t.attr)
            if isinstance(x, ast.If):
                out |= both(x, s)
        return out
    return block(st.body) & block(st.orelse) if st.orelse else set()


def module_stores(tree):
    for st in tree.body:
        for n in ast.walk(st):
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                yield st.name
                break
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                yield n.id
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    if a.name != '*':
                        yield (a.asname or a.name).split('.')[0]


class Scope:
    """types of the expressions of one function (flow-insensitive)"""

    def __init__(self, pkg, func, mod, cls=None, parent=None):
        self.pkg, self.func, self.mod, self.cls, self.parent = pkg, func, mod, cls, parent
        self.busy = set()
        self.memo = {}
        self.defs = {}
        self.selfname = None
        if func is not None:
            if cls is not None and func.params and 'staticmethod' not in func.decorators:
                self.selfname = func.param_names()[0]
            self.collect(func.body)

    def collect(self, body):
        for st in body:
            for n in own_nodes(st):
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in tg:
                        self.deft(t, n.value)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    self.defs.setdefault(n.target.id, []).append(('x',))
                elif isinstance(n, (ast.For, ast.comprehension)):
                    self.deft(n.target, ('iter', n.iter))
                elif isinstance(n, ast.With):
                    for i in n.items:
                        if i.optional_vars is not None:
                            self.deft(i.optional_vars, ('x',))
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    self.defs.setdefault(n.name, []).append(('x',))
                elif isinstance(n, ast.FunctionDef) and n is not self.func_node():
                    self.defs.setdefault(n.name, []).append(('def', n))
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        self.defs.setdefault(a.asname or a.name.split('.')[0], []).append(
                            ('t', self.pkg.module(a.name if a.asname else a.name.split('.')[0])))
                elif isinstance(n, ast.ImportFrom):
                    d = '.' * n.level + (n.module or '')
                    if n.level:
                        d = proj.RESOLVE.absolute(self.mod, d)
                    for a in n.names:
                        t = self.pkg.member(self.pkg.mods[d], a.name) if d in self.pkg.mods \
                            else ('ext', d + '.' + a.name)
                        self.defs.setdefault(a.asname or a.name, []).append(('t', t))
                elif isinstance(n, ast.NamedExpr):
                    self.deft(n.target, n.value)

    def func_node(self):
        return getattr(self.func, 'node', None)

    def deft(self, t, v):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append(v if v is not None else ('x',))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.deft(e.value, ('x',))
                elif isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                    self.deft(e, v.elts[i])
                else:
                    self.deft(e, ('item', v, i))

    def value(self, v):
        if isinstance(v, ast.AST):
            return self.type(v)
        if v[0] == 't':
            return v[1]
        if v[0] == 'iter':
            return self.elem(v[1])
        if v[0] == 'item':
            t = self.value(v[1])
            if t is not None and not isinstance(t, One) and t[0] == 'tuple' and v[2] < len(t[1]):
                return t[1][v[2]]
            if t is not None and not isinstance(t, One) and t[0] == 'list':
                return t[1]
            return None
        if v[0] == 'def':
            f = nested(v[1], self.mod)
            return ('fn', f) if not f.decorators else None
        return None

    def elem(self, it):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == 'enumerate' and it.args:
                return ('tuple', (None, self.elem(it.args[0])))
            if it.func.id == 'zip':
                return ('tuple', tuple(self.elem(a) for a in it.args))
            if it.func.id in ('reversed', 'sorted', 'list', 'tuple', 'set') and it.args:
                return self.elem(it.args[0])
            if it.func.id == 'range':
                return None
        if isinstance(it, (ast.List, ast.Tuple)):
            return uniq([self.type(e) for e in it.elts])
        t = self.type(it)
        if t is None or isinstance(t, One):
            return None
        if t[0] == 'list':
            return t[1]
        if t[0] == 'tuple':
            return uniq(t[1])
        return None

    def name(self, n):
        if n == self.selfname:
            return ('inst', self.cls)
        if n in self.defs or (self.func is not None and n in self.func.param_names()):
            if n in self.memo:
                return self.memo[n]
            if n in self.busy:
                return None
            self.busy.add(n)
            try:
                ts = []
                if self.func is not None and n in self.func.param_names():
                    ts.append(self.param(n))
                for v in self.defs.get(n, ()):
                    if isinstance(v, ast.Constant) and v.value is None:
                        continue
                    ts.append(self.value(v))
                r = uniq(ts) if ts else None
                if r == ('list', None):
                    r = self.appended(n) or r
            finally:
                self.busy.discard(n)
            self.memo[n] = r
            return r
        if self.func is not None and n in (self.func.vararg, self.func.kwarg):
            return None
        if self.parent is not None:
            return self.parent.name(n)
        return self.pkg.member(self.mod, n)

    def appended(self, n):
        ts = []
        for st in self.func.body if self.func else ():
            for x in ast.walk(st):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' \
                        and isinstance(x.func.value, ast.Name) and x.func.value.id == n and x.args:
                    ts.append(self.type(x.args[0]))
        u = uniq(ts) if ts else None
        return ('list', u) if u is not None else None

    def param(self, n):
        ts = self.pkg.sites.get(id(self.func), {}).get(n)
        if ts:
            known = [t for t in ts if t is not None]
            if known and len(known) == len(ts):
                return uniq(known)
        t = PARAMS.get(n)
        if t and (self.func.cls is not None or self.mod.path.endswith('.py')):
            return self.pkg.named(t)
        return None

    def type(self, e):
        if isinstance(e, ast.Name):
            return self.name(e.id)
        if isinstance(e, ast.Attribute):
            return uniq([self.attr(t, e.attr) for t in alts(self.type(e.value))] or [None])
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ('list', 'sorted', 'reversed', 'tuple') and e.args \
                    and self.name(e.func.id) is None:
                t = self.elem(e.args[0])
                return ('list', t)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'copy', 'values'):
                t = self.type(e.func.value)
                if t is not None and not isinstance(t, One) and t[0] in ('dictlit', 'list'):
                    if e.func.attr == 'copy':
                        return t
                    if e.func.attr == 'get' and e.args:
                        return self.sub(t, e.args[0])
            if isinstance(e.func, ast.Name) and e.func.id in ('deepcopy', 'copy') and e.args:
                return self.type(e.args[0])
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('deepcopy', 'copy') and e.args:
                return self.type(e.args[0])
            return uniq([self.result(t) for t in alts(self.type(e.func))] or [None])
        if isinstance(e, ast.Subscript):
            return uniq([self.sub(t, e.slice) for t in alts(self.type(e.value))] or [None])
        if isinstance(e, ast.IfExp):
            return uniq([self.type(x) for x in (e.body, e.orelse)
                         if not (isinstance(x, ast.Constant) and x.value is None)] or [None])
        if isinstance(e, ast.BoolOp):
            return uniq([self.type(x) for x in e.values])
        if isinstance(e, ast.Tuple):
            return ('tuple', tuple(self.type(x) for x in e.elts))
        if isinstance(e, ast.List):
            return ('list', uniq([self.type(x) for x in e.elts]) if e.elts else None)
        if isinstance(e, ast.ListComp):
            return ('list', self.type(e.elt))
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.type(e.left), self.type(e.right)
            if a is not None and b is not None and not isinstance(a, One) and not isinstance(b, One) \
                    and a[0] == b[0] == 'list':
                return a if b[1] is None else (b if a[1] is None else ('list', uniq([a[1], b[1]])))
            return None
        if isinstance(e, ast.Dict):
            return ('dictlit', e, self)
        return None

    def sub(self, t, k):
        if t[0] == 'dictlit':
            e, sc = t[1], t[2]
            if isinstance(k, ast.Constant):
                for kk, v in zip(e.keys, e.values):
                    if isinstance(kk, ast.Constant) and kk.value == k.value:
                        return sc.type(v)
                return None
            ts = [sc.type(v) for v in e.values]
            return One(x for t in ts if t is not None for x in alts(t)) or None
        if t[0] == 'list':
            return t if isinstance(k, ast.Slice) else t[1]
        if t[0] == 'tuple' and isinstance(k, ast.Constant) and isinstance(k.value, int) \
                and -len(t[1]) <= k.value < len(t[1]):
            return t[1][k.value]
        return None

    def attr(self, t, name):
        if t[0] == 'mod':
            return self.pkg.member(t[1], name)
        if t[0] == 'ext':
            return ('ext', t[1] + '.' + name)
        if t[0] == 'inst':
            c = t[1]
            if name in c.methods:
                f = c.methods[name]
                if 'property' in f.decorators:
                    return None
                return ('bound', c, f) if not f.decorators else None
            return self.pkg.attr_type(c, name) if id(c.module) in self.pkg.dotted else None
        if t[0] == 'cls' and name in t[1].methods:
            return ('fn', t[1].methods[name]) if not t[1].methods[name].decorators else None
        return None

    def result(self, t):
        if t[0] == 'cls':
            return ('inst', t[1])
        if t[0] == 'ext':
            x = ext_func(t[1])
            if x is not None and x[0] == 'cls':
                return ('inst', x[1])
            return None
        f = t[1] if t[0] == 'fn' else t[2] if t[0] == 'bound' else None
        if f is None or f.module.lang != 'py' or id(f) in self.pkg.ret_busy \
                or id(f.module) not in self.pkg.dotted:
            return None
        self.pkg.ret_busy.add(id(f))
        try:
            sc = Scope(self.pkg, f, f.module, f.cls)
            ts = []
            for st in f.body:
                for n in own_nodes(st):
                    if isinstance(n, ast.Return) and n.value is not None:
                        ts.append(sc.type(n.value))
            return uniq(ts) if ts else None
        finally:
            self.pkg.ret_busy.discard(id(f))


def nested(node, mod):
    f = getattr(node, '_func', None)
    if f is None:
        f = node._func = FE.py_func(node, mod)
    return f


def own_nodes(st):
    """nodes of a statement that belong to this function, without nested function bodies"""
    yield st
    if isinstance(st, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        return
    for c in ast.iter_child_nodes(st):
        yield from own_nodes(c)
