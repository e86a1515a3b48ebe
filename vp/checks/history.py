"""C27: analyses leave the inputs alone and do not depend on what was called before.

Every public analysis or result method is value-numbered on the abstract state another one leaves behind and compared
with the run on the state a fresh object has."""
import ast
import concurrent.futures
import re
from .. import flow as FL
from .. import kernels as K
from .. import proj
from .. import pylayer as PL
from ..flow import NONE, ONE, ZERO
from ..kernels import sym, attr, A
from ..poly import Poly, TooBig, show, atom_of
from ..pylayer import S_
from ..report import Check

SHELL = 'panels/shell.py'
MD = 'panels/multidomain/multidomain.py'
BAY = 'panels/stiffpanelbay/stiffpanelbay.py'
B1 = 'panels/stiffener/bladestiff1d.py'
B2 = 'panels/stiffener/bladestiff2d.py'
C = Poly.const
DROP = {'elem': (2,), 'rep': (1,), 'phi': (2,), 'loopout': (2,), 'trip': (1,), 'new': (3,)}


# ------------------------------------------------------------------ rendering without run dependent numbers
class Render:
    """text of a value; loop, buffer and container numbers do not appear in it"""

    def __init__(self, heap):
        self.heap = heap
        self.memo = {}
        self.busy = set()

    def p(self, v):
        if not isinstance(v, Poly):
            return self.part(v)
        k = self.memo.get(v)
        if k is None:
            out = []
            for m, c in v.t.items():
                out.append('*'.join(['%s' % (c,)] + sorted('%s^%s' % (self.atom(atom_of(i)), e) for i, e in m)))
            k = self.memo[v] = '+'.join(sorted(out)) or '0'
        return k

    def part(self, x):
        if isinstance(x, Poly):
            return self.p(x)
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in ('buf', 'obj', 'lv'):
                return self.atom(x)
            return '(' + ','.join(self.part(y) for y in x) + ')'
        return str(x)

    def atom(self, a):
        k = a[0]
        if k in ('sym', 'fn', 'ext', 'module'):
            return str(a[1])
        if k == 'attr':
            return self.p(a[1]) + '.' + a[2]
        if k == 'func':
            return proj.relpath(a[1]) + ':' + a[2]
        if k == 'buf':
            return '#array'
        if k == 'lv':
            return '#' + str(a[1]).split('@')[0]
        if k == 'obj':
            o = self.heap.get(('obj', a[1]))
            if o is None or a[1] in self.busy:
                return '#container'
            self.busy.add(a[1])
            r = '{%s}' % ','.join(self.part(x) for x in o[1])
            self.busy.discard(a[1])
            return r
        if k == 'call':
            n = PL.callee_name(a)
            if n in ('max', 'min') and not a[3]:  # the order of the arguments does not matter
                return '%s(%s)' % (n, ','.join(sorted(set(self.flat(a, n)))))
            return self.p(a[1]) + '(' + ','.join([self.part(x) for x in a[2]] + [self.part(x) for x in a[3]]) + ')'
        d = DROP.get(k, ())
        return k + '[' + ','.join(self.part(x) for i, x in enumerate(a) if i and i not in d) + ']'

    def flat(self, a, n):
        out = []
        for x in a[2]:
            b = x.single_atom()
            if b is not None and b[0] == 'call' and PL.callee_name(b) == n and not b[3]:
                out += self.flat(b, n)
            else:
                out.append(self.p(x))
        return out


# ------------------------------------------------------------------ sessions
READS = {}


def native_reads(f):
    """attribute names a native function reads from objects"""
    k = (f.module.path, f.name)
    if k not in READS:
        READS[k] = out = set()
        todo, seen = [f], set()
        while todo:
            g = todo.pop()
            if g.name in seen:
                continue
            seen.add(g.name)
            for s in g.body:
                for n in ast.walk(s):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                        out.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in g.module.funcs:
                        todo.append(g.module.funcs[n.func.id])
    return READS[k]


WRITES = {}


def native_writes(f, busy=()):
    """parameters a native function stores into, itself or through a function it hands them to"""
    key = (f.module.path, f.name)
    if key in WRITES:
        return WRITES[key]
    if f in busy:
        return set()
    ps = [nm for nm, ty, df in f.params]
    alias = {p: p for p in ps}
    nodes = [n for s in f.body for n in ast.walk(s)]

    def name(e):
        while True:
            if isinstance(e, ast.Subscript):
                e = e.value
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('__addr__', '__cast__') and e.args:
                e = e.args[-1]
            elif isinstance(e, ast.Call) and e.args and (getattr(e.func, 'attr', None) or getattr(e.func, 'id', None)) in (
                    'asarray', 'ascontiguousarray'):
                e = e.args[0]
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('ravel', 'reshape'):
                e = e.func.value
            else:
                return alias.get(e.id) if isinstance(e, ast.Name) else None
    for n in nodes:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                n.targets[0].id not in ps and name(n.value) in ps and not isinstance(n.value, ast.Subscript):
            alias[n.targets[0].id] = name(n.value)
    out = set()
    for n in nodes:
        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
        for t in ts:
            for x in ast.walk(t):
                if isinstance(x, ast.Subscript) and name(x) in ps and (x is t or isinstance(t, ast.Tuple)):
                    out.add(name(x))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in f.module.funcs:
            g = f.module.funcs[n.func.id]
            w = native_writes(g, busy + (f,))
            gp = [nm for nm, ty, df in g.params]
            for k, e in enumerate(n.args):
                if k < len(gp) and gp[k] in w and name(e) in ps:
                    out.add(name(e))
    if not busy:
        WRITES[key] = out
    return out


class HFlow(FL.Flow):
    """records what native functions can see when they are called"""

    def __init__(self, *a, **k):
        FL.Flow.__init__(self, *a, **k)
        self.seen = []
        self.writes = []

    def call_func(self, func, args, kw, st, node, f, closure=None):
        v = FL.Flow.call_func(self, func, args, kw, st, node, f, closure)
        if func.module.path.endswith('.pyx'):
            bound, err = FL.bind(func, args, kw)
            state = []
            for p in native_writes(func):
                if p in (bound or {}):
                    self.writes.append((func, bound[p], getattr(node, 'lineno', 0),
                                        self.frames[-1].func if self.frames else None))
            for p, x in sorted((bound or {}).items()):
                a = x.single_atom() if isinstance(x, Poly) else None
                if a is None or a[0] not in ('sym', 'new', 'attr', 'elem'):
                    continue
                for n in sorted(native_reads(func)):
                    w = st.heap.get(('attr', x, n))
                    if w is not None:
                        state.append((p + '.' + n, w))
            r = Render(st.heap)
            self.seen.append((func.name, tuple([r.p(v), ('if', r.part(st.guard))] + [(n, r.p(w)) for n, w in state]),
                              getattr(node, 'lineno', 0), self.frames[-1].func if self.frames else None))
        return v


TRUE_KINDS = ('sym', 'attr', 'rep', 'call', 'elem', 'tuple', 'obj', 'cat', 'repeat')


class Session:
    """a group of objects and the calls made on them"""

    def __init__(self, classes):
        """classes: {object name: (file, class)}"""
        self.classes = {sym(o): PL.cls(*rc) for o, rc in classes.items()}
        self.given = {sym(o) for o in classes}
        self.fl = HFlow(proj.RESOLVE, assume={(lambda a: self.fact(a) is not None): self.fact}, inline=self.inl,
                        self_class=self.classes.get(sym('self')))
        self.fl.typer = lambda a: self.classes.get(A(a))
        self.fl.fold_globals = True
        self.heap = {}
        self.owned = set()          # containers the user made
        self.names = {}             # object -> attributes that hold user given numbers

    def inl(self, g):
        return not g.module.path.endswith('.pyx') and g.name not in ('msg', 'warn')

    def present(self, v):
        a = v.single_atom()
        return v in self.given or a is not None and a[0] in ('rep', 'tuple', 'cat', 'repeat', 'matmul', 'call', 'new')

    def fact(self, a):
        if a[0] != 'ind':
            return None
        if a[1] == 'is':
            x = a[2] if a[3] == NONE else a[3] if a[2] == NONE else None
            if x is None or x == NONE:
                return None
            b = x.single_atom()
            return False if self.present(x) or b is None or b[0] in ('buf', 'str', 'obj', 'sum') else None
        if a[1] == 'truth':
            b = a[2].single_atom()
            if b is not None and b[0] == 'call':
                n = PL.callee_name(b)
                if n == 'isinstance' and b[2][1:] == (A(('fn', 'str')),):
                    return FL.const_kind(b[2][0]) == 'str'
                if n in ('isinstance', 'any', 'all', 'isnan', 'isinf', 'isclose', 'allclose'):
                    return None
            return True if self.present(a[2]) or b is not None and b[0] == 'obj' else None
        return None

    def set(self, obj, name, v):
        self.heap[('attr', sym(obj), name)] = v

    def get(self, obj, name):
        return self.heap.get(('attr', sym(obj), name))

    def container(self, kind, *items):
        st = FL.State({}, self.heap, ())
        v = self.fl.newobj(kind, tuple(items), st)
        self.owned.add(v.single_atom()[1])
        return v

    def symbol(self, name):
        self.given.add(sym(name))
        return sym(name)

    def call(self, obj, name, args):
        """-> Outcome; the state becomes the one left behind"""
        f = self.classes[sym(obj)].methods[name]
        fl = self.fl
        fl.seen, fl.events, fl.writes, fl.steps = [], [], [], 0
        fl.stable = {k: v for k, v in fl.stable.items() if k[0] != 'buf'}
        for v in args.values():
            a = v.single_atom() if isinstance(v, Poly) else None
            if a is not None and a[0] == 'sym':
                self.given.add(v)
        st, ret = fl.run(f, dict(args, self=sym(obj)), FL.State({}, dict(self.heap), ()))
        out = Outcome(f, fl, ret)
        if st is not None:
            self.heap = dict(st.heap)
            out.fill(self.heap)
        return out

    def attrs(self):
        """state of the objects: {(object, attribute): value}"""
        return {(k[1], k[2]): v for k, v in self.heap.items() if k[0] == 'attr'}

    def fork(self):
        s = object.__new__(Session)
        s.__dict__.update(self.__dict__)
        s.heap = dict(self.heap)
        s.owned = set(self.owned)
        return s


NUMBERS = ('.r', '.a', '.b', '.alphadeg')
NO_MODEL = re.compile(r'idx\[1\*global\[[^\]]*\]\^1,\(1\*none\[\]')


def flat(x):
    for y in x:
        if isinstance(y, tuple):
            yield from flat(y)
        else:
            yield y


def items(r, v, path=''):
    """the parts of a returned value; entries of a dictionary by key"""
    a = v.single_atom()
    if a is not None and a[0] == 'tuple':
        for k, x in enumerate(a[1]):
            yield from items(r, x, '%s/%d' % (path, k))
        return
    o = r.heap.get(('obj', a[1])) if a is not None and a[0] == 'obj' else None
    if o is not None and o[0] == 'dict':
        for k, x in o[1]:
            yield from items(r, x, '%s/dict %s' % (path, r.p(k)))
        return
    yield path, r.p(v)


class Outcome:
    """what a call does"""

    def __init__(self, f, fl, ret):
        self.f, self.ret = f, ret
        self.events, self.seen, self.writes = fl.events, fl.seen, fl.writes
        self.rejected = True
        self.obs, self.res = [], []

    def fill(self, heap):
        r = Render(heap)
        self.rejected = False
        self.text(r)
        # the registry of models has no entry None; a native number cannot be read from None
        if any(NO_MODEL.search(y) for _, x, _ in self.obs for y in flat(x)) or any(
                NO_MODEL.search(y) for _, y in self.res) or any(
                y[1] == '1*none[]^1' and y[0].endswith(NUMBERS) for _, x, _ in self.obs for y in x if isinstance(y, tuple)):
            self.rejected, self.obs = True, []

    def text(self, r):
        for n, x, ln, g in self.seen:
            self.obs.append((n, x, '%s:%d' % (proj.relpath(g.module.path), ln) if g is not None else ''))
        if self.ret is not None:
            self.res = list(items(r, self.ret))
        for e in self.events:
            if e.kind in ('store', 'setitem') and isinstance(e.base, Poly):
                b = e.base.single_atom()
                if b is not None and b[0] == 'buf':
                    self.obs.append(('an array element', tuple([r.part(e.index), r.part(e.value), str(e.op),
                                                                r.part(e.guard)]), PL.where(e)))

    def diff(self, other):
        """first observable of self that other does not have"""
        unset = {x for x, y in other.res if y == '1*none[]^1'}
        mine = dict((x, y) for x, y in self.res if x not in unset)
        want = dict((x, y) for x, y in other.res if x not in unset)
        for x in sorted(set(mine) | set(want)):
            if mine.get(x) != want.get(x) and (x in want or 'dict' not in x):
                return 'the result', (mine.get(x, 'nothing'),), PL.wf(self.f), [(want.get(x, 'nothing'),)]
        have = {}
        for n, x, w in other.obs:
            have[(n, x)] = have.get((n, x), 0) + 1
        for n, x, w in self.obs:
            if not have.get((n, x)):
                return n, x, w, [y for m, y, _ in other.obs if m == n]
            have[(n, x)] -= 1
        for n, x, w in other.obs:
            if not any((n, x) == (m, y) for m, y, _ in self.obs):
                return n, x, w, None
        return None


# ------------------------------------------------------------------ calls
SKIP = ('add_', 'plot', 'save', 'load', '_', 'lb', 'freq', 'static')
FLAGS = {'silent': ONE, 'finalize': ONE}


def analysis_methods(c):
    return [n for n in sorted(c.methods) if not n.startswith(SKIP)]


def arguments(f, given, special=None):
    """arguments of a call: optional data absent or given"""
    out = {}
    for nm, ty, df in f.params:
        if nm == 'self':
            continue
        d = isinstance(df, ast.Constant)
        if special and nm in special:
            out[nm] = special[nm] if given else NONE
        elif nm in FLAGS:
            out[nm] = FLAGS[nm]
        elif nm == 'size':
            out[nm] = NONE
        elif d and df.value is None:
            out[nm] = sym(nm) if given else NONE
        elif d and isinstance(df.value, bool):
            out[nm] = ONE if given else ZERO
        elif d and isinstance(df.value, (int, str)):
            out[nm] = C(df.value) if isinstance(df.value, int) else S_(df.value)
        else:
            out[nm] = sym(nm)
    return out


def calls_of(s, obj, special=None):
    c = s.classes[sym(obj)]
    for n in analysis_methods(c):
        f = c.methods[n]
        done = []
        for given in (False, True):
            a = arguments(f, given, special)
            if a not in done:
                done.append(a)
                yield obj, n, a, '%s.%s(%s)' % (c.name, n, 'optional data given' if given else '')


LOADS = ('point_loads', 'point_loads_inc', 'distr_loads', 'distr_loads_inc', 'point_pds', 'point_pds_inc', 'distr_pds',
         'distr_pds_inc')
DOMAIN = ('x1', 'x2', 'y1', 'y2')
CTE = ('Nxx_cte', 'Nyy_cte', 'Nxy_cte')


def user_data(s, obj, tag=''):
    """attributes of a shell that hold user given numbers"""
    out = []
    for (o, n), v in s.attrs().items():
        if o != sym(obj) or n in DOMAIN + CTE:
            continue
        a = v.single_atom()
        if v.cval() is not None or a is None or a[0] == 'sym' or n in ('rho_air', 'speed_sound', 'Mach', 'V', 'aeromu'):
            out.append(n)
    return out


def shell_object(s, obj, kind, tag='', new=True):
    if new:
        s.call(obj, '__init__', {'kwargs': FL.tup(), 'self': sym(obj)})
        s.names[obj] = user_data(s, obj)
    for n in s.names[obj]:
        s.set(obj, n, s.symbol('%s%s' % (n, tag)))
    for n in ('stack', 'plyt', 'laminaprop', 'rho'):
        s.symbol('%s%s' % (n, tag))
    for n in LOADS:
        e = [s.symbol('%s_%s%s' % (n, k, tag)) for k in ('x', 'y', 'f1', 'f2', 'f3')]
        if n.startswith('distr'):
            e[0 if kind == 'curved' else 1] = NONE
        s.set(obj, n, s.container('list', s.container('list', *e)))
    if kind != 'curved':
        s.set(obj, 'r', NONE if kind in ('flat', 'none') else ZERO)
        s.set(obj, 'beta', NONE)
        s.set(obj, 'gamma', NONE)
    else:
        for n in ('beta', 'gamma'):
            s.set(obj, n, s.symbol(n + tag))
        s.set(obj, 'flow', S_('y'))
        s.set(obj, 'model', S_('cylshell_clpt_donnell_bardell'))
    if kind != 'flat':
        for n in ('plyts', 'laminaprops', 'rhos') + CTE:
            s.set(obj, n, s.symbol(n + tag))
    if kind in ('sub', 'none', 'zero'):
        s.set(obj, 'model', S_('plate_clpt_donnell_bardell'))
    if kind == 'sub':
        for n in ('x1', 'x2'):
            s.set(obj, n, s.symbol(n + tag))


def shell_histories(ck, kind):
    s = Session({'self': (SHELL, 'Shell')})
    shell_object(s, 'self', kind)
    histories(ck, s, ['self'], kind, lambda s: shell_object(s, 'self', kind, '_new', False))


def histories(ck, s0, objs, label, change=None, special=None, share=None):
    """change(session): the user gives the objects new data"""
    calls = [x for o in objs for x in calls_of(s0, o, special)]
    fresh, after, groups, late = {}, {}, [], set()
    for x in calls:
        k = x[3]
        s = s0.fork()
        try:
            fresh[k] = s.call(*x[:3])
            inputs(ck, s0, s, fresh[k], x)
        except (FL.Give, TooBig) as ex:
            ck.und('%s: %s' % (k, ex))
            continue
        ck.count('calls on a fresh object')
        if fresh[k].rejected:
            continue
        r = Render(s.heap)
        after.setdefault(tuple(sorted((n, r.p(v)) for (o, n), v in s.attrs().items())), (k, s))
    todo = [x for k, x in enumerate(after.values()) if share is None or k % 3 == share]
    for k1, s1 in todo:
        for x in calls:
            k = x[3]
            if k not in fresh:
                continue
            s = s1.fork()
            try:
                o = s.call(*x[:3])
            except (FL.Give, TooBig) as ex:
                ck.und('%s after %s: %s' % (k, k1, ex))
                continue
            if fresh[k].rejected:
                # needs something that another call provides; from then on it gives the same
                if not o.rejected:
                    fresh[k] = o
                    late.add(k)
                    inputs(ck, s1, s, o, x)
                continue
            if o.rejected and k in late:
                continue
            ck.count('pairs of calls')
            d = difference(o, fresh[k])
            if d is None:
                ck.ok(sample='%s after %s' % (k, k1))
                continue
            why = culprits(s0, s1, x, fresh[k], groups)
            ck.bad('history', d[0], '%s:%s' % (k.split('(')[0], '+'.join(why) or '?'), '%s after %s: %s%s' % (
                k, k1, d[1], ' (left behind: %s)' % ', '.join(why) if why else ''))
    if change is None:
        return
    t0 = s0.fork()
    change(t0)
    fresh = {}
    for x in calls:
        try:
            fresh[x[3]] = t0.fork().call(*x[:3])
        except (FL.Give, TooBig) as ex:
            ck.und('%s: %s' % (x[3], ex))
    for k1, s1 in todo:
        t1 = s1.fork()
        change(t1)
        for x in calls:
            k = x[3]
            if k not in fresh or fresh[k].rejected:
                continue
            try:
                o = t1.fork().call(*x[:3])
            except (FL.Give, TooBig) as ex:
                ck.und('%s after %s and new data: %s' % (k, k1, ex))
                continue
            ck.count('pairs of calls with new data in between')
            d = difference(o, fresh[k])
            if d is None:
                ck.ok(sample='%s after %s and new data' % (k, k1))
                continue
            why = culprits(t0, t1, x, fresh[k], groups)
            for w in why or [k.split('(')[0]]:
                ck.bad('stale', d[0], w, '%s after %s and new data given to the objects: %s%s' % (
                    k, k1, d[1], ' (still from the old data: %s)' % ', '.join(why) if why else ''))


VIEWS = ('ascontiguousarray', 'asarray', 'atleast_1d', 'atleast_2d', 'ravel', 'reshape', 'squeeze', 'transpose', 'view',
         'asfortranarray', 'asanyarray', 'swapaxes')
NUMERIC = ('inc', 'size', 'row0', 'col0', 'nx', 'ny', 'nxc', 'nyc', 'gridx', 'gridy', 'aeromu', 'silent', 'finalize', 'si',
           'NLgeom')


def root(v):
    """the value an array is a view of"""
    while isinstance(v, Poly):
        a = v.single_atom()
        if a is None:
            return v
        if a[0] == 'idx':
            v = a[1]
        elif a[0] == 'call' and PL.callee_name(a) in VIEWS:
            f = a[1].single_atom()
            m = f is not None and f[0] == 'attr' and (f[1].single_atom() or ('',))[0] not in ('module', 'ext')
            if m:
                v = f[1]
            elif a[2]:
                v = a[2][0]
            else:
                return v
        elif a[0] == 'attr' and a[2] in ('T', 'flat', 'real'):
            v = a[1]
        else:
            return v
    return v


def inputs(ck, s0, s, o, x):
    """the call leaves alone what the user gave"""
    k = x[3]
    ck.count('calls checked for effects on their inputs')
    args = {v: n for n, v in x[2].items() if v in s0.given and n not in NUMERIC}
    data = {v for (ob, n), v in s0.attrs().items() if v in s0.given} - set(s0.classes)
    n0 = len(ck.violations)
    held = {}
    made = {e.value for e in o.events if e.kind == 'call'}
    for (ob, n), v in sorted(s0.attrs().items(), key=repr):
        if isinstance(v, Poly) and v.single_atom() is not None and v.single_atom()[0] in ('call', 'attr') and v not in s0.given:
            w = v
            while w.single_atom() is not None and w.single_atom()[0] == 'attr':
                w = w.single_atom()[1]
            if w in made or w.single_atom() is None or w.single_atom()[0] != 'call':
                continue    # this call makes it anew
            held[v] = '%s.%s' % (show(ob), n)
    for e in o.events:
        if e.kind in ('setitem', 'store', 'append', 'mutate'):
            v = root(e.base)
        elif e.kind == 'augname':
            v = root(e.full)
            if v not in args:
                continue
        else:
            continue
        b = v.single_atom() if isinstance(v, Poly) else None
        if v in args or v in data and e.kind != 'augname':
            ck.bad('input', PL.where(e), '%s:%s' % (k.split('(')[0], args.get(v) or show(v)),
                   '%s writes into the given %s' % (k, args.get(v) or show(v)))
        elif b is not None and b[0] == 'obj' and b[1] in s0.owned:
            ck.bad('input', PL.where(e), '%s:container' % k.split('(')[0], '%s changes a %s the user gave' % (
                k, s0.heap[('obj', b[1])][0]))
        elif b is not None and e.kind in ('setitem', 'store') and b[0] in ('call', 'attr') and v in held:
            ck.bad('input', PL.where(e), '%s:%s' % (k.split('(')[0], held[v]), '%s changes the elements of %s, '
                   'which the object keeps' % (k, held[v]))
    for f, v, ln, g in o.writes:
        v = root(v)
        if v in held:
            ck.bad('input', '%s:%d' % (proj.relpath(g.module.path), ln) if g is not None else '?',
                   '%s:%s' % (k.split('(')[0], held[v]), '%s: %s changes the elements of %s, which the object keeps' % (
                       k, f.name, held[v]))
        if v in args or v in data:
            ck.bad('input', '%s:%d' % (proj.relpath(g.module.path), ln) if g is not None else '?',
                   '%s:%s' % (k.split('(')[0], args.get(v) or show(v)), '%s: %s writes into the given %s' % (
                       k, f.name, args.get(v) or show(v)))
    if o.rejected:
        return
    new = s.attrs()
    r = Render(s.heap)
    for (ob, n), v in s0.attrs().items():
        a = v.single_atom()
        user = v in s0.given or a is not None and (a[0] == 'str' or a[0] == 'obj' and a[1] in s0.owned)
        if not user or n in ('nx', 'ny'):
            continue
        w = new.get((ob, n))
        if w != v:
            ck.bad('input', PL.wf(o.f), '%s:%s' % (k.split('(')[0], n), '%s leaves %s.%s changed to %s' % (
                k, show(ob), n, r.p(w)[:80] if w is not None else 'nothing'))
        elif a[0] == 'obj' and s.heap.get(('obj', a[1])) != s0.heap[('obj', a[1])]:
            ck.bad('input', PL.wf(o.f), '%s:%s' % (k.split('(')[0], n), '%s changes the entries of %s.%s' % (
                k, show(ob), n))
    if len(ck.violations) == n0:
        ck.ok(sample='%s leaves its inputs alone' % k)


CONN = {'SSycte': ('ycte1', 'ycte2'), 'SSxcte': ('xcte1', 'xcte2'), 'SB': (), 'BFycte': ('ycte1', 'ycte2'),
        'BFxcte': ('xcte1', 'xcte2'), 'kCLTxycte': ('xcte1', 'ycte2'), 'SB_TSL': ('tsl_type',)}


def domain_histories(ck, share):
    """an assembly of two shells, and the first shell on its own"""
    s = Session({'self': (MD, 'MultiDomain'), 'P1': (SHELL, 'Shell'), 'P2': (SHELL, 'Shell')})
    kinds = (('P1', 'zero'), ('P2', 'sub'))
    for o, k in kinds:
        shell_object(s, o, k, '_' + o)
        s.set(o, 'group', s.symbol('group'))

    def connections(tag):
        ds = []
        for fn, keys in CONN.items():
            d = {'p1': sym('P1'), 'p2': sym('P2'), 'func': S_(fn)}
            d.update((k, s.symbol(k + tag)) for k in keys)
            ds.append(s.container('dict', *[(S_(k), v) for k, v in d.items()]))
        return s.container('list', *ds)

    panels = s.container('list', sym('P1'), sym('P2'))
    s.call('self', '__init__', {'panels': panels, 'conn': connections('')})
    sp = {'conn': connections('_other')}

    def change(t):
        for o, k in kinds:
            shell_object(t, o, k, '_new_' + o, False)

    histories(ck, s, ['self', 'P1'], 'domain', change, sp, share)


BAY_GIVEN = ('a', 'b', 'm', 'n', 'rho', 'aeromu', 'beta', 'gamma', 'rho_air', 'speed_sound', 'Mach', 'V')
EDGES = [e + d + r for e in ('x1', 'x2', 'y1', 'y2') for d in 'uvw' for r in ('', 'r')]


def bay_data(s, tag='', new=True):
    for n in BAY_GIVEN + tuple(EDGES):
        s.set('self', n, s.symbol(n + tag))
    s.set('self', 'flow', S_('y'))
    s.set('self', 'forces_skin', s.container('list', s.container('list', *[s.symbol('f%d%s' % (k, tag)) for k in range(5)])))
    s.set('self', 'r', NONE)
    s.set('self', 'model', S_('plate_clpt_donnell_bardell'))
    for o in ('P1', 'P2'):
        shell_object(s, o, 'none', '_%s%s' % (o, tag), new)
        s.set(o, 'flow', S_('x'))
        for n in ('beta', 'gamma'):
            s.set(o, n, s.symbol('%s_%s%s' % (n, o, tag)))
        for n in ('m', 'n'):
            s.set(o, n, s.symbol(n + tag))


def bay_histories(ck):
    """a bay of two panels with one stiffener of each kind, and the first panel on its own"""
    s = Session({'self': (BAY, 'StiffPanelBay'), 'P1': (SHELL, 'Shell'), 'P2': (SHELL, 'Shell'),
                 'S1': (B1, 'BladeStiff1D'), 'S2': (B2, 'BladeStiff2D')})
    s.call('self', '__init__', {})
    bay_data(s)
    for o in ('P1', 'P2'):
        s.call(o, '_rebuild', {})
    for o in ('S1', 'S2'):
        f = s.classes[sym(o)].methods['__init__']
        given = dict(bay=sym('self'), panel1=sym('P1'), panel2=sym('P2'))
        a = {nm: given[nm] if nm in given else s.symbol('%s_%s' % (nm, o)) for nm, ty, df in f.params if nm != 'self'}
        s.call(o, '__init__', a)
    s.set('self', 'panels', s.container('list', sym('P1'), sym('P2')))
    for k, o in (('bladestiff1ds', ('S1',)), ('bladestiff2ds', ('S2',)), ('stiffeners', ('S1', 'S2'))):
        s.set('self', k, s.container('list', *[sym(x) for x in o]))
    histories(ck, s, ['self', 'P1'], 'bay', lambda t: bay_data(t, '_new', False), dict(si=ZERO))


def difference(o, want):
    if o.rejected:
        return PL.wf(o.f), 'is rejected'
    d = o.diff(want)
    if d is None:
        return None
    n, x, w, others = d
    if others is None:
        return w, '%s is missing' % n
    if not others:
        return w, '%s is new' % n
    y = others[0]
    for p, q in zip(flat(x), flat(y)):
        if p != q:
            k = 0
            while k < min(len(p), len(q)) and p[k] == q[k]:
                k += 1
            k = max(0, k - 30)
            return w, '%s differs: %s, on a fresh object %s' % (n, p[k:k + 70], q[k:k + 70])
    return w, '%s differs' % n


def culprits(s0, s1, x, want, groups):
    """smallest group of attributes whose fresh values make the difference go away"""
    a0, a1 = s0.attrs(), s1.attrs()
    r0, r1 = Render(s0.heap), Render(s1.heap)
    D = [k for k in a1 if k not in a0 or r0.p(a0[k]) != r1.p(a1[k])]

    def same(ks):
        s = s1.fork()
        for k in ks:
            key = ('attr',) + k
            if k in a0:
                s.heap[key] = a0[k]
            else:
                s.heap.pop(key)
        try:
            o = s.call(*x[:3])
        except (FL.Give, TooBig):
            return False
        return not o.rejected and o.diff(want) is None

    for g in groups:
        if g <= set(D) and same(g):
            return sorted({n for _, n in g})
    if not same(D):
        return []
    for k in list(D):
        E = [q for q in D if q != k]
        if same(E):
            D = E
    groups.append(set(D))
    return sorted({n for _, n in D})


PARTS = [lambda ck, k=k: shell_histories(ck, k) for k in ('flat', 'curved', 'sub')] + [bay_histories] + [
    lambda ck, o=o: domain_histories(ck, o) for o in (0, 1, 2)]


def part(k):
    ck = Check('C27', '')
    try:
        PARTS[k](ck)
    except (FL.Give, TooBig) as ex:
        ck.und('not analysed completely: %s' % (ex,))
    return ck


def parallel(ck, parts):
    """every part in its own process"""
    with concurrent.futures.ProcessPoolExecutor(max_workers=len(parts)) as ex:
        for c in ex.map(part, range(len(parts))):
            ck.obligations += c.obligations
            ck.discharged += c.discharged
            for v in c.violations:
                if v not in ck.violations:
                    ck.violations.append(v)
            ck.undecided += c.undecided
            ck.samples += c.samples[:3]
            for n, k in c.units.items():
                ck.count(n, k)
    Check.last = ck


def c27(tier):
    ck = Check('C27', 'Every analysis or result method is value-numbered (abstract evaluation over the syntax tree) on the abstract state that every other one leaves behind '
               'and compared with the run on a fresh object: what the native kernels are given and can read from the objects, '
               'and the returned values.')
    parallel(ck, PARTS)
    ck.need('calls on a fresh object', 120)
    ck.need('pairs of calls', 1500)
    ck.need('pairs of calls with new data in between', 1500)
    return ck


REGISTRY = {'C27': c27}
