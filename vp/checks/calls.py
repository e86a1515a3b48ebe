"""C28 every internal name, attribute and call resolves; C31 model registry."""
import ast
import copy
import itertools
import os
import re

from .. import frontend as FE
from .. import names as N
from .. import proj
from ..report import Check

SKIP = ('panels/dev/',)


# --------------------------------------------------------------------------------- call binding
def bind(f, call, shift=0, bound_kw=()):
    """error text or None, for an ast call of function f whose first `shift` parameters are bound"""
    return bind_sig(f, len([a for a in call.args if not isinstance(a, ast.Starred)]),
                    [k.arg for k in call.keywords],
                    any(isinstance(a, ast.Starred) for a in call.args), shift)


def bind_sig(f, npos, kws, star, shift=0):
    names = [p[0] for p in f.params if p[0] not in f.kwonly][shift:]
    posonly = set(names[:max(0, f.n_posonly - shift)])
    allnames = [p[0] for p in f.params][0:] if shift == 0 else names + list(f.kwonly)
    dstar = None in kws
    if npos > len(names) and not f.vararg:
        return 'takes %d positional arguments but %d are given' % (len(names), npos)
    got = set(names[:npos])
    for k in kws:
        if k is None:
            continue
        if k in got:
            return 'gets multiple values for argument %r' % k
        if (k not in allnames or k in posonly) and not f.kwarg:
            return 'gets an unexpected keyword argument %r' % k
        got.add(k)
    if not star and not dstar:
        for nm, ty, df in f.params:
            if nm in allnames and nm not in got and df is None:
                return 'misses the required argument %r' % nm
    return None


def target(t):
    """(Func, number of bound parameters, label) of a callable type; 'any' when unknown"""
    if t is None:
        return None
    if t[0] == 'fn':
        return t[1], 0, t[1].name
    if t[0] == 'bound':
        if 'staticmethod' in t[2].decorators:
            return t[2], 0, t[2].name
        return t[2], 1, '%s.%s' % (t[1].name, t[2].name)
    if t[0] == 'cls':
        c = t[1]
        if c.bases and not set(c.bases) <= {'object'}:
            return None
        if '__init__' in c.methods:
            return c.methods['__init__'], 1, c.name
        return None
    if t[0] == 'ext':
        x = N.ext_func(t[1])
        if x is not None and x[0] in ('fn', 'cls'):
            return target(x)
    return None


# ---------------------------------------------------------------------------- reaching definitions
_MODELS = []


def model_names():
    if not _MODELS:
        v = proj.mod('panels/modelDB.py').consts.get('db')
        _MODELS.append([k.value for k in v.keys if isconst(k)] if isinstance(v, ast.Dict) else [])
    return _MODELS[0]


def ckey(e):
    return ast.dump(e)


def isconst(e):
    return isinstance(e, ast.Constant)


def lits(e):
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)) and all(isconst(x) for x in e.elts):
        return tuple(x.value for x in e.elts)
    return None


def mentions(e):
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add('.' + n.attr)
    return frozenset(out)


def load(t):
    """the same target as a value"""
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())


def raises(body, func, seen=()):
    """the block never falls through nor returns"""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.Return):
            return False
        if isinstance(s, ast.If) and s.orelse and raises(s.body, func, seen) and raises(s.orelse, func, seen):
            return True
        if isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)) \
                and any(isinstance(x, ast.Return) for x in N.own_nodes(s)):
            return False
        if isinstance(s, ast.Expr) and noreturn(s.value, func, seen):
            return True
    return False


def noreturn(e, func, seen=()):
    if not isinstance(e, ast.Call):
        return False
    g = None
    if isinstance(e.func, ast.Name):
        g = func.module.funcs.get(e.func.id)
    elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
        if e.func.value.id == 'sys' and e.func.attr == 'exit':
            return True
        c = func.cls
        if c is not None and func.params and e.func.value.id == func.param_names()[0]:
            g = c.methods.get(e.func.attr)
    if g is None or g in seen or len(seen) > 3:
        return False
    return raises(g.body, g, seen + (g,))


def aliases(func):
    """local names given once, by a value that nothing in the function changes: the value"""
    if not hasattr(func, '_aliases'):
        stores, val = {}, {}
        changed = set()
        for st in func.body:
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                    stores[x.id] = stores.get(x.id, 0) + 1
                elif isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                    changed.add('.' + x.attr)
                elif isinstance(x, ast.NamedExpr):
                    stores[x.target.id] = 2
                elif isinstance(x, ast.comprehension):
                    for y in ast.walk(x.target):
                        if isinstance(y, ast.Name):
                            stores[y.id] = 2
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    val[x.targets[0].id] = x.value
        out = {}
        params = set(func.param_names())
        for k, v in val.items():
            if stores.get(k) != 1 or k in params or not isinstance(v, (ast.Attribute, ast.Compare, ast.BoolOp, ast.UnaryOp)):
                continue
            if any(isinstance(y, (ast.Call, ast.Subscript, ast.Lambda, ast.IfExp)) for y in ast.walk(v)):
                continue
            m = mentions(v)
            if m & changed or any(stores.get(z) for z in m):
                continue
            out[k] = v
        func._aliases = out
    return func._aliases


class Plain(ast.NodeTransformer):
    def __init__(self, al):
        self.al = al

    def visit_Name(self, n):
        return self.al[n.id] if isinstance(n.ctx, ast.Load) and n.id in self.al else n


_PLAIN = {}


def plain(func, e):
    """a condition with the aliases replaced by what they stand for"""
    al = aliases(func)
    if not al or not any(isinstance(x, ast.Name) and x.id in al for x in ast.walk(e)):
        return e
    if id(e) not in _PLAIN:
        _PLAIN[id(e)] = (Plain(al).visit(copy.deepcopy(e)), e)
    return _PLAIN[id(e)][0]


def often(func):
    """condition subjects that appear more than once"""
    if not hasattr(func, '_often'):
        n = {}
        for st in func.body:
            for x in N.own_nodes(st):
                if isinstance(x, ast.Assign) and isconst(x.value):
                    for t in x.targets:
                        if isinstance(t, (ast.Name, ast.Attribute)):
                            k = ckey(load(t))
                            n[k] = n.get(k, 0) + 1
                if not isinstance(x, (ast.If, ast.While, ast.Assert)):
                    continue
                todo = [plain(func, x.test)]
                while todo:
                    e = todo.pop()
                    if isinstance(e, ast.BoolOp):
                        todo += e.values
                        continue
                    if isinstance(e, ast.UnaryOp):
                        todo.append(e.operand)
                        continue
                    if isinstance(e, ast.Compare) and len(e.ops) == 1:
                        l, r = e.left, e.comparators[0]
                        ks = [ckey(l), ckey(r)] + [ckey(ast.Compare(left=l, ops=[o()], comparators=[r]))
                                                  for o in (ast.Gt, ast.GtE, ast.Eq, ast.Is, ast.In)]
                    else:
                        ks = [ckey(e)]
                    for k in set(ks):
                        n[k] = n.get(k, 0) + 1
        func._often = {k for k, v in n.items() if v > 1}
    return func._often


def skipping(body):
    """the body of a loop; what an `if` around its end leaves out is left out by a `continue` as well"""
    s = body[-1] if body else None
    if not isinstance(s, ast.If) or s.orelse:
        return body
    return list(body[:-1]) + [ast.copy_location(
        ast.If(test=s.test, body=skipping(s.body), orelse=[ast.copy_location(ast.Continue(), s)]), s)]


class Paths:
    """does a path exist on which `var` is read before it is assigned?

    A path is a sequence of branch outcomes that do not contradict each other: the same condition,
    or conditions on the same value, must agree as long as the names in them are not reassigned."""
    CAP = 3000

    def __init__(self, func, hit, assigns, reads):
        self.func, self.hit, self.assigns, self.reads = func, hit, assigns, reads
        self.found = None
        self.capped = False
        self.every = False          # keep every fact
        self.begins = None          # statement that starts the tracked paths
        self.excuse = None          # facts under which a read is fine

    def run(self):
        self.often = often(self.func)
        self.last = self.block(self.func.body, {(False, frozenset()): None})[0]
        return self.found

    # states: {(assigned, frozenset of facts): None}; fact = (kind, key, value, names)
    def block(self, body, st, loop=None):
        """-> (fallthrough states, break states, continue states)"""
        brk, cnt = {}, {}
        for s in body:
            if not st:
                break
            st, b, c = self.stmt(s, st)
            brk.update(b)
            cnt.update(c)
            if len(st) > self.CAP:
                self.capped = True
                st = {(a, frozenset()): None for a, _ in st}
        return st, brk, cnt

    def use(self, node, st):
        if self.found is not None:
            return
        if st and self.reads is not None:
            r = self.reads(node)
            if r is not None and not self.protected(r):
                if self.excuse is None or not all(self.excuse(f) for a, f in st):
                    self.found = r

    def protected(self, r):
        return False

    def kill(self, st, names):
        out = {}
        for (a, f) in st:
            out[(a, frozenset(x for x in f if not (x[3] & names)))] = None
        return out

    def assigned(self, s, st):
        names = set()
        hit = False
        for t in N.targets(s):
            if isinstance(t, ast.Name):
                names.add(t.id)
            elif isinstance(t, ast.Attribute):
                names.add('.' + t.attr)
            elif isinstance(t, ast.Subscript):
                n = t.value
                while isinstance(n, (ast.Subscript, ast.Attribute)):
                    if isinstance(n, ast.Attribute):
                        names.add('.' + n.attr)
                    n = n.value
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                names.add((a.asname or a.name).split('.')[0])
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            names.add(s.name)
        for n in ast.walk(s) if not isinstance(s, (ast.For, ast.With, ast.FunctionDef, ast.ClassDef)) else ():
            if isinstance(n, ast.NamedExpr):
                names.add(n.target.id)
        hit = self.assigns(s)
        if names:
            st = self.kill(st, frozenset(names))
        if self.begins is not None and self.begins(s):
            st = {(True, f): None for a, f in st}
        return {} if hit else st       # only the paths without an assignment matter

    def stmt(self, s, st):
        N0 = {}
        if isinstance(s, ast.If):
            self.use(s.test, st)
            t, f = self.split(s.test, st)
            t1, b1, c1 = self.block(s.body, t)
            f1, b2, c2 = self.block(s.orelse, f)
            t1.update(f1)
            b1.update(b2)
            c1.update(c2)
            return t1, b1, c1
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.use(s.iter, st)
            st = self.assigned(s, st)
            inner = self.kill(st, self.stored(s.body))
            out, b, c = self.block(skipping(s.body), inner)
            out = dict(out)
            if all(isinstance(x, ast.Continue) for x in s.body[-1:]):
                out.update(c)       # else: some iteration is taken to reach the end
            out = self.kill(out, self.stored(s.body))
            e, b2, c2 = self.block(s.orelse, out)
            e = dict(e)
            e.update(b)
            return e, {}, {}
        if isinstance(s, ast.While):
            self.use(s.test, st)
            ks = self.stored(s.body)
            st0 = self.kill(st, ks)
            t, f = self.split(s.test, st0)
            out, b, c = self.block(s.body, t)
            out = dict(out)
            out.update(c)
            out = self.kill(out, ks)
            inf = isinstance(s.test, ast.Constant) and s.test.value
            e = {} if inf else dict(out)
            e.update(b)
            return e, {}, {}
        if isinstance(s, ast.Try):
            out, b, c = self.block(s.body, st)
            hs = dict(st)
            hs.update(out)
            res = dict(out)
            if s.orelse:
                res, b2, c2 = self.block(s.orelse, res)
                b.update(b2)
                c.update(c2)
            for h in s.handlers:
                o, b2, c2 = self.block(h.body, dict(hs))
                res = dict(res)
                res.update(o)
                b.update(b2)
                c.update(c2)
            if s.finalbody:
                res, b2, c2 = self.block(s.finalbody, res)
                b.update(b2)
                c.update(c2)
            return res, b, c
        if isinstance(s, ast.With):
            for i in s.items:
                self.use(i.context_expr, st)
            st = self.assigned(s, st)
            return self.block(s.body, st)
        if isinstance(s, (ast.Return, ast.Raise)):
            self.use(s, st)
            return N0, {}, {}
        if isinstance(s, ast.Break):
            return N0, st, {}
        if isinstance(s, ast.Continue):
            return N0, {}, st
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return self.assigned(s, st), {}, {}
        if isinstance(s, ast.Assert):
            self.use(s, st)
            t, f = self.split(s.test, st)
            return t, {}, {}
        if isinstance(s, ast.AugAssign):
            self.use(s, st)
            return self.assigned(s, st), {}, {}
        self.use(s, st)
        if isinstance(s, ast.Expr) and noreturn(s.value, self.func):
            return N0, {}, {}
        st = self.assigned(s, st)
        if isinstance(s, ast.Assign) and isconst(s.value):
            for t in s.targets:
                if isinstance(t, (ast.Name, ast.Attribute)):
                    st = {(a, ff): None for (a, f) in st for ff in self.constrain(
                        ast.Compare(left=load(t), ops=[ast.Eq()], comparators=[s.value]), True, f)}
        return st, {}, {}

    def stored(self, body):
        out = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add('.' + n.attr)
        return frozenset(out)

    # conditions
    def split(self, test, st):
        t, f = {}, {}
        test = plain(self.func, test)
        for (a, facts) in st:
            for ff in self.constrain(test, True, facts):
                t[(a, ff)] = None
            for ff in self.constrain(test, False, facts):
                f[(a, ff)] = None
        return t, f

    def constrain(self, e, val, facts):
        """facts extended with e == val; [] when impossible"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.constrain(e.operand, not val, facts)
        if isinstance(e, ast.BoolOp):
            every = isinstance(e.op, ast.And)
            if every == val:
                out = [facts]
                for v in e.values:
                    out = [y for x in out for y in self.constrain(v, val, x)]
                return out
            out = []
            cur = [facts]
            for v in e.values:          # the first operand that decides
                nxt = []
                for x in cur:
                    out.extend(self.constrain(v, val, x))
                    nxt.extend(self.constrain(v, not val, x))
                cur = nxt
            return out[:8]
        if isinstance(e, ast.Constant):
            return [facts] if bool(e.value) == val else []
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op, l, r = e.ops[0], e.left, e.comparators[0]
            if isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn)):
                pos = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}[type(op)]()
                e = ast.Compare(left=l, ops=[pos], comparators=[r])
                return self.constrain(e, not val, facts)
            if isinstance(op, (ast.Eq, ast.Is)) and isconst(l) and not isconst(r):
                l, r = r, l
            if isinstance(op, (ast.Eq, ast.Is)) and isconst(r) and isinstance(r.value, bool):
                return self.constrain(l, val == r.value, facts)     # compared with a boolean: is one
            if isinstance(op, ast.In) and isconst(l) and isinstance(l.value, str) \
                    and (getattr(r, 'attr', None) or getattr(r, 'id', None)) == 'model':
                have = [l.value in k for k in model_names()]
                if have and all(x != val for x in have):
                    return []       # the registered models decide
                return [facts]
            if isinstance(op, (ast.Eq, ast.Is)) and isconst(r):
                return self.add(facts, ('is', ckey(l), r.value, mentions(l)), val)
            if isinstance(op, ast.In) and lits(r) is not None:
                return self.add(facts, ('in', ckey(l), lits(r), mentions(l)), val)
            flip = {ast.Lt: ast.GtE, ast.LtE: ast.Gt}
            if type(op) in flip:
                e2 = ast.Compare(left=l, ops=[flip[type(op)]()], comparators=[r])
                return self.constrain(e2, not val, facts)
            return self.add(facts, ('cond', ckey(e), None, mentions(e)), val)
        return self.add(facts, ('truth', ckey(e), None, mentions(e)), val)

    def add(self, facts, atom, val):
        kind, key, v, ment = atom
        eqs = [x for x in facts if x[1] == key]
        cur_true = [x[2] for x in eqs if x[0] == 'is' and x[4]]
        cur_false = [x[2] for x in eqs if x[0] == 'is' and not x[4]]
        ins_t = [x[2] for x in eqs if x[0] == 'in' and x[4]]
        ins_f = [x[2] for x in eqs if x[0] == 'in' and not x[4]]
        tr = [x[4] for x in eqs if x[0] in ('truth', 'cond')]
        new = (kind, key, v, ment, val) if self.every or key in self.often else None

        def same(a, b):
            return type(a) is type(b) and a == b or (not isinstance(a, (bool, type(None))) and
                                                     not isinstance(b, (bool, type(None))) and a == b)
        # possible values
        if kind == 'is':
            if val:
                if any(not same(c, v) for c in cur_true) or any(same(c, v) for c in cur_false):
                    return []
                if any(not any(same(v, c) for c in s) for s in ins_t) or any(any(same(v, c) for c in s) for s in ins_f):
                    return []
                if any(t != bool(v) for t in tr):
                    return []
            else:
                if any(same(c, v) for c in cur_true):
                    return []
                nf = cur_false + [v]
                if any(all(any(same(c, f) for f in nf) or any(any(same(c, q) for q in s2) for s2 in ins_f)
                           for c in s) for s in ins_t):
                    return []
        elif kind == 'in':
            if val:
                poss = [c for c in v if not any(same(c, f) for f in cur_false)
                        and not any(any(same(c, q) for q in s) for s in ins_f)]
                if not poss or any(not any(same(c, t) for c in poss) for t in cur_true):
                    return []
            else:
                if any(any(same(c, t) for c in v) for t in cur_true):
                    return []
                if any(all(any(same(c, q) for q in v) or any(same(c, f) for f in cur_false) for c in s)
                       for s in ins_t):
                    return []
        else:
            if any(t != val for t in tr):
                return []
            if any(bool(c) != val for c in cur_true):
                return []
        return [facts | {new}] if new else [facts]


# ------------------------------------------------------------------------------- definite definition
def local_names(f):
    out = set()
    glob = set()
    for st in f.body:
        for n in N.own_nodes(st):
            if isinstance(n, ast.Global):
                glob |= set(n.names)
            if isinstance(n, ast.Nonlocal):
                glob |= set(n.names)
            for t in N.targets(n) if isinstance(n, ast.stmt) else ():
                if isinstance(t, ast.Name):
                    out.add(t.id)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split('.')[0] for a in n.names}
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            if isinstance(n, ast.NamedExpr):
                out.add(n.target.id)
    return out - glob


def comp_names(e):
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.comprehension):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    out.add(x.id)
    return out


def read_of(var):
    def reads(node):
        if isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Name) and node.target.id == var:
            return node
        for n in N.own_nodes(node):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) \
                    and var in comp_names(n):
                return None
            if isinstance(n, ast.Name) and n.id == var and isinstance(n.ctx, ast.Load):
                return n
        return None
    return reads


def assign_of(var):
    def assigns(s):
        for t in N.targets(s):
            if isinstance(t, ast.Name) and t.id == var:
                return True
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return any((a.asname or a.name).split('.')[0] == var for a in s.names)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return s.name == var
        if isinstance(s, (ast.Expr, ast.Assign, ast.If, ast.While, ast.Return)):
            return any(isinstance(n, ast.NamedExpr) and n.target.id == var for n in ast.walk(s))
        return False
    return assigns


def loops_over(f, var):
    """loops containing an assignment of var"""
    out = []
    for st in f.body:
        for n in N.own_nodes(st):
            if isinstance(n, (ast.For, ast.While)) and any(assign_of(var)(x) for b in n.body for x in ast.walk(b)):
                out.append(n)
    return out


def inside(loop, node):
    return any(x is node for b in loop.body for x in ast.walk(b))


# ------------------------------------------------------------------------------------------- walking
class Walker:
    def __init__(self, ck, pkg, mod, rel):
        self.ck, self.pkg, self.mod, self.rel = ck, pkg, mod, rel
        self.exports = pkg.exports(mod)

    def where(self, n):
        return '%s:%d' % (self.rel, getattr(n, 'lineno', 0))

    def function(self, f, cls=None, outer=()):
        ck = self.ck
        ck.count('functions')
        label = '%s.%s' % (cls.name, f.name) if cls else f.name
        sc = N.Scope(self.pkg, f, self.mod, cls, outer[-1] if outer else None)
        loc = local_names(f) | set(f.param_names()) | {x for x in (f.vararg, f.kwarg) if x}
        chain = [set(o.names) for o in outer] + [loc]
        sc.names = loc
        guards = self.hasattr_names(f)
        for st in f.body:
            self.tree(st, sc, chain, label, guards, cls, outer)
        self.unbound(f, label)

    def hasattr_names(self, f):
        out = set()
        for st in f.body:
            for n in ast.walk(st):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr') \
                        and len(n.args) > 1 and isconst(n.args[1]):
                    out.add(n.args[1].value)
                if isinstance(n, ast.ExceptHandler) and n.type is not None \
                        and 'AttributeError' in ast.unparse(n.type):
                    out.add('*')
        return out

    def tree(self, n, sc, chain, label, guards, cls, outer):
        """visit with scope handling"""
        if isinstance(n, ast.FunctionDef):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None] + n.decorator_list:
                self.tree(d, sc, chain, label, guards, cls, outer)
            g = N.nested(n, self.mod)
            s2 = N.Scope(self.pkg, g, self.mod, None, sc)
            s2.names = local_names(g) | set(g.param_names()) | {x for x in (g.vararg, g.kwarg) if x}
            for st in g.body:
                self.tree(st, s2, chain + [s2.names], label + '.' + n.name, guards, cls, outer)
            return
        if isinstance(n, ast.Lambda):
            a = n.args
            ps = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | {p.arg for p in (a.vararg, a.kwarg) if p}
            for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
                self.tree(d, sc, chain, label, guards, cls, outer)
            s2 = Shadow(sc, ps)
            self.tree(n.body, s2, chain + [ps], label, guards, cls, outer)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            chain = chain + [comp_names(n)]
        elif isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.name(n, chain, label)
        elif isinstance(n, ast.Attribute):
            self.attribute(n, sc, label, guards)
        elif isinstance(n, ast.Call):
            self.call(n, sc, label, guards)
        for c in ast.iter_child_nodes(n):
            self.tree(c, sc, chain, label, guards, cls, outer)

    def name(self, n, chain, label):
        if any(n.id in c for c in chain) or n.id in N.BUILTINS:
            self.ck.ok()
            return
        if self.exports is None:
            self.ck.und('%s: names of %s unknown' % (label, self.rel))
            return
        if n.id in self.exports:
            self.ck.ok()
            return
        self.ck.bad('name', self.where(n), '%s:%s:%s' % (self.rel, label, n.id),
                    '%s uses the undefined name %r' % (label, n.id))

    def attribute(self, n, sc, label, guards):
        ck = self.ck
        ts = N.alts(sc.type(n.value))
        if not ts:
            return
        if n.attr in guards or '*' in guards or n.attr.startswith('__'):
            return
        load = isinstance(n.ctx, ast.Load)
        miss = []
        for t in ts:
            if t[0] == 'mod':
                ex = self.pkg.exports(t[1])
                if ex is None or not load:
                    return
                ck.count('module attributes')
                if n.attr not in ex:
                    miss.append('module %s' % self.pkg.dotted[id(t[1])])
            elif t[0] == 'ext':
                if not load or N.ext_file(t[1]) is None:
                    return
                ex = N.ext_names(t[1])
                if ex is None:
                    return
                ck.count('library attributes')
                if n.attr not in ex:
                    miss.append('module %s' % t[1])
            elif t[0] == 'inst':
                c = t[1]
                if self.pkg.opened(c):
                    return
                sl = self.pkg.slots(c)
                ck.count('instance attributes')
                if load:
                    if n.attr not in self.pkg.class_attrs(c):
                        miss.append('class %s' % c.name)
                elif sl is not None and n.attr not in sl and n.attr not in c.methods:
                    miss.append('__slots__ of %s' % c.name)
            else:
                return
        if len(miss) < len(ts):
            ck.ok()
            return
        ck.bad('attribute', self.where(n), '%s:%s:%s' % (self.rel, label, n.attr),
               '%s %s %r, which %s does not have' % (label, 'reads' if load else 'writes', n.attr,
                                                    ' / '.join(sorted(set(miss)))))

    def call(self, n, sc, label, guards):
        ck = self.ck
        if isinstance(n.func, ast.Name) and n.func.id in ('getattr', 'setattr') and len(n.args) > 1 \
                and isconst(n.args[1]) and isinstance(n.args[1].value, str) and not (
                    n.func.id == 'getattr' and len(n.args) > 2):
            a = ast.Attribute(value=n.args[0], attr=n.args[1].value,
                              ctx=ast.Load() if n.func.id == 'getattr' else ast.Store())
            ast.copy_location(a, n)
            self.attribute(a, sc, label, set())
        if isinstance(n.func, ast.Name) and n.func.id == 'partial' and n.args:
            ts = N.alts(sc.type(n.args[0]))
            for t in ts:
                x = target(t)
                if x is None:
                    continue
                f, shift, lab = x
                e = bind_sig(f, len(n.args) - 1, [k.arg for k in n.keywords], True, shift)
                if e:
                    ck.bad('call', self.where(n), '%s:%s:%s' % (self.rel, label, lab), '%s: partial of %s %s' % (label, lab, e))
                else:
                    ck.ok()
            return
        ts = N.alts(sc.type(n.func))
        errs, good = [], 0
        for t in ts:
            x = target(t)
            if x is None:
                good += 1
                continue
            f, shift, lab = x
            ck.count('calls bound')
            e = bind(f, n, shift)
            if e:
                errs.append((lab, e))
            else:
                good += 1
                ck.ok()
        dbs = [t for t in ts if t[0] == 'fn']
        if errs and (not good or len(dbs) == len(ts)):
            for lab, e in errs:
                ck.bad('call', self.where(n), '%s:%s:%s' % (self.rel, label, lab), '%s: the call of %s %s' % (label, lab, e))
        self.callbacks(n, sc, label)

    # callables handed to the solver package
    def callbacks(self, n, sc, label):
        t = sc.type(n.func)
        if t is None or isinstance(t, N.One) or t[0] != 'ext':
            return
        x = N.ext_func(t[1])
        if x is None or x[0] != 'cls' or '__init__' not in x[1].methods:
            return
        proto = protocol(x[1])
        names = x[1].methods['__init__'].param_names()[1:]
        given = dict(zip(names, n.args))
        given.update({k.arg: k.value for k in n.keywords if k.arg})
        for nm, v in given.items():
            for c in proto.get(nm, ()):
                for fv, f, shift, used, lab in self.callables(v, sc):
                    if any(k in proto['?' + nm] and k not in f.param_names() for k in c[1]):
                        continue        # the solver asks first whether the argument is declared
                    self.ck.count('callback calls bound')
                    kws = [k for k in c[1]] + list(used)
                    e = bind_sig(f, c[0] , kws, c[2], shift) if not (set(used) & set(c[1])) else \
                        bind_sig(f, c[0], list(dict.fromkeys(kws)), c[2], shift)
                    if e:
                        self.ck.bad('callback', self.where(n), '%s:%s:%s' % (self.rel, label, nm),
                                    '%s: the solver calls %s as %s(%s), but %s %s' % (
                                        label, lab, nm, ', '.join(['...'] * c[0] + ['%s=' % k for k in c[1]]), lab, e))
                    else:
                        self.ck.ok()

    def callables(self, v, sc):
        if isinstance(v, ast.Lambda):
            f = FE.Func('lambda', [], [], v.lineno, self.mod)
            a = v.args
            allp = list(a.posonlyargs) + list(a.args)
            d = [None] * (len(allp) - len(a.defaults)) + list(a.defaults)
            f.params = [(p.arg, None, x) for p, x in zip(allp, d)] + \
                [(p.arg, None, x) for p, x in zip(a.kwonlyargs, a.kw_defaults)]
            f.kwonly = [p.arg for p in a.kwonlyargs]
            f.vararg = a.vararg.arg if a.vararg else None
            f.kwarg = a.kwarg.arg if a.kwarg else None
            yield v, f, 0, (), 'the lambda'
            return
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'partial' and v.args:
            for t in N.alts(sc.type(v.args[0])):
                x = target(t)
                if x:
                    yield v, x[0], x[1] + len(v.args) - 1, tuple(k.arg for k in v.keywords if k.arg), x[2]
            return
        for t in N.alts(sc.type(v)):
            x = target(t)
            if x:
                yield v, x[0], x[1], (), x[2]

    # reaching definitions
    def unbound(self, f, label):
        ck = self.ck
        params = set(f.param_names()) | {x for x in (f.vararg, f.kwarg) if x}
        for var in sorted(local_names(f) - params):
            p = Paths(f, None, assign_of(var), read_of(var))
            lo = loops_over(f, var)

            # loops that give the variable a value that does not come from the variable itself
            lo = [l for l in lo if any(
                isinstance(x, ast.stmt) and assign_of(var)(x) and (
                    isinstance(x, (ast.For, ast.With)) or read_of(var)(x) is None)
                for b in l.body + [l] for x in ast.walk(b))]

            def protected(r, lo=lo):
                # a value carried over from the previous iteration
                return any(inside(l, r) and any(isinstance(x, ast.If) and inside_if(x, r) and not own_element(l, x.test)
                                                for b in l.body for x in ast.walk(b)) for l in lo)
            p.protected = protected
            r = p.run()
            ck.count('local variables')
            if r is not None:
                ck.bad('unbound', self.where(r), '%s:%s:%s' % (self.rel, label, var),
                       '%s: there is a path on which %r is read before it is assigned' % (label, var))
            elif p.capped:
                ck.und('%s: too many paths for the definition of %r' % (label, var))
            else:
                ck.ok()


def c_unbound(f):
    """[(variable, first read)] of the C variables and arrays of a kernel that a path reads before they get a value"""
    scalars = {v for v, t in f.ctypes.items() if t and re.match(r'(unsigned |signed )?(double|float|int|long|size_t|Py_ssize_t|bint)'
                                                               r'(\[[:,]+\])?( ?\*)?$', t)}
    scalars -= set(f.param_names())
    body = [copy.deepcopy(s) for s in f.body]
    taken = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.stmt):
                for t in N.targets(n):
                    if isinstance(t, (ast.Name, ast.Tuple, ast.List)):
                        for x in ast.walk(t):
                            if isinstance(x, (ast.Name, ast.Tuple, ast.List)):
                                x.ctx = ast.Store()
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id.startswith(('__addr', 'addr', '&')):
                taken |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
    g = FE.Func(f.name, f.params, body, f.lineno, f.module, f.kind)
    g.vararg, g.kwarg, g.ctypes = f.vararg, f.kwarg, f.ctypes
    out = []
    for var in sorted(maybe_unbound(body, local_names(g) & scalars - taken)):
        r = first_unbound(g, var)
        if r is not None:
            out.append((var, r))
    return out


def maybe_unbound(body, names):
    """the names that are not assigned on every way to one of their reads (loops run at least once)"""
    out = set()

    def reads(e, done):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and n.id not in done:
                out.add(n.id)

    def block(b, done):
        for s in b:
            done = stmt(s, done)
            if done is None:
                return None
        return done

    def join(a, b):
        return b if a is None else a if b is None else a & b

    def stmt(s, done):
        if isinstance(s, ast.If):
            reads(s.test, done)
            return join(block(s.body, done), block(s.orelse, done))
        if isinstance(s, (ast.For, ast.While)):
            reads(s.iter if isinstance(s, ast.For) else s.test, done)
            d = done
            if isinstance(s, ast.For):
                d = d | {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
            e = block(s.body, d)
            e = d if e is None else e
            if any(isinstance(x, (ast.Break, ast.Continue)) for b in s.body for x in ast.walk(b)):
                # what is assigned after such a statement may be missing behind the loop
                e = e & once(s.body, d)
            f = block(s.orelse, e)
            return e if f is None else f
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                reads(i.context_expr, done)
            return block(s.body, done)
        if isinstance(s, ast.Try):
            e = block(s.body, done)
            for h in s.handlers:
                e = join(e, block(h.body, done))
            return block(s.finalbody, e if e is not None else done)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return done
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            if s.target.id in names and s.target.id not in done:
                out.add(s.target.id)
        reads(s, done)
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return None
        return done | {t.id for t in N.targets(s) if isinstance(t, ast.Name)}

    def once(b, d):
        done = set(d)
        for s in b:
            if any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)):
                break
            done |= {t.id for x in ast.walk(s) if isinstance(x, ast.stmt) for t in N.targets(x) if isinstance(t, ast.Name)}
        return done
    block(body, frozenset())
    return out


def first_unbound(f, var):
    p = Paths(f, None, assign_of(var), read_of(var))
    lo = [l for l in loops_over(f, var) if any(
        isinstance(x, ast.stmt) and assign_of(var)(x) and (
            isinstance(x, (ast.For, ast.With)) or read_of(var)(x) is None)
        for b in l.body + [l] for x in ast.walk(b))]

    def protected(r, lo=lo):
        # a value carried over from the previous iteration
        return any(inside(l, r) and any(isinstance(x, ast.If) and inside_if(x, r)
                                        for b in l.body for x in ast.walk(b)) for l in lo)
    p.protected = protected
    r = p.run()
    return r if r is not None else ('capped' if p.capped else None)


def own_element(loop, test):
    """the test only asks which entries of the element of this iteration are None: it says nothing about an earlier one"""
    if not isinstance(loop, ast.For) or not isinstance(loop.target, (ast.Tuple, ast.List, ast.Name)):
        return False
    mine = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
    mine &= {x.id for x in ast.walk(test) if isinstance(x, ast.Name)}
    for b in loop.body:
        for s in ast.walk(b):
            if isinstance(s, ast.stmt) and any(isinstance(t, ast.Name) and t.id in mine for t in N.targets(s)):
                return False

    def ok(e):
        if isinstance(e, ast.BoolOp):
            return all(ok(v) for v in e.values)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return ok(e.operand)
        return isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and \
            isinstance(e.left, ast.Name) and e.left.id in mine and isconst(e.comparators[0]) and \
            e.comparators[0].value is None
    return ok(test)


def inside_if(x, r):
    return any(y is r for b in x.body + x.orelse for y in ast.walk(b))


class Shadow:
    """a scope in which some names are unknown"""

    def __init__(self, sc, names):
        self.sc, self.hide = sc, names
        self.pkg, self.mod, self.cls, self.func = sc.pkg, sc.mod, sc.cls, sc.func
        self.names = names

    def name(self, n):
        return None if n in self.hide else self.sc.name(n)

    def type(self, e):
        if any(isinstance(n, ast.Name) and n.id in self.hide for n in ast.walk(e)):
            return None
        return self.sc.type(e)


_PROTO = {}


def protocol(cls):
    """how the solver package calls the callables stored on an instance: name -> [(npos, kws, star)]"""
    k = cls.module.path
    if k in _PROTO:
        return _PROTO[k]
    names = set(cls.methods['__init__'].param_names()[1:])
    out = {'?' + n: set() for n in names}
    d = os.path.dirname(k)
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.py'):
            continue
        for n in ast.walk(ast.parse(open(os.path.join(d, fn)).read())):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and len(n.args) == 2 \
                    and (n.func.id if isinstance(n.func, ast.Name) else n.func.attr) == 'accepts_kwarg' \
                    and isinstance(n.args[0], ast.Attribute) and isconst(n.args[1]) and n.args[0].attr in names:
                out['?' + n.args[0].attr].add(n.args[1].value)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names \
                    and isinstance(n.func.value, ast.Name) and n.func.value.id != 'callbacks':
                c = (len(n.args), tuple(x.arg for x in n.keywords if x.arg), False)
                if c not in out.setdefault(n.func.attr, []):
                    out[n.func.attr].append(c)
    _PROTO[k] = out
    return out


# ------------------------------------------------------------------------------------ kernels' inputs
def kernel_reads(ck, pkg):
    """attributes that Cython functions read from the Python objects they receive"""
    for d, m in sorted(pkg.mods.items()):
        if m is None or m.lang == 'py':
            continue
        rel = pkg.rel(m)
        for f in m.funcs.values():
            if f.kind == 'cdef' and not f.cpdef:
                continue
            typed = {}
            for nm, ty, _ in f.params:
                if ty in (None, 'object', '') and N.PARAMS.get(nm, '').startswith(('Shell', 'Stiff')):
                    typed[nm] = pkg.named(N.PARAMS[nm])
            for st in f.body:
                for n in ast.walk(st):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in typed:
                        t = typed[n.value.id]
                        if t is None or n.attr.startswith('__'):
                            continue
                        c = t[1]
                        if pkg.opened(c):
                            continue
                        ck.count('kernel attribute reads')
                        wh = '%s:%d' % (rel, getattr(n, 'lineno', f.lineno))
                        if n.attr not in pkg.class_attrs(c):
                            ck.bad('attribute', wh, '%s:%s:%s' % (rel, f.name, n.attr),
                                   '%s reads %r of its %s, which %s does not have' % (f.name, n.attr, n.value.id, c.name))
                        elif n.attr not in pkg.init_attrs(c):
                            ck.bad('late', wh, '%s:%s:%s' % (rel, f.name, n.attr),
                                   '%s reads %r of its %s, which is not set when the %s is created' % (
                                       f.name, n.attr, n.value.id, c.name))
                        else:
                            ck.ok()


def c28(tier):
    ck = Check('C28', 'Every name, module attribute, instance attribute and call of the package is '
               'resolved statically (imports, star imports, classes, slots, signatures, the solver '
               'package\'s own calls of the callables it is given), and every read of a local variable '
               'must be preceded by an assignment on every path whose branch outcomes do not contradict '
               'each other.')
    pkg = N.Package()
    pkg.collect_sites()
    for d in sorted(pkg.mods):
        m = pkg.mods[d]
        if m is None or m.lang != 'py':
            continue
        rel = pkg.rel(m)
        if rel.startswith(SKIP):
            continue
        ck.count('modules')
        w = Walker(ck, pkg, m, rel)
        for f in m.funcs.values():
            w.function(f)
        for c in m.classes.values():
            for f in c.methods.values():
                w.function(f, c)
        # module level code
        top = FE.Func('<module>', [], [s for s in m.tree.body
                                       if not isinstance(s, (ast.FunctionDef, ast.ClassDef))], 1, m)
        sc = N.Scope(pkg, None, m)
        for st in top.body:
            w.tree(st, sc, [], '<module>', set(), None, ())
        for n, i in m.imports.items():
            imports(ck, pkg, m, rel, n, i)
    late(ck, pkg)
    kernel_reads(ck, pkg)
    ck.need('functions', 60)
    ck.need('calls bound', 100)
    return ck


def imports(ck, pkg, m, rel, n, i):
    if i[0] != 'from':
        return
    d = proj.RESOLVE.absolute(m, i[1]) if i[1].startswith('.') else i[1]
    t = pkg.mods.get(d)
    if t is not None:
        ex = pkg.exports(t)
        if ex is not None and i[2] not in ex:
            ck.bad('import', '%s:1' % rel, '%s:%s' % (rel, i[2]), '%s imports %s, which %s does not define' % (rel, i[2], d))
        else:
            ck.ok()


def self_assign(c, s, var, depth=0):
    """statement predicate: assigns self.var, or calls a method of the class that always does"""
    def assigns(st):
        for t in N.targets(st):
            if isinstance(t, ast.Attribute) and t.attr == var and isinstance(t.value, ast.Name) and t.value.id == s:
                return True
        if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return)):
            for n in ast.walk(st):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                        and isinstance(n.func.value, ast.Name) and n.func.value.id == s \
                        and n.func.attr in c.methods and depth < 4 \
                        and always(c, c.methods[n.func.attr], var, depth + 1):
                    return True
                if isinstance(n, ast.Call) and depth < 4 and any(
                        always(c, g, var, depth + 1, p) for g, p in N.handed(c.module, n, s)):
                    return True
        return False
    return assigns


def always(c, f, var, depth=0, s=None):
    """does the method (or a function given the instance) assign self.var on every path that returns?"""
    key = (id(f), var, s)
    if key in _ALWAYS:
        return _ALWAYS[key]
    _ALWAYS[key] = False
    if not f.params:
        return False
    end = ast.Pass()
    s = s or f.param_names()[0]
    g = FE.Func(f.name, f.params, list(f.body) + [end], f.lineno, f.module)
    p = Paths(g, None, self_assign(c, s, var, depth),
              lambda n: n if n is end or isinstance(n, ast.Return) else None)
    _ALWAYS[key] = p.run() is None and not p.capped
    return _ALWAYS[key]


_ALWAYS = {}


def together(pkg, c, y, x):
    """whenever the class gives self.y a value, it also sets self.x (and self.y starts as None)"""
    key = (id(c), y, x)
    if key in _TOGETHER:
        return _TOGETHER[key]
    good, some = True, False
    for f in c.methods.values():
        if not f.params:
            continue
        s = f.param_names()[0]

        def given(st, s=s):
            if not isinstance(st, (ast.Assign, ast.AnnAssign)) or \
                    isinstance(st.value, ast.Constant) and st.value.value is None:
                return False
            return any(isinstance(t, ast.Attribute) and t.attr == y and isinstance(t.value, ast.Name)
                       and t.value.id == s for t in N.targets(st))
        if not any(given(n) for st in f.body for n in ast.walk(st) if isinstance(n, ast.stmt)):
            continue
        some = True
        p = Paths(f, None, self_assign(c, s, x), None)
        p.every = True
        p.begins = given
        p.run()
        good = good and not p.capped and not any(a for a, _ in p.last)
    init = c.methods.get('__init__')
    none = init is not None and any(
        isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant) and st.value.value is None
        and any(isinstance(t, ast.Attribute) and t.attr == y for t in N.targets(st)) for st in init.body)
    _TOGETHER[key] = good and some and none
    return _TOGETHER[key]


_TOGETHER = {}


def late(ck, pkg):
    """instance attributes that are not set by the constructor"""
    for n, c in sorted(pkg.classes.items()):
        if c.module.lang != 'py' or proj.relpath(c.module.path).startswith(SKIP):
            continue
        if pkg.opened(c):
            continue
        init = pkg.init_attrs(c)
        every = pkg.class_attrs(c)
        rel = proj.relpath(c.module.path)
        for a in sorted(every - init):
            if a.startswith('__'):
                continue
            for f in c.methods.values():
                if not f.params or f.name.startswith('_'):
                    continue
                s = f.param_names()[0]

                def reads(node, s=s, a=a):
                    for x in N.own_nodes(node):
                        if isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.ctx, ast.Load) \
                                and isinstance(x.value, ast.Name) and x.value.id == s:
                            return x
                    return None
                if not any(reads(st) is not None for st in f.body):
                    continue
                ck.count('late attribute reads')
                p = Paths(f, None, self_assign(c, s, a), reads)
                p.every = True

                def excuse(facts, s=s, a=a):
                    for x in facts:
                        if not (x[0] == 'is' and x[2] is None and not x[4] or x[0] == 'truth' and x[4]):
                            continue
                        for y in x[3]:
                            if y.startswith('.') and x[1] == ckey(ast.Attribute(
                                    value=ast.Name(id=s, ctx=ast.Load()), attr=y[1:], ctx=ast.Load())) \
                                    and together(pkg, c, y[1:], a):
                                return True
                    return False
                p.excuse = excuse
                r = p.run()
                if r is None:
                    ck.ok() if not p.capped else ck.und('%s.%s: too many paths for %s' % (n, f.name, a))
                else:
                    ck.bad('late', '%s:%d' % (rel, r.lineno), '%s:%s.%s:%s' % (rel, n, f.name, a),
                           '%s.%s can read self.%s before it is set: the constructor does not set it and no '
                           'assignment precedes the read on some path' % (n, f.name, a))


REGISTRY = {'C28': c28}
