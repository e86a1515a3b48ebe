"""Results are computed in double precision: no type of less precision on the way.

The value analyses treat numbers as exact, so a narrower type (a C `float`, numpy's float32, an array of
integers that receives lengths) would be invisible to them.  This lint closes that gap for every source file
that the check of a property rests on."""
import ast
import os
import re
from .. import frontend as FE
from .. import proj

NARROW = {'float32', 'float16', 'single', 'half', 'complex64', 'csingle', 'c_float'}
NARROW_STR = {'float32', 'float16', 'single', 'half', 'f4', '<f4', '>f4', '=f4', 'f2', '<f2', 'f', 'e', 'complex64', 'c8'}
M, CN, ST = 'panels/models/', 'panels/multidomain/connections/', 'panels/stiffener/models/'

# kernels by function name: (file, name pattern, property)
BYNAME = [
    (M + '(plate|cylshell)_clpt_donnell_bardell.pyx', r'^c?fkG', 'C06'), (M + '(plate|cylshell)_clpt_donnell_bardell.pyx', r'^c?fkM', 'C08'),
    (M + '(plate|cylshell)_clpt_donnell_bardell.pyx', r'^c?f[kc]A', 'C09'), (M + '(plate|cylshell)_clpt_donnell_bardell.pyx', r'', 'C04'),
    (M + '.*_num.pyx', r'^c?fkG', 'C06'), (M + '.*_num.pyx', r'^c?fkM', 'C08'), (M + '.*_num.pyx', r'^c?(calc_)?fint', 'C07'),
    (M + '.*_num.pyx', r'^c?f[kc]A', 'C09'), (M + '.*_num.pyx', r'', 'C05'),
    (M + 'clpt_bardell_field.pyx', r'strain', 'C11'), (M + 'clpt_bardell_field.pyx', r'', 'C10'),
    (CN + 'kCSS.*', r'', 'C13'), (CN + 'kCBF.*', r'', 'C14'), (CN + 'kCSB.*', r'', 'C15'), (CN + 'kCpd.*', r'', 'C16'),
    (CN + 'penalties.py', r'', 'C24'),
    (ST + 'bladestiff1d.*', r'', 'C17'), (ST + 'bladestiff2d.*', r'', 'C18'),
    ('panels/bardell.pyx', r'', 'C02'), ('panels/legendre.*', r'', 'C03'),
    ('panels/core/src/.*functions.*', r'', 'C01'), ('panels/core/.*legendre.*', r'', 'C03'), ('panels/core/.*', r'', 'C02'),
    ('panels/(shell|multidomain/multidomain|stiffpanelbay/stiffpanelbay).py', r'plot', None), ('panels/shell.py', r'fint', 'C07'), ('panels/shell.py', r'kC', 'C05'), ('panels/shell.py', r'kG', 'C06'),
    ('panels/shell.py', r'kM', 'C08'), ('panels/shell.py', r'[kc]A', 'C09'), ('panels/shell.py', r'uvw', 'C10'),
    ('panels/shell.py', r'strain', 'C11'), ('panels/shell.py', r'stress|force', 'C12'), ('panels/shell.py', r'fext', 'C22'),
    ('panels/shell.py', r'', 'C26'), ('panels/shell_fext.py', r'', 'C22'), ('panels/dev/matrixtools.py', r'', 'C21'),
    ('panels/multidomain/multidomain.py', r'^(calc_(fext))', 'C22'),
    ('panels/multidomain/multidomain.py', r'^(calc_|get_k|get_size)', 'C20'), ('panels/multidomain/multidomain.py', r'', 'C25'),
    ('panels/multidomain/(cylinder|tstiff).*', r'', 'C33'), ('panels/stiffpanelbay/.*', r'', 'C32'),
    ('panels/stiffener/bladestiff1d.py', r'', 'C17'), ('panels/stiffener/bladestiff2d.py', r'', 'C32'),
]


def owner(rel, fn):
    for f, pat, pid in BYNAME:
        if re.fullmatch(f, rel) and re.search(pat, fn or ''):
            return pid
    return None


def apply(ck):
    """adds the obligations of the property of `ck`"""
    pid = ck.pid
    n = 0
    for p in proj.sources(('.py', '.pyx', '.cpp', '.hpp', '.h', '.c')):
        rel = os.path.relpath(p, proj.REPO)
        if '/build/' in rel or not any(re.fullmatch(f, rel) and q == pid for f, _, q in BYNAME):
            continue
        with open(p, encoding='utf-8', errors='replace') as fh:
            text = fh.read()
        if 'Generated by Cython' in text[:200]:
            continue
        try:
            found = python(text) if rel.endswith('.py') else native(text, rel)
        except (SyntaxError, ValueError):
            continue
        n += 1
        for line, fn, what in found:
            if owner(rel, fn) == pid:
                ck.bad('precision', '%s:%d' % (rel, line), '%s:%s:%s' % (rel, fn or 'module', what),
                       '%s: %s keeps less than double precision' % (fn or 'module', what))
        ck.ok()
    if n:
        ck.count('files searched for narrower number types', n)


def locals_set(ck):
    """no path of a compiled function of the property reads a local before it has a value"""
    from . import calls
    pid, n = ck.pid, 0
    for p in proj.sources(('.pyx',)):
        rel = os.path.relpath(p, proj.REPO)
        if pid != 'C19' and not any(re.fullmatch(f, rel) and q == pid for f, _, q in BYNAME):
            continue
        try:
            funcs = sorted(proj.mod(rel).funcs.items())
        except FE.AnalysisBroken:
            continue            # reported by the checks that need the file
        for nm, f in funcs:
            if pid != 'C19' and owner(rel, nm) != pid:
                continue
            n += 1
            for var, r in calls.c_unbound(f):
                if r == 'capped':
                    ck.und('%s: too many paths for the definition of %r' % (nm, var))
                else:
                    ck.bad('unbound', '%s:%d' % (rel, r.lineno), '%s:%s:%s' % (rel, nm, var),
                           '%s: there is a path on which the local %r is read before it has a value' % (nm, var))
            ck.ok()
    if n:
        ck.count('compiled functions whose locals are set before use', n)


# ------------------------------------------------------------------ python
def narrow_type(e):
    if isinstance(e, ast.Attribute):
        return e.attr if e.attr in NARROW else None
    if isinstance(e, ast.Name):
        return e.id if e.id in NARROW else None
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value if e.value in NARROW_STR else None
    return None


def int_type(e):
    if isinstance(e, ast.Attribute):
        return re.match(r'u?int(\d+|p|c|_)?$', e.attr) is not None
    if isinstance(e, ast.Name):
        return e.id in ('int', 'INT', 'bool', 'long')
    return isinstance(e, ast.Constant) and isinstance(e.value, str) and re.match(r'[<>=]?(u?int\d*|[iu][1248]|i|l)$', e.value) is not None


INTS = {'m', 'n', 'nx', 'ny', 'size', 'row0', 'col0', 'row_start', 'col_start', 'row_end', 'col_end', 'shape', 'ndim', 'num_cores'}
MAKERS = {'zeros': 1, 'empty': 1, 'ones': 1, 'full': 2, 'zeros_like': 1, 'empty_like': 1, 'ones_like': 1, 'full_like': 2}


def python(text):
    tree = ast.parse(text)
    out = []

    def walk(node, fn):
        for ch in ast.iter_child_nodes(node):
            sub = fn
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                sub = ch.name if fn is None else fn
                if fn is None:
                    ints(ch, out)
            typed(ch, sub, out)
            walk(ch, sub)
    walk(tree, None)
    return out


def typed(n, fn, out):
    if isinstance(n, ast.Call):
        f = n.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if nm in NARROW and len(n.args) == 1:
            out.append((n.lineno, fn, nm))
        for k in n.keywords:
            if k.arg == 'dtype' and narrow_type(k.value):
                out.append((n.lineno, fn, narrow_type(k.value)))
        if nm == 'astype' and n.args and narrow_type(n.args[0]):
            out.append((n.lineno, fn, narrow_type(n.args[0])))
        if nm in MAKERS and len(n.args) > MAKERS[nm] and narrow_type(n.args[MAKERS[nm]]):
            out.append((n.lineno, fn, narrow_type(n.args[MAKERS[nm]])))
        if nm in ('array', 'asarray', 'ascontiguousarray', 'dtype') and len(n.args) > (0 if nm == 'dtype' else 1) and \
                narrow_type(n.args[0 if nm == 'dtype' else 1]):
            out.append((n.lineno, fn, narrow_type(n.args[0 if nm == 'dtype' else 1])))
    elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr in NARROW:
        out.append((n.lineno, fn, n.value.attr))


def real(v):
    """the expression certainly is not a whole number in general"""
    if isinstance(v, ast.BinOp):
        return isinstance(v.op, ast.Div) or real(v.left) or real(v.right)
    if isinstance(v, ast.Attribute):
        return v.attr not in INTS and isinstance(v.value, (ast.Name, ast.Attribute))
    if isinstance(v, ast.Constant):
        return isinstance(v.value, float) and v.value != int(v.value)
    return False


def ints(f, out):
    """arrays of whole numbers that receive real numbers"""
    made = {}
    for n in ast.walk(f):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
            c = n.value
            nm = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
            if nm in MAKERS:
                d = next((k.value for k in c.keywords if k.arg == 'dtype'), None)
                if d is None and len(c.args) > MAKERS[nm]:
                    d = c.args[MAKERS[nm]]
                if d is not None and int_type(d):
                    made[n.targets[0].id] = n
    for n in ast.walk(f):
        t = n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else n.target if isinstance(n, ast.AugAssign) else None
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in made and real(n.value):
            out.append((made[t.value.id].lineno, f.name, 'the array of whole numbers %s' % t.value.id))


# ------------------------------------------------------------------ cython, C++
def native(text, rel):
    pyx = rel.endswith('.pyx')
    blank = lambda m: re.sub(r'[^\n]', ' ', m.group(0))
    strings = []

    def string(m):
        strings.append((m.start(), m.group(0)[1:-1]))
        return blank(m)
    if pyx:
        text = re.sub(r'[rRuU]?("""|\'\'\')(.|\n)*?\1', blank, text)
        text = re.sub(r'"[^"\n]*"|\'[^\'\n]*\'|#[^\n]*', lambda m: blank(m) if m.group(0)[0] == '#' else string(m), text)
    else:
        text = re.sub(r'/\*(.|\n)*?\*/|//[^\n]*|"(\\.|[^"\\\n])*"', blank, text)
    heads = [(m.start(), m.group(1)) for m in re.finditer(
        r'^(?:cdef|cpdef|def)\b[^=\n]*?\b(\w+)\s*\(' if pyx else
        r'^[A-Za-z_][\w:<>,&*\s]*?[\s*&](\w+)\s*\([^;{}]*\)\s*(?:const|noexcept)?\s*\{', text, re.M)]

    def place(pos):
        fn = None
        for s, nm in heads:
            if s <= pos:
                fn = nm
        return text.count('\n', 0, pos) + 1, fn
    out = []
    word = r'\b(%s)\b' % '|'.join(sorted(NARROW | {'float'}))
    for m in re.finditer(word, text):
        if m.group(1) == 'float':
            rest = text[m.end():].lstrip()
            before = text[:m.start()].rstrip()
            if pyx and (rest[:1] in '(),.=:' or before[-1:] in '=,' and rest[:1] in ',)' or before.endswith('np.')):
                continue        # the builtin of python is a double
            if not pyx and re.search(r'[\w.]$', text[:m.start()]):
                continue
        elif pyx and not re.search(r'\.\s*$', text[:m.start()]) and m.group(1) in ('single', 'half'):
            continue
        elif not pyx and m.group(1) in ('single', 'half'):
            continue
        out.append(place(m.start()) + (m.group(1),))
    for pos, s in strings:
        if s in NARROW_STR and len(s) > 1:
            out.append(place(pos) + (s,))
    # literals of the narrow type: 0.1f
    if not pyx:
        for m in re.finditer(r'(?<![\w.])(\d+\.\d*|\.\d+|\d+(?=[eE]))([eE][+-]?\d+)?[fF]\b', text):
            v = m.group(0)
            if exactly(v[:-1]):
                continue
            out.append(place(m.start()) + (v,))
    return out


def exactly(v):
    import struct
    try:
        x = float(v)
        return struct.unpack('f', struct.pack('f', x))[0] == x
    except (ValueError, OverflowError):
        return True
