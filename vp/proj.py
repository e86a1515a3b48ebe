"""Where the analysed program is and how module names resolve in it."""
import os
import glob
import hashlib
from . import frontend as FE

REPO = os.environ.get('VERIF_REPO', '/repo')


def path(rel):
    return os.path.join(REPO, rel)


class Resolver:
    def __call__(self, dotted):
        if not isinstance(dotted, str) or not dotted.startswith('panels'):
            return None
        p = find(dotted)
        return FE.load(p) if p else None

    def absolute(self, mod, dotted):
        k = len(dotted) - len(dotted.lstrip('.'))
        rest = dotted[k:]
        rel = os.path.relpath(mod.path, REPO)
        parts = rel.split(os.sep)
        parts = parts[:-1]
        if k > 1:
            parts = parts[:len(parts) - (k - 1)]
        return '.'.join(parts + ([rest] if rest else []))


def find(dotted):
    base = os.path.join(REPO, *dotted.split('.'))
    for c in (base + '.py', base + '.pyx', os.path.join(base, '__init__.py')):
        if os.path.isfile(c):
            return c
    return None


RESOLVE = Resolver()


def mod(rel):
    p = path(rel)
    if not os.path.isfile(p):
        raise FE.AnalysisBroken('anchor file missing: %s' % rel)
    return FE.load(p)


def func(rel, name):
    m = mod(rel)
    if name not in m.funcs:
        raise FE.AnalysisBroken('anchor function missing: %s in %s' % (name, rel))
    return m.funcs[name]


def relpath(p):
    return os.path.relpath(p, REPO) if p and os.path.isabs(p) else p


def sources(exts=('.py', '.pyx')):
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'panels')):
        dirs[:] = [d for d in dirs if d != '__pycache__']
        for f in files:
            if f.endswith(exts):
                out.append(os.path.join(root, f))
    return sorted(out)
