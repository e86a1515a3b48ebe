"""Verdicts, evidence files and exit codes."""
import json
import os
import sys
import time
import traceback
from . import proj
from .frontend import AnalysisBroken
from .poly import TooBig
from .flow import Give

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HOME, 'evidence'))


class Check:
    """accumulates the obligations of one property"""

    last = None

    def __init__(self, pid, rule):
        Check.last = self
        self.pid = pid
        self.rule = rule
        self.obligations = 0
        self.discharged = 0
        self.violations = []       # (rule, where, instance, message)
        self.undecided = []
        self.units = {}            # what was analysed
        self.samples = []
        self.minimum = {}
        self.assumptions = []
        self.t0 = time.time()

    def count(self, name, n=1):
        self.units[name] = self.units.get(name, 0) + n

    def ok(self, n=1, sample=None):
        self.obligations += n
        self.discharged += n
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, rule, where, inst, msg):
        self.obligations += 1
        for v in self.violations:
            if v[0] == rule and v[2] == inst and (v[3] == msg or v[1] == where):
                return
        self.violations.append((rule, where, inst, msg))

    def und(self, msg):
        self.obligations += 1
        if msg not in self.undecided:
            self.undecided.append(msg)

    def need(self, name, n):
        """the analysed unit count confirmed by hand"""
        self.minimum[name] = n

    def take(self, mx):
        for p in mx.problems:
            self.bad(p.rule, p.where, p.inst, p.msg)
        for u in mx.undecided:
            self.und(u)


def known():
    """(property, rule, instance) -> text of recorded findings"""
    out = {}
    p = os.path.join(HOME, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('known: '):
                continue
            head, _, text = line[7:].partition(' :: ')
            d = dict(x.split('=', 1) for x in head.split(' ') if '=' in x)
            out[(d['property'], d['rule'], d['inst'])] = text
    return out


def finish(ck, tier, seed, level='other'):
    kn = known()
    short = [n for n, k in ck.minimum.items() if ck.units.get(n, 0) < k]
    new, old = [], []
    for v in ck.violations:
        k = (ck.pid, v[0], v[2].replace(' ', '_'))
        (old if k in kn else new).append((v, kn.get(k)))
    os.makedirs(EVID, exist_ok=True)
    cov = {
        'explanation': ck.rule,
        'units_analysed': ck.units,
        'obligations': ck.obligations,
        'discharged': ck.discharged,
        'undecided': ck.undecided[:60],
        'undecided_count': len(ck.undecided),
        'samples': ck.samples,
        'known_findings': [v[3] for v, _ in old],
        'reports': ['%s: [%s] %s' % (v[1], v[0], v[3]) for v, _ in new],
    }
    ev = dict(property=ck.pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=ck.assumptions, wall_s=round(time.time() - ck.t0, 3),
              violations=len(new))
    with open(os.path.join(EVID, ck.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d known, %d new violations (%.1fs)' %
          (ck.pid, ck.obligations, ck.discharged, len(ck.undecided), len(old), len(new),
           time.time() - ck.t0))
    for k, n in sorted(ck.units.items()):
        print('  analysed %s: %d' % (k, n))
    for u in ck.undecided[:20]:
        print('  UNDECIDED %s' % u)
    seen = set()
    for v, text in old:
        if text not in seen:
            seen.add(text)
            print('KNOWN-FINDING: property=%s %s' % (ck.pid, text))
    if new:
        rp = os.path.join(EVID, ck.pid + '.report.txt')
        with open(rp, 'w') as f:
            f.write('property %s\nrepository %s\n' % (ck.pid, proj.REPO))
            for v, _ in new:
                f.write('%s: [%s] (%s) %s\n' % (v[1], v[0], v[2], v[3]))
        for v, _ in new[:40]:
            print('  %s: [%s] %s   {inst=%s}' % (v[1], v[0], v[3], v[2].replace(' ', '_')))
        print('VIOLATION property=%s replay=%s' % (ck.pid, rp))
        return 1
    if short:
        print('ANALYSIS-BROKEN: fewer units than confirmed by hand: ' + ', '.join(
            '%s %d < %d' % (n, ck.units.get(n, 0), ck.minimum[n]) for n in short))
        return 2
    return 0


def partial(tier, seed):
    """violations found before the analysis broke down are still reported"""
    ck = Check.last
    if ck is None or not ck.violations:
        return 2
    return max(finish(ck, tier, seed), 1) if any((ck.pid, v[0], v[2].replace(' ', '_')) not in known()
                                                  for v in ck.violations) else 2


def also(ck):
    from .checks import precision
    precision.apply(ck)
    precision.locals_set(ck)


def main(argv, registry):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pids = [a for a in argv if not a.startswith('-')]
    if '--thorough' in argv:
        tier = 'thorough'
    rc = 0
    if '--selftest' in argv:
        n = 0
        for p in proj.sources(('.py', '.pyx')):
            if os.sep + 'dev' + os.sep not in p:
                proj.FE.load(p)
                n += 1
        print('front end parsed %d source files of %s' % (n, proj.REPO))
        return 0
    for pid in pids:
        fn = registry.get(pid)
        if fn is None:
            print('no check for', pid)
            return 2
        Check.last = None
        try:
            ck = fn(tier)
            also(ck)
            r = finish(ck, tier, seed)
        except (TooBig, Give) as e:
            # a construct beyond the bounds of the analysis: what was decided before it counts
            ck = Check.last
            if ck is None:
                raise
            ck.und('not analysed completely: %s' % (e,))
            also(ck)
            ck.minimum = {}
            r = finish(ck, tier, seed)
        except AnalysisBroken as e:
            r = partial(tier, seed)
            print('ANALYSIS-BROKEN %s: %s' % (pid, e))
        except Exception:
            traceback.print_exc()
            r = partial(tier, seed)
            print('ANALYSIS-BROKEN %s: internal error' % pid)
        rc = max(rc, r) if r != 1 or rc == 0 else rc
    return rc
