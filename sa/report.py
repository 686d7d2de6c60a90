"""findings, evidence and exit codes shared by all checks"""
import json
import os
import time
from core import VERIF, Broken


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.viol = []        # (key, where, rule, message)
        self.notes = []
        self.cov = {}
        self.assume = []
        self.obl = 0
        self.dis = 0
        self.t0 = time.time()
        self.samples = []

    def ok(self, n=1, sample=None):
        self.obl += n
        self.dis += n
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, key, where, rule, msg):
        """key identifies the finding independently of line numbers"""
        self.obl += 1
        if not any(v[0] == key for v in self.viol):
            self.viol.append((key, where, rule, msg))

    def check(self, cond, key, where, rule, msg, sample=None):
        if cond:
            self.ok(1, sample)
        else:
            self.bad(key, where, rule, msg)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def need(self, n, what):
        """non-vacuity: fail as analysis-broken when instances vanished"""
        if self.obl < n:
            raise Broken('%s: only %d instances, expected at least %d' % (what, self.obl, n))


def known():
    """committed list of recorded findings: property -> set of keys"""
    p = os.path.join(VERIF, 'known-findings.json')
    out = {}
    if os.path.exists(p):
        for f in json.load(open(p)).get('findings', []):
            out.setdefault(f['property'], {})[f['key']] = f['what']
    return out


def finish(r, level, explanation, trusted):
    kn = known().get(r.prop, {})
    new = [v for v in r.viol if v[0] not in kn]
    old = [v for v in r.viol if v[0] in kn]
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (r.prop, kn[v[0]]))
    for x in r.notes:
        if x.startswith('not decided'):
            print('NOTE (%s) %s' % (r.prop, x))
    replay = None
    if new:
        d = os.path.join(VERIF, 'evidence', 'violations')
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, r.prop + '.txt')
        with open(replay, 'w') as f:
            for k, where, rule, msg in new:
                f.write('%s: %s\n  rule: %s\n  instance: %s\n' % (where, msg, rule, k))
        for k, where, rule, msg in new[:20]:
            print('%s: %s [rule: %s]' % (where, msg, rule))
    cov = dict(r.cov)
    cov.update(explanation=explanation, obligations=r.obl, discharged=r.dis,
               samples=r.samples)
    if level == 'proof':
        cov.setdefault('checker_cmd', 'python3 sa/run.py %s' % r.prop)
        cov['trusted_base'] = trusted
    if r.notes:
        cov['notes'] = r.notes[:60]
    ev = dict(property=r.prop, tier=r.tier, seed=r.seed, level=level,
              coverage=cov, assumptions=trusted + r.assume,
              wall_s=round(time.time() - r.t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', r.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d violation(s), %d known, %.1f s'
          % (r.prop, r.obl, r.dis, len(new), len(old), time.time() - r.t0))
    if new:
        print('VIOLATION property=%s replay=%s' % (r.prop, replay))
        return 1
    return 0
