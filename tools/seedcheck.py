#!/usr/bin/env python3
"""developer tool: confirm planted bugs (apply to /repo, build, tests, demo, checks, undo).
usage: seedcheck.py [--checks-only] [--all-checks] ID..."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
args = sys.argv[1:]
co = '--checks-only' in args; ac = '--all-checks' in args
ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json')).get('passed', []))
man = [c['property'] if isinstance(c.get('property'), str) else c.get('id') for c in json.load(open(V + '/MANIFEST.json'))['checks']]
assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty repo'
for i in ids:
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    out = [i, prop]
    try:
        if not co:
            sh('bash /opt/vp/build.sh')
            r = sh('cd /repo && bash %s/demo.sh' % d, timeout=300)
            out.append('clean-demo=%d' % r.returncode)
            if r.returncode: print(r.stdout[-1500:])
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode:
            print(i, 'PATCH FAILS', r.stdout); continue
        if not co:
            r = sh('bash /opt/vp/test.sh /tmp/seed.json')
            p = set(json.load(open('/tmp/seed.json'))['passed'])
            out.append('tests:%s' % ('ok' if base <= p else 'FAIL %s' % sorted(base - p)[:4]))
            if not p: print(r.stdout[-1500:])
            r = sh('cd /repo && bash %s/demo.sh' % d, timeout=300)
            out.append('bug-demo=%d' % r.returncode)
        for c in (man if ac else [prop] if prop in man else []):
            r = sh('cd %s && python3 sa/run.py %s' % (V, c))
            if r.returncode or c == prop:
                out.append('%s=%s' % (c, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'exit%d' % r.returncode)))
                if r.returncode == 1: out.append(r.stdout.strip().split('\n')[0][:160])
                elif r.returncode > 1: out.append(r.stdout.strip()[-300:])
    finally:
        sh('git -C /repo checkout -- .')
    print(' | '.join(out), flush=True)
if not co: sh('bash /opt/vp/build.sh')
